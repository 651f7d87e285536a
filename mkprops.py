# Generates properties.jsonl (kept as the readable source of the property list).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    assert len([x for x in statement.split('. ') if x])<=3,id
    P.append(d)
N="neco.c"
p("C01","Channel messages arrive exactly once and unaltered",
  "Every message whose send reported success is handed, byte for byte, to exactly one receive (or stays in the channel until it is received or the channel is freed), and a message whose send reported failure is never received. A receive that reports success always carries a message that some coroutine really sent on that channel, and a broadcast gives its message to exactly the receivers that were waiting, whose number it returns. This holds whatever deadlines expire or cancels arrive while senders and receivers are waiting.",
  ["schedules","histories","fault_sequences","configurations"],
  "All interleavings of any number of senders, receivers, broadcasts, deadlines, cancels and closes on channels of any capacity and message size.",
  "The tests drive a few fixed sender/receiver orders with one or two messages; they never let a deadline or a cancel land between hand-off and resumption and check no message accounting.",
  [N],[("direct hand-off and ring buffer","chan_send0, chan_tryrecv0, cbuf_push, cbuf_pop"),("hand-off versus deadline/cancel","copause, checkdl"),("broadcast","chan_send0(broadcast)")],["neco_chan_send/recv/tryrecv/broadcast results and data"])
p("C02","Channels are FIFO and never exceed their capacity",
  "Messages leave a channel in the order their sends were issued, and waiting receivers are served in the order they began to wait. A send completes without a receiver only while fewer messages than the capacity are buffered, so a sender on a full or unbuffered channel waits until a receiver takes its message or frees room. No sender stays blocked while there is room or a waiting receiver, no receiver stays blocked while a message is available, and a non-blocking receive reports empty only when nothing is available.",
  ["schedules","histories","configurations"],
  "All interleavings, capacities from zero up, and histories that mix blocking, non-blocking and expiring operations.",
  "Tests check order for single producer/consumer sequences only; wrap-around, several waiters on both sides and expiring waiters are not combined.",
  [N],[("waiter queue per channel","struct neco_chan.queue, qrecv"),("ring indices","cbuf_push, cbuf_pop")])
p("C03","Closing a channel drains then ends it for every receiver",
  "After a close, later sends are refused as closed while messages already accepted or already waiting to be sent remain receivable, in order. Once those are gone (received, timed out or cancelled) every current and future receive and select on the channel reports closed, and no receiver waits forever on a closed channel. A second close reports closed and changes nothing.",
  ["schedules","histories","fault_sequences"],
  "Every moment at which a close can fall relative to pending sends, buffered messages, waiting receivers/selects, deadlines and cancels.",
  "Tests close with either a buffer or a receiver present in one order; they never let the last waiting sender time out or be cancelled after the close.",
  [N],[("two-phase close","chan_close, sclosed/rclosed"),("drain bookkeeping","chan_tryrecv0, chan_send0")])
p("C04","Select takes exactly one message from exactly one ready channel",
  "A select over several channels returns the index of a channel that had a message or was closed, consumes exactly one message, from that channel only, and the following case operation by the same coroutine yields that message (or closed). Its other channels keep all their messages, and messages are never lost or duplicated when several coroutines select on the same channels or when senders, closes, deadlines or cancels race with the select. A non-blocking select never waits and reports empty only when no channel is ready.",
  ["schedules","histories","inputs","fault_sequences"],
  "Any number of channels and selectors, any interleaving of sends, closes, deadlines and cancels.",
  "Tests run one selector at a time with messages consumed immediately.",
  [N],[("select cases queued as pseudo-coroutines","chan_selectv_dl, chan_select, struct coselectcase"),("per-channel case slot","chan_case")])
p("C05","Generators yield their sequence to the consumer and then end",
  "The values returned by next are exactly the values the generator yielded, in order, each once, and after the generator finishes (or is cancelled or closed) every next reports closed. Closing a generator makes the generator's further yields fail as closed rather than block forever. Generator memory stays valid until the last release by consumer and generator, in any order.",
  ["schedules","histories","fault_sequences"],
  "Any number of generators and consumers, any point of close/release/cancel/deadline.",
  "Tests run a generator to completion or close it at one place.",
  [N],[("generator is a channel owned by its coroutine","gen_start_chk, start, coexit, neco_gen_*")])
p("C06","Mutexes exclude, never get lost, and queue fairly",
  "While a coroutine holds a mutex for writing no other holds it at all, and readers share it only with readers. Every unlock passes the mutex to the longest waiting request (a run of readers together), a lock request that reported failure never holds the mutex, and a free mutex never keeps a coroutine waiting, whatever deadlines and cancels hit waiters. The try variants never block and succeed whenever the mutex is free.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of lock, rdlock, try, unlock, deadlines and cancels over any number of coroutines.",
  "Tests use a handful of coroutines and never race a deadline or cancel with the grant.",
  [N],[("FIFO wait queue and hand-over at unlock","mutex_fastunlock, finish_lock, mutex_trylock, mutex_tryrdlock")])
p("C07","Condition variables lose no wakeup and re-hold the mutex",
  "Waiting releases the mutex and starts waiting as one step, so a signal or broadcast issued after the mutex could be taken by another coroutine always finds the waiter. A signal wakes exactly one waiter (the longest waiting), a broadcast wakes all waiters present, and a wakeup given to a waiter is not lost to a deadline or cancel. Whenever a wait returns, by wakeup, deadline or cancel, its caller holds the mutex.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of wait, signal, broadcast, lock contention, deadlines and cancels.",
  "Tests have at most a few waiters, uncontended mutexes and no cancel during re-locking.",
  [N],[("cond wait queue","cond_wait_dl, cond_signal, cond_broadcast"),("relock","mutex_fastlock")])
p("C08","Waitgroup waiters are released exactly when the count hits zero",
  "A wait returns success only if the count was zero at some moment during the wait, and when the count reaches zero every waiter present is released. The count never goes negative: an operation that would make it so is refused and changes nothing.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of add, done, wait, deadlines and cancels.",
  "Tests use one waiter shape and no racing deadline.",
  [N],[("wait queue released at zero","waitgroup_add, waitgroup_done, waitgroup_wait_dl")])
p("C09","Deadlines and sleeps fire on time, never early, never forgotten",
  "A sleep never returns success before its time and an operation never reports a timeout before its deadline. Once a deadline has passed, the sleeping or blocked coroutine is made to run within a bounded number of scheduler rounds, whatever other coroutines are yielding, sleeping or doing I/O, and a deadline that already lies in the past makes a blocking operation report the timeout without waiting. A coroutine waiting without a deadline never times out.",
  ["schedules","histories","configurations"],
  "Any set of concurrent deadlines (including equal, past, extreme and far-future ones), clock advances and stalls.",
  "Tests use a few real sleeps with tolerances; ordering structures with many equal or cancelled deadlines, clock stalls and busy yielders are not sampled.",
  [N,"deps/aat.h"],[("deadline tree","dlqueue, copause, rt_sched_paused_step"),("timeout computation","rt_sched_paused_step, i64_add_clamp")])
p("C10","A cancel reaches its target once, and only its target",
  "A cancel that reports success makes the target's current waiting operation, or else its next cancellable one, report cancelled exactly once (or terminates the target when it uses the asynchronous type); an operation that had already completed still reports its success (a write that already moved bytes its count) and the cancel stays pending, and no other coroutine, in particular one started later, ever sees it. An operation reports cancelled only if such a cancel was issued and not yet consumed, and a waiting operation hit by both a cancel and its deadline reports cancelled. While the target has cancellation disabled no cancel takes effect and the canceller waits until the target re-enables it or ends; cancelling an unknown or finished coroutine reports not found.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of cancels with every blocking operation, state/type changes, deadlines and coroutine exit.",
  "Tests cancel a coroutine blocked in one operation at a time; reuse of coroutine slots, double cancels and races with completion are not covered.",
  [N],[("cancel flag and cancel wait list","cancel_dl, checkdl, coyield, setcancelstate"),("coroutine reuse","start, cleanup")])
p("C11","Cleanup handlers run exactly once, in reverse order, to completion",
  "When a coroutine is terminated by an asynchronous cancel or by an explicit exit, every cleanup handler it has pushed and not popped runs exactly once, last pushed first, and to its end, even when handlers block or yield or further cancels arrive. Handlers popped earlier do not run again, handlers run on the terminated coroutine itself before its joiners continue, and no statement of the coroutine after the terminating operation executes.",
  ["schedules","crash_points","histories"],
  "Termination at every blocking or yielding point, with any stack of handlers.",
  "Tests terminate at one or two points with non-blocking handlers.",
  [N],[("cleanup stack","cleanup_push, cleanup_pop, coexit, async_error_guard")])
p("C12","Coroutines start once, keep their identity and can be joined",
  "Every successful start runs its function exactly once with exactly the given arguments under an id that is never reused, and the last-started and starter ids refer to the real coroutines. A join succeeds only after the target has finished and always returns once it has; a suspended coroutine continues only through resume, its deadline or a cancel, and resume reports correctly whether the target was suspended. The first start on a thread returns only after every coroutine of that runtime has finished, and a failed start runs nothing.",
  ["schedules","programs","histories","fault_sequences"],
  "Any tree of starts, exits, joins, suspends and resumes, including allocation failures and reuse of pooled coroutines.",
  "Tests start small fixed sets of coroutines.",
  [N,"deps/sco.c"],[("coroutine map and ids","start, coentry, coexit, comap_*, sco_start"),("join list","join_dl, coexit"),("suspend flag","suspend_dl, resume")])
p("C13","Every runnable coroutine keeps making progress",
  "A coroutine that yields, or whose wait has been satisfied, runs again within a bounded number of scheduling rounds however many other coroutines keep yielding, sleeping, messaging or doing I/O. Ready file descriptors, due deadlines, finished background work and pending signals are noticed within a bounded number of rounds even when there are always runnable coroutines. The scheduler sleeps only when nothing is runnable, wakes at the next deadline or event, and does sleep (rather than poll) while every coroutine is blocked in a plain wait and nothing is due.",
  ["schedules","configurations","fault_sequences"],
  "Any mix of busy yielders, sleepers, I/O waiters, workers and signals, within a bounded number of rounds.",
  "No test measures how long a runnable coroutine waits.",
  [N,"deps/sco.c"],[("runner/yielder queues","sco_yield, sco_switch, sco_resume"),("scheduler round","rt_scheduler, rt_sched_paused_step, rt_sched_event_step")])
p("C14","A coroutine waiting on a descriptor is woken when it is ready",
  "Whenever a descriptor becomes readable, writable, hung up or errored in the direction some coroutines are waiting on, all of them are woken, also when other coroutines wait on the same descriptor for the other direction, when many descriptors become ready at once, or when waits are interrupted. A wait reports success only if the descriptor was ready during the wait, and failing to set up the event queue is reported or retried, never turned into a hang.",
  ["schedules","histories","fault_sequences"],
  "Any set of descriptors, waiters, readiness orders, interrupted system calls and event-queue failures.",
  "Tests wait on one or two descriptors in one direction.",
  [N],[("event queue registration","wait_dl, wait_dl_addevent, evexists"),("event dispatch","rt_sched_event_step, evmap_*")])
p("C15","Reads and writes move every byte once, in order",
  "The bytes delivered to a descriptor are exactly the bytes reported written, in order, without loss, duplication or damage, and a write that returns less than asked has transferred exactly the reported prefix. A write returns short or fails only because of a real error, deadline or cancel, never because of an interrupted, short or would-block system call or a background write. A read returns exactly the next bytes of the peer, zero only at end of stream, and a read that fails consumes nothing.",
  ["schedules","fault_sequences","inputs"],
  "Any sequence of short, interrupted, failing and would-block system calls, peer pauses, deadlines, cancels and background-write timings.",
  "Tests inject a single failing call at a time with small payloads.",
  [N],[("write loop","write_dl, write3, iowrite"),("read loop","read_dl, cowait")])
p("C16","Buffered streams preserve the byte stream",
  "A stream behaves as the plain byte stream of its descriptor: bytes read (including single-byte reads, unread bytes and full reads) are the peer's bytes in order, and bytes written reach the peer in order, each once, after a successful flush or close, also across short, failed, timed-out or cancelled flushes that are retried. The buffered sizes reported equal the bytes actually held, end of stream is reported only after all bytes were consumed, and closing flushes and releases the descriptor and the stream.",
  ["histories","fault_sequences","inputs","schedules"],
  "Any sequence of stream calls, sizes, descriptor faults, deadlines and cancels.",
  "Tests use fixed payloads with at most one injected failure and never compare the whole byte stream after a retried flush.",
  [N],[("read and write buffers","stream_read_dl, stream_write_dl, stream_flush_dl, stream_unread_byte, neco_stream_read_byte_dl, stream_close_dl")])
p("C17","Dial, serve, accept and connect reach the right peer and leak nothing",
  "Serve returns a listening non-blocking socket at the address asked for; accept returns each pending connection once; dial and connect report success only for an established connection, trying the remaining addresses when one fails, and otherwise report the real failure, deadline or cancel. On every failure, deadline or cancel path (asynchronous ones included) all descriptors, socket files and lookup results the call created are released, and connected and accepted sockets are non-blocking.",
  ["schedules","fault_sequences","inputs"],
  "Any sequence of refused, slow, reset or interrupted connections, failing system calls, deadlines and cancels at any point.",
  "Tests fail one call at a time on loopback and do not count descriptors.",
  [N],[("connect loop","connect_dl, dial_connect_dl, dial_tcp_dl, dial_unix_dl"),("listen/accept","listen_tcp_dl, listen_unix_dl, accept_dl"),("pipe","_pipe_")])
p("C18","Signals are delivered to watchers once each and never lost",
  "Each arrival of a watched signal makes exactly one waiting watcher's wait return that signal number, and signals that arrive while no watcher waits are kept and delivered to the next waits, whatever other signals are pending. A coroutine receives only signals it watches, a deadline or cancel of a wait loses no signal, and stopping to watch (or ending) withdraws exactly that coroutine's interest. A signal is acted upon within one scheduler sleep; a terminating signal nobody watches (or whose last watcher goes before taking it) ends the process with status 128 plus its number, and the previous handlers are restored when the runtime ends.",
  ["schedules","histories","fault_sequences"],
  "Any arrival times and orders of signals relative to watch, wait, unwatch, exit, deadlines and cancels.",
  "Tests raise one signal at a time at a quiet moment.",
  [N],[("handler queue","sighandler, sigallowhandler"),("dispatch","rt_sched_signal_step, signal_wait_dl, signal_watch, signal_unwatch"),("install/restore","rt_handle_signals, rt_restore_signal_handlers")])
p("C19","Background work runs exactly once and completes before its caller",
  "A work function handed to the background runs exactly once, entirely before the call returns, and its effects are visible to the caller; work pinned to the same thread runs one at a time in submission order. This holds when rings are full, threads are created, idle out or cannot be created, and when the waiting coroutine is cancelled, and other coroutines keep running meanwhile.",
  ["schedules","fault_sequences","configurations"],
  "All interleavings of the worker threads and the scheduler thread, thread-creation failures, spurious wakeups and idle timeouts.",
  "Tests cannot choose thread interleavings and never fail thread creation.",
  [N,"deps/worker.c"],[("worker ring and threads","worker_submit, worker_entry, worker_free"),("completion list","iowork, workfn, rt_sched_paused_step")])
p("C20","Nothing leaks, and running out of memory is survivable",
  "When the runtime ends, every block, stack, descriptor and thread it created has been released, and no block is used after release or outside its bounds. When an allocation or stack mapping fails, the call reports out of memory, has no other effect, leaks nothing, and the runtime keeps working.",
  ["fault_sequences","histories","configurations"],
  "Every position at which an allocation, mapping or system call can fail, over arbitrary programs.",
  "Tests fail selected allocations in isolated calls.",
  [N,"deps/stack.c"],[("allocator seam","neco_malloc, neco_env_setallocator"),("stack manager","stack_get, stack_put, stack_mgr_destroy"),("pools","rt_rc_step, zchanpush, rt_freezchanpool")])
p("C21","Runtime statistics always equal the actual state",
  "At every moment the statistics report exactly the number of live coroutines and of coroutines blocked sleeping, on descriptors, signals, channel sends, channel receives, mutexes, waitgroups, condition variables and suspension. After all activity has ended the counters return to zero apart from the caller itself.",
  ["histories","schedules"],
  "Any history of operations, deadlines, cancels and exits.",
  "Tests look at the counters after simple setups only.",
  [N],[("counters around every pause","getstats, nsleepers, nsenders, nreceivers, nlocked, ...")])
p("C22","Runtimes on different threads are isolated from each other",
  "Runtimes running at the same time on several threads behave as if each were alone: ids are unique across them, and no operation on one changes the other. Using a channel, mutex, waitgroup, condition variable or stream of another runtime, or any coroutine operation outside a runtime, is refused with a permission error and has no effect.",
  ["schedules","programs"],
  "All interleavings of several runtimes on several threads.",
  "Tests use a second thread for a few permission checks only.",
  [N,"deps/sco.c"],[("thread-local runtime and runtime id check","rt, rtid"),("atomic id source","sco_next_id, next_runtime_id")])
p("C23","Coroutine stacks and local state survive every switch",
  "Local variables, callee-saved registers and arguments of a coroutine are unchanged across every yield, pause and resume, and no two live coroutines ever share stack memory, however stacks are grown, pooled, recycled or released. Each coroutine has the configured stack size at its disposal.",
  ["schedules","programs","configurations"],
  "Any order of starts, switches, exits and stack reuse, in every stack configuration.",
  "Tests check switching in a few fixed patterns.",
  ["deps/sco.c","deps/stack.c",N],[("context switch","llco_switch, llco_start"),("stack groups and free list","stack_get, stack_put, stack_group_new")])
p("C24","Name lookups neither block others nor leak when abandoned",
  "A host name lookup returns the resolver's result or error to its caller, and other coroutines keep running while it is pending. When its deadline passes or it is cancelled (also asynchronously) it reports that promptly, the lookup finishes in the background, and its memory, descriptors and thread are released exactly once, in every order of completion and abandonment.",
  ["schedules","fault_sequences"],
  "All interleavings of the lookup thread with the scheduler, resolver delays and failures, deadlines, cancels, and failures of pipe, thread or memory creation.",
  "Tests cannot control the lookup thread and use real timing.",
  [N],[("lookup thread and pipe","getaddrinfo_dl, getaddrinfo_th, gai_args_free")])
p("C25","Errors are reported truthfully",
  "The last-error value read right after a call matches that call's own result: zero after success, the returned code for a failure, and for system failures the translation of the system error that caused it, whatever other coroutines did in between. A call reports an operation-specific failure (permission, invalid, not found, busy, empty, closed, timed out, cancelled) only when that condition really held.",
  ["schedules","fault_sequences"],
  "Any interleaving of failing and succeeding calls in different coroutines with injected system-call failures.",
  "Tests check error codes for calls made in isolation.",
  [N],[("error guard","error_guard, async_error_guard, errhpnd, neco_errconv_from_sys")])
p("C26","The seeded generator is reproducible whatever else runs",
  "The non-cryptographic random generator of a runtime is one sequence determined by its seed: after setting a seed, the same requests return the same bytes on every run, on any thread, however the requests of several coroutines interleave, and whatever deadlines, cancels or other runtimes do. No part of the sequence is handed out twice, setting a seed returns the previous state so that it can be restored, a request fills exactly the bytes asked for, and a request that is refused (bad arguments, expired deadline, pending cancel) reports so.",
  ["schedules","histories","inputs"],"All seeds, lengths, interleavings of requests by coroutines and by runtimes on different threads, deadlines and cancels.",
  "Tests sample a few seeds from a single coroutine.",[N],[("pcg generator","pcgrandom_buf, rand_setseed"),("chunked request loop","rand_dl")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
