// Deterministic simulator: choices, virtual clock, threads, descriptors,
// sockets, epoll, resolver, signals and memory.  See sim.h.
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <memory>
#include <set>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <poll.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
#include <dlfcn.h>

Sim S;
ShmResult *R;
const char *fault_names[NFAULTS] = {
#define X(n) #n,
    FAULT_LIST(X)
#undef X
};
void (*hook_idle)(int64_t) = nullptr;
void (*hook_round)() = nullptr;
void (*hook_spin)(bool fresh) = nullptr;
void (*hook_exit)(int) = nullptr;
void (*hook_kwrite)(int, const void *, size_t) = nullptr;
std::vector<std::pair<int, int>> gai_inj; // failures the resolver reported

void (*hook_kread)(int, const void *, size_t, size_t) = nullptr;
uint64_t ev_report[8192][2];

// ------------------------------------------------------------------ choices
static Prng prng[NSTREAMS];
static bool ch_replay = false;
static std::vector<uint32_t> ch_rec[NSTREAMS];
static size_t ch_pos[NSTREAMS];

void ch_init(uint64_t seed, bool replay, const std::vector<uint32_t> *recs) {
    ch_replay = replay;
    for (int i = 0; i < NSTREAMS; i++) {
        prng[i] = Prng(seed * 31 + 7 + (uint64_t)i * 1000003);
        ch_pos[i] = 0;
        ch_rec[i].clear();
        if (replay) ch_rec[i] = recs[i];
        R->nrec[i] = 0;
    }
}
static inline uint32_t rec_put(Stream st, uint32_t v) {
    if (R->nrec[st] < MAXREC) R->rec[st][R->nrec[st]++] = v;
    return v;
}
static inline bool rec_full(Stream st) { return R->nrec[st] >= MAXREC; }
uint32_t ch_draw(Stream st, uint32_t n) {
    if (n <= 1 || rec_full(st)) return 0;
    uint32_t v;
    if (ch_replay) {
        v = ch_pos[st] < ch_rec[st].size() ? ch_rec[st][ch_pos[st]] : 0;
        ch_pos[st]++;
        if (v >= n) v %= n;
    } else {
        v = prng[st].below(n);
    }
    return rec_put(st, v);
}
bool ch_chance(Stream st, uint32_t num, uint32_t den) {
    if (num == 0 || rec_full(st)) return false;
    uint32_t v;
    if (ch_replay) {
        v = ch_pos[st] < ch_rec[st].size() ? ch_rec[st][ch_pos[st]] : 0;
        ch_pos[st]++;
        v = v ? 1 : 0;
    } else {
        v = prng[st].below(den) < num ? 1 : 0;
    }
    return rec_put(st, v) != 0;
}
bool ch_fault(Fault f) {
    if (!S.faults_on || S.fprob[f] == 0) return false;
    bool b = ch_chance(ST_FAULT, S.fprob[f], 4096);
    if (b) {
        R->faults[f]++;
        hash_mix(0xFA17 + f);
    }
    return b;
}

// ------------------------------------------------------------------ results
void hash_mix(uint64_t v) {
    S.hash ^= v + 0x9E3779B97F4A7C15ull + (S.hash << 6) + (S.hash >> 2);
    S.hash *= 0x100000001b3ull;
}
static int cur_thr = 0;
void tracef(const char *fmt, ...) {
    if (!S.trace_on || R->ntrace > sizeof(R->trace) - 600) return;
    int n = snprintf(R->trace + R->ntrace, 80, "[%6llu %12.6fms T%d] ", (unsigned long long)S.seq,
                     (double)S.now / 1e6, cur_thr);
    R->ntrace += n;
    va_list ap;
    va_start(ap, fmt);
    n = vsnprintf(R->trace + R->ntrace, 500, fmt, ap);
    va_end(ap);
    R->ntrace += n > 499 ? 499 : n;
    R->trace[R->ntrace++] = '\n';
}
void violation(const char *props, const char *key, const char *fmt, ...) {
    char msg[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    tracef("!!! VIOLATION [%s] %s: %s", props, key, msg);
    for (int i = 0; i < R->nviol; i++)
        if (!strcmp(R->viol[i].key, key) && !strcmp(R->viol[i].prop, props)) return;
    if (R->nviol < 8) {
        auto &v = R->viol[R->nviol];
        snprintf(v.prop, sizeof v.prop, "%s", props);
        snprintf(v.key, sizeof v.key, "%s", key);
        snprintf(v.msg, sizeof v.msg, "%s", msg);
        v.seq = S.seq;
        R->nviol++;
    }
    hash_mix(0xBAD);
    if (R->nviol >= 8) sim_end_run();
}
static void finish_result() {
    R->hash = S.hash;
    R->ihash = S.ihash;
    R->simtime = S.now;
    R->steps = S.steps;
}
void sim_end_run() {
    finish_result();
    R->done = 1;
    _exit(0);
}
void probe(int i) { R->probes[i]++; }

// ------------------------------------------------------------------ events
struct Ev {
    int64_t t;
    uint64_t seq;
    std::function<void()> fn;
};
struct EvCmp {
    bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t < b->t : a->seq < b->seq; }
};
static std::set<Ev *, EvCmp> *evq;
static uint64_t evseq;
int64_t sim_now() { return S.now; }
void sim_at(int64_t t, std::function<void()> fn) {
    Ev *e = new Ev{t < S.now ? S.now : t, evseq++, std::move(fn)};
    evq->insert(e);
}
static bool in_events = false;
void sim_process_due() {
    if (in_events) return;
    in_events = true;
    while (!evq->empty() && (*evq->begin())->t <= S.now) {
        Ev *e = *evq->begin();
        evq->erase(evq->begin());
        R->events++;
        e->fn();
        delete e;
    }
    in_events = false;
}
void sim_advance(int64_t to) {
    if (to > S.now) S.now = to;
    sim_process_due();
}

// ------------------------------------------------------------------ threads
struct Thr {
    int id;
    pthread_t th;
    sem_t sem;
    bool live = true, finished = false, detached = false;
    thr_fn fn = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    bool blocked = false;
    std::function<bool()> pred;
    int64_t wake = INT64_MAX;
    int64_t hold = 0;   // the system does not run this thread before then
    bool sysrt = false; // thread created by the code under test
    uint64_t sigblocked = 0;
};
static std::vector<Thr *> *thrs;
static uint32_t noswitch = 0;
int thr_self() { return cur_thr; }
bool thr_is_main() { return cur_thr == 0; }
int thr_live() {
    int n = 0;
    for (auto t : *thrs)
        if (t->id != 0 && t->live) n++;
    return n;
}
bool thr_held() {
    for (auto t : *thrs)
        if (t->live && t->hold > S.now) return true;
    return false;
}
bool thr_done(int id) { return (*thrs)[id]->finished; }

static void switch_to(int id) {
    if (id == cur_thr) return;
    Thr *me = (*thrs)[cur_thr];
    R->switches++;
    hash_mix(0x5317 + id);
    S.ihash = (S.ihash ^ (0x5317 + id)) * 0x100000001b3ull;
    cur_thr = id;
    noswitch = 0;
    int e = errno;
    sem_post(&(*thrs)[id]->sem);
    while (sem_wait(&me->sem) != 0) {}
    errno = e;
}
static bool sig_for(Thr *t);
static bool runnable(Thr *t) {
    if (!t->live || t->hold > S.now) return false;
    if (!t->blocked) return true;
    if (t->id != 0 && sig_for(t)) return true;
    if (t->wake <= S.now) return true;
    return t->pred && t->pred();
}
static void stepcount() {
    S.steps++;
    if (S.seq != S.prog_seq) { S.prog_seq = S.seq; S.prog_steps = S.steps; }
    if (S.steps - S.prog_steps > S.max_steps || S.steps > S.max_steps * 5) {
        violation("*", "hang:step-budget", S.steps - S.prog_steps > S.max_steps ? "nothing happens during %llu simulator steps" : "no termination within 5 times %llu simulator steps", (unsigned long long)S.max_steps);
        sim_end_run();
    }
}
static void deliver_signals();
static void deliver_signals_or_defer();
static void sig_retarget(int thr);
// The other threads that can run, beginning with the next one, so that the
// choice 0 is a round robin and starves nobody.
static int candidates(int *cand, int n) {
    size_t k = thrs->size();
    for (size_t i = 1; i < k && n < 64; i++) {
        Thr *t = (*thrs)[((size_t)cur_thr + i) % k];
        if (runnable(t)) cand[n++] = t->id;
    }
    return n;
}
// Possible thread switch.  `want`: the caller would like others to run.
static void point(bool want) {
    stepcount();
    sim_process_due();
    if (thrs->size() > 1) {
        int cand[64];
        int n = 0;
        n = candidates(cand, n);
        if (n > 0) {
            bool sw = want || ++noswitch > 48;
            if (!sw && S.fprob[F_THREAD_SWITCH]) sw = ch_chance(ST_SCHED, S.fprob[F_THREAD_SWITCH], 4096);
            if (sw) {
                R->faults[F_THREAD_SWITCH]++;
                int64_t t0 = S.now;
                static const int64_t hd[] = {50000, 300000, 2000000, 10000000};
                if (S.fprob[F_THREAD_HOLD] && ch_fault(F_THREAD_HOLD)) (*thrs)[cur_thr]->hold = S.now + hd[ch_draw(ST_TIME, 4)];
                switch_to(cand[ch_draw(ST_SCHED, n)]);
                if (S.now - t0 > 500000) { S.last_stall_at = S.now; S.stall_total += S.now - t0; } // this thread was held up
            }
        }
    }
    deliver_signals_or_defer();
}
void sim_point() { point(false); }
void sim_switch() { point(true); }

// Block the calling thread until pred() or the virtual time `wake`.
// Returns true when pred holds.
static bool block_until(std::function<bool()> pred, int64_t wake) {
    Thr *me = (*thrs)[cur_thr];
    me->blocked = true;
    me->pred = pred;
    me->wake = wake;
    bool ok;
    while (1) {
        stepcount();
        sim_process_due();
        int cand[65];
        int n = 0;
        bool self = runnable(me);
        if (self) cand[n++] = me->id;
        n = candidates(cand, n);
        if (n > 0) {
            int pick = cand[ch_draw(ST_SCHED, n)];
            if (pick != cur_thr) {
                switch_to(pick);
                continue;
            }
            if (me->id != 0 && sig_for(me)) { // a handler runs, the wait goes on
                deliver_signals();
                continue;
            }
            break;
        }
        // Nothing runnable: jump to the next event or wake time.
        int64_t t = INT64_MAX;
        if (!evq->empty()) t = (*evq->begin())->t;
        for (auto th : *thrs)
            if (th->live && th->hold > S.now) t = std::min(t, th->hold);
            else if (th->live && th->blocked && th->wake < t) t = th->wake;
        if (t == INT64_MAX) {
            violation("*", "hang:deadlock", "every thread is blocked and no event is pending");
            sim_end_run();
        }
        sim_advance(t);
    }
    ok = pred && pred();
    me->blocked = false;
    me->pred = nullptr;
    me->wake = INT64_MAX;
    return ok;
}

static void *thr_tramp(void *v) {
    Thr *t = (Thr *)v;
    while (sem_wait(&t->sem) != 0) {}
    t->ret = t->fn(t->arg);
    t->finished = true;
    t->live = false;
    sig_retarget(t->id);
    tracef("thread %d ends", t->id);
    // pass the baton on
    sim_process_due();
    while (1) {
        int cand[64];
        int n = 0;
        n = candidates(cand, n);
        if (n > 0) {
            int id = cand[ch_draw(ST_SCHED, n)];
            R->switches++;
            cur_thr = id;
            noswitch = 0;
            sem_post(&(*thrs)[id]->sem);
            return nullptr;
        }
        int64_t tm = INT64_MAX;
        if (!evq->empty()) tm = (*evq->begin())->t;
        for (auto o : *thrs)
            if (o->live && o->hold > S.now) tm = std::min(tm, o->hold);
            else if (o->live && o->blocked && o->wake < tm) tm = o->wake;
        if (tm == INT64_MAX) {
            violation("*", "hang:deadlock", "every thread is blocked and no event is pending");
            sim_end_run();
        }
        sim_advance(tm);
    }
}
int thr_spawn(thr_fn fn, void *arg) {
    Thr *t = new Thr;
    t->id = (int)thrs->size();
    t->fn = fn;
    t->arg = arg;
    t->sigblocked = (*thrs)[(size_t)cur_thr]->sigblocked; // inherited
    sem_init(&t->sem, 0, 0);
    thrs->push_back(t);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&t->th, &at, thr_tramp, t) != 0) {
        fprintf(stderr, "sim: real pthread_create failed\n");
        _exit(99);
    }
    tracef("thread %d created", t->id);
    return t->id;
}
void thr_join(int id) {
    Thr *t = (*thrs)[id];
    block_until([t] { return t->finished; }, INT64_MAX);
}

struct SimMutex { int owner = -1; };
static std::map<void *, SimMutex> *mutexes;

extern "C" int sim_pthread_create(pthread_t *th, const void *, void *(*fn)(void *), void *arg) {
    point(false);
    if (ch_fault(F_THREAD_FAIL)) {
        tracef("pthread_create fails EAGAIN");
        return EAGAIN;
    }
    int id = thr_spawn(fn, arg);
    (*thrs)[id]->sysrt = true;
    *th = (pthread_t)(uintptr_t)id;
    point(false);
    return 0;
}
extern "C" int sim_pthread_detach(pthread_t th) {
    size_t id = (size_t)th;
    if (id == 0 || id >= thrs->size()) {
        violation("C19 C20", "thread:bad-detach", "pthread_detach of a thread that does not exist");
        return ESRCH;
    }
    if ((*thrs)[id]->detached) violation("C19 C20", "thread:bad-detach", "pthread_detach of a thread that was joined or detached before");
    (*thrs)[id]->detached = true;
    return 0;
}
int thr_unreaped() {
    int n = 0;
    for (size_t i = 1; i < thrs->size(); i++) if ((*thrs)[i]->sysrt && !(*thrs)[i]->detached) n++;
    return n;
}
extern "C" int sim_pthread_join(pthread_t th, void **ret) {
    size_t id = (size_t)th;
    if (id == 0 || id >= thrs->size()) {
        violation("C19 C20", "thread:bad-join", "pthread_join of a thread that does not exist");
        return ESRCH;
    }
    if ((*thrs)[id]->detached) violation("C19 C20", "thread:bad-join", "pthread_join of a thread that was joined or detached before");
    thr_join((int)id);
    (*thrs)[id]->detached = true;
    if (ret) *ret = (*thrs)[id]->ret;
    return 0;
}
extern "C" pthread_t sim_pthread_self(void) { return (pthread_t)(uintptr_t)cur_thr; }
extern "C" int sim_pthread_mutex_init(void *m, const void *) {
    (*mutexes)[m] = SimMutex();
    return 0;
}
extern "C" int sim_pthread_mutex_destroy(void *m) {
    mutexes->erase(m);
    return 0;
}
static void race_acquire(void *);
static void race_release(void *);
extern "C" int sim_pthread_mutex_lock(void *m) {
    point(false);
    SimMutex *mu = &(*mutexes)[m];
    if (mu->owner == cur_thr) {
        violation("*", "mutex:relock", "a thread locks a mutex it already holds");
        sim_end_run();
    }
    if (mu->owner != -1) block_until([mu] { return mu->owner == -1; }, INT64_MAX);
    mu->owner = cur_thr;
    race_acquire(m);
    return 0;
}
extern "C" int sim_pthread_mutex_trylock(void *m) {
    point(false);
    SimMutex *mu = &(*mutexes)[m];
    if (mu->owner != -1) return EBUSY;
    mu->owner = cur_thr;
    race_acquire(m);
    return 0;
}
extern "C" int sim_pthread_mutex_unlock(void *m) {
    SimMutex *mu = &(*mutexes)[m];
    if (mu->owner != cur_thr) {
        violation("*", "mutex:bad-unlock", "a thread unlocks a mutex it does not hold");
    }
    race_release(m);
    mu->owner = -1;
    point(false);
    return 0;
}
struct SimCond {
    std::deque<std::pair<int, bool *>> waiters;
};
static std::map<void *, SimCond> *conds;
extern "C" int sim_pthread_cond_init(void *c, const void *) {
    (*conds)[c] = SimCond();
    return 0;
}
extern "C" int sim_pthread_cond_destroy(void *c) {
    conds->erase(c);
    return 0;
}
static int cond_wait_until(void *c, void *m, int64_t wake) {
    SimMutex *mu = &(*mutexes)[m];
    SimCond *cv = &(*conds)[c];
    bool woken = false;
    cv->waiters.push_back({cur_thr, &woken});
    race_release(m);
    mu->owner = -1;
    bool spur = ch_fault(F_SPUR_WAKE);
    if (spur) {
        point(false);
    } else {
        block_until([&woken] { return woken; }, wake);
    }
    // A waiter whose time is up has left the queue before it has the mutex back: a signal sent from here on is not
    // for it, and what it waits for may still happen before it returns ETIMEDOUT.
    for (auto it = cv->waiters.begin(); it != cv->waiters.end(); ++it)
        if (it->second == &woken) {
            cv->waiters.erase(it);
            break;
        }
    point(false);
    if (mu->owner != -1) block_until([mu] { return mu->owner == -1; }, INT64_MAX);
    mu->owner = cur_thr;
    race_acquire(m);
    return woken || spur ? 0 : ETIMEDOUT;
}
extern "C" int sim_pthread_cond_wait(void *c, void *m) { return cond_wait_until(c, m, INT64_MAX); }
extern "C" int sim_pthread_cond_timedwait(void *c, void *m, const struct timespec *ts) {
    int64_t t = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec - S.wall_off;
    if (t <= S.now) return cond_wait_until(c, m, S.now);
    if (ch_fault(F_WALL_JUMP)) {
        // the wall clock is stepped forward while the thread waits
        int64_t early = S.now + (int64_t)ch_draw(ST_FAULT, 64) * 20000;
        if (early < t) {
            int rc = cond_wait_until(c, m, early);
            if (rc == ETIMEDOUT && t > S.now) S.wall_off += t - S.now;
            return rc;
        }
    }
    return cond_wait_until(c, m, t);
}
extern "C" int sim_pthread_cond_signal(void *c) {
    SimCond *cv = &(*conds)[c];
    for (auto &w : cv->waiters)
        if (!*w.second) {
            *w.second = true;
            break;
        }
    point(false);
    return 0;
}
extern "C" int sim_pthread_cond_broadcast(void *c) {
    SimCond *cv = &(*conds)[c];
    for (auto &w : cv->waiters) *w.second = true;
    point(false);
    return 0;
}
void (*hook_syield)() = nullptr;
extern "C" int sim_sched_yield(void) {
    S.now += 1000;
    if (hook_syield) hook_syield();
    if (thrs->size() > 1)
        point(true);
    else
        stepcount();
    return 0;
}

// ------------------------------------------------------------------ clock
static uint32_t idle_spins = 0;
static void clock_tick() {
    if (ch_fault(F_CLOCK_STALL)) {
        static const int64_t d[] = {1000000, 20000, 7000000, 60000000, 130000000, 650000000};
        int64_t st = d[ch_draw(ST_TIME, 6)];
        S.stall_total += st;
        S.now += st;
        S.last_stall_at = S.now;
        tracef("clock stalls the process for %lld us", (long long)(st / 1000));
    } else if (S.fprob[F_CLOCK_COARSE] && ch_fault(F_CLOCK_COARSE)) {
        // coarse clock: no visible advance
    } else {
        static const int64_t d[] = {100, 40, 0, 1000, 250, 7000, 31000, 500};
        S.now += d[ch_draw(ST_TIME, 8)] * S.tick_ns / 100;
    }
}
extern "C" int sim_clock_gettime(clockid_t id, struct timespec *ts) {
    point(false);
    // code that polls the clock without doing anything else makes real time pass
    static uint64_t spin_seq, spin_n;
    if (spin_seq != S.seq) {
        spin_seq = S.seq, spin_n = 0;
        if (hook_spin) hook_spin(true);
    } else if (++spin_n > S.spin_reads) {
        S.now += 20000;
        if (hook_spin) hook_spin(false);
    }
    clock_tick();
    sim_process_due();
    int64_t t = S.now;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        if (ch_fault(F_WALL_JUMP)) {
            static const int64_t d[] = {-3000000000ll, 5000000000ll, -1000000, 400000000};
            S.wall_off += d[ch_draw(ST_TIME, 4)];
        }
        t += S.wall_off;
    }
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
extern "C" int sim_gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    sim_clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t sim_time(time_t *t) {
    struct timespec ts;
    sim_clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
struct PSig { int signo, thr; bool process; }; // thr: the thread that will run the handler
static std::deque<PSig> *sigpend;
static bool sig_ready();
static int do_sleep(int64_t d) {
    point(false);
    if (d < 0) {
        errno = EINVAL;
        return -1;
    }
    int64_t wake = S.now + d;
    if (d > 0 && hook_idle) {
        R->idles++;
        hook_idle(wake);
    }
    if (ch_fault(F_EINTR_WAIT)) {
        S.now += d / (2 + ch_draw(ST_TIME, 4));
        sim_process_due();
        errno = EINTR;
        return -1;
    }
    if (ch_fault(F_SLEEP_LATE)) wake += (int64_t)(1 + ch_draw(ST_TIME, 20)) * 60000;
    bool main = cur_thr == 0;
    bool intr = block_until([main] { return main && sig_ready(); }, wake);
    if (main) deliver_signals();
    if (intr) {
        errno = EINTR;
        return -1;
    }
    return 0;
}
extern "C" int sim_nanosleep(const struct timespec *req, struct timespec *rem) {
    if (rem) *rem = {0, 0};
    return do_sleep((int64_t)req->tv_sec * 1000000000 + req->tv_nsec);
}
extern "C" int sim_clock_nanosleep(clockid_t, int flags, const struct timespec *req, struct timespec *) {
    int64_t t = (int64_t)req->tv_sec * 1000000000 + req->tv_nsec;
    if (flags & TIMER_ABSTIME) t -= S.now;
    return do_sleep(t < 0 ? 0 : t) == -1 ? errno : 0;
}
extern "C" int sim_usleep(useconds_t us) { return do_sleep((int64_t)us * 1000); }

// ------------------------------------------------------------------ signals
static struct sigaction sigacts[65];
std::function<void(int)> on_signal_delivered;
static bool in_sig = false;
static bool sig_for(Thr *t) {
    if (in_sig || !sigpend) return false;
    for (auto &p : *sigpend) if (p.thr == t->id && !(t->sigblocked >> p.signo & 1)) return true;
    return false;
}
bool sim_sig_pending(int signo) {
    for (auto &p : *sigpend) if (p.signo == signo) return true;
    return false;
}
static int sig_defer = -1, sig_echo = 0;
static bool sig_ready() { return sig_for((*thrs)[0]); }
static void sig_retarget(int thr) {
    for (auto &p : *sigpend) if (p.thr == thr) p.thr = 0;
}
std::function<void(int)> on_signal_returned;
static int sig_errno; // errno as the interrupted code and the handlers see it
static void run_handler(int signo) {
    struct sigaction &a = sigacts[signo];
    R->faults[F_SIGNAL]++;
    tracef("signal %d delivered", signo);
    hash_mix(0x516 + signo);
    if (on_signal_delivered) on_signal_delivered(signo);
    if (a.sa_flags & SA_SIGINFO) {
        siginfo_t info;
        memset(&info, 0, sizeof info);
        info.si_signo = signo;
        errno = sig_errno;
        a.sa_sigaction(signo, &info, nullptr);
        sig_errno = errno;
    } else if (a.sa_handler == SIG_IGN) {
    } else if (a.sa_handler == SIG_DFL) {
        R->exited = 1;
        R->exit_code = 1000 + signo;
        if (hook_exit) hook_exit(1000 + signo);
        sim_end_run();
    } else {
        a.sa_handler(signo);
    }
    if (on_signal_returned) on_signal_returned(signo);
}
static void deliver_signals() {
    Thr *me = (*thrs)[(size_t)cur_thr];
    if (in_sig || !sig_for(me)) return;
    sig_errno = errno;
    in_sig = true;
    sig_defer = -1;
    for (size_t i = 0; i < sigpend->size();) {
        PSig p = (*sigpend)[i];
        if (p.thr != me->id || (me->sigblocked >> p.signo & 1) || sig_echo) { i++; continue; }
        sigpend->erase(sigpend->begin() + (long)i);
        run_handler(p.signo);
        i = 0;
    }
    in_sig = false;
    errno = sig_errno;
    if (sig_echo) { sig_defer = sig_echo; sig_echo = 0; }
}
// In the instrumented build a signal may also arrive between two memory accesses of the library.
static void deliver_signals_or_defer() {
    if (!sigpend || sigpend->empty() || in_sig || !sig_for((*thrs)[(size_t)cur_thr])) return;
    if (sig_defer > 0) return;
    if (S.fprob[F_SIG_MIDWAY] && ch_chance(ST_SCHED, S.fprob[F_SIG_MIDWAY], 4096)) {
        sig_defer = 1 + (int)ch_draw(ST_SCHED, 1u << (1 + ch_draw(ST_SCHED, 8)));
        return;
    }
    deliver_signals();
}
void sim_raise(int signo) {
    // Standard signals do not queue: one pending instance per number.
    for (auto &p : *sigpend)
        if (p.signo == signo) return;
    int to = 0;
    if (thrs->size() > 1 && S.fprob[F_SIG_THREAD] && ch_chance(ST_SCHED, S.fprob[F_SIG_THREAD], 4096)) {
        // any thread that does not block it may get a signal sent to the process
        std::vector<int> c;
        for (auto t : *thrs) if (t->id != 0 && t->live && !(t->sigblocked >> signo & 1)) c.push_back(t->id);
        if (!c.empty()) { to = c[(size_t)ch_draw(ST_SCHED, (uint32_t)c.size())]; R->faults[F_SIG_THREAD]++; tracef("signal %d goes to thread %d", signo, to); }
    }
    sigpend->push_back({signo, to, true});
}
void sim_signal_echo(int signo) { // the same signal again, a few memory accesses later
    if (!S.fprob[F_SIG_MIDWAY] || !ch_chance(ST_SCHED, S.fprob[F_SIG_MIDWAY] / 8, 4096)) return;
    sigpend->push_back({signo, 0, true});
    sig_echo = 1 + (int)ch_draw(ST_SCHED, 1u << (2 + ch_draw(ST_SCHED, 7)));
}
extern "C" int sim_pthread_kill(pthread_t th, int signo) {
    size_t id = (size_t)th;
    if (id >= thrs->size() || !(*thrs)[id]->live) return ESRCH;
    if (signo == 0) return 0;
    for (auto &p : *sigpend) if (p.signo == signo && p.thr == (int)id) return 0;
    sigpend->push_back({signo, (int)id, false});
    return 0;
}
extern "C" int sim_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
    uint64_t &b = (*thrs)[(size_t)cur_thr]->sigblocked, m = 0;
    if (old) { sigemptyset(old); for (int s = 1; s < 64; s++) if (b >> s & 1) sigaddset(old, s); }
    if (set) {
        for (int s = 1; s < 64; s++) if (sigismember(set, s) == 1) m |= 1ull << s;
        if (how == SIG_BLOCK) b |= m; else if (how == SIG_UNBLOCK) b &= ~m; else b = m;
    }
    return 0;
}
extern "C" int sim_sigprocmask(int how, const sigset_t *set, sigset_t *old) { return sim_pthread_sigmask(how, set, old); }
extern "C" int sim_kill(pid_t, int signo) { if (signo) sim_raise(signo); return 0; }
void sim_signal_at(int64_t t, int signo) {
    sim_at(t, [signo] { sim_raise(signo); });
}
void *sim_sighandler_of(int signo) { return (void *)sigacts[signo].sa_handler; }
extern "C" int sim_sigaction(int signo, const struct sigaction *act, struct sigaction *old) {
    if (signo < 1 || signo > 64) {
        errno = EINVAL;
        return -1;
    }
    if (old) *old = sigacts[signo];
    if (act) sigacts[signo] = *act;
    return 0;
}
extern "C" void *sim_signal(int signo, void *h) {
    void *o = (void *)sigacts[signo].sa_handler;
    memset(&sigacts[signo], 0, sizeof sigacts[signo]);
    sigacts[signo].sa_handler = (sighandler_t)h;
    return o;
}
static stack_t sig_stack; // of the main thread; ss_flags = SS_DISABLE: none
void *sim_sigstack(void) {
    return sig_stack.ss_flags & SS_DISABLE ? nullptr : sig_stack.ss_sp;
}
extern "C" int sim_sigaltstack(const stack_t *ss, stack_t *old) {
    if (old) *old = sig_stack;
    if (ss && !(ss->ss_flags & SS_DISABLE) && ss->ss_size < 2048) {
        errno = ENOMEM;
        return -1;
    }
    if (ss) {
        sig_stack = *ss;
        if (ss->ss_flags & SS_DISABLE) {
            sig_stack = stack_t{};
            sig_stack.ss_flags = SS_DISABLE;
        }
    }
    return 0;
}
extern "C" int sim_raise_c(int signo) {
    sim_raise(signo);
    deliver_signals();
    return 0;
}
static void raise_sync(int signo) { // raised by the calling thread itself
    bool was = in_sig;
    int e = errno;
    in_sig = true;
    sig_errno = e;
    run_handler(signo);
    in_sig = was;
    errno = e;
}
[[noreturn]] static void do_exit(int code) {
    tracef("process exits with %d", code);
    R->exited = 1;
    R->exit_code = code;
    if (hook_exit) hook_exit(code);
    sim_end_run();
}
extern "C" void sim__Exit(int code) { do_exit(code); }
extern "C" void sim__exit(int code) { do_exit(code); }
extern "C" void sim_exit(int code) { do_exit(code); }
extern "C" void sim_abort(void) {
    violation("*", "abort", "the library aborted the process (failed internal check or panic)");
    sim_end_run();
}
extern "C" void sim___stack_chk_fail(void) {
    violation("*", "stack-smash", "stack protector fired");
    sim_end_run();
}
extern "C" FILE *sim_popen(const char *, const char *) { return nullptr; }
extern "C" int sim_pclose(FILE *) { return 0; }
extern "C" int sim__Unwind_Backtrace(void *, void *) { return 0; }
extern "C" void sim_perror(const char *) {}
static void fake_arc4random_buf(void *d, size_t n) {
    for (size_t i = 0; i < n; i++) ((uint8_t *)d)[i] = (uint8_t)(i * 7 + 1);
}
extern "C" void *sim_dlopen(const char *, int) { return (void *)&sigacts; }
extern "C" void *sim_dlsym(void *, const char *) { return (void *)fake_arc4random_buf; }
extern "C" int sim_dlclose(void *) { return 0; }

// ------------------------------------------------------------------ memory
struct Hdr {
    uint64_t magic;
    size_t size;
    Hdr *prev, *next;
    uint64_t id;
    int tag;
    int pad;
    uint64_t tail;
    uint64_t pad2;
};
static_assert(sizeof(Hdr) % 16 == 0, "");
static Hdr memlist;
static std::deque<Hdr *> *quarantine;
static size_t quarantine_bytes;
static int64_t mem_blocks, mem_bytes;
int64_t mem_fail_at, mem_fail_count, mem_nallocs, mmap_fail_at, mem_failed_total;
static int64_t mmap_n, mmap_count;
static std::map<uintptr_t, size_t> *maps;
int64_t mem_live_blocks() { return mem_blocks; }
int64_t mem_live_bytes() { return mem_bytes; }
int64_t mmap_live() { return (int64_t)maps->size(); }
static const uint64_t MAGIC = 0xA110CA7EDB10C0DEull, FREED = 0xF3EEDF3EEDF3EEDull, TAIL = 0x7A17CA9A57E4D00Dull;
static bool should_fail_alloc() {
    mem_nallocs++;
    bool f = false;
    if (mem_fail_at && mem_nallocs >= mem_fail_at && mem_nallocs < mem_fail_at + mem_fail_count) f = true;
    if (!f && ch_fault(F_MALLOC_FAIL)) f = true;
    if (f) {
        mem_failed_total++;
        tracef("allocation %lld fails", (long long)mem_nallocs);
    }
    return f;
}
// Fenced heap (some runs): every block has pages of its own, ends at an inaccessible page and becomes inaccessible
// when it is released, so that a read of released memory or past the end of a block stops the run as a write does.
int mem_fence;
static char *fence_base, *fence_next;
static int fence_n;
static const size_t FENCE_ARENA = (size_t)1 << 30, FENCE_MAXBLK = 65536;
static Hdr *fence_alloc(size_t n) {
    if (!fence_base) {
        void *a = mmap(nullptr, FENCE_ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a == MAP_FAILED) return nullptr;
        fence_base = fence_next = (char *)a;
    }
    size_t need = (sizeof(Hdr) + n + 8 + 15) & ~(size_t)15;
    size_t span = (need + 4095) & ~(size_t)4095;
    if (fence_n > 12000 || fence_next + span + 4096 > fence_base + FENCE_ARENA) return nullptr;
    if (mprotect(fence_next, span, PROT_READ | PROT_WRITE)) return nullptr;
    Hdr *h = (Hdr *)(fence_next + span - need);
    fence_next += span + 4096;
    fence_n++;
    return h;
}
static bool fenced(const void *p) { return fence_base && (char *)p >= fence_base && (char *)p < fence_base + FENCE_ARENA; }
static std::set<void *> *fence_freed;
static void *do_malloc(size_t n, int tag) {
    if (n > ((size_t)1 << 40)) return nullptr;
    Hdr *h = nullptr;
    if (mem_fence && n <= FENCE_MAXBLK) h = fence_alloc(n);
    if (!h) h = (Hdr *)malloc(sizeof(Hdr) + n + 16);
    if (!h) return nullptr;
    h->magic = MAGIC;
    h->size = n;
    h->id = mem_nallocs;
    h->tag = tag;
    h->tail = TAIL;
    h->next = memlist.next;
    h->prev = &memlist;
    memlist.next->prev = h;
    memlist.next = h;
    char *p = (char *)(h + 1);
    if (n < ((size_t)1 << 20)) memset(p, 0xCD, n);
    memcpy(p + n, &TAIL, 8);
    mem_blocks++;
    mem_bytes += (int64_t)n;
    return p;
}
static bool check_block(Hdr *h, const char *where) {
    char *p = (char *)(h + 1);
    uint64_t t;
    memcpy(&t, p + h->size, 8);
    if (t != TAIL || h->tail != TAIL) {
        violation("*", "mem:overflow", "heap block of %zu bytes overwritten past its end (%s)", h->size, where);
        return false;
    }
    return true;
}
static void do_free(void *p, int tag) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (fenced(p) && fence_freed && fence_freed->count(p)) {
        violation("*", "mem:double-free", "heap block freed twice");
        sim_end_run();
    }
    if (h->magic == FREED) {
        violation("*", "mem:double-free", "heap block of %zu bytes freed twice", h->size);
        sim_end_run();
    }
    if (h->magic != MAGIC) {
        violation("*", "mem:bad-free", "free of a pointer that is not an allocated block");
        sim_end_run();
    }
    if (h->tag != tag) violation("C20", "mem:allocator-mismatch", "a block from one allocator was released to another");
    check_block(h, "free");
    h->magic = FREED;
    h->prev->next = h->next;
    h->next->prev = h->prev;
    mem_blocks--;
    mem_bytes -= (int64_t)h->size;
    if (fenced(h)) {
        if (!fence_freed) fence_freed = new std::set<void *>;
        fence_freed->insert(p);
        size_t need = (sizeof(Hdr) + h->size + 8 + 15) & ~(size_t)15, span = (need + 4095) & ~(size_t)4095;
        char *a = (char *)h + need - span;
        madvise(a, span, MADV_DONTNEED);
        mprotect(a, span, PROT_NONE);
        return;
    }
    if (h->size < ((size_t)1 << 20)) {
        memset(p, 0xDD, h->size);
        quarantine->push_back(h);
        quarantine_bytes += h->size;
    } else {
        free(h);
        return;
    }
    while (quarantine_bytes > ((size_t)4 << 20) && quarantine->size() > 1) {
        Hdr *o = quarantine->front();
        quarantine->pop_front();
        quarantine_bytes -= o->size;
        unsigned char *q = (unsigned char *)(o + 1);
        for (size_t i = 0; i < o->size; i++)
            if (q[i] != 0xDD) {
                violation("*", "mem:use-after-free", "heap block of %zu bytes written after it was released (offset %zu)", o->size, i);
                break;
            }
        free(o);
    }
}
static void *do_realloc(void *p, size_t n, int tag) {
    if (!p) return do_malloc(n, tag);
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != MAGIC) {
        violation("*", "mem:bad-free", "realloc of a pointer that is not an allocated block");
        sim_end_run();
    }
    void *q = do_malloc(n, tag);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    do_free(p, tag);
    return q;
}
// custom allocator handed to neco_env_setallocator (tag 1)
void *mem_malloc(size_t n) { return should_fail_alloc() ? nullptr : do_malloc(n, 1); }
void *mem_realloc(void *p, size_t n) { return should_fail_alloc() ? nullptr : do_realloc(p, n, 1); }
void mem_free(void *p) { do_free(p, 1); }
// libc allocator as seen by the library (tag 0)
extern "C" void *sim_malloc(size_t n) {
    void *p = should_fail_alloc() ? nullptr : do_malloc(n, 0);
    if (!p) errno = ENOMEM;
    return p;
}
extern "C" void *sim_calloc(size_t a, size_t b) {
    void *p = should_fail_alloc() ? nullptr : do_malloc(a * b, 0);
    if (p) memset(p, 0, a * b);
    return p;
}
extern "C" void *sim_reallocarray(void *p, size_t k, size_t n);
extern "C" char *sim_strndup(const char *s, size_t n) {
    n = strnlen(s, n);
    char *p = (char *)sim_malloc(n + 1);
    if (p) memcpy(p, s, n), p[n] = 0;
    return p;
}
extern "C" char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
extern "C" void *sim_realloc(void *p, size_t n) { return should_fail_alloc() ? nullptr : do_realloc(p, n, 0); }
extern "C" void sim_free(void *p) { do_free(p, 0); }
void mem_check_all(const char *where) {
    for (Hdr *h = memlist.next; h != &memlist; h = h->next)
        if (!check_block(h, where)) break;
    for (Hdr *o : *quarantine) {
        unsigned char *q = (unsigned char *)(o + 1);
        for (size_t i = 0; i < o->size; i++)
            if (q[i] != 0xDD) {
                violation("*", "mem:use-after-free", "heap block of %zu bytes written after it was released (offset %zu)", o->size, i);
                return;
            }
    }
}
bool mem_is_live(const void *p) {
    for (Hdr *h = memlist.next; h != &memlist; h = h->next)
        if ((const char *)p >= (const char *)h && (const char *)p <= (const char *)(h + 1) + 64) return true;
    return false;
}
std::string mem_leak_report() {
    std::string s;
    int n = 0;
    for (Hdr *h = memlist.next; h != &memlist && n < 6; h = h->next, n++)
        s += " #" + std::to_string(h->id) + ":" + std::to_string(h->size) + "B";
    return s;
}
extern "C" void *sim_reallocarray(void *p, size_t k, size_t n) { return n && k > SIZE_MAX / n ? nullptr : sim_realloc(p, k * n); }
extern "C" void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!(flags & MAP_FIXED)) {
        mmap_n++;
        bool f = mmap_fail_at && mmap_n >= mmap_fail_at && mmap_n < mmap_fail_at + 2;
        if (!f && ch_fault(F_MMAP_FAIL)) f = true;
        if (f) {
            R->faults[F_MMAP_FAIL]++;
            mem_failed_total++;
            tracef("mmap fails");
            errno = ENOMEM;
            return MAP_FAILED;
        }
    } else {
        // a fixed mapping must stay inside one region we handed out
        uintptr_t a = (uintptr_t)addr;
        auto it = maps->upper_bound(a);
        bool ok = false;
        if (it != maps->begin()) {
            --it;
            ok = a >= it->first && a + len <= it->first + it->second;
        }
        if (!ok) {
            violation("*", "mem:bad-remap", "stack pages released outside the stack memory");
            sim_end_run();
        }
    }
    void *p = mmap(addr, len, prot, flags | MAP_NORESERVE, fd, off);
    if (p != MAP_FAILED && !(flags & MAP_FIXED)) {
        (*maps)[(uintptr_t)p] = len;
        mmap_count++;
    }
    return p;
}
extern "C" int sim_munmap(void *addr, size_t len) {
    auto it = maps->find((uintptr_t)addr);
    if (it == maps->end() || it->second != len) {
        violation("*", "mem:bad-munmap", "munmap of memory that was not mapped that way");
        sim_end_run();
    }
    maps->erase(it);
    return munmap(addr, len);
}
extern "C" int sim_mprotect(void *addr, size_t len, int prot) {
    if (ch_fault(F_MPROTECT_FAIL)) {
        mem_failed_total++;
        errno = ENOMEM;
        return -1;
    }
    return mprotect(addr, len, prot);
}

// ------------------------------------------------------------------ race hooks
static void race_acquire(void *) {}
static void race_release(void *) {}
// tsan-instrumented build: every memory access is a possible preemption point.
static int preempt_left;
int preempt_hold; // no switch between memory accesses while set
static bool preempt_due;
static inline void maccess() {
    if (sig_defer > 0 && !in_sig && --sig_defer == 0) {
        sig_defer = -1;
        if (sig_for((*thrs)[(size_t)cur_thr])) {
            R->faults[F_SIG_MIDWAY]++;
            tracef("(a signal between two memory accesses)");
            deliver_signals();
        }
    }
    if (S.fprob[F_PREEMPT] && R->faults[F_PREEMPT] < 15000 && thrs && thrs->size() > 1 && !in_sig && !preempt_hold && --preempt_left < 0) {
        // the gap to the next one is drawn; 0 stands for a long stretch without
        uint32_t span = 1 + 2 * 4096 / S.fprob[F_PREEMPT];
        int e = errno;
        if (preempt_due) {
            preempt_due = false;
            R->faults[F_PREEMPT]++;
            tracef("(switch between two memory accesses)");
            point(true);
        }
        preempt_left = (int)ch_draw(ST_SCHED, span);
        preempt_due = preempt_left > 0;
        if (!preempt_due) preempt_left = (int)span;
        errno = e;
    }
}
extern "C" {
#define TS(n) void n(void *) { maccess(); }
TS(__tsan_read1) TS(__tsan_read2) TS(__tsan_read4) TS(__tsan_read8) TS(__tsan_read16)
TS(__tsan_write1) TS(__tsan_write2) TS(__tsan_write4) TS(__tsan_write8) TS(__tsan_write16)
TS(__tsan_unaligned_read2) TS(__tsan_unaligned_read4) TS(__tsan_unaligned_read8)
TS(__tsan_unaligned_write2) TS(__tsan_unaligned_write4) TS(__tsan_unaligned_write8)
TS(__tsan_unaligned_read16) TS(__tsan_unaligned_write16)
TS(__tsan_func_entry) 
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_read_range(void *, long) { maccess(); }
void __tsan_write_range(void *, long) { maccess(); }
void __tsan_vptr_update(void *, void *) {}
#define TSA(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int) { maccess(); return *a; } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int) { maccess(); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { maccess(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { maccess(); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { maccess(); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { maccess(); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { maccess(); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { maccess(); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { maccess(); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { maccess(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { maccess(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { maccess(); T o = *a; if (o == c) *a = v; return o; }
TSA(8, signed char) TSA(16, short) TSA(32, int) TSA(64, long)
void __tsan_atomic_signal_fence(int) {}
void __tsan_vptr_read(void *) {}
void __tsan_atomic_thread_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { maccess(); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { maccess(); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { maccess(); return memmove(d, s, n); }
}

// ------------------------------------------------------------------ files
struct Bytes {
    std::string s;
    size_t off = 0;
    size_t size() const { return s.size() - off; }
    void push(const void *d, size_t n) { s.append((const char *)d, n); }
    size_t pop(void *d, size_t n) {
        size_t k = std::min(n, size());
        memcpy(d, s.data() + off, k);
        off += k;
        if (off > 65536 && off * 2 > s.size()) {
            s.erase(0, off);
            off = 0;
        }
        return k;
    }
    void clear() { s.clear(); off = 0; }
};
enum FKind { K_PIPER, K_PIPEW, K_SOCK, K_EPOLL, K_REG };
enum SState { SS_NEW, SS_BOUND, SS_LISTEN, SS_CONNECTING, SS_CONNECTED, SS_FAILED };
struct PipeBuf {
    Bytes b;
    size_t cap;
    int readers = 1, writers = 1;
};
struct Sock;
struct Seg {
    int64_t t;
    std::string d;
    int kind; // 0 data, 1 eof, 2 full close, 3 reset
};
struct ExtPeer {
    Sock *s;
};
struct Sock {
    int family = AF_INET;
    std::string pkey;      // whom it connected to
    SState st = SS_NEW;
    Bytes rx;
    size_t cap = 65536;
    bool eof = false;      // peer's FIN has arrived
    bool peer_gone = false; // peer fully closed
    bool closed = false;   // this end closed
    bool wrshut = false;
    bool rst_read = false; // pending ECONNRESET
    int so_error = 0;
    Sock *peer = nullptr;
    std::deque<Seg> fl;    // in flight towards this end
    int64_t last_t = 0;
    std::deque<Sock *> backlog;
    std::string key;
    int uid = 0;
    int side = 0;
    ExtPeer *ext = nullptr;
    size_t inflight() const {
        size_t n = 0;
        for (auto &f : fl) n += f.d.size();
        return n;
    }
};
struct Reg {
    uint32_t events;
    epoll_data_t data;
    bool disarmed;
    uint64_t order; // position in the ready list: when it was last armed
};
static uint64_t arm_order;
struct File {
    FKind k;
    bool nonblock = false;
    std::shared_ptr<PipeBuf> p;
    Sock *s = nullptr;
    std::map<int, Reg> regs; // epoll
    std::string content;     // regular
    size_t pos = 0;
};
static std::vector<File *> *fds;
// Descriptor numbers as a kernel hands them out: the lowest free one. 1 and 2 are taken; 0 may be free (a daemon closed it).
int k_fd_zero; // 0: taken, 1: free
int k_fd_jump, k_fd_gap; // the program holds k_fd_gap descriptors beginning with number 3 + k_fd_jump
static int fdno(size_t i) {
    int n = k_fd_zero ? (i ? (int)i + 2 : 0) : (int)i + 3;
    return n >= 3 + k_fd_jump ? n + k_fd_gap : n;
}
static int fdix(int fd) {
    if (fd >= 3 + k_fd_jump && (fd -= k_fd_gap) < 3 + k_fd_jump) return -1;
    return k_fd_zero ? (fd == 0 ? 0 : fd < 3 ? -1 : fd - 2) : fd < 3 ? -1 : fd - 3;
}
static int next_uid;
static std::map<std::string, Sock *> *listeners;
static uint64_t listen_changes;
uint64_t net_listen_changes() { return listen_changes; }
struct Remote {
    int mode;
    int64_t delay;
};
static std::map<std::string, Remote> *remotes;
std::function<void(int, const std::string &)> on_remote_accept;
std::map<std::string, int> unlink_log;
static std::map<int, ExtPeer *> *extpeers;

static File *getf(int fd) {
    int i = fdix(fd);
    if (i < 0 || i >= (int)fds->size()) return nullptr;
    return (*fds)[(size_t)i];
}
static int fd_limit = 4096;
static int newfd(File *f) {
    if (k_fd_zero == 2 && fds->empty()) fds->push_back(nullptr); // free, but only for what comes after the setup
    for (size_t i = k_fd_zero == 2; i < fds->size(); i++)
        if (!(*fds)[i]) {
            (*fds)[i] = f;
            return fdno(i);
        }
    fds->push_back(f);
    return fdno(fds->size() - 1);
}
int k_open_fds() {
    int n = 0;
    for (auto f : *fds)
        if (f) n++;
    return n;
}
int k_epoll_fds() {
    int n = 0;
    for (auto f : *fds)
        if (f && f->k == K_EPOLL) n++;
    return n;
}
std::string k_fd_list() {
    static const char *nm[] = {"pipe-r", "pipe-w", "sock", "epoll", "file"};
    std::string s;
    for (size_t i = 0; i < fds->size(); i++)
        if ((*fds)[i]) s += " " + std::to_string(fdno(i)) + ":" + nm[(*fds)[i]->k];
    return s;
}
bool k_is_open(int fd) { return getf(fd) != nullptr; }
static void pump(Sock *s) {
    while (!s->fl.empty() && s->fl.front().t <= S.now) {
        Seg g = s->fl.front();
        s->fl.pop_front();
        if (g.kind == 0) {
            s->rx.push(g.d.data(), g.d.size());
        } else if (g.kind == 1) {
            s->eof = true;
        } else if (g.kind == 2) {
            s->eof = true;
            s->peer_gone = true;
        } else {
            s->rst_read = true;
            s->so_error = ECONNRESET;
            s->eof = true;
            s->peer_gone = true;
            s->rx.clear();
        }
    }
}
static void send_seg(Sock *to, int kind, const void *d, size_t n) {
    int64_t t = S.now;
    if (ch_fault(F_NET_DELAY)) {
        static const int64_t dl[] = {200000, 10000, 3000000, 40000000, 700000000};
        t += dl[ch_draw(ST_NET, 5)];
    }
    if (t < to->last_t) t = to->last_t;
    to->last_t = t;
    to->fl.push_back({t, std::string((const char *)d, n), kind});
    if (t > S.now)
        sim_at(t, [to] { pump(to); });
    else
        pump(to);
}
static uint32_t sock_mask(Sock *s) {
    uint32_t m = 0;
    switch (s->st) {
    case SS_NEW:
    case SS_BOUND:
        return EPOLLOUT | EPOLLHUP;
    case SS_LISTEN:
        return s->backlog.empty() ? 0u : (uint32_t)EPOLLIN;
    case SS_CONNECTING:
        return 0;
    case SS_FAILED:
        m = EPOLLHUP | EPOLLIN | EPOLLOUT | EPOLLRDHUP;
        if (s->so_error) m |= EPOLLERR;
        return m;
    case SS_CONNECTED:
        break;
    }
    if (s->rx.size() > 0 || s->eof) m |= EPOLLIN;
    if (s->eof) m |= EPOLLRDHUP;
    if (s->so_error) m |= EPOLLERR;
    if (s->peer_gone) {
        m |= EPOLLOUT;
        if (s->family == AF_UNIX || s->rst_read || s->so_error || s->wrshut) m |= EPOLLHUP;
    } else if (s->peer && !s->wrshut) {
        if (s->peer->rx.size() + s->peer->inflight() < s->peer->cap) m |= EPOLLOUT;
    } else if (s->wrshut) {
        m |= EPOLLOUT;
        if (s->eof) m |= EPOLLHUP;
    }
    return m;
}
static uint32_t fmask(File *f) {
    switch (f->k) {
    case K_PIPER: {
        uint32_t m = 0;
        if (f->p->b.size()) m |= EPOLLIN;
        if (f->p->writers == 0) m |= EPOLLHUP;
        return m;
    }
    case K_PIPEW: {
        uint32_t m = 0;
        if (f->p->b.size() < f->p->cap) m |= EPOLLOUT;
        if (f->p->readers == 0) m |= EPOLLERR;
        return m;
    }
    case K_SOCK:
        return sock_mask(f->s);
    case K_REG:
        return EPOLLIN | EPOLLOUT;
    default:
        return 0;
    }
}
bool k_readable(int fd) {
    File *f = getf(fd);
    return f && (fmask(f) & (EPOLLIN | EPOLLHUP | EPOLLERR));
}
bool k_writable(int fd) {
    File *f = getf(fd);
    return f && (fmask(f) & (EPOLLOUT | EPOLLHUP | EPOLLERR));
}
bool k_hup(int fd) {
    File *f = getf(fd);
    return f && (fmask(f) & (EPOLLHUP | EPOLLERR));
}
int64_t k_avail(int fd) {
    File *f = getf(fd);
    if (!f) return -1;
    if (f->k == K_PIPER) return (int64_t)f->p->b.size();
    if (f->k == K_SOCK) return (int64_t)f->s->rx.size();
    return 0;
}
bool k_eof(int fd) {
    File *f = getf(fd);
    if (!f) return false;
    if (f->k == K_PIPER) return f->p->b.size() == 0 && f->p->writers == 0;
    if (f->k == K_SOCK) return f->s->rx.size() == 0 && f->s->eof;
    return false;
}
bool k_nonblock(int fd) {
    File *f = getf(fd);
    return f && f->nonblock;
}
bool k_listening(int fd) {
    File *f = getf(fd);
    return f && f->k == K_SOCK && f->s->st == SS_LISTEN;
}
bool k_connected(int fd) {
    File *f = getf(fd);
    return f && f->k == K_SOCK && f->s->st == SS_CONNECTED;
}
int k_backlog(int fd) {
    File *f = getf(fd);
    return f && f->k == K_SOCK ? (int)f->s->backlog.size() : 0;
}
std::string k_peer_key(int fd) {
    File *f = getf(fd);
    return f && f->k == K_SOCK ? f->s->pkey : "";
}
int k_conn_uid(int fd) {
    File *f = getf(fd);
    return f && f->k == K_SOCK ? f->s->uid : -1;
}
int k_side(int fd) {
    File *f = getf(fd);
    return f && f->k == K_SOCK ? f->s->side : -1;
}
int k_pipe(int out[2], int cap, bool nonblock) {
    auto p = std::make_shared<PipeBuf>();
    p->cap = (size_t)cap;
    File *r = new File;
    r->k = K_PIPER;
    r->p = p;
    r->nonblock = nonblock;
    File *w = new File;
    w->k = K_PIPEW;
    w->p = p;
    w->nonblock = nonblock;
    out[0] = newfd(r);
    out[1] = newfd(w);
    return 0;
}
static File *sockfile(Sock *s, bool nb) {
    File *f = new File;
    f->k = K_SOCK;
    f->s = s;
    f->nonblock = nb;
    return f;
}
static void link_socks(Sock *a, Sock *b) {
    a->peer = b;
    b->peer = a;
    a->st = b->st = SS_CONNECTED;
    a->uid = b->uid = ++next_uid;
    a->side = 0;
    b->side = 1;
}
int k_socketpair(int out[2], int cap, bool nonblock) {
    Sock *a = new Sock, *b = new Sock;
    a->family = b->family = AF_UNIX;
    a->cap = b->cap = (size_t)cap;
    link_socks(a, b);
    out[0] = newfd(sockfile(a, nonblock));
    out[1] = newfd(sockfile(b, nonblock));
    return 0;
}
int k_file(const std::string &content) {
    File *f = new File;
    f->k = K_REG;
    f->content = content;
    return newfd(f);
}
static void sock_close(Sock *s) {
    s->closed = true;
    if (s->st == SS_LISTEN) {
        listen_changes++;
        listeners->erase(s->key);
        for (Sock *b : s->backlog) sock_close(b);
        s->backlog.clear();
    }
    if (s->peer && s->st == SS_CONNECTED) {
        if (s->rx.size() > 0 && s->family != AF_UNIX)
            send_seg(s->peer, 3, "", 0); // unread data: reset
        else
            send_seg(s->peer, 2, "", 0);
    }
    if (s->st == SS_CONNECTING) s->st = SS_FAILED;
}
int k_close(int fd) {
    File *f = getf(fd);
    if (!f) return -1;
    if (f->k == K_PIPER) f->p->readers--;
    if (f->k == K_PIPEW) f->p->writers--;
    if (f->k == K_SOCK) sock_close(f->s);
    (*fds)[(size_t)fdix(fd)] = nullptr;
    for (auto e : *fds)
        if (e && e->k == K_EPOLL) e->regs.erase(fd);
    delete f;
    return 0;
}
void k_close_keep_peer(int fd) {
    File *f = getf(fd);
    if (!f) return;
    (*fds)[(size_t)fdix(fd)] = nullptr;
    delete f;
}
ExtPeer *ext_attach(int fd) {
    File *f = getf(fd);
    if (!f || f->k != K_SOCK || !f->s->peer) return nullptr;
    ExtPeer *p = new ExtPeer{f->s->peer};
    f->s->peer->ext = p;
    return p;
}
void ext_send(ExtPeer *p, const void *d, size_t n) {
    if (p->s->closed || !p->s->peer) return;
    send_seg(p->s->peer, 0, d, n);
}
size_t ext_recv(ExtPeer *p, void *d, size_t n) {
    if (p->s->closed) return 0;
    pump(p->s);
    return p->s->rx.pop(d, n);
}
size_t ext_pending(ExtPeer *p) {
    pump(p->s);
    return p->s->rx.size();
}
size_t ext_space(ExtPeer *p) {
    if (p->s->closed || !p->s->peer) return 0;
    size_t u = p->s->peer->rx.size() + p->s->peer->inflight();
    return u >= p->s->peer->cap ? 0 : p->s->peer->cap - u;
}
void ext_close(ExtPeer *p) {
    if (p->s->closed) return;
    p->s->closed = true;
    if (p->s->peer) send_seg(p->s->peer, 2, "", 0);
}
void ext_shutdown(ExtPeer *p) {
    if (p->s->closed) return;
    if (p->s->peer) send_seg(p->s->peer, 1, "", 0);
}
void ext_reset(ExtPeer *p) {
    if (p->s->closed) return;
    p->s->closed = true;
    R->faults[F_SOCK_RESET]++;
    if (p->s->peer) send_seg(p->s->peer, 3, "", 0);
}

// --- system calls -----------------------------------------------------------
static bool io_eintr() {
    if (ch_fault(F_EINTR_IO)) {
        errno = EINTR;
        return true;
    }
    return false;
}
int64_t inj_io_error[8192]; // injected hard errors by descriptor
static ssize_t do_read(int fd, void *buf, size_t n) {
    point(false);
    File *f = getf(fd);
    if (!f || f->k == K_PIPEW || f->k == K_EPOLL) {
        errno = EBADF;
        return -1;
    }
    if (f->k == K_REG) {
        size_t k = std::min(n, f->content.size() - f->pos);
        memcpy(buf, f->content.data() + f->pos, k);
        f->pos += k;
        return (ssize_t)k;
    }
    // pipes do not fail, and small transfers through them are atomic
    bool pipe = f->k == K_PIPER || f->k == K_PIPEW;
    if (!pipe && io_eintr()) return -1;
    if (!pipe && ch_fault(F_IO_ERROR)) {
        if (fd < 8192) inj_io_error[fd]++;
        errno = EIO;
        return -1;
    }
    if (f->nonblock && ch_fault(F_SPUR_EAGAIN)) {
        errno = EAGAIN;
        return -1;
    }
    if (n > (pipe ? 8u : 1u) && ch_fault(F_SHORT_READ)) n = 1 + ch_draw(ST_FAULT, (uint32_t)std::min<size_t>(n - 1, 64));
    while (1) {
        f = getf(fd);
        if (!f) {
            errno = EBADF;
            return -1;
        }
        if (f->k == K_PIPER) {
            if (n == 0) return 0;
            if (f->p->b.size()) return (ssize_t)f->p->b.pop(buf, n);
            if (f->p->writers == 0) return 0;
        } else {
            Sock *s = f->s;
            pump(s);
            if (s->st != SS_CONNECTED) {
                if (s->so_error) {
                    errno = s->so_error;
                    s->so_error = 0;
                } else
                    errno = ENOTCONN;
                return -1;
            }
            if (s->rst_read) {
                s->rst_read = false;
                s->so_error = 0;
                errno = ECONNRESET;
                return -1;
            }
            if (n == 0) return 0;
            if (s->rx.size()) return (ssize_t)s->rx.pop(buf, n);
            if (s->eof) return 0;
        }
        if (f->nonblock) {
            errno = EAGAIN;
            return -1;
        }
        block_until([fd] { return !getf(fd) || k_readable(fd); }, INT64_MAX);
    }
}
extern "C" ssize_t sim_read(int fd, void *buf, size_t n) {
    ssize_t r = do_read(fd, buf, n);
    if (r >= 0 && hook_kread) hook_kread(fd, buf, (size_t)r, n);
    return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n, bool nosig) {
    point(false);
    File *f = getf(fd);
    if (!f || f->k == K_PIPER || f->k == K_EPOLL) {
        errno = EBADF;
        return -1;
    }
    if (f->k == K_REG) {
        f->content.append((const char *)buf, n);
        if (hook_kwrite) hook_kwrite(fd, buf, n);
        return (ssize_t)n;
    }
    // pipes do not fail, and small transfers through them are atomic
    bool pipe = f->k == K_PIPER || f->k == K_PIPEW;
    if (!pipe && io_eintr()) return -1;
    if (!pipe && ch_fault(F_IO_ERROR)) {
        if (fd < 8192) inj_io_error[fd]++;
        errno = EIO;
        return -1;
    }
    if (f->nonblock && n > 0 && ch_fault(F_SPUR_EAGAIN)) {
        errno = EAGAIN;
        return -1;
    }
    if (n > (pipe ? 8u : 1u) && ch_fault(F_SHORT_WRITE)) n = 1 + ch_draw(ST_FAULT, (uint32_t)std::min<size_t>(n - 1, 64));
    size_t total = 0;
    while (1) {
        f = getf(fd);
        if (!f) {
            errno = EBADF;
            return -1;
        }
        size_t space = 0;
        bool broken = false;
        if (f->k == K_PIPEW) {
            if (f->p->readers == 0) broken = true;
            space = f->p->cap > f->p->b.size() ? f->p->cap - f->p->b.size() : 0;
        } else {
            Sock *s = f->s;
            pump(s);
            if (s->st != SS_CONNECTED) {
                if (s->so_error) {
                    errno = s->so_error;
                    s->so_error = 0;
                    return -1;
                }
                if (s->st == SS_CONNECTING) {
                    space = 0;
                } else {
                    errno = s->st == SS_FAILED ? EPIPE : ENOTCONN;
                    return -1;
                }
            } else {
                if (s->so_error) {
                    errno = s->so_error;
                    s->so_error = 0;
                    s->rst_read = false;
                    return -1;
                }
                if (s->peer_gone || s->wrshut) broken = true;
                size_t u = s->peer->rx.size() + s->peer->inflight();
                space = s->peer->cap > u ? s->peer->cap - u : 0;
            }
        }
        if (broken) {
            if (!nosig) raise_sync(SIGPIPE);
            errno = EPIPE;
            return total ? (ssize_t)total : -1;
        }
        if (n == 0) return 0;
        size_t k = std::min(space, n - total);
        if (k > 0) {
            if (f->k == K_PIPEW)
                f->p->b.push((const char *)buf + total, k);
            else
                send_seg(f->s->peer, 0, (const char *)buf + total, k);
            if (hook_kwrite) hook_kwrite(fd, (const char *)buf + total, k);
            total += k;
            if (f->nonblock || total == n) return (ssize_t)total;
        } else if (f->nonblock) {
            errno = EAGAIN;
            return -1;
        }
        block_until([fd] { return !getf(fd) || k_writable(fd); }, INT64_MAX);
    }
}
extern "C" ssize_t sim_write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, false); }
extern "C" ssize_t sim_send(int fd, const void *buf, size_t n, int flags) { return do_write(fd, buf, n, flags & MSG_NOSIGNAL); }
extern "C" ssize_t sim_recv(int fd, void *buf, size_t n, int) { return sim_read(fd, buf, n); }
extern "C" ssize_t sim_readv(int fd, const struct iovec *v, int c) { return c > 0 ? sim_read(fd, v[0].iov_base, v[0].iov_len) : 0; }
extern "C" ssize_t sim_writev(int fd, const struct iovec *v, int c) { return c > 0 ? sim_write(fd, v[0].iov_base, v[0].iov_len) : 0; }
extern "C" int sim_close(int fd) {
    point(false);
    if (!getf(fd)) {
        errno = EBADF;
        tracef("close(%d) of a descriptor that is not open", fd);
        return -1;
    }
    return k_close(fd);
}
static bool emfile() {
    if (ch_fault(F_EMFILE)) {
        errno = EMFILE;
        return true;
    }
    return false;
}
static bool sysfail(int e) {
    if (ch_fault(F_SYSCALL_FAIL)) {
        errno = e;
        return true;
    }
    return false;
}
extern "C" int sim_pipe(int out[2]) {
    point(false);
    if (emfile()) return -1;
    return k_pipe(out, 65536, false);
}
extern "C" int sim_pipe2(int out[2], int flags) {
    point(false);
    if (emfile()) return -1;
    return k_pipe(out, 65536, flags & O_NONBLOCK);
}
extern "C" int sim_fcntl(int fd, int cmd, long arg) {
    point(false);
    File *f = getf(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (cmd == F_GETFL) {
        if (sysfail(EINVAL)) return -1;
        return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    }
    if (cmd == F_SETFL) {
        if (sysfail(EINVAL)) return -1;
        f->nonblock = arg & O_NONBLOCK;
        return 0;
    }
    return 0;
}
extern "C" int sim_ioctl(int fd, unsigned long req, int *arg) {
    File *f = getf(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (req == 0x5421 /*FIONBIO*/) f->nonblock = *arg;
    return 0;
}
extern "C" int sim_socket(int domain, int type, int) {
    point(false);
    if (emfile()) return -1;
    Sock *s = new Sock;
    s->family = domain;
    return newfd(sockfile(s, type & SOCK_NONBLOCK));
}
static std::string addrkey(const struct sockaddr *a, socklen_t len) {
    char b[128];
    if (a->sa_family == AF_INET) {
        const struct sockaddr_in *i = (const struct sockaddr_in *)a;
        char ip[64];
        inet_ntop(AF_INET, &i->sin_addr, ip, sizeof ip);
        snprintf(b, sizeof b, "4:%s:%d", ip, ntohs(i->sin_port));
        return b;
    }
    if (a->sa_family == AF_INET6) {
        const struct sockaddr_in6 *i = (const struct sockaddr_in6 *)a;
        char ip[64];
        inet_ntop(AF_INET6, &i->sin6_addr, ip, sizeof ip);
        snprintf(b, sizeof b, "6:%s:%d", ip, ntohs(i->sin6_port));
        return b;
    }
    if (a->sa_family == AF_UNIX) {
        const struct sockaddr_un *u = (const struct sockaddr_un *)a;
        size_t n = len > offsetof(struct sockaddr_un, sun_path) ? len - offsetof(struct sockaddr_un, sun_path) : 0;
        return "u:" + std::string(u->sun_path, strnlen(u->sun_path, std::min(n, sizeof u->sun_path)));
    }
    return "?";
}
static std::set<std::string> *unixpaths;
extern "C" int sim_bind(int fd, const struct sockaddr *a, socklen_t len) {
    point(false);
    File *f = getf(fd);
    if (!f || f->k != K_SOCK) {
        errno = f ? ENOTSOCK : EBADF;
        return -1;
    }
    if (sysfail(EACCES)) return -1;
    if (len < (a->sa_family == AF_INET6 ? sizeof(struct sockaddr_in6) : a->sa_family == AF_INET ? sizeof(struct sockaddr_in) : 3)) {
        errno = EINVAL;
        return -1;
    }
    std::string k = addrkey(a, len);
    if (listeners->count(k) || unixpaths->count(k)) {
        errno = EADDRINUSE;
        return -1;
    }
    if (f->s->st != SS_NEW) {
        errno = EINVAL;
        return -1;
    }
    if (a->sa_family != f->s->family) {
        errno = EINVAL;
        return -1;
    }
    f->s->key = k;
    f->s->st = SS_BOUND;
    if (k[0] == 'u') unixpaths->insert(k);
    return 0;
}
extern "C" int sim_listen(int fd, int) {
    point(false);
    File *f = getf(fd);
    if (!f || f->k != K_SOCK) {
        errno = f ? ENOTSOCK : EBADF;
        return -1;
    }
    if (sysfail(EADDRINUSE)) return -1;
    if (f->s->st != SS_BOUND) {
        errno = EINVAL;
        return -1;
    }
    auto other = listeners->find(f->s->key); // two sockets may be bound before either listens
    if (other != listeners->end() && other->second != f->s) {
        errno = EADDRINUSE;
        return -1;
    }
    f->s->st = SS_LISTEN;
    listen_changes++;
    (*listeners)[f->s->key] = f->s;
    return 0;
}
bool net_listening_key(const std::string &k) { return listeners->count(k) > 0; }
extern "C" int sim_setsockopt(int fd, int, int, const void *, socklen_t) {
    point(false);
    File *f = getf(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (sysfail(ENOMEM)) return -1;
    return 0;
}
extern "C" int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *len) {
    File *f = getf(fd);
    if (!f || f->k != K_SOCK) {
        errno = f ? ENOTSOCK : EBADF;
        return -1;
    }
    int r = 0;
    if (lvl == SOL_SOCKET && opt == SO_ERROR) {
        r = f->s->so_error;
        f->s->so_error = 0;
    }
    memcpy(v, &r, sizeof r);
    *len = sizeof r;
    return 0;
}
extern "C" int sim_shutdown(int fd, int how) {
    File *f = getf(fd);
    if (!f || f->k != K_SOCK) {
        errno = f ? ENOTSOCK : EBADF;
        return -1;
    }
    if (how != SHUT_RD && f->s->peer && !f->s->wrshut) {
        f->s->wrshut = true;
        send_seg(f->s->peer, 1, "", 0);
    }
    return 0;
}
bool net_path_exists(const std::string &key) { return unixpaths->count(key) > 0; }
int net_foreign_paths() {
    int n = 0;
    for (auto &k : *unixpaths) n += k.compare(0, 7, "u:/sim/") != 0;
    return n;
}
extern "C" int sim_unlink(const char *p) {
    point(false);
    std::string k = "u:" + std::string(p);
    unlink_log[p]++;
    if (unixpaths->erase(k)) {
        // a listener stays reachable only for already made connections
        auto it = listeners->find(k);
        if (it != listeners->end()) { listen_changes++; listeners->erase(it); }
        return 0;
    }
    errno = ENOENT;
    return -1;
}
void net_remote(int family, const char *ip, int port, int mode, int64_t delay) {
    std::string k = std::string(family == AF_INET6 ? "6:" : "4:") + ip + ":" + std::to_string(port);
    (*remotes)[k] = {mode, delay};
}
void net_remote_unix(const char *path, int mode, int64_t delay) { (*remotes)["u:" + std::string(path)] = {mode, delay}; }

static void establish_remote(Sock *s, const std::string &key) {
    s->pkey = key;
    Sock *r = new Sock;
    r->family = s->family;
    r->cap = s->cap;
    link_socks(s, r);
    ExtPeer *p = new ExtPeer{r};
    r->ext = p;
    (*extpeers)[s->uid] = p;
    if (on_remote_accept) on_remote_accept(s->uid, key);
}
static bool establish_local(Sock *s, const std::string &key) {
    auto it = listeners->find(key);
    if (it == listeners->end()) {
        // a wildcard listener on the same port and family
        size_t c = key.rfind(':');
        std::string any = key.substr(0, 2) + (key[0] == '6' ? "::" : "0.0.0.0") + key.substr(c);
        it = key[0] == 'u' ? listeners->end() : listeners->find(any);
    }
    if (it == listeners->end()) return false;
    s->pkey = key;
    Sock *l = it->second;
    Sock *r = new Sock;
    r->family = s->family;
    r->cap = s->cap;
    link_socks(s, r);
    l->backlog.push_back(r);
    return true;
}
// why a refused connection attempt fails
static uint64_t ktimeouts;
uint64_t net_kernel_timeouts() { return ktimeouts; }
static int refuse_err() {
    static const int e[] = {ECONNREFUSED, ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET};
    int r = e[ch_draw(ST_NET, 6)];
    if (r == ETIMEDOUT) ktimeouts++;
    return r;
}
extern "C" int sim_connect(int fd, const struct sockaddr *a, socklen_t len) {
    point(false);
    File *f = getf(fd);
    if (!f || f->k != K_SOCK) {
        errno = f ? ENOTSOCK : EBADF;
        return -1;
    }
    Sock *s = f->s;
    if (s->st == SS_CONNECTED) {
        errno = EISCONN;
        return -1;
    }
    if (s->st == SS_CONNECTING) {
        errno = EALREADY;
        return -1;
    }
    if (s->st == SS_FAILED) {
        if (s->so_error) {
            errno = s->so_error;
            s->so_error = 0;
            s->st = SS_NEW;
            return -1;
        }
        s->st = SS_NEW;
    }
    if (s->st == SS_LISTEN) {
        errno = EINVAL;
        return -1;
    }
    if (len < (a->sa_family == AF_INET6 ? sizeof(struct sockaddr_in6) : a->sa_family == AF_INET ? sizeof(struct sockaddr_in) : 3)) {
        errno = EINVAL;
        return -1;
    }
    if (a->sa_family != s->family) {
        errno = s->family == AF_INET6 ? EINVAL : EAFNOSUPPORT;
        return -1;
    }
    if (sysfail(ENETUNREACH)) return -1;
    std::string key = addrkey(a, len);
    int mode = -1;
    int64_t delay = 0;
    auto rit = remotes->find(key);
    if (rit != remotes->end()) {
        mode = rit->second.mode;
        delay = rit->second.delay;
    }
    if (key[0] == 'u') {
        if (ch_fault(F_UNIX_EAGAIN)) {
            errno = EAGAIN;
            return -1;
        }
        if (mode == NET_ACCEPT || mode == NET_SLOW) {
            establish_remote(s, key);
            return 0;
        }
        if (mode == -1 && establish_local(s, key)) return 0;
        errno = mode >= 0 || unixpaths->count(key) ? ECONNREFUSED : ENOENT;
        return -1;
    }
    if (ch_fault(F_CONN_REFUSED)) {
        mode = NET_REFUSE;
        delay = 0;
    }
    if (ch_fault(F_CONN_SLOW)) {
        static const int64_t d[] = {300000, 5000000, 90000000, 800000000};
        delay += d[ch_draw(ST_NET, 4)];
        if (mode == NET_REFUSE) mode = NET_SLOW_REFUSE;
    }
    // an interrupted attempt goes on in the background
    bool intr = f->nonblock && ch_fault(F_EINTR_IO);
    if (delay == 0 && !intr && ch_draw(ST_NET, 2) == 0) {
        // completes at once
        if (mode == NET_ACCEPT) {
            establish_remote(s, key);
            return 0;
        }
        if (mode == NET_REFUSE) {
            errno = refuse_err();
            return -1;
        }
        if (mode == -1) {
            if (establish_local(s, key)) return 0;
            errno = ECONNREFUSED;
            return -1;
        }
    }
    s->st = SS_CONNECTING;
    tracef("connecting socket to %s, mode %d, delay %lld", key.c_str(), mode, (long long)delay);
    if (mode != NET_BLACKHOLE) {
        if (mode == NET_SLOW || mode == NET_SLOW_REFUSE || delay > 0) {
        } else
            delay = 50000;
        sim_at(S.now + delay, [s, mode, key] {
            if (s->closed || s->st != SS_CONNECTING) return;
            bool ok;
            if (mode == NET_ACCEPT || mode == NET_SLOW) {
                establish_remote(s, key);
                ok = true;
            } else if (mode == -1) {
                ok = establish_local(s, key);
            } else {
                ok = false;
            }
            if (!ok) {
                s->st = SS_FAILED;
                s->so_error = mode == -1 ? ECONNREFUSED : refuse_err();
            }
            tracef("connection attempt to %s %s", key.c_str(), ok ? "established" : "refused");
        });
    }
    if (!f->nonblock) {
        block_until([fd] { return !getf(fd) || getf(fd)->s->st != SS_CONNECTING; }, INT64_MAX);
        f = getf(fd);
        if (f && f->s->st == SS_CONNECTED) return 0;
        errno = f && f->s->so_error ? f->s->so_error : ECONNREFUSED;
        if (f) f->s->so_error = 0, f->s->st = SS_NEW;
        return -1;
    }
    errno = intr ? EINTR : EINPROGRESS;
    return -1;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *len, bool nb) {
    point(false);
    File *f = getf(fd);
    if (!f || f->k != K_SOCK) {
        errno = f ? ENOTSOCK : EBADF;
        return -1;
    }
    if (f->s->st != SS_LISTEN) {
        errno = EINVAL;
        return -1;
    }
    if (io_eintr()) return -1;
    if (f->s->backlog.empty() && !f->nonblock)
        block_until([fd] { return !getf(fd) || !getf(fd)->s->backlog.empty(); }, INT64_MAX);
    if (f->s->backlog.empty()) {
        errno = EAGAIN;
        return -1;
    }
    if (f->nonblock && ch_fault(F_SPUR_EAGAIN)) {
        errno = EAGAIN;
        return -1;
    }
    if (emfile()) return -1;
    Sock *s = f->s->backlog.front();
    f->s->backlog.pop_front();
    if (a && len) {
        // the peer's address; the connection's number stands for it
        struct { sa_family_t fam; uint16_t pad; int32_t uid; char rest[8]; } pa = {(sa_family_t)s->family, 0, s->uid, {0}};
        memcpy(a, &pa, std::min<size_t>(*len, sizeof pa));
        *len = sizeof pa;
    }
    return newfd(sockfile(s, nb));
}
extern "C" int sim_accept(int fd, struct sockaddr *a, socklen_t *len) { return do_accept(fd, a, len, false); }
extern "C" int sim_accept4(int fd, struct sockaddr *a, socklen_t *len, int fl) { return do_accept(fd, a, len, fl & SOCK_NONBLOCK); }
int net_connect_external(const char *key, int64_t) {
    auto it = listeners->find(key);
    if (it == listeners->end()) return -1;
    Sock *r = new Sock, *c = new Sock;
    c->family = r->family = it->second->family;
    link_socks(c, r);
    ExtPeer *p = new ExtPeer{c};
    c->ext = p;
    (*extpeers)[c->uid] = p;
    it->second->backlog.push_back(r);
    return c->uid;
}
ExtPeer *ext_by_uid(int uid) {
    auto it = extpeers->find(uid);
    return it == extpeers->end() ? nullptr : it->second;
}

// epoll
// The event queue is out of resources for one call, or for a while.
void (*hook_evfail)() = nullptr;
uint64_t ev_fail_seq = UINT64_MAX;
static bool ev_fail(Fault kind) {
    static uint32_t down, span;
    static uint64_t seq0;
    if (down) {
        if (S.faults_on && S.seq - seq0 < span && ++down < 2000) {
            S.now += 1000;
            sim_process_due();
            R->faults[kind]++;
            ev_fail_seq = S.seq;
            if (hook_evfail) hook_evfail();
            return true;
        }
        down = 0;
    }
    if (!ch_fault(kind)) return false;
    ev_fail_seq = S.seq;
    if (ch_draw(ST_FAULT, 3) == 1) down = 1, seq0 = S.seq, span = 4 + 8 * (uint32_t)ch_draw(ST_FAULT, 6);
    return true;
}
extern "C" int sim_epoll_create1(int) {
    point(false);
    if (ev_fail(F_EPOLL_CREATE)) {
        errno = EMFILE;
        return -1;
    }
    File *f = new File;
    f->k = K_EPOLL;
    return newfd(f);
}
extern "C" int sim_epoll_create(int) { return sim_epoll_create1(0); }
extern "C" int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    point(false);
    File *e = getf(ep);
    File *f = getf(fd);
    if (!e || !f) {
        errno = EBADF;
        return -1;
    }
    if (e->k != K_EPOLL || e == f) {
        errno = EINVAL;
        return -1;
    }
    if (f->k == K_REG) {
        errno = EPERM;
        return -1;
    }
    auto it = e->regs.find(fd);
    if (op == EPOLL_CTL_ADD) {
        if (it != e->regs.end()) {
            errno = EEXIST;
            return -1;
        }
        if (ev_fail(F_EPOLL_CTL)) {
            errno = ENOMEM;
            return -1;
        }
        e->regs[fd] = {ev->events, ev->data, false, ++arm_order};
        return 0;
    }
    if (it == e->regs.end()) {
        errno = ENOENT;
        return -1;
    }
    if (op == EPOLL_CTL_DEL) {
        e->regs.erase(it);
        return 0;
    }
    if (op == EPOLL_CTL_MOD) {
        it->second = {ev->events, ev->data, false, ++arm_order};
        return 0;
    }
    errno = EINVAL;
    return -1;
}
static int collect(File *e, struct epoll_event *evs, int max) {
    struct C {
        int fd;
        uint32_t m;
        uint64_t order;
    };
    std::vector<C> c;
    for (auto &r : e->regs) {
        if (r.second.disarmed) continue;
        File *f = getf(r.first);
        if (!f) continue;
        if (f->k == K_SOCK) pump(f->s);
        uint32_t m = fmask(f) & (r.second.events | EPOLLHUP | EPOLLERR);
        if (m) c.push_back({r.first, m, r.second.order});
    }
    std::sort(c.begin(), c.end(), [](const C &a, const C &b) { return a.order < b.order; });
    if (c.size() > 1 && c.size() <= (size_t)max && ch_fault(F_EV_SHUFFLE))
        for (size_t i = c.size() - 1; i > 0; i--) std::swap(c[i], c[ch_draw(ST_SCHED, (uint32_t)i + 1)]);
    int n = 0;
    for (auto &x : c) {
        if (n == max) break;
        Reg &r = e->regs[x.fd];
        evs[n].events = x.m;
        evs[n].data = r.data;
        if (r.events & EPOLLONESHOT) r.disarmed = true;
        else r.order = ++arm_order;
        if (x.fd < 8192) {
            if (x.m & (EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR)) ev_report[x.fd][0] = ++S.seq;
            if (x.m & (EPOLLOUT | EPOLLHUP | EPOLLERR)) ev_report[x.fd][1] = ++S.seq;
        }
        n++;
    }
    return n;
}
static bool any_ready(int ep) {
    File *e = getf(ep);
    if (!e) return true;
    for (auto &r : e->regs) {
        if (r.second.disarmed) continue;
        File *f = getf(r.first);
        if (!f) continue;
        if (f->k == K_SOCK) pump(f->s);
        if (fmask(f) & (r.second.events | EPOLLHUP | EPOLLERR)) return true;
    }
    return false;
}
extern "C" int sim_epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
    point(false);
    if (ch_fault(F_CLOCK_COARSE) == false) S.now += 300 * S.tick_ns / 100;
    sim_process_due();
    File *e = getf(ep);
    if (!e || e->k != K_EPOLL) {
        errno = e ? EINVAL : EBADF;
        return -1;
    }
    if (max <= 0) {
        errno = EINVAL;
        return -1;
    }
    if (ch_fault(F_EINTR_WAIT)) {
        errno = EINTR;
        return -1;
    }
    int n = collect(e, evs, max);
    if (n > 0) {
        idle_spins = 0;
        return n;
    }
    if (timeout == 0) {
        if (++idle_spins > 16) S.now += 40000;
        if (hook_round) hook_round();
        return 0;
    }
    idle_spins = 0;
    int64_t wake = timeout < 0 ? INT64_MAX : S.now + (int64_t)timeout * 1000000;
    if (hook_idle) {
        R->idles++;
        hook_idle(wake);
    }
    if (timeout > 0 && ch_fault(F_SLEEP_LATE)) wake += (int64_t)(1 + ch_draw(ST_TIME, 20)) * 60000;
    bool main = cur_thr == 0;
    block_until([main, ep] { return (main && sig_ready()) || any_ready(ep); }, wake);
    e = getf(ep);
    n = collect(e, evs, max);
    if (n == 0 && main && sig_ready()) {
        deliver_signals();
        errno = EINTR;
        return -1;
    }
    return n;
}
extern "C" int sim_epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const void *) {
    return sim_epoll_wait(ep, evs, max, timeout);
}
extern "C" int sim_epoll_pwait2(int ep, struct epoll_event *evs, int max, const struct timespec *ts, const void *) {
    int ms = -1;
    if (ts) ms = (int)((ts->tv_sec * 1000000000ll + ts->tv_nsec + 999999) / 1000000);
    return sim_epoll_wait(ep, evs, max, ms);
}
extern "C" int sim_poll(struct pollfd *p, nfds_t n, int timeout) {
    point(false);
    auto scan = [p, n] {
        int r = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            File *f = getf(p[i].fd);
            if (!f) {
                p[i].revents = POLLNVAL;
                r++;
                continue;
            }
            uint32_t m = fmask(f);
            if ((m & EPOLLIN) && (p[i].events & POLLIN)) p[i].revents |= POLLIN;
            if ((m & EPOLLOUT) && (p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
            if (m & EPOLLHUP) p[i].revents |= POLLHUP;
            if (m & EPOLLERR) p[i].revents |= POLLERR;
            if (p[i].revents) r++;
        }
        return r;
    };
    int r = scan();
    if (r || timeout == 0) {
        S.now += 3000;
        return r;
    }
    int64_t wake = timeout < 0 ? INT64_MAX : S.now + (int64_t)timeout * 1000000;
    if (hook_idle) hook_idle(wake);
    block_until([scan] { return sig_ready() || scan() > 0; }, wake);
    r = scan();
    if (r == 0 && sig_ready()) {
        deliver_signals();
        errno = EINTR;
        return -1;
    }
    return r;
}

// resolver
struct GaiEnt {
    std::vector<std::string> ips;
    int err;
    int64_t delay;
};
static std::map<std::string, GaiEnt> *gaitab;
struct GaiNode {
    uint64_t magic;
    struct addrinfo ai;
    struct sockaddr_storage ss;
};
static int gai_count;
int gai_live() { return gai_count; }
void gai_set(const std::string &host, std::vector<std::string> ips, int err, int64_t delay) { (*gaitab)[host] = {ips, err, delay}; }
static GaiNode *gai_node(const std::string &ip, int port, int socktype, int proto) {
    GaiNode *n = new GaiNode;
    memset(n, 0, sizeof *n);
    n->magic = 0x6A16A16A1;
    n->ai.ai_socktype = socktype ? socktype : SOCK_STREAM;
    n->ai.ai_protocol = proto;
    n->ai.ai_addr = (struct sockaddr *)&n->ss;
    if (ip.find(':') != std::string::npos) {
        struct sockaddr_in6 *a = (struct sockaddr_in6 *)&n->ss;
        a->sin6_family = AF_INET6;
        a->sin6_port = htons((uint16_t)port);
        inet_pton(AF_INET6, ip.c_str(), &a->sin6_addr);
        n->ai.ai_family = AF_INET6;
        n->ai.ai_addrlen = sizeof *a;
    } else {
        struct sockaddr_in *a = (struct sockaddr_in *)&n->ss;
        a->sin_family = AF_INET;
        a->sin_port = htons((uint16_t)port);
        inet_pton(AF_INET, ip.c_str(), &a->sin_addr);
        n->ai.ai_family = AF_INET;
        n->ai.ai_addrlen = sizeof *a;
    }
    return n;
}
int gai_calls;
void (*hook_gai)() = nullptr;
extern "C" int sim_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    point(false);
    std::string host = node ? node : "127.0.0.1";
    struct in6_addr t;
    bool numeric = inet_pton(AF_INET, host.c_str(), &t) == 1 || inet_pton(AF_INET6, host.c_str(), &t) == 1;
    std::vector<std::string> ips;
    int err = 0;
    int64_t delay = 0;
    gai_calls++;
    if (numeric) {
        ips.push_back(host);
    } else {
        auto it = gaitab->find(host);
        if (it == gaitab->end()) {
            err = EAI_NONAME;
        } else {
            ips = it->second.ips;
            err = it->second.err;
            delay = it->second.delay;
        }
        if (ch_fault(F_GAI_DELAY)) {
            static const int64_t d[] = {2000000, 100000, 60000000, 900000000};
            delay += d[ch_draw(ST_NET, 4)];
        }
        if (delay > 0) {
            if (hook_gai) hook_gai();
            block_until([] { return false; }, S.now + delay);
        }
    }
    if (ch_fault(F_GAI_FAIL)) {
        static const int e[] = {EAI_AGAIN, EAI_FAIL, EAI_SYSTEM, EAI_MEMORY};
        err = e[ch_draw(ST_FAULT, 4)];
        static const int se[] = {EIO, EMFILE, ECONNREFUSED};
        if (err == EAI_SYSTEM) errno = se[gai_inj.size() % 3];
        gai_inj.push_back({err, err == EAI_SYSTEM ? errno : 0});
    }
    if (err) return err;
    int fam = hints ? hints->ai_family : 0;
    int port = service ? atoi(service) : 0;
    struct addrinfo *head = nullptr, **tail = &head;
    for (auto &ip : ips) {
        bool v6 = ip.find(':') != std::string::npos;
        if (fam == AF_INET && v6) continue;
        if (fam == AF_INET6 && !v6) continue;
        GaiNode *n = gai_node(ip, port, hints ? hints->ai_socktype : 0, hints ? hints->ai_protocol : 0);
        n->ai.ai_flags = hints ? hints->ai_flags : 0;
        *tail = &n->ai;
        tail = &n->ai.ai_next;
        gai_count++;
    }
    if (!head && !ips.empty()) return numeric ? EAI_ADDRFAMILY : EAI_NODATA;
    *res = head;
    return 0;
}
extern "C" void sim_freeaddrinfo(struct addrinfo *ai) {
    while (ai) {
        GaiNode *n = (GaiNode *)((char *)ai - offsetof(GaiNode, ai));
        if (n->magic != 0x6A16A16A1) {
            violation("C24 C17 C20", "gai:bad-free", "an address result was freed twice or was never allocated");
            sim_end_run();
        }
        struct addrinfo *nx = ai->ai_next;
        n->magic = 0xDEAD;
        ai->ai_next = nullptr;
        gai_count--;
        ai = nx;
    }
}

// ------------------------------------------------------------------ reset
void sim_reset() {
    memset(&S, 0, sizeof S);
    S.faults_on = true;
    S.tick_ns = 100;
    S.max_steps = 400000;
    S.spin_reads = 300;
    S.now = 1000000000000ll;
    S.wall_off = 1700000000ll * 1000000000ll;
    S.hash = 1469598103934665603ull;
    S.ihash = S.hash;
    evq = new std::set<Ev *, EvCmp>;
    evseq = 0;
    thrs = new std::vector<Thr *>;
    Thr *t = new Thr;
    t->id = 0;
    sem_init(&t->sem, 0, 0);
    thrs->push_back(t);
    cur_thr = 0;
    mutexes = new std::map<void *, SimMutex>;
    conds = new std::map<void *, SimCond>;
    sigpend = new std::deque<PSig>;
    sig_defer = -1;
    sig_echo = 0;
    preempt_left = 0;
    preempt_hold = 0;
    preempt_due = false;
    memset(sigacts, 0, sizeof sigacts);
    sig_stack = stack_t{};
    sig_stack.ss_flags = SS_DISABLE;
    memlist.next = memlist.prev = &memlist;
    quarantine = new std::deque<Hdr *>;
    maps = new std::map<uintptr_t, size_t>;
    fds = new std::vector<File *>;
    listeners = new std::map<std::string, Sock *>;
    remotes = new std::map<std::string, Remote>;
    extpeers = new std::map<int, ExtPeer *>;
    unixpaths = new std::set<std::string>;
    gaitab = new std::map<std::string, GaiEnt>;
    (void)fd_limit;
}
