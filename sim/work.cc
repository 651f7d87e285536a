// Actors that drive the real library through its public API, and the
// reference models that judge every result. Nothing here looks inside neco.
#include "work.h"
#include <errno.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <signal.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <alloca.h>
#include <algorithm>
#include "neco.h"

extern "C" {
void sim_freeaddrinfo(struct addrinfo *ai);
int sim_close(int fd);
int sim_socket(int, int, int);
int sim_pipe(int out[2]);
int sim_nanosleep(const struct timespec *, struct timespec *);
int sim_sched_yield(void);
int neco_pipe(int pipefd[2]);
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
}

const char *op_names[O_COUNT] = {
#define X(n) #n,
    OP_LIST(X)
#undef X
};

static const int64_t NODL = INT64_MAX;
static const int64_t MS = 1000000;
static const int FOREVER = -1;

struct Act;
struct OpRec {
    Act *act = nullptr;
    int k = 0, obj = -1, obj2 = -1;
    uint64_t inv = 0, ret = 0;
    int64_t tinv = 0, tret = 0;
    int64_t D = NODL;
    uint64_t rop = 0;   // operations begun and ended in this runtime before
    int64_t stall0 = 0; // injected stalls before the call
    int64_t r = 0;
    int st = 0;              // 0 in progress, 1 returned, 2 terminated
    bool blocked = false;    // the model put it in a wait queue
    bool handed = false;     // the model satisfied it
    bool hclosed = false;    // ... with "closed"
    bool mayhand = false;    // possibly satisfied (ambiguous signal)
    int hidx = -1;
    uint32_t msg = 0;        // message sent / handed
    bool exp_set = false;
    int64_t exp = 0;
    bool pend_at_inv = false;
    bool cansel = true;      // reports cancellation
    int64_t maxlate = 0;
    uint64_t kd0 = 0;        // kernel byte count at invocation
    int64_t injerr0 = 0;
    int64_t memf0 = 0;
    uint64_t kto0 = 0;       // connection attempts timed out by the kernel before the call
    bool dowork = false;
    int workruns = 0;
    uint64_t wstart = 0, wend = 0;
    int wpin = 0;
    bool waitdis = false, flo = false;
    std::vector<int> chans;
    std::vector<int> ychk;   // yields of each actor since this op became satisfied
    OpRec *prev = nullptr;
};

struct HRec { Act *a; int kind; int runs = 0; bool begun = false, ended = false; int n; };

struct Act {
    int idx = 0;
    const ActP *p = nullptr;
    int64_t id = 0;
    int rt = 0;
    enum { IDLE, STARTED, RUN, TERM, DONE } st = IDLE;
    int entered = 0;
    OpRec *cur = nullptr;
    int ctype = NECO_CANCEL_INLINE;
    int cstate = NECO_CANCEL_ENABLE;
    bool pend = false;                 // a cancel is certainly pending
    std::vector<OpRec *> maybe;        // cancels that may be pending
    bool spend = false;                // the same, set aside while cancellation is disabled
    std::vector<OpRec *> smaybe;
    uint64_t lastconsume = 0;
    int ncw = 0;                       // cancels that arrived during the current condition wait
    std::map<int, int> holds;          // mutex -> 1 write, 2 read
    std::vector<HRec *> hs;
    HRec *hrun = nullptr;
    int64_t starter = 0;
    int64_t expargs[400];
    int argc = 0; void **argv = nullptr; // as the entry function received them
    uint32_t sigwatch = 0;
    std::vector<int> ownfds;
    int genref = -1;
    struct addrinfo *gai = nullptr;
    bool isroot = false;
    bool chref = false;
    uint64_t nyield = 0;
    int gen = -1;                      // channel model index of my generator
    uintptr_t slo = 0, shi = 0;        // stack region in use by a STACK op
    bool settling = false;
    int noio = 0;
    int64_t lastchild = 0;
    std::vector<int> locks_term;
    bool restarted = false;
};

struct ChanM {
    neco_chan *c = nullptr;
    int cap = 0, size = 0, rt = 0, refmode = 0;
    bool isgen = false;
    std::deque<uint32_t> buf;
    std::deque<OpRec *> sq;
    std::deque<std::pair<OpRec *, int>> rq;
    bool sclosed = false;
    uint32_t next = 1;
    int refs = 0;      // references held by the workload
    bool made = false;
    Act *gact = nullptr;
    bool drained() const { return sclosed && buf.empty() && sq.empty(); }
};
struct MutexM { neco_mutex m; std::map<Act *, int> holders; std::vector<OpRec *> req; int rt; };
struct WgM { neco_waitgroup w; int count = 0; std::vector<OpRec *> q; int rt; };
struct CSig { uint64_t seq; bool bcast; bool must; std::vector<OpRec *> cand; };
struct CondM { neco_cond c; std::deque<OpRec *> q; std::vector<CSig> sigs; std::vector<OpRec *> okw; int rt; uint64_t lastokinv = 0; };

struct Conn {
    int id = 0;
    int fd[2] = {-1, -1};
    bool open[2] = {false, false};
    uint64_t kacc[2] = {0, 0};   // bytes the kernel accepted from this side
    uint64_t krd[2] = {0, 0};    // bytes the kernel handed to the reader at this side
    uint64_t rlog[2] = {0, 0};   // bytes consumed by the reader at this side
    uint64_t wlog[2] = {0, 0};   // bytes the stream took from the writer at this side
    bool fuzzyw[2] = {false, false}, fuzzyr[2] = {false, false};
    OpRec *rbusy[2] = {nullptr, nullptr}, *wbusy[2] = {nullptr, nullptr};
    int nwait[2] = {0, 0};
    neco_stream *st[2] = {nullptr, nullptr};
    int stmode = 0;
    uint64_t kbase[2] = {0, 0};  // read position at which the stream's buffer begins
    uint64_t upos(int s) const { return rlog[s] - kbase[s]; }
    ExtPeer *ext = nullptr;
    uint64_t extsent = 0;
    bool peer_gone = false, reset = false, shut = false;
    int rt = 0;
    int type = 0;
};
struct LSock { int fd = -1; int rt = 0; int busy = 0; std::string key; };

static const Plan *P;
static std::vector<Act *> acts;       // plan actors, then one root per runtime
static std::vector<ChanM *> chans;
static std::vector<MutexM *> muts;
static std::vector<WgM *> wgs;
static std::vector<CondM *> conds;
static std::vector<Conn *> conns;
static std::map<int, std::pair<Conn *, int>> fdmap;
static std::map<int, Conn *> uidconn;
static std::map<int, int> uidacc;
static std::vector<LSock> lsocks;
static std::set<int64_t> idset;
static bool stopping;
static int roots_done;
static std::vector<int> rtthr;        // simulator thread of each runtime
static int sig_arr[32], sig_del[32], sig_watchers[32];
static uint64_t sig_seq, sig_idle, rt0_idles;    // when the last signal arrived
static int expect_exit_sig;
static uint32_t exit_may;             // pending signals whose last watcher left: the runtime must end the process
static bool sigpipe_fuzzy;            // a pending SIGPIPE was dropped with its last watcher
static void sig_drop(int s) {
    if (--sig_watchers[s] > 0 || sig_arr[s] <= sig_del[s]) return;
    if (s == SIGPIPE) sigpipe_fuzzy = true; else exit_may |= 1u << s;
}
static void sig_add(int s) { sig_watchers[s]++; exit_may &= ~(1u << s); }
static bool sig_on;
static uint32_t sig_gone;              // signals whose watcher is ending right now
static uint32_t sig_trans;             // signals whose watching is changing right now
static std::map<int, OpRec *> pinrun; // running work per pin
static std::map<int, std::vector<OpRec *>> pinq;
static int cur_nlive(int rt);
static uint64_t nops;

static uint32_t mix32(uint64_t x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
    return (uint32_t)x;
}
static inline uint8_t patb(int conn, int side, uint64_t off) { return (uint8_t)mix32(((uint64_t)conn << 40) ^ ((uint64_t)side << 39) ^ (off * 2654435761u) ^ (off >> 8)); }
static void fillpat(uint8_t *b, size_t n, int conn, int side, uint64_t off) { for (size_t i = 0; i < n; i++) b[i] = patb(conn, side, off + i); }
static ssize_t cmppat(const uint8_t *b, size_t n, int conn, int side, uint64_t off) {
    for (size_t i = 0; i < n; i++) if (b[i] != patb(conn, side, off + i)) return (ssize_t)i;
    return -1;
}
static void mkmsg(uint8_t *b, int size, int ch, uint32_t seq) {
    for (int i = 0; i < size; i++) b[i] = i < 4 ? (uint8_t)(seq >> (8 * i)) : (uint8_t)mix32(((uint64_t)ch << 48) ^ ((uint64_t)seq << 16) ^ (uint64_t)i);
}
static bool okmsg(const uint8_t *b, int size, int ch, uint32_t seq) {
    for (int i = 0; i < size; i++) {
        uint8_t e = i < 4 ? (uint8_t)(seq >> (8 * i)) : (uint8_t)mix32(((uint64_t)ch << 48) ^ ((uint64_t)seq << 16) ^ (uint64_t)i);
        if (b[i] != e) return false;
    }
    return true;
}
static int64_t mkdl(int d) {
    switch (d) {
    case -1: return NODL;
    case -2: return S.now - MS;
    case -3: return INT64_MIN;
    case -4: return INT64_MAX - 1;
    case -5: return 0;
    }
    return S.now + (int64_t)d * 1000;
}
static const char *ename(int64_t r) {
    switch (r) {
    case 0: return "OK"; case -1: return "ERROR"; case -2: return "INVAL"; case -3: return "PERM"; case -4: return "NOMEM";
    case -5: return "EOF"; case -6: return "NOTFOUND"; case -7: return "NOSIGWATCH"; case -8: return "CLOSED"; case -9: return "EMPTY";
    case -10: return "TIMEDOUT"; case -11: return "CANCELED"; case -12: return "BUSY"; case -13: return "NEGWAITGRP"; case -14: return "GAIERROR";
    case -15: return "UNREADFAIL"; case -16: return "PARTIALWRITE"; case -17: return "NOTGENERATOR"; case -18: return "NOTSUSPENDED";
    }
    static char b[4][24];
    static int i;
    i = (i + 1) & 3;
    snprintf(b[i], sizeof b[i], "%lld", (long long)r);
    return b[i];
}
static const char *aname(Act *a) {
    static char b[8][16];
    static int i;
    i = (i + 1) & 7;
    if (a->isroot) snprintf(b[i], 16, "root%d", a->rt); else snprintf(b[i], 16, "a%d", a->idx);
    return b[i];
}
// property tags by operation kind, used when a result breaks the operation's own contract
static const char *ktags(int k) {
    switch (k) {
    case O_SEND: case O_RECV: case O_TRYRECV: case O_BCAST: return "C01 C02";
    case O_CLOSE: return "C03";
    case O_SELECT: case O_TRYSELECT: return "C04";
    case O_GYIELD: case O_GNEXT: case O_GCLOSE: case O_GREL: return "C05";
    case O_LOCK: case O_RDLOCK: case O_TRYLOCK: case O_TRYRD: case O_UNLOCK: return "C06";
    case O_CWAIT: case O_CSIG: case O_CBCAST: return "C07";
    case O_WGADD: case O_WGDONE: case O_WGWAIT: return "C08";
    case O_SLEEP: case O_SLEEPDL: return "C09";
    case O_CANCEL: case O_CSTATE: case O_CTYPE: return "C10";
    case O_SPAWN: case O_JOIN: case O_SUSPEND: case O_RESUME: return "C12";
    case O_YIELD: return "C13";
    case O_WAIT: return "C14";
    case O_READ: case O_WRITE: return "C15";
    case O_SREAD: case O_SREADFULL: case O_SBYTE: case O_SUNREAD: case O_SWRITE: case O_SFLUSH: case O_SCLOSE: case O_SSIZES: return "C16";
    case O_SERVE: case O_ACCEPT: case O_DIAL: case O_CONNECT: case O_LCLOSE: case O_PIPE: return "C17";
    case O_SIGWATCH: case O_SIGUNWATCH: case O_SIGWAIT: return "C18";
    case O_WORK: return "C19";
    case O_STATS: return "C21";
    case O_FOREIGN: return "C22";
    case O_STACK: case O_REGS: return "C23";
    case O_GAI: return "C24";
    }
    return "C25";
}
static std::string tg(const char *a, const char *b = "") { return std::string(a) + " " + b; }
#define VIO(tags, key, ...) violation(tg(tags).c_str(), key, __VA_ARGS__)

// ---------------------------------------------------------------- begin / end
static bool isfdop(int k) {
    return k == O_READ || k == O_WRITE || k == O_WAIT || (k >= O_SREAD && k <= O_SCLOSE) || k == O_ACCEPT || k == O_DIAL || k == O_CONNECT || k == O_GAI || k == O_SERVE;
}
static uint64_t rtops[8];
static OpRec *begin(Act *a, int k, int obj, int64_t D = NODL) {
    if (a->st == Act::DONE) {
        VIO("C11 C12", "life:ran-after-end", "%s executes %s after it ended", aname(a), op_names[k]);
        sim_end_run();
    }
    if (a->st == Act::TERM && !a->hrun) {
        VIO("C11", "cleanup:continued", "%s executes %s after the operation that terminated it", aname(a), op_names[k]);
        sim_end_run();
    }
    if (a->rt == 0) sig_gone = 0;
    OpRec *r = new OpRec;
    r->act = a;
    r->k = k;
    r->obj = obj;
    r->D = D;
    r->inv = ++S.seq;
    r->tinv = S.now;
    r->stall0 = S.stall_total;
    r->rop = ++rtops[a->rt & 7];
    r->pend_at_inv = a->pend;
    r->prev = a->cur;
    r->memf0 = mem_failed_total + (int64_t)(R->faults[F_SYSCALL_FAIL] + R->faults[F_EPOLL_CTL] + R->faults[F_GAI_FAIL]);
    a->cur = r;
    nops++;
    if (S.trace_on) {
        char b[64] = "";
        if (D != NODL) snprintf(b, sizeof b, " dl=%+.3fms", D == INT64_MIN || D == INT64_MAX - 1 || D == 0 ? -0.0 : (double)(D - S.now) / 1e6);
        tracef("%.6f #%llu %s > %s obj=%d%s%s", (double)S.now / 1e9 - 1000, (unsigned long long)r->inv, aname(a), op_names[k], obj, b, a->pend ? " [cancel pending]" : "");
    }
    return r;
}
static void consume(Act *a) {
    a->pend = false;
    a->lastconsume = S.seq;
    std::vector<OpRec *> keep;
    for (auto c : a->maybe) if (c->st == 0) keep.push_back(c);
    a->maybe = keep;
}
// a pending cancel may or may not have been used up by an operation that was cut short
static void ambiguous(Act *a) {
    if (!a->pend && a->maybe.empty()) return;
    a->pend = false;
    a->lastconsume = S.seq;
    OpRec *d = new OpRec;
    d->st = 1;
    a->maybe.push_back(d);
}
static void expect(OpRec *r, int64_t v) { r->exp_set = true; r->exp = v; }
static void unqueue(OpRec *r);
static bool mem_faulty(OpRec *r) { return mem_failed_total + (int64_t)(R->faults[F_SYSCALL_FAIL] + R->faults[F_EPOLL_CTL] + R->faults[F_GAI_FAIL]) != r->memf0; }

// lasterr must match the result that was just returned
static void check_lasterr(Act *a, int k, int64_t ret, int le, int en, bool shortw) {
    int want = 0;
    if (ret == -1) {
        switch (en) {
        case EINVAL: want = NECO_INVAL; break;
        case EPERM: want = NECO_PERM; break;
        case ENOMEM: want = NECO_NOMEM; break;
        case ECANCELED: want = NECO_CANCELED; break;
        case ETIMEDOUT: want = NECO_TIMEDOUT; break;
        default: want = NECO_ERROR;
        }
    } else if (ret < 0) {
        want = (int)ret;
    } else if (shortw) {
        want = NECO_PARTIALWRITE;
    }
    if (le != want)
        VIO("C25", "lasterr:mismatch", "%s %s returned %s but the last error reads %s", aname(a), op_names[k], ename(ret), ename(le));
    else if (P->nrt > 1 && k != O_SCLOSE && ch_chance(ST_SCHED, 400, 4096)) {
        // the error values belong to the thread: they stay while others run
        int g = neco_gai_lasterr();
        sim_switch();
        if (neco_lasterr() != le || neco_gai_lasterr() != g)
            VIO("C22 C25", "lasterr:of-another", "%s: the last error changed from %s to %s (resolver: %d to %d) while only other threads ran", aname(a), ename(le), ename(neco_lasterr()), g, neco_gai_lasterr());
        errno = en;
    }
}
static int64_t norm(int64_t r, int le) { return r == -1 ? le : r; }

// Common end of an operation. r is the normalised result.
static void fin(OpRec *o, int64_t r) {
    Act *a = o->act;
    if (a->rt == 0) sig_gone = 0;
    rtops[a->rt & 7]++;
    o->ret = ++S.seq;
    o->tret = S.now;
    o->r = r;
    o->st = 1;
    if (a->cur != o) {
        VIO("C12 C23", "life:op-nesting", "%s: operation %s returned out of order", aname(a), op_names[o->k]);
        sim_end_run();
    }
    a->cur = o->prev;
    tracef("%.6f #%llu %s < %s obj=%d = %s", (double)S.now / 1e9 - 1000, (unsigned long long)o->ret, aname(a), op_names[o->k], o->obj, ename(r));
    R->outcome[o->k][r >= 0 ? 0 : r == NECO_TIMEDOUT ? 1 : r == NECO_CANCELED ? 2 : r == NECO_CLOSED ? 3 : r == NECO_NOMEM ? 5 : r == NECO_EMPTY || r == NECO_BUSY ? 6 : 7]++;
    S.ihash = (S.ihash ^ ((uint64_t)a->idx * 131 + (uint64_t)o->k * 7 + (uint64_t)(r + 64))) * 1099511628211ull;
    hash_mix((uint64_t)r + o->inv * 3 + o->ret * 7 + (uint64_t)o->k);
    if (a->st == Act::TERM && !a->hrun) {
        VIO("C11", "cleanup:op-returned-after-exit", "%s: %s returned after the coroutine was terminated", aname(a), op_names[o->k]);
        sim_end_run();
    }
    if (r == NECO_TIMEDOUT) {
        if ((o->D == NODL || o->tret < o->D) && !(o->k == O_DIAL && net_kernel_timeouts() != o->kto0))
            VIO(tg(ktags(o->k), "C09").c_str(), "time:early-timeout", "%s: %s reported a timeout %lld ns before its deadline", aname(a), op_names[o->k], (long long)(o->D - o->tret));
    }
    if (r == NECO_CANCELED) {
        if (!a->pend && a->maybe.empty() && !(a->st == Act::TERM))
            VIO(tg(ktags(o->k), "C10").c_str(), "cancel:spurious", "%s: %s reported cancelled although no cancel is pending", aname(a), op_names[o->k]);
        if (a->ctype == NECO_CANCEL_ASYNC)
            VIO("C10 C11", "cancel:async-returned", "%s: %s returned CANCELED although cancellation is asynchronous", aname(a), op_names[o->k]);
        consume(a);
    } else if (o->pend_at_inv && o->cansel && (r == NECO_OK || r == NECO_TIMEDOUT) && a->st != Act::TERM) {
        VIO(tg(ktags(o->k), "C10").c_str(), "cancel:missed", "%s: a cancel was pending before %s, which returned %s", aname(a), op_names[o->k], ename(r));
    }
    if (o->exp_set && r != o->exp && !(r == NECO_NOMEM && mem_faulty(o))) {
        VIO(tg(ktags(o->k), "C25").c_str(), "model:result", "%s: %s on object %d returned %s, the model allows only %s", aname(a), op_names[o->k], o->obj, ename(r), ename(o->exp));
        sim_end_run();
    }
    if (r == NECO_NOMEM && !mem_faulty(o))
        VIO(tg(ktags(o->k), "C20 C25").c_str(), "mem:spurious-nomem", "%s: %s reported out of memory although nothing failed", aname(a), op_names[o->k]);
    if (o->blocked) unqueue(o);
}

// ---------------------------------------------------------------- satisfied?
static bool mutex_free_for(MutexM *m, OpRec *o) {
    if (m->holders.empty()) return true;
    if (o->k != O_RDLOCK) return false;
    for (auto &h : m->holders) if (h.second == 1) return false;
    for (auto q : m->req) if (q != o && q->st == 0 && q->inv < o->inv && q->k != O_RDLOCK) return false;
    for (Act *b : acts) // a condition waiter may be queued for the mutex again
        for (OpRec *q = b->cur; q; q = q->prev)
            if (q->k == O_CWAIT && q->st == 0 && muts[(size_t)q->obj2] == m && q->inv < o->inv) return false;
    return true;
}
static bool deadline_due(OpRec *o, int64_t slack) {
    if (o->D == NODL) return false;
    return o->D < S.now && S.now - o->D > slack; // D may be INT64_MIN: overflow wraps below zero, still handled first
}
static bool overdue(OpRec *o, int64_t slack) {
    if (o->D == NODL || o->D >= S.now) return false;
    uint64_t late = (uint64_t)S.now - (uint64_t)o->D;
    if (o->k == O_SLEEP) slack += S.stall_total - o->stall0; // a relative sleep may start after the stall
    return late > (uint64_t)slack;
}
// returns the tags of the property that is broken if this operation keeps waiting, or null
static const char *satisfied(OpRec *o, bool idle, const char **why) {
    Act *a = o->act;
    (void)deadline_due;
    if (a->pend && a->cstate == NECO_CANCEL_ENABLE && o->cansel && a->st == Act::RUN && o->k != O_WORK && o->k != O_YIELD && o->k != O_WRITE && !(o->k >= O_SREAD && o->k <= O_SCLOSE)) {
        bool relock = o->k == O_CWAIT;
        if (!relock) { *why = "its cancel is pending"; return "C10 C13"; }
    }
    bool dl = overdue(o, 2 * MS) && S.last_stall_at < S.now - 2 * MS;
    switch (o->k) {
    case O_YIELD:
        if (idle) { *why = "it only yielded"; return "C13"; }
        return nullptr;
    case O_SEND: case O_RECV: case O_GYIELD: case O_GNEXT: case O_SELECT:
        if (o->handed) { *why = o->hclosed ? "the channel was closed" : "its message was exchanged"; return o->hclosed ? "C03 C05 C13" : o->k == O_SELECT ? "C04 C13" : "C01 C02 C05 C13"; }
        if (!o->blocked && idle) { *why = "it had nothing to wait for"; return "C02 C13"; }
        break;
    case O_BCAST: case O_CLOSE: case O_GCLOSE: case O_UNLOCK: case O_CSIG: case O_CBCAST: case O_WGDONE: case O_RESUME: case O_SPAWN:
        if (idle) { *why = "the operation never waits"; return "C13 C12"; }
        return nullptr;
    case O_LOCK: case O_RDLOCK:
        if (mutex_free_for(muts[(size_t)o->obj], o)) { *why = "the mutex is free"; return "C06 C13"; }
        break;
    case O_CWAIT:
        if (muts[(size_t)o->obj2]->holders.empty() && (o->handed || dl || (a->pend && a->cstate == NECO_CANCEL_ENABLE))) {
            *why = o->handed ? "it was signalled and the mutex is free" : "its wait is over and the mutex is free";
            return o->handed ? "C07 C06 C13" : "C07 C06 C09 C10 C13";
        }
        if (o->handed) return nullptr; // waiting for the mutex
        if (dl || a->pend) return nullptr;
        break;
    case O_WGWAIT:
        if (o->handed) { *why = "the count reached zero"; return "C08 C13"; }
        break;
    case O_SUSPEND:
        if (o->handed) { *why = "it was resumed"; return "C12 C13"; }
        break;
    case O_JOIN:
        if (acts[(size_t)o->obj]->st == Act::DONE) { *why = "the joined coroutine ended"; return "C12 C13"; }
        break;
    case O_CANCEL: {
        Act *t = acts[(size_t)o->obj];
        if (t->st == Act::DONE) { *why = "the target ended"; return "C10 C13"; }
        if (t->cstate == NECO_CANCEL_ENABLE && t->st == Act::RUN) { *why = "the target accepts cancels"; return "C10 C13"; }
        break;
    }
    case O_READ: case O_SREAD: case O_SREADFULL: case O_SBYTE:
        if (conns[(size_t)o->obj]->open[o->obj2] && k_readable(conns[(size_t)o->obj]->fd[o->obj2])) { *why = "the descriptor is readable"; return o->k == O_READ ? "C14 C15 C13" : "C14 C16 C13"; }
        break;
    case O_WRITE: case O_SWRITE: case O_SFLUSH: case O_SCLOSE:
        if (conns[(size_t)o->obj]->open[o->obj2] && k_writable(conns[(size_t)o->obj]->fd[o->obj2]) && idle) { *why = "the descriptor is writable"; return o->k == O_WRITE ? "C14 C15 C13" : "C14 C16 C13"; }
        break;
    case O_WAIT: {
        Conn *c = conns[(size_t)o->obj];
        int fd = c->fd[o->obj2];
        if (o->msg == 1 ? k_readable(fd) : k_writable(fd)) { *why = "the descriptor is ready"; return "C14 C13"; }
        break;
    }
    case O_ACCEPT:
        if (o->obj >= 0 && k_backlog(lsocks[(size_t)o->obj].fd) > 0) { *why = "a connection is pending"; return "C14 C17 C13"; }
        break;
    case O_SIGWAIT:
        for (int s = 1; s < 32; s++)
            if ((a->sigwatch & (1u << s)) && sig_arr[s] > sig_del[s] && !(s == SIGPIPE && sigpipe_fuzzy)) {
                // a signal that arrives just before the scheduler goes to sleep waits for that one sleep
                if (idle && sig_seq == rtops[0] && rt0_idles <= sig_idle + 1) continue; *why = "a signal it watches is pending"; return "C18 C13"; }
        break;
    case O_WORK:
        if (idle) { *why = "its background work is outstanding or finished"; return "C19 C13"; }
        if (o->workruns && o->wend && !thr_held()) { *why = "its background work finished"; return "C19 C13"; }
        return nullptr;
    }
    if (dl) {
        *why = "its deadline passed";
        if ((o->k == O_WRITE || (o->k >= O_SREAD && o->k <= O_SCLOSE)) && !idle) return nullptr;
        return "C09 C13";
    }
    return nullptr;
}

static void on_yield(Act *b) {
    b->nyield++;
    for (Act *a : acts) {
        if (a == b || a->rt != b->rt || a->st == Act::DONE || a->st == Act::IDLE) continue;
        OpRec *o = a->cur;
        if (!o) continue;
        if ((int)o->ychk.size() <= b->idx) o->ychk.resize(acts.size(), 0);
        if (o->k == O_YIELD) {
            if (++o->ychk[(size_t)b->idx] > 8) {
                VIO("C13", "fair:starved-yielder", "%s yielded %d times while the yield of %s did not return", aname(b), o->ychk[(size_t)b->idx], aname(a));
                sim_end_run();
            }
            continue;
        }
        const char *why = "";
        const char *t = satisfied(o, false, &why);
        if (!t) { o->ychk[(size_t)b->idx] = 0; continue; }
        if (++o->ychk[(size_t)b->idx] > 64) {
            VIO(t, "fair:starved-waiter", "%s yielded 64 times while %s stayed blocked in %s on object %d although %s", aname(b), aname(a), op_names[o->k], o->obj, why);
            sim_end_run();
        }
    }
}

static int npipe[8];
struct StatX { int64_t co, sl, sg, sn, rc, lk, wg, cs, sp, ev; };
static StatX model_stats(int rt) {
    StatX x{};
    for (Act *a : acts) {
        if (a->rt != rt || a->st == Act::IDLE || a->st == Act::DONE || a->st == Act::STARTED) continue;
        x.co++;
        OpRec *o = a->cur;
        if (!o) continue;
        switch (o->k) {
        case O_SLEEP: case O_SLEEPDL: if (o->blocked) x.sl++; break;
        case O_SEND: case O_GYIELD: if (o->blocked) x.sn++; break;
        case O_RECV: case O_GNEXT: case O_SELECT: if (o->blocked) x.rc++; break;
        case O_LOCK: case O_RDLOCK: if (o->blocked) x.lk++; break;
        case O_CWAIT: if (o->blocked) x.cs++; break;
        case O_WGWAIT: if (o->blocked) x.wg++; break;
        case O_SUSPEND: x.sp++; break;
        case O_SIGWAIT: if (o->blocked) x.sg++; break;
        default: if (isfdop(o->k)) x.ev++;
        }
    }
    return x;
}
static void check_stats(int rt, bool idle, const char *where, const int64_t *live) {
    if (npipe[rt & 7]) return; // a coroutine of the library's own is at work
    // live: coroutines sleepers evwaiters sigwaiters senders receivers locked waitgroupers condwaiters suspended
    StatX x = model_stats(rt);
    struct { const char *n; int64_t got, want; } c[] = {
        {"coroutines", live[0], x.co}, {"sleepers", live[1], x.sl}, {"sigwaiters", live[3], x.sg}, {"senders", live[4], x.sn},
        {"receivers", live[5], x.rc}, {"waitgroupers", live[7], x.wg}, {"suspended", live[9], x.sp}, {"locked+condwaiters", live[6] + live[8], x.lk + x.cs},
    };
    for (auto &e : c)
        if (e.got != e.want) {
            VIO("C21", "stats:mismatch", "%s: %s reads %lld, actually %lld", where, e.n, (long long)e.got, (long long)e.want);
            return;
        }
    if (live[6] < x.lk || live[8] > x.cs)
        VIO("C21", "stats:mismatch", "%s: locked %lld condwaiters %lld, actually at least %lld and at most %lld", where, (long long)live[6], (long long)live[8], (long long)x.lk, (long long)x.cs);
    if (live[2] > x.ev) VIO("C21", "stats:mismatch", "%s: evwaiters reads %lld, actually at most %lld", where, (long long)live[2], (long long)x.ev);
    (void)idle;
}

static int rt_of_thread() {
    int t = thr_self();
    for (size_t i = 0; i < rtthr.size(); i++) if (rtthr[i] == t) return (int)i;
    return -1;
}

// Every coroutine of the runtime is blocked in a plain wait that nothing has satisfied yet and that is not about to time out.
static bool nothing_to_do(int rt) {
    if (npipe[rt & 7] || ev_fail_seq == S.seq) return false;
    if (rt == 0) for (int s = 1; s < 32; s++) if (sig_arr[s] > sig_del[s] || sim_sig_pending(s)) return false;
    bool any = false;
    for (Act *a : acts) {
        if (a->rt != rt || a->st == Act::IDLE || a->st == Act::DONE) continue;
        OpRec *o = a->cur;
        if (a->st == Act::STARTED || !o) return false;
        switch (o->k) {
        case O_SLEEP: case O_SLEEPDL: case O_SEND: case O_GYIELD: case O_RECV: case O_GNEXT: case O_SELECT: case O_LOCK: case O_RDLOCK:
        case O_CWAIT: case O_WGWAIT: case O_JOIN: case O_SUSPEND: case O_SIGWAIT: case O_READ: case O_ACCEPT: case O_WAIT: break;
        default: return false;
        }
        const char *why = "";
        if (o->D < S.now + 3 * MS || satisfied(o, false, &why)) return false;
        any = true;
    }
    return any;
}

// The scheduler turns without sleeping and no operation begins or ends: whatever must run has to run in a few turns.
static void spin_hook(bool fresh) {
    static int turns[8];
    static OpRec *seen[8];
    static int nseen[8];
    if (fresh) {
        memset(turns, 0, sizeof turns);
        memset(nseen, 0, sizeof nseen);
        return;
    }
    int rt = rt_of_thread();
    if (rt < 0 || rt > 7 || ++turns[rt] % 64) return;
    if (turns[rt] >= 192 && nothing_to_do(rt)) {
        VIO("C13", "sched:busy-wait", "the scheduler turns and turns without ever sleeping although every coroutine is blocked and nothing is due");
        sim_end_run();
    }
    for (Act *a : acts) {
        if (a->rt != rt || a->st == Act::IDLE || a->st == Act::DONE || !a->cur) continue;
        const char *why = "";
        const char *t = satisfied(a->cur, false, &why);
        if (!t) continue;
        if (seen[rt] != a->cur) seen[rt] = a->cur, nseen[rt] = 0;
        if (++nseen[rt] > 5) {
            VIO(t, "sched:spins", "the scheduler turns and turns although %s, blocked in %s on object %d, must run: %s", aname(a), op_names[a->cur->k], a->cur->obj, why);
            sim_end_run();
        }
        break;
    }
}

// The event queue keeps failing for one coroutine: the others have to get their turn nevertheless.
static void evfail_hook() {
    static uint64_t seq;
    static int n;
    if (S.seq != seq) seq = S.seq, n = 0;
    int rt = rt_of_thread();
    if (rt < 0 || ++n < 100) return;
    for (Act *a : acts)
        if (a->rt == rt && a->st != Act::IDLE && a->st != Act::DONE && a->cur && a->cur->k == O_YIELD) {
            VIO("C13 C14", "sched:evfail-starves", "a coroutine retries its event registration again and again while the yield of %s does not return", aname(a));
            sim_end_run();
        }
}

// The same for a runtime's thread that waits for another thread by giving up its time slice.
static void syield_hook() {
    static uint64_t seq[4];
    static int n[4];
    int rt = rt_of_thread();
    if (rt < 0) return;
    if (S.seq != seq[rt & 3]) seq[rt & 3] = S.seq, n[rt & 3] = 0;
    if (++n[rt & 3] < 50) return;
    for (Act *a : acts)
        if (a->rt == rt && a->st != Act::IDLE && a->st != Act::DONE && a->cur && a->cur->k == O_YIELD) {
            VIO("C13 C19", "sched:thread-spins", "the runtime's thread waits in a loop for another thread while the yield of %s does not return", aname(a));
            sim_end_run();
        }
}
static void gai_hook() {
    if (rt_of_thread() < 0) return;
    VIO("C24 C13", "gai:blocks-scheduler", "a name lookup blocks the scheduler's thread");
    sim_end_run();
}
static std::vector<void *> gen_blocks;

static void idle_hook(int64_t wake) {
    int rt = rt_of_thread();
    if (rt < 0) return;
    if (rt == 0) rt0_idles++;
    int64_t minD = NODL;
    Act *mina = nullptr;
    if ((expect_exit_sig || exit_may) && rt == 0) {
        VIO("C18", "signal:unwatched-ignored", "signal %d has no watcher but the process goes on", expect_exit_sig ? expect_exit_sig : __builtin_ctz(exit_may));
        sim_end_run();
    }
    for (Act *a : acts) {
        if (a->rt != rt || a->st == Act::IDLE || a->st == Act::DONE) continue;
        if (a->st == Act::STARTED) {
            violation(tg("C12 C13", a->gen >= 0 ? "C05" : "").c_str(), "start:never-ran", "%s was started but has not run although the scheduler sleeps", aname(a));
            sim_end_run();
        }
        OpRec *o = a->cur;
        if (!o) {
            VIO("C13 C12", "sched:runnable-at-sleep", "%s is not waiting for anything although the scheduler sleeps", aname(a));
            sim_end_run();
        }
        const char *why = "";
        const char *t = satisfied(o, true, &why);
        if (t) {
            VIO(t, "sched:missed-wakeup", "the scheduler sleeps although %s, blocked in %s on object %d, must run: %s", aname(a), op_names[o->k], o->obj, why);
            sim_end_run();
        }
        int64_t oD = o->D;
        if (o->k == O_SLEEP && oD < NODL - S.stall_total) oD += S.stall_total - o->stall0;
        if (oD < minD && o->k != O_CWAIT) { minD = oD; mina = a; }
    }
    if (mina && wake > minD && wake - (minD < S.now ? S.now : minD) > 2 * MS && S.last_stall_at < S.now - 2 * MS) {
        VIO("C09 C13", "time:sleeps-past-deadline", "the scheduler sleeps until %lld ns after the deadline of %s in %s", (long long)(wake - minD), aname(mina), op_names[mina->cur->k]);
        sim_end_run();
    }
}

// ---------------------------------------------------------------- channel model
static void drop_select(OpRec *o) {
    for (int ci : o->chans) {
        auto &q = chans[(size_t)ci]->rq;
        for (size_t i = 0; i < q.size();) if (q[i].first == o) q.erase(q.begin() + (long)i); else i++;
    }
}
static void hand(OpRec *r, int idx, uint32_t msg, bool closed) {
    r->handed = true;
    r->hclosed = closed;
    r->hidx = idx;
    r->msg = closed ? 0 : msg;
    if (r->k == O_SELECT) drop_select(r);
}
static void unqueue(OpRec *o) {
    switch (o->k) {
    case O_SEND: case O_GYIELD: {
        auto &q = chans[(size_t)o->obj]->sq;
        q.erase(std::remove(q.begin(), q.end(), o), q.end());
        break;
    }
    case O_RECV: case O_GNEXT: {
        auto &q = chans[(size_t)o->obj]->rq;
        for (size_t i = 0; i < q.size();) if (q[i].first == o) q.erase(q.begin() + (long)i); else i++;
        break;
    }
    case O_SELECT: drop_select(o); break;
    case O_LOCK: case O_RDLOCK: {
        auto &q = muts[(size_t)o->obj]->req;
        q.erase(std::remove(q.begin(), q.end(), o), q.end());
        break;
    }
    case O_CWAIT: {
        auto &q = conds[(size_t)o->obj]->q;
        q.erase(std::remove(q.begin(), q.end(), o), q.end());
        break;
    }
    case O_WGWAIT: {
        auto &q = wgs[(size_t)o->obj]->q;
        q.erase(std::remove(q.begin(), q.end(), o), q.end());
        break;
    }
    }
}
// send: model step at invocation
static void m_send(OpRec *o, ChanM *c, uint32_t msg, bool bcast) {
    o->msg = msg;
    if (c->sclosed) { expect(o, NECO_CLOSED); o->cansel = false; return; }
    if (o->act->pend && !bcast) { expect(o, NECO_CANCELED); return; }
    if (bcast) {
        o->cansel = false;
        int n = 0;
        while (!c->rq.empty()) {
            auto r = c->rq.front();
            c->rq.pop_front();
            hand(r.first, r.second, msg, false);
            n++;
        }
        expect(o, n);
        return;
    }
    if (!c->rq.empty()) {
        auto r = c->rq.front();
        c->rq.pop_front();
        hand(r.first, r.second, msg, false);
        expect(o, NECO_OK);
        return;
    }
    if ((int)c->buf.size() < c->cap) {
        c->buf.push_back(msg);
        expect(o, NECO_OK);
        return;
    }
    c->sq.push_back(o);
    o->blocked = true;
}
// take the next message if there is one
static bool m_take(ChanM *c, uint32_t *msg) {
    if (!c->buf.empty()) {
        *msg = c->buf.front();
        c->buf.pop_front();
        if (!c->sq.empty()) {
            OpRec *s = c->sq.front();
            c->sq.pop_front();
            c->buf.push_back(s->msg);
            s->handed = true;
        }
        return true;
    }
    if (!c->sq.empty()) {
        OpRec *s = c->sq.front();
        c->sq.pop_front();
        *msg = s->msg;
        s->handed = true;
        return true;
    }
    return false;
}
static void m_recv(OpRec *o, ChanM *c, bool tryonly) {
    uint32_t m;
    if (c->drained()) { expect(o, NECO_CLOSED); o->cansel = false; return; }
    if (o->act->pend) { expect(o, NECO_CANCELED); return; }
    if (m_take(c, &m)) { o->msg = m; o->handed = true; expect(o, NECO_OK); return; }
    if (tryonly) { expect(o, NECO_EMPTY); return; }
    c->rq.push_back({o, 0});
    o->blocked = true;
}
static void m_close(ChanM *c) {
    c->sclosed = true;
    if (!c->buf.empty() || !c->sq.empty()) return;
    while (!c->rq.empty()) {
        auto r = c->rq.front();
        c->rq.pop_front();
        hand(r.first, r.second, 0, true);
    }
}
// result of a send/recv that was queued
static void fin_chan(OpRec *o, int64_t r, bool strictclose) {
    Act *a = o->act;
    (void)strictclose;
    if (o->blocked && a->st != Act::TERM) {
        if (o->handed) {
            int64_t want = o->k == O_SELECT ? o->hidx : o->hclosed ? NECO_CLOSED : NECO_OK;
            if (r != want) {
                const char *tags = o->hclosed ? "C03 C05" : o->k == O_SELECT ? "C04 C01" : o->k == O_GYIELD || o->k == O_GNEXT ? "C05 C01" : "C01";
                const char *what = o->hclosed ? "was told the channel closed" : (o->k == O_SEND || o->k == O_GYIELD) ? "had its message taken" : "was given a message";
                violation(tg(tags, r == NECO_CANCELED ? "C10" : r == NECO_TIMEDOUT ? "C09" : "C02").c_str(), r == NECO_TIMEDOUT ? "chan:lost-at-deadline" : r == NECO_CANCELED ? "chan:lost-at-cancel" : "chan:wrong-result",
                          "%s: %s on channel %d %s but returned %s instead of %s", aname(a), op_names[o->k], o->obj, what, ename(r), ename(want));
                if (r >= 0 || r == NECO_CLOSED) { fin(o, r); sim_end_run(); }
            }
        } else if (r != NECO_TIMEDOUT && r != NECO_CANCELED) {
            violation(tg(o->k == O_SELECT ? "C04 C02" : o->k == O_GYIELD || o->k == O_GNEXT ? "C05 C02" : "C01 C02", r == NECO_CLOSED ? "C03" : "").c_str(), "chan:from-nowhere", "%s: %s on channel %d returned %s although nothing was exchanged", aname(a), op_names[o->k], o->obj, ename(r));
            fin(o, r);
            sim_end_run();
        }
    }
    fin(o, r);
}

// ---------------------------------------------------------------- mutex model
static void grant_check(OpRec *o, int mode, bool relock) {
    MutexM *m = muts[(size_t)(o->k == O_CWAIT ? o->obj2 : o->obj)];
    Act *a = o->act;
    for (auto &h : m->holders)
        if (h.first != a && (mode == 1 || h.second == 1)) {
            violation(tg("C06", relock ? "C07" : "").c_str(), "mutex:exclusion", "%s got mutex %d (%s) while %s holds it (%s)", aname(a), o->k == O_CWAIT ? o->obj2 : o->obj, mode == 1 ? "write" : "read", aname(h.first), h.second == 1 ? "write" : "read");
            sim_end_run();
        }
    if (!relock)
        for (auto q : m->req)
            if (q != o && q->st == 0 && q->inv < o->inv && !q->exp_set && !(mode == 2 && q->k == O_RDLOCK)) {
                VIO("C06", "mutex:overtaken", "%s got mutex %d although %s has been waiting for it longer", aname(a), o->obj, aname(q->act));
                sim_end_run();
            }
    m->holders[a] = mode;
}

// ---------------------------------------------------------------- termination
static void mark_done(Act *a) {
    a->st = Act::DONE;
    ++S.seq;
    tracef("%.6f #%llu %s ended", (double)S.now / 1e9 - 1000, (unsigned long long)S.seq, aname(a));
    for (int s = 1; s < 32; s++) if (a->sigwatch & (1u << s)) sig_drop(s);
    sig_gone |= a->sigwatch;
    a->sigwatch = 0;
    a->pend = a->spend = false;
    a->maybe.clear();
    a->smaybe.clear();
    if (a->gen >= 0) m_close(chans[(size_t)a->gen]);
}
// called by every cleanup handler that runs: the coroutine is being terminated (or the handler was popped with execute)
static void term_begin(Act *a) {
    if (a->st == Act::TERM) return;
    a->st = Act::TERM;
    ++S.seq;
    bool exiting = a->cur && a->cur->k == O_EXIT;
    tracef("%.6f #%llu %s terminates in %s", (double)S.now / 1e9 - 1000, (unsigned long long)S.seq, aname(a), a->cur ? op_names[a->cur->k] : "-");
    if (!exiting) {
        if (a->ctype != NECO_CANCEL_ASYNC) {
            VIO("C10 C11", "cancel:inline-terminated", "%s was terminated although its cancellation is inline", aname(a));
        } else if (!a->pend && a->maybe.empty()) {
            VIO("C10 C11", "cancel:spurious-termination", "%s was terminated in %s although no cancel is pending", aname(a), a->cur ? op_names[a->cur->k] : "-");
        }
    }
    for (OpRec *o = a->cur; o; o = o->prev) {
        o->st = 2;
        o->ret = S.seq;
        R->outcome[o->k][4]++;
        if (o->blocked && o->handed && (o->k == O_SEND || o->k == O_RECV || o->k == O_GNEXT || o->k == O_GYIELD || o->k == O_SELECT) && !o->hclosed)
            violation(o->k == O_SELECT ? "C04 C01 C10" : "C01 C05 C10", "chan:lost-at-cancel", "%s: %s on channel %d exchanged a message but the coroutine was terminated", aname(a), op_names[o->k], o->obj);
        if (o->blocked) unqueue(o);
        if (o->k == O_CWAIT && !o->pend_at_inv) {
            if (o->handed) VIO("C07 C10", "cond:wakeup-lost-at-cancel", "%s was signalled on condition %d but terminated by a cancel", aname(a), o->obj);
            grant_check(o, 1, true);
            a->holds[o->obj2] = 1;
        } else if (o->k == O_CWAIT) {
            muts[(size_t)o->obj2]->holders[a] = 1; // returned before releasing
            a->holds[o->obj2] = 1;
        }
        if (o->k == O_WORK && !o->wend) VIO("C19 C10", "work:terminated-early", "%s was terminated while its background work was outstanding", aname(a));
        if ((o->k == O_READ || (o->k >= O_SREAD && o->k <= O_SBYTE)) && o->obj >= 0) {
            Conn *c = conns[(size_t)o->obj];
            if (c->rbusy[o->obj2] == o) c->rbusy[o->obj2] = nullptr;
            if (o->k == O_READ && c->krd[o->obj2] != o->kd0) VIO("C15 C10", "io:read-lost-at-cancel", "%s: a terminated read consumed %lld bytes", aname(a), (long long)(c->krd[o->obj2] - o->kd0));
            c->fuzzyr[o->obj2] = true;
        }
        if ((o->k == O_WRITE || (o->k >= O_SWRITE && o->k <= O_SCLOSE)) && o->obj >= 0) {
            Conn *c = conns[(size_t)o->obj];
            if (c->wbusy[o->obj2] == o) c->wbusy[o->obj2] = nullptr;
            if (o->k != O_WRITE) c->fuzzyw[o->obj2] = true;
            else if (c->kacc[o->obj2] != o->kd0) VIO("C15 C10", "io:write-lost-at-cancel", "%s: a write that was cut short by a cancel transferred %lld bytes but did not return", aname(a), (long long)(c->kacc[o->obj2] - o->kd0));
            if (o->k == O_SCLOSE) { // the stream is closed all the same
                int s = o->obj2;
                if (c->rbusy[s] == o) c->rbusy[s] = nullptr;
                if (k_is_open(c->fd[s])) VIO("C16 C20 C11", "stream:close-leaks-fd", "%s: closing the stream of connection %d was canceled and left its descriptor open", aname(a), c->id);
                c->st[s] = nullptr;
                c->open[s] = false;
                fdmap.erase(c->fd[s]);
            }
        }
        if (o->k == O_WAIT) conns[(size_t)o->obj]->nwait[o->obj2]--;
        if (o->k == O_ACCEPT && o->obj >= 0) lsocks[(size_t)o->obj].busy--;
    }
    a->cur = nullptr;
    consume(a);
    a->maybe.clear();
    a->smaybe.clear();
    a->spend = false;
    a->cstate = NECO_CANCEL_DISABLE;
    a->slo = a->shi = 0;
}

static void do_unlock(Act *a, int m) {
    MutexM *mm = muts[(size_t)m];
    OpRec *o = begin(a, O_UNLOCK, m);
    o->cansel = false;
    mm->holders.erase(a);
    a->holds.erase(m);
    int64_t r = neco_mutex_unlock(&mm->m);
    int en = errno;
    check_lasterr(a, O_UNLOCK, r, neco_lasterr(), en, false);
    expect(o, NECO_OK);
    fin(o, r);
}
static void do_yield(Act *a) {
    OpRec *o = begin(a, O_YIELD, -1);
    o->cansel = false;
    int64_t r = neco_yield();
    int en = errno;
    check_lasterr(a, O_YIELD, r, neco_lasterr(), en, false);
    expect(o, NECO_OK);
    if (a->pend && a->ctype == NECO_CANCEL_ASYNC && a->cstate == NECO_CANCEL_ENABLE && a->st != Act::TERM)
        VIO("C10 C11", "cancel:async-outlived", "%s: a yield returned to a coroutine that was cancelled asynchronously", aname(a));
    fin(o, r);
    on_yield(a);
}
static int64_t do_sleep(Act *a, int64_t D, bool rel, int64_t ns) {
    OpRec *o = begin(a, rel ? O_SLEEP : O_SLEEPDL, -1, D);
    bool past = D < S.now;
    if (past) { expect(o, NECO_TIMEDOUT); o->cansel = false; }
    else o->blocked = true;
    int64_t r = rel ? neco_sleep(ns) : neco_sleep_dl(D);
    int en = errno;
    check_lasterr(a, o->k, r, neco_lasterr(), en, false);
    if (r == NECO_TIMEDOUT && !past && S.now < D + MS) { /* boundary */ }
    if (!past) {
        if (r == NECO_OK && o->blocked && S.now < D) VIO("C09", "time:early-sleep", "%s: a sleep ended %lld ns early", aname(a), (long long)(D - S.now));
        if (r == NECO_TIMEDOUT) { o->pend_at_inv = false; } // the deadline passed before the call looked at the clock
        else if (r != NECO_OK && r != NECO_CANCELED) VIO("C09 C25", "time:sleep-result", "%s: sleep returned %s", aname(a), ename(r));
    }
    fin(o, r);
    if (r == NECO_OK) { std::vector<OpRec *> keep; for (auto c : a->maybe) if (c->st == 0) keep.push_back(c); a->maybe = keep; }
    return r;
}
// make the cancel state exactly known before an operation begins
static void settle(Act *a) {
    if (a->pend || a->maybe.empty() || a->st != Act::RUN || a->settling) return;
    a->settling = true;
    int64_t d = 20000; // longer each time: the clock may pass the deadline before the call looks
    for (int i = 0; i < 6; i++, d *= 12)
        if (do_sleep(a, S.now + d, true, d) != NECO_TIMEDOUT) break;
    a->settling = false;
}
static void end_ops_of(Act *a) {
    // the coroutine gives back everything the plan let it own
    while (!a->holds.empty()) do_unlock(a, a->holds.begin()->first);
    for (int fd : a->ownfds) { fdmap.erase(fd); sim_close(fd); }
    a->ownfds.clear();
    if (a->genref >= 0) { ChanM *g = chans[(size_t)a->genref]; a->genref = -1; g->refs--; neco_gen_release((neco_gen *)g->c); }
    if (a->gai) { sim_freeaddrinfo(a->gai); a->gai = nullptr; }
    if (a->chref) {
        a->chref = false;
        for (size_t i = 0; i < P->chans.size(); i++)
            if (chans[i]->refmode && chans[i]->rt == a->rt && chans[i]->made) { chans[i]->refs--; neco_chan_release(chans[i]->c); }
    }
}
static void run_handler_body(Act *a, HRec *h) {
    switch (h->kind) {
    case 1: do_yield(a); break;
    case 2: do_sleep(a, S.now + 40000, true, 40000); break;
    case 3: do_yield(a); do_sleep(a, S.now + 250000, true, 250000); do_yield(a); break;
    default: break;
    }
}
static void args_check(Act *a) {
    for (int i = 0; i < a->p->nargs && a->argv && 1 + i < a->argc; i++)
        if ((int64_t)a->argv[1 + i] != a->expargs[i]) { VIO("C23 C12 C11", "start:args-changed", "%s: argument %d changed before its cleanup handlers ran", aname(a), i + 1); break; }
}
static void handler(void *arg) {
    HRec *h = (HRec *)arg;
    Act *a = h->a;
    args_check(a);
    bool popped = a->st == Act::RUN && !a->hs.empty() && a->hs.back() == h && h->n == -2;
    if (!popped) term_begin(a);
    if (h->runs++) VIO("C11", "cleanup:twice", "%s: a cleanup handler runs twice", aname(a));
    if (a->hrun && !a->hrun->ended) VIO("C11", "cleanup:interrupted", "%s: a cleanup handler was cut short", aname(a));
    if (a->hs.empty() || a->hs.back() != h) VIO("C11", "cleanup:order", "%s: a cleanup handler runs out of order", aname(a));
    else a->hs.pop_back();
    if (!popped) a->hrun = h; // a handler run by pop is ordinary code and can be cancelled
    h->begun = true;
    tracef("%.6f %s handler kind=%d", (double)S.now / 1e9 - 1000, aname(a), h->kind);
    run_handler_body(a, h);
    args_check(a);
    h->ended = true;
}
static void base_handler(void *arg) {
    Act *a = (Act *)arg;
    args_check(a);
    term_begin(a);
    if (a->hrun && !a->hrun->ended) VIO("C11", "cleanup:interrupted", "%s: a cleanup handler was cut short", aname(a));
    if (!a->hs.empty()) VIO("C11", "cleanup:skipped", "%s: %zu cleanup handlers did not run", aname(a), a->hs.size());
    static HRec dummy{};
    a->hrun = &dummy;
    dummy.ended = true;
    end_ops_of(a);
    a->hrun = nullptr;
    mark_done(a);
}
#include "work_ops.inc"
