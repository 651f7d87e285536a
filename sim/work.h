// Workload: plans, actors and the reference models / oracles.
#pragma once
#include "sim.h"
#include <set>

#define OP_LIST(X) \
    X(NOP) X(YIELD) X(SLEEP) X(SLEEPDL) X(SPAWN) X(JOIN) X(SUSPEND) X(RESUME) X(CANCEL) X(CSTATE) X(CTYPE) \
    X(PUSH) X(POP) X(EXIT) X(BUSY) X(STATS) \
    X(SEND) X(RECV) X(TRYRECV) X(BCAST) X(CLOSE) X(SELECT) X(TRYSELECT) X(RETAIN) \
    X(GYIELD) X(GNEXT) X(GCLOSE) X(GREL) \
    X(LOCK) X(RDLOCK) X(TRYLOCK) X(TRYRD) X(UNLOCK) X(CWAIT) X(CSIG) X(CBCAST) \
    X(WGADD) X(WGDONE) X(WGWAIT) \
    X(READ) X(WRITE) X(WAIT) X(CLOSEFD) \
    X(SREAD) X(SREADFULL) X(SBYTE) X(SUNREAD) X(SWRITE) X(SFLUSH) X(SSIZES) X(SCLOSE) \
    X(SERVE) X(ACCEPT) X(DIAL) X(LCLOSE) X(GAI) X(CONNECT) \
    X(SIGWATCH) X(SIGUNWATCH) X(SIGWAIT) X(WORK) X(STACK) X(REGS) X(FOREIGN) X(RAND) X(BADARG) X(RAISE) X(PIPE)
enum OpK {
#define X(n) O_##n,
    OP_LIST(X)
#undef X
    O_COUNT
};
extern const char *op_names[O_COUNT];

struct Op { int k; int a[5]; };

struct ChanP { int cap, size, refmode, rt; };
struct FdP { int type; int cap; int ext; int stream; int rt; }; // type 0 socketpair, 1 pipe; stream: 0 none 1 unbuffered 2 buffered
struct AddrP { int kind; int mode; int delay_us; };             // see gen.cc / net ops
struct ActP { int rt; int ctype; int gen; int gsize; int nargs; int start_us; int spawned; std::vector<Op> ops; };
struct XEv { int t_us; int kind; int a, b; };
enum { XE_SEND, XE_DRAIN, XE_CLOSE, XE_SHUT, XE_RESET, XE_SIGNAL, XE_WALL, XE_CONNECT };

struct Plan {
    std::string variant, profile;
    uint64_t seed = 0;
    int nrt = 1;
    int horizon_us = 20000;
    int tick_ns = 1000;
    int allocator = 1;      // 1: the custom allocator seam, 0: plain malloc
    uint32_t fprob[NFAULTS] = {0};
    int64_t mem_fail_at = 0, mem_fail_count = 0, mmap_fail_at = 0;
    int env_ctype = 0;
    int env_cstate = 0;                // 1: coroutines start with cancellation disabled
    int fdjump = 0, fdgap = 0;         // descriptors the program holds itself
    int fd0 = 0;                       // descriptor 0 is free: 1 from the beginning, 2 once the connections are made
    std::vector<ChanP> chans;
    std::vector<int> mutex_rt, wg_rt, cond_rt;
    std::vector<FdP> fds;
    std::vector<AddrP> addrs;
    std::vector<ActP> acts;
    std::vector<XEv> xevs;
};

std::string plan_text(const Plan &p);
bool plan_parse(const std::string &s, Plan &p);

void gen_plan(Plan &p, const std::string &profile, uint64_t seed, const std::string &variant);
void run_plan(const Plan &p);   // executes the plan in this process; results go to R

// what the build variant under test was compiled with
struct VariantInfo { int noworkers, maxworkers, ringsize, maxioworkers; long stacksize; int mt; int burst; };
extern "C" const struct VariantInfo variant_info;
