// Deterministic simulator for neco: every source of nondeterminism that the
// library meets (clock, epoll, descriptors, sockets, resolver, signals,
// threads, memory) is provided here and driven by recorded choice streams.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <functional>

// ---------------------------------------------------------------- choices
enum Stream { ST_SCHED = 0, ST_TIME, ST_FAULT, ST_NET, NSTREAMS };
static const int MAXREC = 60000; // recorded choices kept per stream

struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((uint32_t)l.size())); }
};

// ---------------------------------------------------------------- faults
#define FAULT_LIST(X) \
    X(EINTR_IO) X(EINTR_WAIT) X(SHORT_READ) X(SHORT_WRITE) X(SPUR_EAGAIN) \
    X(IO_ERROR) X(EPOLL_CREATE) X(EPOLL_CTL) X(EMFILE) X(SOCK_RESET) \
    X(CONN_REFUSED) X(CONN_SLOW) X(NET_DELAY) X(MALLOC_FAIL) X(MMAP_FAIL) \
    X(MPROTECT_FAIL) X(THREAD_FAIL) X(SPUR_WAKE) X(THREAD_SWITCH) X(CLOCK_STALL) X(CLOCK_COARSE) \
    X(WALL_JUMP) X(SLEEP_LATE) X(SIGNAL) X(GAI_FAIL) X(GAI_DELAY) X(EV_SHUFFLE) \
    X(SYSCALL_FAIL) X(PEER_CLOSE) X(PREEMPT) X(CANCEL) X(DEADLINE) X(UNIX_EAGAIN) X(SIG_THREAD) X(SIG_MIDWAY) X(THREAD_HOLD)
enum Fault {
#define X(n) F_##n,
    FAULT_LIST(X)
#undef X
    NFAULTS
};
extern const char *fault_names[NFAULTS];

// ---------------------------------------------------------------- result
struct ShmResult {
    volatile int done;      // 1 when the run finished by itself
    int exited;             // the simulated process called _Exit
    int exit_code;
    int nviol;              // violations recorded below (at most MAXVIOL)
    struct { char prop[64]; char key[96]; char msg[600]; uint64_t seq; } viol[8];
    uint64_t hash;          // hash of the event log
    uint64_t ihash;         // hash of the interleaving (actor, op, result)
    int64_t simtime;
    uint64_t steps, events, switches, ops, idles;
    uint64_t faults[NFAULTS];
    uint64_t probes[64];
    uint32_t outcome[96][8]; // how often each operation ended in each way
    uint32_t nrec[NSTREAMS];
    uint32_t rec[NSTREAMS][MAXREC];
    uint32_t ntrace;
    char trace[1 << 20];
};

// ---------------------------------------------------------------- simulator
struct Sim {
    // configuration of a run
    uint32_t fprob[NFAULTS];   // probability in 1/4096, 0 = off
    bool faults_on;
    int64_t tick_ns;           // mean clock advance per clock read
    uint64_t max_steps;        // steps without any event that count as a hang
    uint64_t prog_seq, prog_steps;
    bool trace_on;

    int64_t now;               // virtual monotonic ns
    int64_t wall_off;
    int64_t stall_total;       // sum of injected stalls
    int64_t last_stall_at;
    uint32_t spin_reads;       // clock reads without any event before the clock runs faster
    uint64_t seq;              // global event sequence number
    uint64_t steps;
    uint64_t hash, ihash;
};
extern Sim S;
extern ShmResult *R;
extern int64_t live_stats[8];

// choices
void ch_init(uint64_t seed, bool replay, const std::vector<uint32_t> *recs);
uint32_t ch_draw(Stream st, uint32_t n);           // uniform 0..n-1, 0 simplest
bool ch_fault(Fault f);                            // rolls S.fprob[f]
bool ch_chance(Stream st, uint32_t num, uint32_t den);

void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_mix(uint64_t v);
void violation(const char *props, const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void sim_end_run();                  // stop this run right now
void probe(int i);

// clock and events
int64_t sim_now();
void sim_at(int64_t t, std::function<void()> fn); // schedule an external event
void sim_process_due();
void sim_advance(int64_t to);

// hooks supplied by the workload
extern void (*hook_idle)(int64_t sleep_until);    // nothing runnable, about to sleep
extern void (*hook_round)();                      // scheduler polls without sleeping
bool net_path_exists(const std::string &key);
extern int preempt_hold;
int net_foreign_paths();                           // socket files that the library made for itself
extern uint64_t ev_fail_seq;                       // S.seq when the event queue last failed
extern void (*hook_syield)();                     // a thread gives up its slice
extern void (*hook_gai)();                        // a name lookup is about to wait
extern void (*hook_evfail)();                     // the event queue keeps failing
extern void (*hook_spin)(bool fresh);              // the clock is read again and again while no operation begins or ends
extern void (*hook_exit)(int code);               // simulated process called _Exit
extern void (*hook_kwrite)(int fd, const void *data, size_t n); // kernel accepted bytes
extern void (*hook_kread)(int fd, const void *data, size_t n, size_t asked);
extern uint64_t ev_report[8192][2];               // event number of the last readiness report (0 read, 1 write)
extern int64_t inj_io_error[8192];
extern int gai_calls;
struct ExtPeer;
ExtPeer *ext_by_uid(int uid);

// descriptors (kernel side helpers for workloads)
int k_pipe(int fds[2], int cap, bool nonblock);
int k_socketpair(int fds[2], int cap, bool nonblock);
int k_file(const std::string &content);
int k_close(int fd);
void k_close_keep_peer(int fd);     // forget the descriptor, its socket stays with the external peer
int k_open_fds();                   // number of open simulated descriptors
bool k_is_open(int fd);
extern int k_fd_jump, k_fd_gap;
extern int k_fd_zero;               // whether descriptor 0 may be handed out
std::string k_fd_list();
bool k_readable(int fd);            // level readiness incl. hup/err
bool k_writable(int fd);
bool k_hup(int fd);
int64_t k_avail(int fd);            // bytes readable now
bool k_eof(int fd);
bool k_nonblock(int fd);
bool k_listening(int fd);
bool k_connected(int fd);
int k_backlog(int fd);
std::string k_peer_key(int fd);      // whom a connecting socket reached
int thr_unreaped();                 // threads of the library that ended without being joined or detached
int k_conn_uid(int fd);             // identifies the connection (both ends equal)
int k_side(int fd);
int k_epoll_fds();
// external peers: the far end is owned by the simulator
struct ExtPeer;
ExtPeer *ext_attach(int fd);        // takes over the peer end of fd
void ext_send(ExtPeer *p, const void *data, size_t n);
size_t ext_recv(ExtPeer *p, void *data, size_t n); // take bytes the code wrote
size_t ext_pending(ExtPeer *p);
void ext_close(ExtPeer *p);
void ext_shutdown(ExtPeer *p);      // half close (no more bytes from the peer)
void ext_reset(ExtPeer *p);
size_t ext_space(ExtPeer *p);
// network
struct NetHost;                     // simulated remote listeners
enum { NET_ACCEPT = 0, NET_REFUSE, NET_BLACKHOLE, NET_SLOW, NET_SLOW_REFUSE };
void net_remote(int family, const char *ip, int port, int mode, int64_t delay);
void net_remote_unix(const char *path, int mode, int64_t delay);
extern std::function<void(int uid, const std::string &addr)> on_remote_accept;
int net_connect_external(const char *addrkey, int64_t delay); // remote client connects to a local listener, returns uid or -1
bool net_listening_key(const std::string &key);
uint64_t net_listen_changes();
uint64_t net_kernel_timeouts();      // connection attempts the kernel ended with ETIMEDOUT
void gai_set(const std::string &host, std::vector<std::string> ips, int err, int64_t delay);
int gai_live();                     // outstanding addrinfo results
extern std::map<std::string, int> unlink_log;

// signals
void sim_signal_at(int64_t t, int signo);
extern "C" void *sim_signal(int signo, void *h);
void sim_raise(int signo);
void *sim_sighandler_of(int signo);
void *sim_sigstack(void);
extern std::function<void(int)> on_signal_delivered, on_signal_returned;
bool sim_sig_pending(int signo);
void sim_signal_echo(int signo);

// threads
int thr_live();
bool thr_held();                    // some thread is not run by the system just now
int thr_self();
extern std::vector<std::pair<int, int>> gai_inj;
void sim_switch();                  // let other threads run
void sim_point();                   // possible thread switch
typedef void *(*thr_fn)(void *);
int thr_spawn(thr_fn fn, void *arg);
void thr_join(int id);
bool thr_done(int id);
bool thr_is_main();

// memory
void *mem_malloc(size_t n);
void *mem_realloc(void *p, size_t n);
void mem_free(void *p);
int64_t mem_live_blocks();
int64_t mem_live_bytes();
int64_t mmap_live();
void mem_check_all(const char *where);
std::string mem_leak_report();
bool mem_is_live(const void *p);
extern int64_t mem_fail_at;         // fail the n-th allocation (1 based), 0 = off
extern int mem_fence;               // give every block pages of its own, inaccessible once released
extern int64_t mem_fail_count;
extern int64_t mem_nallocs;
extern int64_t mmap_fail_at;
extern int64_t mem_failed_total;

void sim_reset();
