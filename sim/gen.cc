// Plan generation (seeded) and the textual form of plans.
#include "work.h"
#include <sstream>
#include <signal.h>
#include <algorithm>

// ---------------------------------------------------------------- text form
std::string plan_text(const Plan &p) {
    std::ostringstream o;
    o << "profile " << p.profile << "\nseed " << p.seed << "\nnrt " << p.nrt << "\nhorizon_us " << p.horizon_us
      << "\ntick_ns " << p.tick_ns << "\nallocator " << p.allocator << "\nenv_ctype " << p.env_ctype << "\nenv_cstate " << p.env_cstate << "\nfdgap " << p.fdjump << " " << p.fdgap << "\nfd0 " << p.fd0
      << "\nmem " << p.mem_fail_at << " " << p.mem_fail_count << " " << p.mmap_fail_at << "\n";
    for (int i = 0; i < NFAULTS; i++) if (p.fprob[i]) o << "fault " << fault_names[i] << " " << p.fprob[i] << "\n";
    for (auto &c : p.chans) o << "chan " << c.cap << " " << c.size << " " << c.refmode << " " << c.rt << "\n";
    for (int r : p.mutex_rt) o << "mutex " << r << "\n";
    for (int r : p.wg_rt) o << "wg " << r << "\n";
    for (int r : p.cond_rt) o << "cond " << r << "\n";
    for (auto &f : p.fds) o << "fd " << f.type << " " << f.cap << " " << f.ext << " " << f.stream << " " << f.rt << "\n";
    for (auto &a : p.addrs) o << "addr " << a.kind << " " << a.mode << " " << a.delay_us << "\n";
    for (auto &a : p.acts) {
        o << "act " << a.rt << " " << a.ctype << " " << a.gen << " " << a.gsize << " " << a.nargs << " " << a.start_us << " " << a.spawned << "\n";
        for (auto &x : a.ops) {
            o << "  " << op_names[x.k];
            for (int v : x.a) o << " " << v;
            o << "\n";
        }
    }
    for (auto &x : p.xevs) o << "xev " << x.t_us << " " << x.kind << " " << x.a << " " << x.b << "\n";
    return o.str();
}
bool plan_parse(const std::string &s, Plan &p) {
    std::istringstream in(s);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#') continue;
        if (w == "end") break;
        if (w == "profile") l >> p.profile;
        else if (w == "seed") l >> p.seed;
        else if (w == "nrt") l >> p.nrt;
        else if (w == "horizon_us") l >> p.horizon_us;
        else if (w == "tick_ns") l >> p.tick_ns;
        else if (w == "allocator") l >> p.allocator;
        else if (w == "env_ctype") l >> p.env_ctype;
        else if (w == "env_cstate") l >> p.env_cstate;
        else if (w == "fd0") l >> p.fd0;
        else if (w == "fdgap") l >> p.fdjump >> p.fdgap;
        else if (w == "mem") l >> p.mem_fail_at >> p.mem_fail_count >> p.mmap_fail_at;
        else if (w == "fault") {
            std::string n;
            uint32_t v;
            l >> n >> v;
            for (int i = 0; i < NFAULTS; i++) if (n == fault_names[i]) p.fprob[i] = v;
        } else if (w == "chan") { ChanP c; l >> c.cap >> c.size >> c.refmode >> c.rt; p.chans.push_back(c); }
        else if (w == "mutex") { int r; l >> r; p.mutex_rt.push_back(r); }
        else if (w == "wg") { int r; l >> r; p.wg_rt.push_back(r); }
        else if (w == "cond") { int r; l >> r; p.cond_rt.push_back(r); }
        else if (w == "fd") { FdP f; l >> f.type >> f.cap >> f.ext >> f.stream >> f.rt; p.fds.push_back(f); }
        else if (w == "addr") { AddrP a; l >> a.kind >> a.mode >> a.delay_us; p.addrs.push_back(a); }
        else if (w == "act") { ActP a; l >> a.rt >> a.ctype >> a.gen >> a.gsize >> a.nargs >> a.start_us >> a.spawned; p.acts.push_back(a); }
        else if (w == "xev") { XEv x; l >> x.t_us >> x.kind >> x.a >> x.b; p.xevs.push_back(x); }
        else {
            int k = -1;
            for (int i = 0; i < O_COUNT; i++) if (w == op_names[i]) k = i;
            if (k < 0 || p.acts.empty()) return false;
            Op x;
            x.k = k;
            for (int &v : x.a) l >> v;
            p.acts.back().ops.push_back(x);
        }
    }
    return true;
}

// ---------------------------------------------------------------- generation
struct W { int k, w; };
struct Gen {
    Plan &p;
    Prng r;
    std::vector<W> ws;
    bool nodl = false;      // plan without deadlines
    int dlmax = 3000;
    int ts = 1;             // time scale: long plans see pools expire, queues close and workers idle out
    int rt = 0;
    Gen(Plan &pl, uint64_t seed) : p(pl), r(seed) {}
    int dl() {
        if (nodl) return -1;
        int x = r.range(0, 99);
        if (x < 42) return -1;
        if (x < 80) return r.range(1, dlmax);
        if (x < 90) return r.range(0, 60);
        if (x < 94) return -2;
        if (x < 96) return -3;
        if (x < 98) return -4;
        return -5;
    }
    int act() { return (int)r.below((uint32_t)p.acts.size()); }
    int gact() { // some generator
        std::vector<int> g;
        for (size_t i = 0; i < p.acts.size(); i++) if (p.acts[i].gen) g.push_back((int)i);
        return g.empty() ? -1 : g[r.below((uint32_t)g.size())];
    }
    template <class T> int obj(const T &v) { return v.empty() ? -1 : (int)r.below((uint32_t)v.size()); }
    int signo() { return r.chance(3, 4) ? r.pick({(int)SIGUSR1, (int)SIGUSR2, (int)SIGHUP, (int)SIGALRM}) : r.pick({(int)SIGINT, (int)SIGQUIT, (int)SIGTERM, (int)SIGPIPE}); }
    bool fill(Op &o, bool isgen) {
        int *a = o.a;
        for (int i = 0; i < 5; i++) a[i] = 0;
        switch (o.k) {
        case O_YIELD: a[0] = r.chance(1, 3) ? r.range(2, 12) : 1; break;
        case O_SLEEP: a[0] = r.chance(1, 12) ? r.pick({-1, 0, -1000, -7, -8, -9}) : r.chance(1, 3) ? r.range(1, 50) : r.range(1, 2000) * ts; break;
        case O_SLEEPDL: a[0] = r.chance(1, 4) ? r.pick({-2, -3, -5}) : r.range(0, 2000) * ts; break;
        case O_BUSY: a[0] = r.range(1, 1500); break;
        case O_SPAWN: case O_RESUME: a[0] = act(); break;
        case O_JOIN: case O_CANCEL: a[0] = act(); a[1] = o.k == O_CANCEL && r.chance(2, 3) ? -1 : dl(); break;
        case O_SUSPEND: a[0] = dl(); break;
        case O_CSTATE: case O_CTYPE: case O_PIPE: a[0] = r.below(2); break;
        case O_PUSH: a[0] = r.below(4); break;
        case O_POP: a[0] = r.below(2); break;
        case O_SEND: case O_RECV: a[0] = obj(p.chans); a[1] = dl(); if (a[0] < 0) return false; break;
        case O_TRYRECV: case O_BCAST: case O_CLOSE: case O_RETAIN: a[0] = obj(p.chans); if (a[0] < 0) return false; break;
        case O_SELECT: case O_TRYSELECT:
            if (p.chans.empty()) return false;
            a[0] = (int)(1 + r.below((1u << std::min((size_t)20, p.chans.size())) - 1));
            a[1] = dl(); a[2] = r.below(2); a[3] = r.chance(1, 3) ? r.range(1, 4) : 0; a[4] = r.below(2);
            break;
        case O_GYIELD: if (!isgen) return false; a[0] = dl(); break;
        case O_GNEXT: case O_GCLOSE: case O_GREL: a[0] = gact(); a[1] = dl(); if (a[0] < 0) return false; break;
        case O_LOCK: case O_RDLOCK: case O_TRYLOCK: case O_TRYRD: case O_UNLOCK: a[0] = obj(p.mutex_rt); a[1] = dl(); if (a[0] < 0) return false; break;
        case O_CWAIT: a[0] = obj(p.cond_rt); a[1] = obj(p.mutex_rt); a[2] = dl(); if (a[0] < 0 || a[1] < 0) return false; break;
        case O_CSIG: case O_CBCAST: a[0] = obj(p.cond_rt); if (a[0] < 0) return false; break;
        case O_WGADD: a[0] = obj(p.wg_rt); a[1] = r.chance(1, 4) ? r.range(-3, 0) : r.range(1, 3); if (a[0] < 0) return false; break;
        case O_WGDONE: a[0] = obj(p.wg_rt); if (a[0] < 0) return false; break;
        case O_WGWAIT: a[0] = obj(p.wg_rt); a[1] = dl(); if (a[0] < 0) return false; break;
        case O_READ: case O_WRITE: case O_WAIT: case O_CLOSEFD:
            a[0] = obj(p.fds); a[1] = r.below(2); a[2] = iosize(a[0]); a[3] = dl(); if (a[0] < 0) return false;
            if (o.k == O_WAIT) a[2] = r.below(2);
            if (o.k == O_READ && r.chance(1, 30)) a[2] = 0;
            if (o.k == O_WRITE && r.chance(1, 30)) a[2] = 0;
            break;
        case O_SREAD: case O_SREADFULL: case O_SBYTE: case O_SUNREAD: case O_SWRITE: case O_SFLUSH: case O_SSIZES: case O_SCLOSE:
            a[0] = obj(p.fds); a[1] = r.below(2); a[2] = iosize(a[0]); a[3] = dl(); if (a[0] < 0) return false;
            if (o.k == O_SWRITE && r.chance(1, 20)) a[2] = 0;
            break;
        case O_SERVE: case O_ACCEPT: case O_DIAL: case O_GAI: case O_LCLOSE:
            a[0] = obj(p.addrs); a[1] = dl(); a[2] = o.k == O_DIAL ? r.pick({0, 1, 100, 700}) : r.range(0, 3); if (a[0] < 0) return false;
            if (o.k == O_SERVE || o.k == O_ACCEPT || o.k == O_LCLOSE) {
                for (int t = 0; t < 8; t++) { int k = p.addrs[(size_t)a[0]].kind; if (k == 0 || k == 1 || k == 5 || k == 6 || k == 7) break; a[0] = obj(p.addrs); }
            }
            if (o.k == O_SERVE && r.chance(4, 5) && p.addrs[(size_t)a[0]].kind != 7) a[1] = -1;
            break;
        case O_SIGWATCH: case O_SIGUNWATCH: a[0] = signo(); break;
        case O_SIGWAIT: a[0] = dl(); break;
        case O_WORK: a[0] = r.chance(1, 3) ? -1 : r.range(0, 3); a[1] = r.pick({0, 0, 10, 200, 1500}); break;
        case O_STACK: a[0] = r.range(0, 60); a[1] = r.pick({64, 256, 1024, 4000, 16384, 65536}); a[2] = r.below(4); a[3] = (int)r.below(1000); break;
        case O_REGS: a[0] = (int)r.below(1000); break;
        case O_FOREIGN: a[0] = r.range(0, 33); break;
        case O_RAND: a[0] = r.chance(1, 3) ? r.range(0, 12) : (int)r.below(1200); a[1] = dl(); a[2] = r.chance(1, 6); a[3] = r.range(0, 6); a[4] = r.chance(2, 3); break;
        case O_BADARG: a[0] = r.range(0, 76); a[1] = (int)r.below(1000); break;
        }
        return true;
    }
    int iosize(int fd) {
        int cap = fd >= 0 ? p.fds[(size_t)fd].cap : 100;
        if (fd >= 0 && p.fds[(size_t)fd].stream > 2) cap = std::min(cap, p.fds[(size_t)fd].stream * 100); // a tiny buffer takes a system call every few bytes
        if (fd >= 0 && p.fds[(size_t)fd].stream > 2 && r.chance(1, 3)) return std::max(1, p.fds[(size_t)fd].stream + r.range(-2, 2));
        int x = r.range(0, 9);
        if (x < 5) return r.range(1, 40);
        if (x < 7) return r.range(1, cap);
        if (x < 8) return cap + r.range(-1, 1) > 0 ? cap + r.range(-1, 1) : 1;
        return r.range(cap, cap * 3 + 10);
    }
    // swarm: every operation kind is kept or dropped and reweighted per plan
    void swarm(std::initializer_list<W> l, int core = 2) {
        ws.clear();
        int n = 0;
        for (auto &w : l) {
            W x = w;
            if (n++ >= core && r.chance(1, 3)) continue;
            x.w = std::max(1, x.w * r.pick({1, 2, 4}) / 2);
            ws.push_back(x);
        }
    }
    int pickop() {
        int t = 0;
        for (auto &w : ws) t += w.w;
        int x = (int)r.below((uint32_t)t);
        for (auto &w : ws) { x -= w.w; if (x < 0) return w.k; }
        return O_YIELD;
    }
    // kinds: 0 uniform; 1 paired lock/unlock discipline etc. is left to chance
    void actors(int n, int lo, int hi, int spawnpct, int asyncpct, int gens = 0) {
        size_t base = p.acts.size();
        bool burst = r.chance(1, 3);
        for (int i = 0; i < n; i++) {
            ActP a;
            a.rt = p.nrt > 1 ? (int)(i % p.nrt) : 0;
            a.ctype = (int)r.below(100) < asyncpct;
            a.gen = i < gens;
            a.gsize = r.pick({4, 8, 16, 40});
            a.nargs = r.chance(1, 10) ? r.pick({7, 15, 31, 32, 40, 127, 300}) : r.range(0, 6);
            a.start_us = burst || r.chance(1, 2) ? 0 : r.range(0, p.horizon_us / 3);
            a.spawned = (int)r.below(100) < spawnpct && i > 0;
            p.acts.push_back(a);
        }
        for (size_t i = base; i < p.acts.size(); i++) {
            int m = r.range(lo, hi);
            ActP &a = p.acts[i];
            for (int j = 0; j < m; j++) {
                Op o;
                o.k = a.gen && r.chance(1, 2) ? O_GYIELD : pickop();
                if (fill(o, a.gen)) a.ops.push_back(o);
            }
        }
        // every spawned actor is started by someone
        for (size_t i = base; i < p.acts.size(); i++)
            if (p.acts[i].spawned) {
                std::vector<int> c;
                for (size_t j = 0; j < i; j++) if (p.acts[j].rt == p.acts[i].rt) c.push_back((int)j);
                if (c.empty()) { p.acts[i].spawned = 0; continue; }
                ActP &s = p.acts[(size_t)c[r.below((uint32_t)c.size())]];
                s.ops.insert(s.ops.begin() + (long)r.below((uint32_t)s.ops.size() + 1), Op{O_SPAWN, {(int)i, 0, 0, 0, 0}});
            }
    }
    void chans(int lo, int hi, bool ref = true) {
        int n = r.range(lo, hi);
        for (int i = 0; i < n; i++) {
            ChanP c;
            c.cap = r.pick({0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 8, 8, 40});
            c.size = r.pick({0, 1, 1, 4, 4, 4, 8, 8, 8, 16, 64, 256, 3000});
            c.refmode = ref && r.chance(1, 5);
            c.rt = p.nrt > 1 ? i % p.nrt : 0;
            p.chans.push_back(c);
        }
    }
    void sync(int m, int c, int w) {
        for (int i = 0; i < m; i++) p.mutex_rt.push_back(i % p.nrt);
        for (int i = 0; i < c; i++) p.cond_rt.push_back(i % p.nrt);
        for (int i = 0; i < w; i++) p.wg_rt.push_back(i % p.nrt);
    }
    void descriptors(int n, int streampct, int extpct) {
        for (int i = 0; i < n; i++) {
            FdP f;
            f.type = r.chance(1, 4);
            f.cap = r.pick({16, 64, 300, 1000, 4096, 65536});
            f.ext = f.type == 0 && (int)r.below(100) < extpct;
            f.stream = 0;
            if (f.type == 0 && (int)r.below(100) < streampct) f.stream = r.pick({1, 2, 3, 8, 17, 64, 500});
            f.rt = i % p.nrt;
            p.fds.push_back(f);
            if (f.ext) {
                int k = r.range(2, 10);
                for (int j = 0; j < k; j++) p.xevs.push_back({r.range(0, p.horizon_us), r.chance(2, 3) ? XE_SEND : XE_DRAIN, i, r.range(1, f.cap)});
                if (r.chance(1, 3)) p.xevs.push_back({r.range(0, p.horizon_us), r.pick({(int)XE_CLOSE, (int)XE_SHUT, (int)XE_RESET}), i, 0});
            }
        }
    }
    void addrs(int n, std::initializer_list<int> kinds) {
        for (int i = 0; i < n; i++) {
            AddrP a;
            a.kind = r.pick(kinds);
            a.mode = (int)r.below(a.kind == 3 ? 125 : 10);
            if (a.kind == 3 && r.chance(1, 2)) a.mode += 125 * (int)r.below(8) + 1000 * (int)r.below(3); // families, network
            a.delay_us = r.pick({0, 50, 300, 2000});
            p.addrs.push_back(a);
        }
    }
    void faults(std::initializer_list<Fault> l) {
        static const uint32_t lev[] = {4, 16, 64, 256, 700};
        for (Fault f : l) if (r.chance(1, 2)) p.fprob[f] = (f == F_SHORT_READ || f == F_SHORT_WRITE || f == F_EINTR_IO) && r.chance(1, 6) ? 2800 : lev[r.below(5)];
    }
    void timing() {
        faults({F_CLOCK_COARSE, F_SLEEP_LATE, F_EINTR_WAIT, F_EV_SHUFFLE});
        if (r.chance(1, 4)) p.fprob[F_CLOCK_STALL] = r.pick({2u, 8u, 32u});
        if (r.chance(1, 4)) p.xevs.push_back({r.range(0, p.horizon_us), XE_WALL, r.range(-3600000, 3600000), 0});
    }
    void signals(int n, int pct = 100) {
        if ((int)r.below(100) >= pct) return;
        for (int i = 0; i < n; i++) p.xevs.push_back({r.range(0, p.horizon_us), XE_SIGNAL, signo(), 0});
    }
};

void gen_plan(Plan &p, const std::string &profile, uint64_t seed, const std::string &variant) {
    Gen g(p, seed ^ 0xA5A5A5A5ull);
    Prng &r = g.r;
    p.profile = profile;
    p.variant = variant;
    p.seed = seed;
    p.horizon_us = r.pick({3000, 8000, 20000});
    g.ts = r.chance(1, 6) ? r.pick({20, 60, 200}) : 1;
    p.horizon_us *= g.ts;
    p.tick_ns = r.pick({1, 50, 100, 1000});
    p.allocator = r.chance(2, 3);
    if (r.chance(1, 3)) p.allocator |= 2;
    p.env_ctype = r.chance(1, 6) ? 1 : r.chance(1, 3) ? 0 : 2;
    p.env_cstate = r.chance(1, 12);
    p.fd0 = r.chance(1, 8) ? r.pick({1, 2, 2}) : 0;
    if (r.chance(1, profile == "wait" || profile == "io" || profile == "crowd" ? 2 : 6)) p.fdjump = (int)r.below(10), p.fdgap = r.pick({61, 125, 253, 256, 512, 1000, 1024, 4000});
    g.dlmax = r.pick({100, 1000, 3000}) * g.ts;
    g.nodl = r.chance(1, 4);
    int na = r.range(2, r.chance(1, 4) ? 12 : 6);
    int hi = r.pick({4, 8, 16});
    int async = r.pick({0, 20, 50});
    const std::string &f = profile;
    if (f == "chan") {
        g.chans(1, 3);
        g.swarm({{O_SEND, 10}, {O_RECV, 10}, {O_TRYRECV, 3}, {O_BCAST, 3}, {O_CLOSE, 1}, {O_YIELD, 4}, {O_SLEEP, 4}, {O_CANCEL, 3}, {O_BUSY, 2}, {O_STATS, 1}, {O_SELECT, 2}, {O_RETAIN, 1}, {O_EXIT, 1}});
        g.actors(na, 2, hi, 20, async);
        g.timing();
    } else if (f == "select") {
        if (r.chance(1, 5)) g.chans(7, 14); else g.chans(1, 4);
        g.swarm({{O_SELECT, 10}, {O_SEND, 8}, {O_TRYSELECT, 4}, {O_RECV, 3}, {O_BCAST, 3}, {O_CLOSE, 1}, {O_YIELD, 4}, {O_SLEEP, 3}, {O_CANCEL, 3}, {O_BUSY, 2}, {O_STATS, 1}, {O_TRYRECV, 1}, {O_EXIT, 1}});
        g.actors(na, 2, hi, 10, async);
        g.timing();
    } else if (f == "gen") {
        g.swarm({{O_GNEXT, 10}, {O_YIELD, 3}, {O_SLEEP, 3}, {O_GCLOSE, 1}, {O_GREL, 1}, {O_CANCEL, 3}, {O_BUSY, 1}, {O_EXIT, 1}, {O_STATS, 1}}, 1);
        g.actors(na, 2, hi, 15, async, r.range(1, 3));
        g.timing();
    } else if (f == "mutex") {
        g.sync(r.range(1, 3), 0, 0);
        g.swarm({{O_LOCK, 8}, {O_UNLOCK, 9}, {O_RDLOCK, 6}, {O_TRYLOCK, 2}, {O_TRYRD, 2}, {O_YIELD, 6}, {O_SLEEP, 4}, {O_CANCEL, 3}, {O_BUSY, 2}, {O_STATS, 1}, {O_EXIT, 1}, {O_PUSH, 1}, {O_CSTATE, 1}});
        g.actors(na, 3, hi + 4, 10, async);
        g.timing();
    } else if (f == "cond") {
        g.sync(r.range(1, 2), r.range(1, 2), 0);
        g.swarm({{O_CWAIT, 10}, {O_LOCK, 10}, {O_CSIG, 6}, {O_CBCAST, 2}, {O_UNLOCK, 6}, {O_YIELD, 4}, {O_SLEEP, 4}, {O_CANCEL, 3}, {O_BUSY, 2}, {O_TRYLOCK, 1}, {O_RDLOCK, 1}, {O_STATS, 1}, {O_CSTATE, 1}}, 5);
        g.actors(na, 3, hi + 6, 10, async);
        // waits come right after a lock most of the time
        for (auto &a : p.acts)
            for (size_t i = 0; i < a.ops.size(); i++)
                if (a.ops[i].k == O_CWAIT && r.chance(3, 4)) { a.ops.insert(a.ops.begin() + (long)i, Op{O_LOCK, {a.ops[i].a[1], -1, 0, 0, 0}}); i++; }
        g.timing();
    } else if (f == "wg") {
        g.sync(0, 0, r.range(1, 2));
        g.swarm({{O_WGADD, 8}, {O_WGWAIT, 8}, {O_WGDONE, 10}, {O_YIELD, 4}, {O_SLEEP, 4}, {O_CANCEL, 3}, {O_BUSY, 1}, {O_STATS, 1}, {O_EXIT, 1}}, 3);
        g.actors(na, 2, hi, 10, async);
        g.timing();
    } else if (f == "time") {
        g.chans(0, 2, false);
        g.sync(1, 1, 1);
        g.descriptors(r.range(0, 1), 0, 50);
        g.nodl = false;
        g.swarm({{O_SLEEP, 10}, {O_SLEEPDL, 8}, {O_SUSPEND, 3}, {O_RESUME, 1}, {O_RECV, 3}, {O_SEND, 2}, {O_LOCK, 3}, {O_UNLOCK, 2}, {O_CWAIT, 2}, {O_WGADD, 1}, {O_WGWAIT, 2}, {O_JOIN, 3}, {O_WAIT, 2}, {O_READ, 1}, {O_BUSY, 3}, {O_YIELD, 2}, {O_CANCEL, 1}, {O_SIGWATCH, 1}, {O_SIGWAIT, 1}, {O_RAND, 1}});
        g.actors(na, 2, hi, 10, async);
        g.timing();
    } else if (f == "cancel") {
        g.chans(1, 2, false);
        g.sync(1, 1, 1);
        g.descriptors(r.range(0, 1), 50, 50);
        g.swarm({{O_CANCEL, 12}, {O_YIELD, 4}, {O_SLEEP, 4}, {O_CSTATE, 4}, {O_CTYPE, 2}, {O_SUSPEND, 3}, {O_RECV, 3}, {O_SEND, 2}, {O_LOCK, 2}, {O_UNLOCK, 2}, {O_CWAIT, 1}, {O_WGADD, 1}, {O_WGWAIT, 2}, {O_JOIN, 3}, {O_READ, 2}, {O_WRITE, 1}, {O_WAIT, 1}, {O_SREAD, 1}, {O_SBYTE, 2}, {O_SIGWATCH, 1}, {O_SIGWAIT, 1}, {O_RAND, 1}, {O_PUSH, 2}, {O_WORK, 1}, {O_SELECT, 1}, {O_BUSY, 1}, {O_RESUME, 1}}, 1);
        g.actors(na, 2, hi, 20, r.pick({0, 50, 100}));
        g.timing();
    } else if (f == "cleanup") {
        g.chans(0, 1, false);
        g.sync(1, 0, 0);
        g.swarm({{O_PUSH, 12}, {O_CANCEL, 8}, {O_POP, 5}, {O_EXIT, 2}, {O_YIELD, 4}, {O_SLEEP, 6}, {O_CSTATE, 2}, {O_CTYPE, 2}, {O_SUSPEND, 2}, {O_RECV, 1}, {O_LOCK, 2}, {O_JOIN, 3}, {O_SPAWN, 1}}, 3);
        g.actors(na, 3, hi, 20, r.pick({40, 70, 100}));
        g.timing();
    } else if (f == "life") {
        na = r.range(3, r.chance(1, 4) ? 24 : 10);
        g.swarm({{O_YIELD, 6}, {O_SUSPEND, 5}, {O_RESUME, 6}, {O_JOIN, 6}, {O_SLEEP, 4}, {O_EXIT, 1}, {O_CANCEL, 2}, {O_SPAWN, 2}, {O_STATS, 1}, {O_STACK, 1}, {O_CTYPE, 1}, {O_CSTATE, 1}});
        g.actors(na, 1, hi, 40, async);
        g.timing();
    } else if (f == "fair") {
        g.chans(1, 2, false);
        g.sync(1, 0, 1);
        g.descriptors(r.range(0, 2), 0, 60);
        g.swarm({{O_YIELD, 14}, {O_SEND, 3}, {O_RECV, 3}, {O_SLEEP, 2}, {O_LOCK, 2}, {O_UNLOCK, 2}, {O_WGADD, 1}, {O_WGDONE, 1}, {O_WGWAIT, 1}, {O_READ, 2}, {O_WAIT, 2}, {O_CANCEL, 1}, {O_SUSPEND, 1}, {O_RESUME, 1}, {O_JOIN, 1}, {O_SIGWATCH, 1}, {O_SIGWAIT, 1}, {O_WORK, 1}});
        g.actors(na, 3, hi + 4, 10, 20);
        // some actors spin on yield for a long time
        int sp = r.range(1, 3);
        for (int i = 0; i < sp && i < (int)p.acts.size(); i++)
            for (int j = 0; j < 3; j++) p.acts[(size_t)i].ops.push_back(Op{O_YIELD, {r.range(60, 250), 0, 0, 0, 0}});
        if (!p.fds.empty() && r.chance(1, 3)) { // a writer whose data the kernel takes a few bytes at a time
            int k = (int)r.below((uint32_t)p.fds.size());
            p.fds[(size_t)k].cap = std::max(p.fds[(size_t)k].cap, 6000);
            for (int j = 0; j < 3; j++) p.acts.back().ops.insert(p.acts.back().ops.begin() + (int)r.below((uint32_t)p.acts.back().ops.size() + 1), Op{O_WRITE, {k, (int)r.below(2), r.range(500, 2500), -1, 0}});
            p.fprob[F_SHORT_WRITE] = 3800;
        }
        g.timing();
        if (r.chance(1, 4)) g.faults({F_EPOLL_CTL, F_EPOLL_CREATE});
    } else if (f == "io") {
        g.descriptors(r.range(1, 3), 0, 40);
        g.swarm({{O_READ, 10}, {O_WRITE, 10}, {O_WAIT, 3}, {O_YIELD, 3}, {O_SLEEP, 3}, {O_CANCEL, 2}, {O_CLOSEFD, 1}, {O_BUSY, 1}, {O_STATS, 1}});
        g.actors(na, 2, hi, 10, async);
        g.timing();
        g.faults({F_EINTR_IO, F_SHORT_READ, F_SHORT_WRITE, F_SPUR_EAGAIN});
        if (r.chance(1, 3)) g.faults({F_IO_ERROR, F_EPOLL_CTL, F_EPOLL_CREATE, F_THREAD_FAIL});
        if (r.chance(1, 2)) p.fprob[F_THREAD_SWITCH] = r.pick({64u, 512u, 2048u});
    } else if (f == "wait") {
        g.descriptors(r.range(1, 3), 0, 70);
        g.swarm({{O_WAIT, 12}, {O_READ, 5}, {O_WRITE, 4}, {O_YIELD, 4}, {O_SLEEP, 3}, {O_CANCEL, 2}, {O_CLOSEFD, 1}, {O_BUSY, 1}, {O_STATS, 1}}, 3);
        g.actors(na + 2, 2, hi, 10, async);
        g.timing();
        g.faults({F_EINTR_IO, F_SPUR_EAGAIN, F_SHORT_READ});
        if (r.chance(1, 5)) g.faults({F_EPOLL_CTL});
    } else if (f == "stream") {
        g.descriptors(r.range(1, 2), 100, 35);
        g.swarm({{O_SREAD, 8}, {O_SWRITE, 9}, {O_SREADFULL, 4}, {O_SBYTE, 6}, {O_SUNREAD, 5}, {O_SFLUSH, 5}, {O_SSIZES, 2}, {O_YIELD, 2}, {O_SLEEP, 2}, {O_CANCEL, 2}, {O_SCLOSE, 1}, {O_BUSY, 1}});
        g.actors(na, 3, hi + 6, 5, async);
        g.timing();
        g.faults({F_EINTR_IO, F_SHORT_READ, F_SHORT_WRITE, F_SPUR_EAGAIN});
        if (r.chance(1, 4)) g.faults({F_IO_ERROR, F_THREAD_FAIL});
    } else if (f == "net") {
        g.addrs(r.range(1, 3), {0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 7});
        g.swarm({{O_DIAL, 10}, {O_SERVE, 8}, {O_ACCEPT, 8}, {O_PIPE, 2}, {O_YIELD, 3}, {O_SLEEP, 3}, {O_CANCEL, 2}, {O_LCLOSE, 1}, {O_STATS, 1}, {O_BUSY, 1}}, 3);
        g.actors(na, 2, hi, 10, async);
        for (size_t i = 0; i < p.addrs.size(); i++)
            if ((p.addrs[i].kind == 0 || p.addrs[i].kind == 1) && r.chance(1, 2)) {
                int k = r.range(1, 4);
                for (int j = 0; j < k; j++) p.xevs.push_back({r.range(100, p.horizon_us), XE_CONNECT, (int)i, 0});
            }
        g.timing();
        g.faults({F_EINTR_IO, F_CONN_SLOW, F_NET_DELAY, F_SPUR_EAGAIN, F_UNIX_EAGAIN});
        if (r.chance(1, 3)) g.faults({F_EMFILE, F_SYSCALL_FAIL, F_CONN_REFUSED, F_GAI_FAIL, F_GAI_DELAY, F_EPOLL_CTL, F_THREAD_FAIL});
        if (r.chance(1, 2)) p.fprob[F_THREAD_SWITCH] = 512;
    } else if (f == "gai") {
        if (r.chance(1, 4)) p.nrt = r.range(2, 3);
        g.addrs(r.range(1, 3), {2, 3, 3, 4, 7});
        g.swarm({{O_GAI, 10}, {O_YIELD, 3}, {O_SLEEP, 3}, {O_CANCEL, 4}, {O_DIAL, 3}, {O_SERVE, 1}, {O_BUSY, 1}, {O_EXIT, 1}}, 1);
        g.actors(na, 2, hi, 10, async);
        g.timing();
        g.faults({F_GAI_DELAY, F_GAI_FAIL});
        if (r.chance(1, 6)) p.fprob[F_GAI_FAIL] = 1500;
        if (r.chance(1, 3)) g.faults({F_EMFILE, F_THREAD_FAIL, F_EPOLL_CTL, F_MALLOC_FAIL});
        p.fprob[F_THREAD_SWITCH] = r.pick({0u, 256u, 2048u});
    } else if (f == "signal") {
        g.swarm({{O_SIGWATCH, 10}, {O_SIGWAIT, 10}, {O_SIGUNWATCH, 3}, {O_YIELD, 4}, {O_SLEEP, 4}, {O_CANCEL, 2}, {O_EXIT, 1}, {O_BUSY, 1}, {O_STATS, 1}, {O_WORK, 1}});
        if (r.chance(1, 4)) p.nrt = r.range(2, 3);
        g.actors(na, 2, hi, 10, async);
        // most runs watch everything somewhere for the whole run, so that no signal kills the process
        if (r.chance(4, 5)) {
            ActP a{0, 0, 0, 4, 0, 0, 0, {}};
            for (int s : {SIGUSR1, SIGUSR2, SIGHUP, SIGALRM, SIGINT, SIGQUIT, SIGTERM}) a.ops.push_back(Op{O_SIGWATCH, {s, 0, 0, 0, 0}});
            if (r.chance(1, 2)) a.ops.push_back(Op{O_SLEEP, {p.horizon_us, 0, 0, 0, 0}});
            else for (int i = 0; i < 10; i++) a.ops.push_back(Op{O_SIGWAIT, {r.chance(1, 3) ? r.range(10, 2000) : -1, 0, 0, 0, 0}});
            p.acts.push_back(a);
        }
        g.signals(r.range(1, 10));
        g.timing();
        if (p.nrt > 1) p.fprob[F_THREAD_SWITCH] = r.pick({16u, 128u, 1024u});
        if (r.chance(1, 2)) p.fprob[F_SIG_THREAD] = 1500;
        if (r.chance(3, 4)) p.fprob[F_SIG_MIDWAY] = 3000;
    } else if (f == "work") {
        if (r.chance(1, 4)) p.nrt = r.range(2, 3);
        g.descriptors(r.range(0, 1), 0, 30);
        g.swarm({{O_WORK, 14}, {O_YIELD, 3}, {O_SLEEP, 3}, {O_CANCEL, 4}, {O_WRITE, 3}, {O_READ, 2}, {O_BUSY, 1}, {O_PUSH, 1}, {O_EXIT, 1}}, 1);
        g.actors(r.chance(1, 4) ? r.range(8, 40) : na, 1, hi, 10, async);
        g.timing();
        p.fprob[F_THREAD_SWITCH] = r.pick({64u, 512u, 2048u});
        g.faults({F_SPUR_WAKE});
        if (r.chance(1, 2)) p.fprob[F_WALL_JUMP] = r.pick({256u, 1024u, 3000u});
        if (r.chance(1, 4)) g.faults({F_THREAD_FAIL});
    } else if (f == "mem") {
        g.chans(1, 2);
        g.sync(1, 1, 1);
        g.descriptors(r.range(0, 2), 50, 30);
        g.addrs(r.range(0, 2), {0, 1, 2, 3});
        g.swarm({{O_YIELD, 4}, {O_SPAWN, 3}, {O_SEND, 3}, {O_RECV, 3}, {O_SELECT, 3}, {O_SLEEP, 3}, {O_LOCK, 2}, {O_UNLOCK, 2}, {O_CWAIT, 1}, {O_WGADD, 1}, {O_WGDONE, 1}, {O_GNEXT, 3}, {O_READ, 2}, {O_WRITE, 2}, {O_SREAD, 2}, {O_SWRITE, 2}, {O_SFLUSH, 1}, {O_DIAL, 2}, {O_SERVE, 1}, {O_ACCEPT, 1}, {O_GAI, 2}, {O_WORK, 2}, {O_CANCEL, 2}, {O_EXIT, 1}, {O_SIGWATCH, 1}});
        g.actors(na, 2, hi, 40, async, r.range(0, 2));
        g.timing();
        int m = r.range(0, 3);
        if (m == 0) p.fprob[F_MALLOC_FAIL] = r.pick({16u, 64u, 400u});
        if (m == 1) { p.mem_fail_at = r.range(1, 60); p.mem_fail_count = r.pick({1, 1, 2, 5, 1000}); }
        if (m == 2) p.fprob[F_MMAP_FAIL] = r.pick({64u, 400u, 2000u}), p.fprob[F_MPROTECT_FAIL] = r.pick({0u, 400u});
        if (m == 3) { p.mmap_fail_at = r.range(1, 8); }
        if (r.chance(1, 3)) g.faults({F_THREAD_FAIL, F_EMFILE, F_EPOLL_CREATE, F_EPOLL_CTL});
        if (r.chance(1, 3)) p.fprob[F_THREAD_SWITCH] = 512;
    } else if (f == "multi") {
        p.nrt = r.range(2, 3);
        g.chans(2, 4, false);
        g.sync(p.nrt, p.nrt, p.nrt);
        g.descriptors(r.range(0, 3), 30, 30);
        g.addrs(r.range(0, 2), {3, 3, 4});
        g.swarm({{O_GAI, 2}, {O_YIELD, 4}, {O_FOREIGN, 6}, {O_PIPE, 1}, {O_SEND, 4}, {O_RECV, 4}, {O_SLEEP, 3}, {O_SPAWN, 1}, {O_LOCK, 2}, {O_UNLOCK, 2}, {O_WGADD, 1}, {O_WGDONE, 1}, {O_WGWAIT, 1}, {O_SELECT, 1}, {O_CANCEL, 2}, {O_JOIN, 1}, {O_WORK, 2}, {O_READ, 1}, {O_WRITE, 1}, {O_SREAD, 1}, {O_SBYTE, 2}, {O_SWRITE, 2}, {O_SFLUSH, 1}, {O_STATS, 1}, {O_EXIT, 1}});
        g.actors(na + 2, 2, hi, 20, async);
        g.timing();
        p.fprob[F_THREAD_SWITCH] = r.pick({16u, 128u, 1024u});
    } else if (f == "rand") {
        p.nrt = r.pick({1, 1, 1, 2, 3});
        if (r.chance(1, 3)) g.chans(1, 2, false);
        g.swarm({{O_RAND, 12}, {O_YIELD, 4}, {O_SLEEP, 2}, {O_CANCEL, 3}, {O_CSTATE, 1}, {O_SPAWN, 1}, {O_EXIT, 1}, {O_BUSY, 1}, {O_SEND, 1}, {O_RECV, 1}, {O_WORK, 1}});
        g.actors(na, 2, hi, 20, async);
        g.timing();
        p.fprob[F_THREAD_SWITCH] = r.pick({16u, 128u, 1024u});
    } else if (f == "stack") {
        g.swarm({{O_STACK, 10}, {O_REGS, 5}, {O_YIELD, 4}, {O_SLEEP, 3}, {O_EXIT, 1}, {O_CANCEL, 2}, {O_SPAWN, 1}, {O_PUSH, 2}});
        g.actors(r.range(2, r.chance(1, 3) ? 30 : 8), 1, hi, 40, async);
        g.timing();
        if (r.chance(1, 6)) p.fprob[F_MMAP_FAIL] = 200;
    } else if (f == "api") {
        g.chans(0, 2, false);
        g.sync(1, 1, 1);
        g.descriptors(r.range(0, 2), 50, 50);
        g.addrs(r.range(0, 1), {0, 1, 4});
        g.swarm({{O_BADARG, 10}, {O_RAND, 2}, {O_YIELD, 3}, {O_SEND, 3}, {O_RECV, 3}, {O_TRYRECV, 2}, {O_LOCK, 2}, {O_UNLOCK, 2}, {O_TRYLOCK, 2}, {O_RESUME, 2}, {O_SUSPEND, 2}, {O_CANCEL, 2}, {O_JOIN, 2}, {O_READ, 2}, {O_WRITE, 2}, {O_SREAD, 2}, {O_SWRITE, 2}, {O_SBYTE, 3}, {O_SUNREAD, 2}, {O_WGADD, 2}, {O_WGDONE, 2}, {O_SIGWAIT, 1}, {O_SELECT, 1}, {O_DIAL, 1}, {O_SERVE, 1}, {O_SLEEP, 2}, {O_CLOSE, 1}});
        g.actors(na, 2, hi, 10, async, r.range(0, 1));
        g.timing();
        if (r.chance(1, 4)) g.faults({F_IO_ERROR, F_EMFILE, F_SYSCALL_FAIL});
    } else if (f == "crowd") {
        // many of the same kind at once
        int kind = r.range(0, 5);
        int n = r.pick({18, 24, 40, 70});
        int at = r.range(100, 2000) * g.ts;
        hi = 4;
        if (kind == 0) {
            n = std::min(n, 40);
            for (int i = 0; i < n; i++) {
                p.fds.push_back(FdP{0, 300, 1, 0, 0});
                p.xevs.push_back({r.chance(3, 4) ? at : r.range(0, p.horizon_us), XE_SEND, i, r.range(1, 20)});
                if (r.chance(1, 4)) p.xevs.push_back({r.range(0, p.horizon_us), XE_SEND, i, r.range(1, 20)});
                if (r.chance(1, 6)) p.xevs.push_back({r.range(0, p.horizon_us), XE_CLOSE, i, 0});
            }
            g.swarm({{O_WAIT, 10}, {O_READ, 10}, {O_WRITE, 2}, {O_YIELD, 2}, {O_SLEEP, 2}, {O_STATS, 1}, {O_CANCEL, 1}});
        } else if (kind == 1) {
            g.swarm({{O_SLEEP, 10}, {O_SLEEPDL, 4}, {O_SUSPEND, 3}, {O_YIELD, 2}, {O_CANCEL, 3}, {O_RESUME, 2}, {O_BUSY, 1}, {O_STATS, 1}});
        } else if (kind == 2) {
            g.chans(1, 2, false);
            g.swarm({{O_SEND, 10}, {O_RECV, 10}, {O_BCAST, 1}, {O_SELECT, 4}, {O_YIELD, 2}, {O_SLEEP, 3}, {O_CLOSE, 1}, {O_CANCEL, 2}, {O_STATS, 1}});
        } else if (kind == 3) {
            g.sync(1, 1, 1);
            g.swarm({{O_LOCK, 6}, {O_UNLOCK, 8}, {O_RDLOCK, 6}, {O_CWAIT, 3}, {O_CSIG, 3}, {O_CBCAST, 1}, {O_WGADD, 1}, {O_WGDONE, 2}, {O_WGWAIT, 2}, {O_YIELD, 3}, {O_SLEEP, 3}, {O_CANCEL, 2}, {O_STATS, 1}}, 3);
        } else if (kind == 4) {
            g.swarm({{O_YIELD, 4}, {O_SLEEP, 3}, {O_SPAWN, 3}, {O_JOIN, 4}, {O_SUSPEND, 2}, {O_RESUME, 2}, {O_STACK, 2}, {O_EXIT, 1}, {O_CANCEL, 2}, {O_STATS, 1}});
        } else {
            n = std::min(n, 40);
            g.swarm({{O_WORK, 10}, {O_YIELD, 3}, {O_SLEEP, 2}, {O_CANCEL, 1}, {O_STATS, 1}});
            p.fprob[F_THREAD_SWITCH] = r.pick({64u, 512u});
        }
        if (variant == "mt") n = std::min(n, 24);
        g.actors(n, 1, hi, r.pick({0, 40}), async);
        if (kind == 0)
            for (size_t i = 0; i < p.acts.size(); i++)
                for (auto &o : p.acts[i].ops) if ((o.k == O_WAIT || o.k == O_READ) && r.chance(3, 4)) { o.a[0] = (int)(i % p.fds.size()); o.a[1] = 0; if (o.k == O_WAIT) o.a[2] = 0; }
        if (kind == 1 && r.chance(1, 2)) { // equal deadlines
            int d = r.range(1, 500) * g.ts;
            for (auto &a : p.acts) { a.start_us = 0; for (auto &o : a.ops) if (o.k == O_SLEEPDL || o.k == O_SUSPEND) o.a[0] = d; }
        }
        g.timing();
    } else { // mixed
        g.chans(0, 3);
        g.sync(r.range(0, 2), r.range(0, 1), r.range(0, 1));
        g.descriptors(r.range(0, 2), 40, 40);
        g.addrs(r.range(0, 2), {0, 1, 2, 3, 4, 7});
        g.swarm({{O_YIELD, 5}, {O_SLEEP, 5}, {O_SPAWN, 2}, {O_JOIN, 2}, {O_SUSPEND, 2}, {O_RESUME, 2}, {O_CANCEL, 5}, {O_CSTATE, 1}, {O_CTYPE, 1}, {O_PUSH, 2}, {O_POP, 1}, {O_EXIT, 1}, {O_STATS, 2}, {O_SEND, 5}, {O_RECV, 5}, {O_TRYRECV, 1}, {O_BCAST, 1}, {O_CLOSE, 1}, {O_SELECT, 4}, {O_TRYSELECT, 1}, {O_GNEXT, 3}, {O_GCLOSE, 1}, {O_GREL, 1}, {O_LOCK, 4}, {O_RDLOCK, 2}, {O_UNLOCK, 4}, {O_CWAIT, 2}, {O_CSIG, 2}, {O_WGADD, 2}, {O_WGDONE, 2}, {O_WGWAIT, 2}, {O_READ, 3}, {O_WRITE, 3}, {O_WAIT, 2}, {O_SREAD, 2}, {O_SWRITE, 2}, {O_SFLUSH, 1}, {O_SBYTE, 1}, {O_SERVE, 1}, {O_ACCEPT, 1}, {O_DIAL, 2}, {O_GAI, 1}, {O_WORK, 2}, {O_STACK, 1}, {O_BUSY, 2}});
        g.actors(na + 2, 3, hi + 4, 25, async, r.range(0, 2));
        g.timing();
        g.faults({F_EINTR_IO, F_SHORT_READ, F_SHORT_WRITE, F_SPUR_EAGAIN, F_THREAD_SWITCH, F_CONN_SLOW, F_NET_DELAY});
        if (r.chance(1, 5)) g.faults({F_MALLOC_FAIL, F_MMAP_FAIL, F_THREAD_FAIL, F_EMFILE, F_IO_ERROR});
    }
    if (p.fprob[F_THREAD_SWITCH] && r.chance(1, 3)) p.fprob[F_THREAD_HOLD] = r.pick({30u, 200u, 1000u});
    if (variant == "mt" && (p.nrt > 1 || p.fprob[F_THREAD_SWITCH]) && r.chance(3, 4)) p.fprob[F_PREEMPT] = r.pick({2u, 16u, 64u, 256u, 1024u});
}
