// Driver: seeded search over plans and schedules, shrinking, replay.
#include "work.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char variant_name[];
typedef std::vector<uint32_t> Streams[NSTREAMS];
static int cpu_limit = 25;
static double nowsec() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static std::string tail;
// run one plan in a child; streams == null: fresh run seeded by the plan
static void run_child(const Plan &p, const std::vector<uint32_t> *streams, bool trace) {
    R->done = 0;
    R->exited = 0;
    R->nviol = 0;
    R->hash = R->ihash = 0;
    R->simtime = 0;
    R->steps = R->events = R->switches = R->ops = R->idles = 0;
    memset(R->faults, 0, sizeof R->faults);
    memset(R->probes, 0, sizeof R->probes);
    memset(R->outcome, 0, sizeof R->outcome);
    memset(R->nrec, 0, sizeof R->nrec);
    R->ntrace = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl = {(rlim_t)cpu_limit, (rlim_t)cpu_limit + 1};
        setrlimit(RLIMIT_CPU, &rl);
        rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        int dn = open("/dev/null", O_RDWR);
        if (!getenv("SIM_STDERR")) dup2(dn, 2);
        dup2(dn, 1);
        dup2(dn, 0);
        sim_reset();
        S.trace_on = trace;
        ch_init(p.seed, streams != nullptr, streams);
        run_plan(p);
        sim_end_run();
    }
    if (pid < 0) { perror("fork"); exit(2); }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!R->done) {
        // the run was cut off by a crash of the real code
        int n = R->nviol < 8 ? R->nviol++ : 7;
        auto &v = R->viol[n];
        snprintf(v.prop, sizeof v.prop, "*");
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGXCPU || s == SIGKILL) {
                snprintf(v.key, sizeof v.key, "hang:cpu");
                snprintf(v.msg, sizeof v.msg, "the run did not finish within %d s of CPU time: the code spins without reaching a system call", cpu_limit);
            } else {
                snprintf(v.key, sizeof v.key, "crash:signal-%d", s);
                snprintf(v.msg, sizeof v.msg, "the process crashed with signal %d (%s)", s, strsignal(s));
            }
        } else {
            snprintf(v.key, sizeof v.key, "crash:exit-%d", WEXITSTATUS(st));
            snprintf(v.msg, sizeof v.msg, "the process left the simulation with status %d (sanitizer report or stray exit)", WEXITSTATUS(st));
        }
        R->hash = 0xC0FFEE;
    }
}
struct Known { std::string key, sub; };
static std::vector<Known> known;
static bool is_known(int i) {
    for (auto &k : known) if (k.key == R->viol[i].key && strstr(R->viol[i].msg, k.sub.c_str())) return true;
    return false;
}
static bool tag_match(const char *tags, const std::string &prop) {
    std::istringstream s(tags);
    std::string w;
    while (s >> w) if (w == "*" || w == prop || prop == "any") return true;
    return false;
}
static int find_viol(const std::string &prop, const std::string *key) {
    for (int i = 0; i < R->nviol; i++)
        if (tag_match(R->viol[i].prop, prop) && !is_known(i) && (!key || *key == R->viol[i].key)) return i;
    return -1;
}
static void take_streams(Streams &s) {
    for (int i = 0; i < NSTREAMS; i++) s[i].assign(R->rec[i], R->rec[i] + R->nrec[i]);
}
static void trim(Streams &s) {
    for (int i = 0; i < NSTREAMS; i++) while (!s[i].empty() && s[i].back() == 0) s[i].pop_back();
}

// ---------------------------------------------------------------- shrinking
struct Shrinker {
    std::string prop, key;
    Plan best;
    Streams st;
    double until;
    int tries = 0;
    bool attempt(const Plan &p, const std::vector<uint32_t> *s) {
        if (nowsec() > until) return false;
        tries++;
        run_child(p, s, false);
        if (find_viol(prop, &key) < 0) return false;
        best = p;
        take_streams(st);
        trim(st);
        return true;
    }
    void go() {
        bool progress = true;
        for (int round = 0; round < 3 && progress && nowsec() < until; round++) {
            progress = false;
            // whole actors
            for (size_t i = 0; i < best.acts.size(); i++) {
                if (best.acts[i].ops.empty()) continue;
                Plan p = best;
                p.acts[i].ops.clear();
                progress |= attempt(p, st);
            }
            for (int i = 0; i < NFAULTS; i++)
                if (best.fprob[i]) { Plan p = best; p.fprob[i] = 0; progress |= attempt(p, st); }
            for (size_t n = best.xevs.size(); n >= 1 && !best.xevs.empty(); n /= 2)
                for (size_t i = 0; i < best.xevs.size();) {
                    Plan p = best;
                    p.xevs.erase(p.xevs.begin() + (long)i, p.xevs.begin() + (long)std::min(i + n, p.xevs.size()));
                    if (attempt(p, st)) progress = true; else i += n;
                }
            // operations, in halves
            for (size_t a = 0; a < best.acts.size(); a++)
                for (size_t n = std::max((size_t)1, best.acts[a].ops.size() / 2); n >= 1; n /= 2) {
                    for (size_t i = 0; i < best.acts[a].ops.size();) {
                        Plan p = best;
                        auto &o = p.acts[a].ops;
                        o.erase(o.begin() + (long)i, o.begin() + (long)std::min(i + n, o.size()));
                        if (attempt(p, st)) progress = true; else i += n;
                    }
                    if (n == 1) break;
                }
            // schedules and fault draws: zero is the simplest choice
            for (int s = 0; s < NSTREAMS; s++) {
                if (st[s].empty()) continue;
                {
                    Streams t;
                    for (int k = 0; k < NSTREAMS; k++) t[k] = st[k];
                    t[s].clear();
                    if (attempt(best, t)) { progress = true; continue; }
                }
                for (size_t n = st[s].size() / 2; n >= 1; n /= 2) {
                    for (size_t i = 0; i < st[s].size(); i += n) {
                        bool nz = false;
                        for (size_t j = i; j < std::min(i + n, st[s].size()); j++) nz |= st[s][j] != 0;
                        if (!nz) continue;
                        Streams t;
                        for (int k = 0; k < NSTREAMS; k++) t[k] = st[k];
                        for (size_t j = i; j < std::min(i + n, t[s].size()); j++) t[s][j] = 0;
                        attempt(best, t);
                        if (nowsec() > until) return;
                    }
                    if (n == 1) break;
                }
            }
            { Plan p = best; if (p.tick_ns > 1) { p.tick_ns = 1; attempt(p, st); } }
            { Plan p = best; if (p.mem_fail_count > 1) { p.mem_fail_count = 1; attempt(p, st); } }
        }
        // unused trailing actors
        while (!best.acts.empty() && best.acts.back().ops.empty() && best.acts.size() > 1) {
            Plan p = best;
            p.acts.pop_back();
            if (!attempt(p, st)) break;
        }
    }
};

static void write_replay(const std::string &path, const Plan &p, Streams &st, const std::string &prop, const std::string &key, const std::string &tags, const std::string &msg, uint64_t hash, uint64_t origseed, const char *trace) {
    std::ofstream o(path);
    o << "# neco deterministic simulation replay\n# violation [" << tags << "] " << key << "\n# " << msg << "\n";
    o << "variant " << variant_name << "\nprop " << prop << "\nkey " << key << "\nhash " << hash << "\norigseed " << origseed << "\nplan\n";
    o << plan_text(p) << "end\n";
    for (int i = 0; i < NSTREAMS; i++) {
        o << "stream " << i << " " << st[i].size();
        for (uint32_t v : st[i]) o << " " << v;
        o << "\n";
    }
    if (trace) { o << "--- trace of the violating run\n" << trace; }
}
static bool read_replay(const std::string &path, Plan &p, Streams &st, std::string &prop, std::string &key, uint64_t &hash) {
    std::ifstream in(path);
    if (!in) return false;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        if (line.compare(0, 4, "--- ") == 0) break;
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "prop") l >> prop;
        else if (w == "key") l >> key;
        else if (w == "hash") l >> hash;
        else if (w == "plan") {
            std::string t, x;
            while (std::getline(in, x) && x != "end") t += x + "\n";
            if (!plan_parse(t, p)) return false;
        } else if (w == "stream") {
            size_t i, n;
            l >> i >> n;
            st[i].resize(n);
            for (auto &v : st[i]) l >> v;
        }
    }
    return true;
}

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32) fprintf(f, " ");
        else fputc(*s, f);
    }
    fputc('"', f);
}

int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: %s search|replay|one ...\n", argv[0]); return 2; }
    if (!getenv("SIM_NOREEXEC")) {
        // fixed addresses make crashes of broken code repeat exactly
        int per = personality(0xffffffff);
        if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality((unsigned long)per | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NOREEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
        setenv("SIM_NOREEXEC", "1", 1);
    }
    R = (ShmResult *)mmap(nullptr, sizeof(ShmResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (R == MAP_FAILED) { perror("mmap"); return 2; }
    std::string mode = argv[1];
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0) {
            size_t e = a.find('=');
            if (e == std::string::npos) opt[a.substr(2)] = "1"; else opt[a.substr(2, e - 2)] = a.substr(e + 1);
        } else pos.push_back(a);
    }
    auto num = [&](const char *k, double d) { return opt.count(k) ? atof(opt[k].c_str()) : d; };
    if (opt.count("cpu")) cpu_limit = (int)num("cpu", 15);
    if (opt.count("known")) {
        std::ifstream in(opt["known"]);
        std::string l;
        while (std::getline(in, l)) {
            size_t t = l.find('\t');
            if (t != std::string::npos) known.push_back({l.substr(0, t), l.substr(t + 1)});
        }
    }
    if (mode == "plan" && pos.size() == 2) {
        Plan p;
        gen_plan(p, pos[0], strtoull(pos[1].c_str(), nullptr, 0), variant_name);
        printf("%s", plan_text(p).c_str());
        return 0;
    }
    if (mode == "one" && pos.size() == 2) {
        Plan p;
        gen_plan(p, pos[0], strtoull(pos[1].c_str(), nullptr, 0), variant_name);
        run_child(p, nullptr, true);
        if (opt.count("trace")) printf("%s", R->trace);
        printf("hash %016llx steps %llu ops %llu simtime %.3f ms viol %d\n", (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->ops, (double)(R->simtime - 1000000000000ll) / 1e6, R->nviol);
        for (int i = 0; i < R->nviol; i++) printf("viol [%s] %s: %s\n", R->viol[i].prop, R->viol[i].key, R->viol[i].msg);
        return R->nviol > 0;
    }
    if (mode == "replay" && pos.size() == 1) {
        Plan p;
        Streams st;
        std::string prop, key;
        uint64_t hash = 0;
        if (!read_replay(pos[0], p, st, prop, key, hash)) { fprintf(stderr, "cannot read %s\n", pos[0].c_str()); return 2; }
        run_child(p, st, true);
        R->trace[R->ntrace] = 0;
        if (opt.count("trace")) printf("%s", R->trace);
        int v = find_viol(prop, &key);
        for (int i = 0; i < R->nviol; i++) printf("viol [%s] %s: %s\n", R->viol[i].prop, R->viol[i].key, R->viol[i].msg);
        if (v < 0) { printf("replay: violation not reproduced\n"); return 0; }
        if (R->hash != hash) { printf("replay: violation reproduced, event log differs (%016llx, recorded %016llx)\n", (unsigned long long)R->hash, (unsigned long long)hash); return 3; }
        printf("replay: violation reproduced exactly (event log %016llx)\n", (unsigned long long)hash);
        return 1;
    }
    if (mode != "search") return 2;
    // ---- search
    std::string prop = opt["prop"];
    std::vector<std::pair<std::string, int>> prof;
    int pw = 0;
    {
        std::string s = opt["profiles"];
        std::istringstream in(s);
        std::string w;
        while (std::getline(in, w, ',')) {
            size_t c = w.find(':');
            int n = c == std::string::npos ? 1 : atoi(w.c_str() + c + 1);
            prof.push_back({w.substr(0, c), n});
            pw += n;
        }
    }
    uint64_t seed = strtoull(opt["seed"].c_str(), nullptr, 0), stride = (uint64_t)num("stride", 1);
    double secs = num("secs", 10), t0 = nowsec();
    uint64_t maxruns = (uint64_t)num("runs", 1e15);
    uint64_t runs = 0, checked = 0, ops = 0, steps = 0, events = 0, switches = 0, idles = 0, other = 0, knownhits = 0, exits = 0, mism = 0, unrep = 0;
    double simtime = 0;
    uint64_t faults[NFAULTS] = {0};
    static uint64_t outcome[96][8];
    std::string samples;
    std::map<std::string, uint64_t> byprof, otherkeys, knownkeys;
    FILE *hf = opt.count("hashes") ? fopen(opt["hashes"].c_str(), "wb") : nullptr;
    bool every = opt.count("all");
    int rc = 0;
    for (uint64_t i = 0; i < maxruns && nowsec() - t0 < secs; i++) {
        uint64_t s = seed + i * stride;
        Prng pr(s ^ 0x777);
        int x = (int)pr.below((uint32_t)pw);
        size_t k = 0;
        for (; k < prof.size() - 1; k++) { x -= prof[k].second; if (x < 0) break; }
        Plan p;
        gen_plan(p, prof[k].first, s, variant_name);
        run_child(p, nullptr, false);
        runs++;
        byprof[prof[k].first]++;
        ops += R->ops;
        steps += R->steps;
        events += R->events;
        switches += R->switches;
        idles += R->idles;
        if (R->exited) exits++;
        if (R->simtime) simtime += (double)(R->simtime - 1000000000000ll) / 1e9;
        for (int j = 0; j < NFAULTS; j++) faults[j] += R->faults[j];
        for (int j = 0; j < 96; j++) for (int c = 0; c < 8; c++) outcome[j][c] += R->outcome[j][c];
        uint64_t ih = R->ihash;
        if (hf && R->ops >= 10 && p.acts.size() >= 2) fwrite(&ih, 8, 1, hf);
        if (runs <= 2) {
            char b[300];
            uint64_t nf = 0;
            for (int j = 0; j < NFAULTS; j++) nf += R->faults[j];
            snprintf(b, sizeof b, "%s{\"profile\":\"%s\",\"seed\":%llu,\"coroutines\":%zu,\"operations\":%llu,\"steps\":%llu,\"faults\":%llu,\"interleaving\":\"%016llx\",\"log\":\"%016llx\"}", runs > 1 ? "," : "", prof[k].first.c_str(), (unsigned long long)s, p.acts.size(), (unsigned long long)R->ops, (unsigned long long)R->steps, (unsigned long long)nf, (unsigned long long)ih, (unsigned long long)R->hash);
            samples += b;
        }
        if (R->nviol == 0) {
            // one run in 256 is repeated: the seed must give the same event log
            if (i % 256 == 17) {
                uint64_t h = R->hash;
                run_child(p, nullptr, false);
                checked++;
                if (R->hash != h) { mism++; fprintf(stderr, "seed %llu profile %s is not deterministic\n", (unsigned long long)s, prof[k].first.c_str()); }
            }
            continue;
        }
        int v = find_viol(prop, nullptr);
        for (int j = 0; j < R->nviol; j++) {
            if (is_known(j)) { knownhits++; knownkeys[std::string(R->viol[j].key)]++; }
            else if (!tag_match(R->viol[j].prop, prop)) { other++; otherkeys[std::string(R->viol[j].key)]++; }
        }
        if (v < 0) continue;
        if (every) {
            otherkeys[std::string("[") + R->viol[v].prop + "] " + R->viol[v].key]++;
            printf("%s %llu [%s] %s: %s\n", prof[k].first.c_str(), (unsigned long long)s, R->viol[v].prop, R->viol[v].key, R->viol[v].msg);
            fflush(stdout);
            continue;
        }
        // found: confirm, shrink, confirm again
        std::string key = R->viol[v].key, tags = R->viol[v].prop, msg = R->viol[v].msg;
        uint64_t h0 = R->hash;
        Streams st;
        take_streams(st);
        trim(st);
        bool same = true;
        for (int t = 0; t < 2 && same; t++) {
            run_child(p, st, false);
            same = find_viol(prop, &key) >= 0 && R->hash == h0;
        }
        if (!same) { unrep++; fprintf(stderr, "seed %llu profile %s: %s does not repeat\n", (unsigned long long)s, prof[k].first.c_str(), key.c_str()); continue; }
        Shrinker sh;
        sh.prop = prop;
        sh.key = key;
        sh.best = p;
        for (int t = 0; t < NSTREAMS; t++) sh.st[t] = st[t];
        sh.until = nowsec() + num("shrink", 20);
        sh.go();
        run_child(sh.best, sh.st, true);
        int w = find_viol(prop, &key);
        uint64_t h1 = R->hash;
        if (w >= 0) { msg = R->viol[w].msg; tags = R->viol[w].prop; R->trace[R->ntrace] = 0; tail = R->trace; run_child(sh.best, sh.st, false); }
        if (w < 0 || find_viol(prop, &key) < 0 || R->hash != h1) {
            sh.best = p;
            for (int t = 0; t < NSTREAMS; t++) sh.st[t] = st[t];
            run_child(sh.best, sh.st, true);
            R->trace[R->ntrace] = 0;
            tail = R->trace;
            h1 = h0;
        }
        write_replay(opt["replay"], sh.best, sh.st, prop, key, tags, msg, h1, s, tail.c_str());
        printf("FOUND\t%s\t%s\t%s\t%llu\t%s\n", opt["replay"].c_str(), key.c_str(), tags.c_str(), (unsigned long long)s, msg.c_str());
        fflush(stdout);
        rc = 1;
        break;
    }
    if (hf) fclose(hf);
    if (opt.count("out")) {
        FILE *f = fopen(opt["out"].c_str(), "w");
        if (!f) return 2;
        fprintf(f, "{\"variant\":\"%s\",\"runs\":%llu,\"wall\":%.3f,\"ops\":%llu,\"steps\":%llu,\"events\":%llu,\"switches\":%llu,\"idles\":%llu,\"simtime_s\":%.6f,\"determinism_reruns\":%llu,\"nondeterministic\":%llu,\"unrepeatable\":%llu,\"other_violations\":%llu,\"known_hits\":%llu,\"exited\":%llu",
                variant_name, (unsigned long long)runs, nowsec() - t0, (unsigned long long)ops, (unsigned long long)steps, (unsigned long long)events, (unsigned long long)switches, (unsigned long long)idles, simtime, (unsigned long long)checked, (unsigned long long)mism, (unsigned long long)unrep, (unsigned long long)other, (unsigned long long)knownhits, (unsigned long long)exits);
        auto dump = [&](const char *n, std::map<std::string, uint64_t> &m) {
            fprintf(f, ",\"%s\":{", n);
            bool c = false;
            for (auto &e : m) { if (c) fputc(',', f); c = true; json_str(f, e.first.c_str()); fprintf(f, ":%llu", (unsigned long long)e.second); }
            fprintf(f, "}");
        };
        dump("profiles", byprof);
        dump("other_keys", otherkeys);
        dump("known_keys", knownkeys);
        std::map<std::string, uint64_t> fm;
        for (int j = 0; j < NFAULTS; j++) if (faults[j]) fm[fault_names[j]] = faults[j];
        dump("faults", fm);
        static const char *cls[8] = {"ok", "timedout", "canceled", "closed", "terminated", "nomem", "empty-busy", "error"};
        std::map<std::string, uint64_t> om;
        for (int j = 0; j < O_COUNT; j++) for (int c = 0; c < 8; c++) if (outcome[j][c]) om[std::string(op_names[j]) + ":" + cls[c]] = outcome[j][c];
        dump("outcomes", om);
        fprintf(f, ",\"samples\":[%s]", samples.c_str());
        fprintf(f, "}\n");
        fclose(f);
    }
    if (every) for (auto &e : otherkeys) fprintf(stderr, "%8llu %s\n", (unsigned long long)e.second, e.first.c_str());
    if (every || opt.count("v")) fprintf(stderr, "%llu runs in %.1f s, %llu reruns, %llu not deterministic, %llu unrepeatable\n", (unsigned long long)runs, nowsec() - t0, (unsigned long long)checked, (unsigned long long)mism, (unsigned long long)unrep);
    return rc;
}
