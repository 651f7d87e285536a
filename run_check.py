#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

  run_check.py C01              check (VERIF_SEED, VERIF_TIER, or --tier=thorough --secs=N)
  run_check.py --replay FILE    rebuild and replay a reported violation
"""
import array, json, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

# property -> (profiles with weights, variants of the eight workers)
STD = "prod prod alt sep small nopool heap mt".split()
CONC = "prod prod sep small small mt mt mt".split()
PROPS = {
    "C01": ("chan:6,select:2,gen:1,cancel:1,mixed:1,crowd:1", STD),
    "C02": ("chan:8,select:2,gen:1,mixed:1,crowd:1", STD),
    "C03": ("chan:6,select:4,gen:2,mixed:1", STD),
    "C04": ("select:9,chan:1,mixed:1", STD),
    "C05": ("gen:9,mixed:1", STD),
    "C06": ("mutex:7,cond:2,mixed:1,crowd:1", STD),
    "C07": ("cond:8,mutex:1,mixed:1,crowd:1", STD),
    "C08": ("wg:9,mixed:1,crowd:1", STD),
    "C09": ("time:5,fair:2,wait:1,mutex:1,chan:1,wg:1,cond:1,select:1,work:1,mixed:2,crowd:2", STD),
    "C10": ("cancel:5,cleanup:2,life:1,mixed:2,chan:1,select:1,gen:1,mutex:1,cond:1,wg:1,io:1,stream:1,wait:1,net:1,gai:1,signal:1,time:1,work:1", STD),
    "C11": ("cleanup:8,cancel:2,mixed:1", STD),
    "C12": ("life:7,cancel:1,multi:1,mem:1,stack:1,cleanup:1,mixed:1,crowd:1", STD),
    "C13": ("fair:5,life:1,mutex:1,chan:1,wait:1,io:1,work:1,signal:1,gai:1,cond:1,mixed:2,crowd:2", STD),
    "C14": ("wait:7,io:2,stream:1,net:1,mixed:1,crowd:2", STD),
    "C15": ("io:8,stream:2,mixed:1", STD),
    "C16": ("stream:9,mixed:1", STD),
    "C17": ("net:9,gai:1", STD),
    "C18": ("signal:9,mixed:1", CONC),
    "C19": ("work:7,io:2,fair:1,crowd:1", CONC),
    "C20": ("mem:8,life:1,stack:1,net:1,gai:1,stream:1,chan:1,select:1,gen:1,signal:1,work:1,cancel:1,mixed:2,multi:1,crowd:1", STD),
    "C21": ("mixed:3,cancel:2,chan:1,select:1,mutex:1,cond:1,wg:1,time:1,wait:1,signal:1,life:1,gen:1,io:1,net:1,work:1,mem:1,crowd:1", STD),
    "C22": ("multi:8,api:2", "prod prod sep small mt mt mt heap".split()),
    "C23": ("stack:7,life:2,fair:1,multi:1,crowd:1", "prod sep alt small small nopool nopool heap".split()),
    "C24": ("gai:8,net:2", "prod prod sep small heap mt mt mt".split()),
    "C25": ("api:3,mixed:3,mem:2,net:1,gai:1,cancel:1,chan:1,select:1,mutex:1,wg:1,cond:1,gen:1,stream:1,io:1,signal:1,life:1,wait:1,work:1,time:1", STD),
    "C26": ("rand:8,api:1,multi:1", CONC),
}
QUICK = 45
THOROUGH = 600
REAL = ["neco.c (whole library, unchanged source, compiled per variant)", "deps/sco.c, deps/stack.c, deps/worker.c (embedded in neco.c; variant 'sep' compiles the files themselves)",
        "deps/aat.h", "the library's context switch, stacks and coroutine bodies (real machine code)"]
STUB = ["kernel descriptors, pipes, sockets, epoll, accept/connect (simulated kernel in sim/sim.cc)", "clocks and sleeping (discrete-event simulated time)",
        "threads, thread mutexes and condition variables (simulated threads, one runs at a time; in variant 'mt' every memory access of the library may switch threads)",
        "resolver", "signal delivery", "memory allocator and mmap (real memory, with failures, guard bytes, poisoning and quarantine)", "process exit"]


def known():
    """[(property, key, substring, text)] of the recorded, unrepaired findings"""
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("known: "):
            f = dict(x.split("=", 1) for x in l[7:].split("\t")[0].split(" ") if "=" in x)
            out.append((f["property"], f["key"], l.rstrip("\n").split("\t")[1], l.rstrip("\n").split("\t")[2]))
    return out


def replay(path):
    v = [l.split()[1] for l in open(path, errors="replace") if l.startswith("variant ")][0]
    bins = B.build([v])
    return subprocess.run([bins[v], "replay", path, "--trace"]).returncode


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = dict((a[2:].split("=", 1) + ["1"])[:2] for a in sys.argv[1:] if a.startswith("--"))
    if "replay" in opts:
        sys.exit(replay(args[0]))
    prop = args[0]
    tier = opts.get("tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(opts.get("secs", QUICK if tier == "quick" else THOROUGH))
    profiles, variants = PROPS[prop]
    t0 = time.time()
    try:
        bins = B.build(sorted(set(variants)))
    except RuntimeError as e:
        print("build failed:\n%s" % e)
        sys.exit(2)
    tmp = tempfile.mkdtemp(prefix="necosim-")
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    kn = known()
    kf = os.path.join(tmp, "known")
    with open(kf, "w") as f:
        for k in kn:
            f.write("%s\t%s\n" % (k[1], k[2]))
    base = (seed & 0xffffffff) * 1000000007 + int(prop[1:]) * 10000019
    t1 = time.time()
    def spawn(w, v, left, start):
        cmd = [bins[v], "search", "--prop=" + prop, "--profiles=" + profiles, "--seed=%d" % start, "--stride=%d" % len(variants),
               "--secs=%g" % left, "--out=%s/out%d" % (tmp, w), "--hashes=%s/hash%d" % (tmp, w), "--replay=%s/r%d" % (tmp, w),
               "--known=" + kf, "--shrink=%d" % (20 if tier == "quick" else 60)]
        return subprocess.Popen(cmd, stdout=open("%s/so%d" % (tmp, w), "w"), stderr=open("%s/se%d" % (tmp, w), "w"))
    procs = {w: spawn(w, v, secs, base + w) for w, v in enumerate(variants)}
    outs, found, unconfirmed, broken = {}, None, 0, []
    while procs:
        time.sleep(0.05)
        for w in list(procs):
            rc = procs[w].poll()
            if rc is None:
                if time.time() - t1 > secs + 400:
                    procs[w].kill()
                continue
            del procs[w]
            try:
                outs[w] = json.load(open("%s/out%d" % (tmp, w)))
            except (OSError, ValueError):
                broken.append("worker %d (%s) ended with status %s: %s" % (w, variants[w], rc, open("%s/se%d" % (tmp, w)).read()[-500:]))
                continue
            if rc != 1 or found:
                continue
            line = [l for l in open("%s/so%d" % (tmp, w), errors="replace") if l.startswith("FOUND\t")][-1].rstrip("\n").split("\t")
            dst = os.path.join(rdir, "%s-%s-%s.replay" % (prop, variants[w], line[4]))
            shutil.move(line[1], dst)
            # gate: a fresh process must reproduce the violation with the identical event log
            if subprocess.run([bins[variants[w]], "replay", dst], stdout=subprocess.DEVNULL).returncode == 1:
                found = (dst, line)
                for q in procs.values():
                    q.send_signal(signal.SIGKILL)
            else:
                unconfirmed += 1
    wall = time.time() - t0
    S = lambda k: sum(o[k] for o in outs.values())
    def M(k):
        d = {}
        for o in outs.values():
            for n, c in o[k].items():
                d[n] = d.get(n, 0) + c
        return dict(sorted(d.items()))
    inter = set()
    for w in outs:
        a = array.array("Q")
        data = open("%s/hash%d" % (tmp, w), "rb").read()
        a.frombytes(data[:len(data) // 8 * 8])
        inter.update(a)
    samples = []
    for w, o in sorted(outs.items()):
        for s in o["samples"][:1]:
            s = dict(s, variant=o["variant"])
            s["plan"] = subprocess.run([bins[o["variant"]], "plan", s["profile"], str(s["seed"])], stdout=subprocess.PIPE, text=True).stdout[:1500]
            samples.append(s)
        if len(samples) >= 3:
            break
    search = max([o["wall"] for o in outs.values()] or [0.001])
    runs = S("runs") if outs else 0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(inter),
            "rule": "a run is one seed: it draws a plan (coroutines, their operations, deadlines, cancels, peers, enabled fault kinds and rates) from the profiles "
                    "and then every schedule, delay and fault; it is non-trivial if at least 2 coroutines performed at least 10 operations, and two runs are distinct if "
                    "the sequence (coroutine, operation, result) of their completed operations differs",
            "samples": samples,
            "profiles": M("profiles") if outs else {},
            "runs_per_variant": {v: sum(o["runs"] for o in outs.values() if o["variant"] == v) for v in sorted(set(variants))},
            "runs_per_hour": int(runs / search * 3600),
            "simulated_seconds": round(S("simtime_s"), 3) if outs else 0,
            "operations": S("ops") if outs else 0, "steps": S("steps") if outs else 0, "external_events": S("events") if outs else 0,
            "thread_switches": S("switches") if outs else 0, "scheduler_sleeps": S("idles") if outs else 0,
            "process_exits": S("exited") if outs else 0,
            "faults_injected": M("faults") if outs else {},
            "operation_outcomes": M("outcomes") if outs else {},
            "determinism": {"seeds_run_twice": S("determinism_reruns") if outs else 0, "logs_that_differed": S("nondeterministic") if outs else 0,
                            "violations_that_did_not_repeat": (S("unrepeatable") if outs else 0) + unconfirmed},
            "violations_of_other_properties_seen": M("other_keys") if outs else {},
            "known_finding_hits": M("known_keys") if outs else {},
            "real_components": REAL, "stubbed_components": STUB,
        },
        "assumptions": ["the simulated kernel behaves as Linux does for the calls neco makes (DESIGN.md, 'The simulated world')",
                        "sampling: a clean batch is evidence for the explored runs, not a proof"],
        "wall_s": round(wall, 3), "violations": 1 if found else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", tmp])
    for k in kn:
        if k[0] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    if found:
        dst, line = found
        print("violation %s [%s] seed %s: %s" % (line[2], line[3], line[4], line[5]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        sys.exit(1)
    if broken or not outs:
        print("\n".join(broken) or "no worker ran")
        sys.exit(2)
    if ev["coverage"]["determinism"]["violations_that_did_not_repeat"]:
        print("a violation was seen that does not repeat: the simulator does not control something")
        sys.exit(2)
    print("property %s held: %d runs, %d distinct interleavings, %.1f simulated s, %.1f s" % (prop, runs, len(inter), ev["coverage"]["simulated_seconds"], wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
