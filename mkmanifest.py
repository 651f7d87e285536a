# Generates MANIFEST.json from run_check.py's table.
import json, run_check as R
NOTE = {
 "C19": " In variant 'mt' the interleaving is decided at every memory access of the library (sequentially consistent memory).",
 "C22": " Thread interleavings are decided at system calls and, in variant 'mt', at every memory access of the library (sequentially consistent memory).",
 "C24": " Thread interleavings are decided at system calls and, in variant 'mt', at every memory access of the library (sequentially consistent memory).",
 "C23": " Trusts the register probe and stack patterns of the workload to notice clobbering; x86-64 only.",
 "C13": " Boundedness is judged against generous round and time limits after faults stop flowing to the waiting coroutine.",
}
checks = []
for p in R.PROPS:
    checks.append({
        "property": p,
        "quick_cmd": "python3 run_check.py %s" % p,
        "thorough_cmd": "python3 run_check.py %s --tier=thorough" % p,
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults of the real library against a reference model",
        "level": "exploration",
        "level_note": "Evidence from sampled runs, not a proof; trusts the simulated kernel, clock, threads and allocator and the reference model of this property."
                      + NOTE.get(p, ""),
    })
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
     "not_applicable": [],
     "notes": "No hooks in /repo: the seam is a symbol redirection of the compiled objects (build.py). Replay a reported violation with: python3 run_check.py --replay FILE"}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
