"""Builds the simulator against /repo's current working tree.

Every variant compiles the real neco sources unchanged; the seam is a symbol
redirection of the object file (objcopy --redefine-syms read=sim_read ...), so
the library meets the simulated kernel, clock, threads and allocator.
"""
import concurrent.futures, hashlib, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NECO_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")

SYMS = """read write recv send readv writev recvfrom sendto accept accept4 connect socket bind listen setsockopt
getsockopt shutdown fcntl fcntl64 ioctl close pipe pipe2 unlink getaddrinfo freeaddrinfo epoll_create1 epoll_create
epoll_ctl epoll_wait epoll_pwait epoll_pwait2 nanosleep clock_nanosleep usleep clock_gettime gettimeofday
time sched_yield poll pthread_create pthread_detach pthread_join pthread_self pthread_mutex_init
pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init
pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
mmap munmap mprotect pthread_kill pthread_sigmask sigprocmask kill sigaction signal sigaltstack abort _Exit _exit exit __stack_chk_fail popen
pclose _Unwind_Backtrace perror dlopen dlsym dlclose malloc calloc realloc free
strdup strndup reallocarray""".split()

# name: (flags for neco, variant_info fields, separate deps?)
DEF = dict(noworkers=0, maxworkers=64, ringsize=32, maxioworkers=2, stacksize=8388608, mt=0, burst=-1)
VARIANTS = {
    "prod":   (["-O2"], {}, False),
    "sep":    (["-O1", "-DNECO_NOAMALGA"], {}, True),
    # small limits: one shard, tiny rings, few workers, read bursts, small stacks in small groups
    "small":  (["-O2", "-DSCO_NSHARDS=1", "-DCOMAP_NSHARDS=1", "-DEVMAP_NSHARDS=2", "-DNECO_MAXWORKERS=2", "-DNECO_MAXRINGSIZE=3", "-DNECO_MAXIOWORKERS=1", "-DNECO_BURST=1",
                "-DNECO_STACKSIZE=131072", "-DNECO_DEFCAP=1", "-DNECO_MAXCAP=2", "-DNECO_GAPSIZE=65536"],
               dict(maxworkers=2, ringsize=3, maxioworkers=1, stacksize=131072, burst=1), False),
    "nopool": (["-O1", "-DNECO_NOPOOL", "-DNECO_NOSTACKFREELIST", "-DNECO_USEGUARDS", "-DNECO_STACKSIZE=262144", "-DNECO_DEFCAP=2",
                "-DNECO_MAXCAP=8", "-DNECO_GAPSIZE=65536", "-DNECO_BURST=0"], dict(stacksize=262144, burst=0), False),
    "heap":   (["-O2", "-DNECO_USEHEAPSTACK", "-DNECO_NOWORKERS", "-DNECO_STACKSIZE=131072"], dict(noworkers=1, stacksize=131072), False),
    # portable context switch (ucontext and setjmp), pages kept, writes in the foreground
    "alt":    (["-O2", "-DLLCO_NOASM", "-DNECO_NOPAGERELEASE", "-DNECO_NOWRITEWORKERS", "-DNECO_STACKSIZE=1048576"],
               dict(stacksize=1048576), False),
    # every memory access of the library is a possible thread switch
    "mt":     (["-O1", "-fsanitize=thread", "-DNECO_STACKSIZE=524288"], dict(stacksize=524288, mt=1), False),
}

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def harness_obj(name):
    src = os.path.join(SIM, name + ".cc")
    h = hashlib.sha256()
    for f in sorted(os.listdir(SIM)):
        if f.endswith((".h", ".inc")) or f == name + ".cc":
            h.update(open(os.path.join(SIM, f), "rb").read())
    h.update(open(os.path.join(REPO, "neco.h"), "rb").read())
    obj = os.path.join(OUT, "%s-%s.o" % (name, h.hexdigest()[:16]))
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run(["g++", "-std=gnu++17", "-O1", "-g", "-Wall", "-Wno-missing-field-initializers", "-I", SIM, "-I", REPO, "-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj

def neco_objs(v):
    flags, info, sep = VARIANTS[v]
    srcs = [os.path.join(REPO, "neco.c")]
    if sep:
        srcs += [os.path.join(REPO, "deps", f) for f in ("sco.c", "stack.c", "worker.c")]
    outs = []
    syms = os.path.join(OUT, "syms.txt")
    for s in srcs:
        o = os.path.join(OUT, "neco-%s-%s.o" % (v, os.path.basename(s)[:-2]))
        run(["gcc", "-g", "-w", "-fno-builtin-malloc", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-I", REPO, "-c", s, "-o", o] + flags)
        run(["objcopy", "--redefine-syms=" + syms, o])
        outs.append(o)
    d = dict(DEF, **info)
    c = os.path.join(OUT, "info-%s.cc" % v)
    with open(c, "w") as f:
        f.write('#include "work.h"\nextern "C" const char variant_name[] = "%s";\nextern "C" const struct VariantInfo variant_info = {%d,%d,%d,%d,%dL,%d,%d};\n'
                'extern "C" { extern const char variant_name[]; }\n'
                % (v, d["noworkers"], d["maxworkers"], d["ringsize"], d["maxioworkers"], d["stacksize"], d["mt"], d["burst"]))
    o = os.path.join(OUT, "info-%s.o" % v)
    run(["g++", "-std=gnu++17", "-I", SIM, "-c", c, "-o", o])
    return outs + [o]

def build(variants):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "syms.txt"), "w") as f:
        for s in SYMS:
            f.write("%s sim_%s\n" % (s, s))
        f.write("raise sim_raise_c\n")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        hs = [ex.submit(harness_obj, n) for n in ("work", "sim", "gen", "main")]
        ns = {v: ex.submit(neco_objs, v) for v in variants}
        hobjs = [h.result() for h in hs]
        bins = {}
        ls = []
        for v in variants:
            b = os.path.join(OUT, "sim-" + v)
            bins[v] = b
            ls.append(ex.submit(run, ["g++", "-o", b + ".tmp"] + hobjs + ns[v].result() + ["-lpthread", "-ldl", "-lm"]))
        for l in ls:
            l.result()
        for v in variants:
            os.replace(bins[v] + ".tmp", bins[v])
    return bins

if __name__ == "__main__":
    try:
        print(build(sys.argv[1:] or list(VARIANTS)))
    except RuntimeError as e:
        print(e)
        sys.exit(2)
