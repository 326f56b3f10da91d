#!/usr/bin/env python3
"""Builds kratos from /repo/src's working tree together with one harness, and runs it.
usage: check.py <property> [--replay FILE]"""
import hashlib, os, subprocess, sys, concurrent.futures as cf, fcntl, glob
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KRATOS_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
BASE = ["-std=c++17", "-w", "-include", "cstdint", "-DINCLUDE_FILESYSTEM", f"-I{V}/core/shim", f"-I{V}/core", f"-I{REPO}/src", f"-I{REPO}/extern/hgdb/include"]

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def compile_all(jobs):
    """jobs: (source, flags, key) -> object paths"""
    objs = []
    todo = []
    for src, flags, key in jobs:
        o = os.path.join(B, f"{os.path.basename(src)}.{key}.o")
        objs.append(o)
        if not os.path.exists(o): todo.append((src, flags, o))
    def one(t):
        src, flags, o = t
        tmp = f"{o}.{os.getpid()}.tmp"
        r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode: return f"{src}\n{r.stderr[-3000:]}"
        os.replace(tmp, o)
        return None
    # big files first
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        sys.stderr.write("build failed: " + "\n".join(errs)); sys.exit(3)
    return objs

def main():
    pid = sys.argv[1]
    os.makedirs(B, exist_ok=True)
    os.chdir(V)
    src = sorted(glob.glob(f"{REPO}/src/*.cc"))
    hdr = sorted(glob.glob(f"{REPO}/src/*.hh") + glob.glob(f"{REPO}/src/*.h"))
    hh = h(*[rd(p) for p in hdr], *[p for p in hdr], rd(f"{V}/core/shim/cxxpool.h"), REPO)
    ch = h(*[rd(p) for p in sorted(glob.glob(f"{V}/core/*.hh"))])
    harness = f"{V}/checks/{pid}.cc"
    text = rd(harness).decode()
    lib_flags = BASE + ["-O1"]
    extra = []
    for l in text.splitlines():
        if l.startswith("// libflags:"): lib_flags += l.split(":", 1)[1].split()
        if l.startswith("// flags:"): extra += l.split(":", 1)[1].split()
    # tasks are traced: the library's memory accesses go to core/race
    tasks = any(l.strip() == "// trace-tasks" for l in text.splitlines())
    if tasks: lib_flags += ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-inline-small-functions"]
    extra = [x.replace("@V", V).replace("@REPO", REPO) for x in extra]
    jobs = []
    for s in src: jobs.append((s, lib_flags, h(hh, rd(s), " ".join(lib_flags))))
    core = sorted(glob.glob(f"{V}/core/*.cc"))
    for s in core:
        deps = hh if os.path.basename(s).startswith("dual") else ""
        jobs.append((s, BASE + ["-O2"], h(ch, deps, rd(s), " ".join(BASE))))
    link = []
    if tasks:
        rt = f"{V}/core/race/race.cc"
        jobs.append((rt, BASE + ["-O2"], h(rd(rt), rd(f"{V}/core/race/race.hh"))))
        link = ["-rdynamic", "-Wl," + ",".join(f"--wrap={f}" for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release"))]
    fl = BASE + ["-O1"] + extra
    own = sorted(glob.glob(f"{V}/checks/*.hh"))
    jobs.append((harness, fl, h(hh, ch, *[rd(p) for p in own], text, " ".join(fl))))
    objs = compile_all(jobs)
    key = h(*objs, *extra, *link)
    exe = os.path.join(B, f"{pid}.{key}")
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(B, f"{pid}.*")):
            if not old.endswith(".o") and ".tmp" not in old:
                try: os.remove(old)
                except OSError: pass
        r = subprocess.run(["g++", *objs, "-o", exe + ".tmp", *link, "-lfmt", "-lstdc++fs", "-lpthread", *[x for x in extra if x.startswith("-l") or x.startswith("-fsan")]], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("link failed: " + r.stderr[-3000:]); sys.exit(3)
        os.replace(exe + ".tmp", exe)
    # drop objects that are much older than what is in use
    try:
        keep = set(objs)
        olds = sorted((p for p in glob.glob(os.path.join(B, "*.o")) if p not in keep), key=os.path.getmtime)
        for p in olds[:-400]: os.remove(p)
    except OSError: pass
    sys.stdout.flush()
    os.execv(exe, [exe, *sys.argv[2:]])
main()
