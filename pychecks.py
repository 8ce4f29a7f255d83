"""Explorations of the Python bindings and of the Python code on top of them: builds the package, runs py/worker.py."""
import os, sys, re, json, glob, time, shutil, tempfile, subprocess, fcntl, concurrent.futures as cf
import check

PY = "/usr/bin/python3"
BIND = os.path.join(check.LIB, "bindings", "PyEigenIPC")
WORKER = os.path.join(check.VERIF, "py", "worker.py")


def py_includes():
    return check.sh([PY, "-c", "import sysconfig;print(sysconfig.get_path('include'))"]).strip()


def build():
    """-> directory which holds the package EigenIPC, built from the current tree"""
    nat = [os.path.join(check.LIB, "src"), os.path.join(check.LIB, "include"), os.path.join(BIND, "src"),
           os.path.join(BIND, "include"), os.path.join(BIND, "PyEigenIPC.cpp"), __file__]
    pys = [os.path.join(BIND, "wrappers"), os.path.join(BIND, "extensions")]
    key = check.tree_hash(nat)
    top = os.path.join(check.BUILD, "py")
    d = os.path.join(top, key)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        so = os.path.join(d, "PyEigenIPC.so")
        if not os.path.exists(so):
            inc = ["-I" + p for p in (py_includes(), os.path.join(check.LIB, "include"), os.path.join(check.LIB, "src"),
                                      "/usr/include/eigen3", BIND, os.path.join(BIND, "include"), os.path.join(BIND, "src"))]
            flags = ["-std=c++17", "-O1", "-w", "-fPIC", "-fvisibility=hidden", "-DNDEBUG", "-DIS_RELEASE=1", "-DWITH_ROS_BRIDGE"]
            srcs = [os.path.join(BIND, "PyEigenIPC.cpp")] + sorted(glob.glob(os.path.join(BIND, "src", "*.cpp"))) + \
                sorted(glob.glob(os.path.join(check.LIB, "src", "*.cpp")))
            objs = []

            def one(s):
                o = os.path.join(d, os.path.relpath(s, check.LIB).replace("/", "_") + ".o")
                check.sh(["g++"] + flags + inc + ["-c", s, "-o", o])
                return o
            with cf.ThreadPoolExecutor(check.JOBS) as ex:
                objs = list(ex.map(one, srcs))
            check.sh(["g++", "-shared", "-o", so + ".tmp"] + objs + ["-lrt", "-lpthread"])
            for o in objs:
                os.remove(o)
            os.rename(so + ".tmp", so)
        pk = os.path.join(d, "pkg-" + check.tree_hash(pys))
        if not os.path.exists(pk):
            tmp = pk + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            ext = os.path.join(tmp, "EigenIPC", "PyEigenIPCExt")
            os.makedirs(ext)
            shutil.copy(os.path.join(BIND, "__init__.py"), os.path.join(tmp, "EigenIPC"))
            shutil.copy(os.path.join(BIND, "__init__.py"), ext)
            os.symlink(so, os.path.join(tmp, "EigenIPC", "PyEigenIPC.so"))
            for p in pys:
                shutil.copytree(p, os.path.join(ext, os.path.basename(p)), ignore=shutil.ignore_patterns("__pycache__"))
            os.rename(tmp, pk)
        check.prune(top, 4)
        return pk


def run(pid, spec, tier, only=None, replay=None):
    pk = build()
    th = ["--thorough"] if tier == "thorough" else []
    base = [PY, WORKER, pid, "--mod", pk] + th
    if replay:
        r = subprocess.run(base + ["--replay", replay], text=True, stdout=subprocess.PIPE)
        print(r.stdout)
        return {"replay_rc": r.returncode}
    kf = check.known_findings(pid)
    kpath = os.path.join(check.BUILD, "known-py-%s-%d.txt" % (pid, os.getpid()))
    with open(kpath, "w") as f:
        for s, m, _ in kf:
            f.write(s + "\t" + m + "\n")
    try:
        r = subprocess.run(base + ["--list"], text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        names = [l[2:] for l in r.stdout.splitlines() if l.startswith("S ")]
        if r.returncode != 0 or not names:
            return {"results": [], "errors": [{"scenario": "(all)", "error": "no scenarios: " + r.stderr[-800:]}], "kf": kf}
        if only:
            names = [n for n in names if re.search(only, n)]
        limit = spec.get("limit", {}).get(tier, 400 if tier == "quick" else 3000)
        results, errors = [], []

        def one(n):
            fd, bp = tempfile.mkstemp(prefix="beat-", dir=check.BUILD)
            os.close(fd)
            p = subprocess.Popen(base + ["--run", n, "--limit", str(limit), "--known", kpath, "--beat", bp], text=True,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            last, since, hung = None, time.time(), None
            try:
                while True:
                    try:
                        out, err = p.communicate(timeout=5)
                        break
                    except subprocess.TimeoutExpired:
                        b = open(bp, "rb").read()
                        if b[:8] != last:
                            last, since = b[:8], time.time()
                        elif time.time() - since > 100 and int.from_bytes(last or b"", "little"):
                            hung = b[8:].split(b"\0")[0].decode(errors="replace")
                            p.kill()
                            out, err = p.communicate()
                            break
            finally:
                os.unlink(bp)
                for f in glob.glob("/dev/shm/*vpc%d_*" % p.pid):
                    try:
                        os.unlink(f)
                    except OSError:
                        pass
            if hung is not None:
                return {"scenario": n, "kind": "inputs", "violated": True, "evaluations": 0, "distinct": 0,
                        "msg": "a call did not return within 100 s: " + hung, "input": hung}
            for l in out.splitlines():
                if l.startswith("{"):
                    return json.loads(l)
            if p.returncode is not None and p.returncode < 0:
                return {"scenario": n, "kind": "inputs", "violated": True, "evaluations": 0, "distinct": 0,
                        "msg": "the process was ended by signal %d; last: %s" % (-p.returncode, err[-300:]), "input": err[-2000:]}
            return {"scenario": n, "error": "worker ended with %s: %s" % (p.returncode, (err or out)[-1500:])}
        with cf.ThreadPoolExecutor(check.JOBS) as ex:
            for r in ex.map(one, names):
                if "error" in r:
                    errors.append(r)
                results.append(r)
        return {"results": results, "errors": errors, "kf": kf}
    finally:
        if os.path.exists(kpath):
            os.remove(kpath)
