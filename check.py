#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working tree, explores, reports.

  check.py C01 [--tier quick|thorough] [--replay FILE] [--only SCENARIO]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import sys, os, json, time, hashlib, subprocess, re, glob, shutil, fcntl, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VMC_REPO", "/repo")
LIB = os.path.join(REPO, "EigenIPC")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
CXX = "g++"
JOBS = min(8, os.cpu_count() or 4)
WRAPS = """malloc free calloc realloc memcpy memmove memset memcmp shm_open shm_unlink ftruncate ftruncate64 posix_fallocate fstat fchmod mmap
mmap64 munmap msync mlock close dup getpid sem_open sem_close sem_unlink sem_post sem_trywait sem_wait sem_timedwait
sem_clockwait sem_getvalue pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait
pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast nanosleep clock_nanosleep
usleep sleep sched_yield clock_gettime gettimeofday time _ZNSt6chrono3_V212system_clock3nowEv
_ZNSt6chrono3_V212steady_clock3nowEv""".split()
LIBSRC = ["Server", "Client", "StringTensor", "CondVar", "Producer", "Consumer"]
INC = ["-I" + os.path.join(VERIF, "engine/override"), "-I" + os.path.join(VERIF, "engine"),
       "-I" + os.path.join(LIB, "include"), "-I" + os.path.join(LIB, "src"), "-I/usr/include/eigen3"]
TSAN = ["-std=c++17", "-O1", "-g1", "-w", "-DNDEBUG", "-DIS_RELEASE=1", "-DEIGEN_DONT_VECTORIZE", "-fsanitize=thread",
        "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-U_FORTIFY_SOURCE"]
PLAIN = ["-std=c++17", "-O2", "-g1", "-w", "-U_FORTIFY_SOURCE"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd)[:400], r.stdout[-4000:]))
    return r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff if "__pycache__" not in d)
        else:
            fs = [p]
        for f in fs:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def lib_extra_sources():
    """every translation unit of the library, including ones a change may have added"""
    return sorted(os.path.splitext(os.path.basename(p))[0] for p in glob.glob(os.path.join(LIB, "src", "*.cpp")))


def prune(d, keep):
    try:
        es = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime)
        for e in es[:-keep]:
            shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass


def build_cpp(harness):
    """-> path of the explorer binary for this harness, built from the current tree"""
    key = tree_hash([os.path.join(LIB, "src"), os.path.join(LIB, "include"), os.path.join(VERIF, "engine"),
                     __file__] + sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))))
    d = os.path.join(BUILD, "cpp", key)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
        hh = tree_hash([hsrc])
        exe = os.path.join(d, harness + "-" + hh)
        if os.path.exists(exe):
            return exe
        todo = []
        objs = []
        for s in lib_extra_sources():
            o = os.path.join(d, s + ".o"); objs.append(o)
            if not os.path.exists(o):
                todo.append((o, [CXX] + TSAN + INC + ["-c", os.path.join(LIB, "src", s + ".cpp"), "-o", o + ".tmp"]))
        for s in ["vmc", "vmc_tsan", "driver"]:
            o = os.path.join(d, s + ".eng.o"); objs.append(o)
            if not os.path.exists(o):
                todo.append((o, [CXX] + PLAIN + INC + ["-c", os.path.join(VERIF, "engine", s + ".cpp"), "-o", o + ".tmp"]))
        o = exe + ".o"; objs.append(o)
        todo.insert(0, (o, [CXX] + TSAN + INC + ["-c", hsrc, "-o", o + ".tmp"]))

        def one(t):
            sh(t[1]); os.rename(t[0] + ".tmp", t[0])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, todo))
        sh([CXX, "-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread", "-lrt"])
        os.rename(exe + ".tmp", exe)
        os.remove(o)
        prune(os.path.join(BUILD, "cpp"), 6)
        return exe


NATIVE_WRAPS = "shm_open shm_unlink sem_open sem_close sem_unlink close".split()


def build_native(harness):
    """the same harness against the real kernel (engine/native.cpp instead of the explorer)"""
    d = os.path.join(BUILD, "native", tree_hash([os.path.join(LIB, "src"), os.path.join(LIB, "include"), os.path.join(VERIF, "engine"),
                     __file__] + sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))))
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, harness + "-" + tree_hash([os.path.join(VERIF, "harness", harness + ".cpp")]))
    if not os.path.exists(exe):
        flags = ["-std=c++17", "-O1", "-w", "-DNDEBUG", "-DIS_RELEASE=1"] + [i for i in INC if "override" not in i]
        src = {s: os.path.join(LIB, "src", s + ".cpp") for s in lib_extra_sources()}
        src["native.eng"] = os.path.join(VERIF, "engine", "native.cpp"); src[harness + ".h"] = os.path.join(VERIF, "harness", harness + ".cpp")
        objs = {s: os.path.join(d, s + ".o") for s in src}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda s: None if os.path.exists(objs[s]) else (sh([CXX] + flags + ["-c", src[s], "-o", objs[s] + ".tmp"]), os.rename(objs[s] + ".tmp", objs[s])), src))
        sh([CXX, "-o", exe] + list(objs.values()) + ["-Wl,--wrap=" + w for w in NATIVE_WRAPS] + ["-lpthread", "-lrt"])
        os.remove(objs[harness + ".h"])
        prune(os.path.join(BUILD, "native"), 3)
    return exe


def conformance(a):
    """the virtual POSIX layer behaves like the real kernel: see engine/native.cpp and DESIGN.md section 5"""
    th = ["--thorough"] if "--thorough" in a else []
    hs = [x for x in a if not x.startswith("--")] or ["C00", "C02", "C04", "C05", "C08", "C09", "C16", "C18"]
    cap = "5000" if not th else "400000"
    rc = 0
    for h in hs:
        nat, vir = build_native(h), build_cpp(h)
        names = [l[2:] for l in sh([nat, "--list"] + th).splitlines() if l[:2] in ("S ", "J ")]

        def one(n):
            c = [] if h == "C00" else ["--cap", cap]
            r = [json.loads(subprocess.run([e, "--run", n] + th + c + x, text=True, stdout=subprocess.PIPE).stdout or '{"violated":true,"msg":"no answer","execs":0}')
                 for e, x in ((nat, []), (vir, ["--nocache"]))]
            return n, r[0], r[1]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, names))
        for n, x, y in rs:
            if x.get("skipped"):
                continue
            same = not x["violated"] and not y["violated"] and ("digest" not in y or (x["execs"], x["digest"]) == (y["execs"], y["digest"]))
            if not same:
                rc = 1
                print("  DIFFERS: [%s] %s | real: %d executions, %s | virtual: %d executions, %s" % (h, n, x["execs"], x["msg"] or x.get("digest"), y.get("execs", y.get("evaluations", 0)), y["msg"] or y.get("digest")))
        print("%s: %d scenarios on the real kernel, %d executions, %d system calls on names and descriptors, %d capped" % (
            h, sum(not x.get("skipped") for _, x, _ in rs), sum(x["execs"] for _, x, _ in rs), sum(x.get("calls", 0) for _, x, _ in rs), sum(bool(x.get("capped")) for _, x, _ in rs)))
    print("conformance: " + ("the real kernel and the virtual layer agree" if not rc else "MISMATCH"))
    return rc


def known_findings(pid):
    """[(scenario regex, message regex, what)] from KNOWN_FINDINGS.txt"""
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\w+) \| scenario=(.*?) \| message=(.*?) \| (.*)$", l.rstrip("\n"))
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def write_replay(pid, tag, res, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.txt" % (pid, tag))
    with open(p, "w") as f:
        f.write("property: %s\ntier: %s\nscenario: %s\nmessage: %s\n" % (pid, tier, res["scenario"], res.get("msg", "").replace("\n", " ")))
        if res.get("choices") is not None:
            f.write("choices: %s\n" % " ".join(map(str, res["choices"])))
        f.write("how: /verif/check.py %s --replay %s\n\n" % (pid, p))
        f.write(res.get("trace") or res.get("input") or "")
    return p


def run_cpp(pid, spec, tier, only=None, replay=None):
    exe = build_cpp(spec["harness"])
    th = ["--thorough"] if tier == "thorough" else []
    kf = known_findings(pid)
    kpath = os.path.join(BUILD, "known-%s-%d.txt" % (pid, os.getpid()))
    with open(kpath, "w") as f:
        for s, m, _ in kf:
            f.write(s + "\t" + m + "\n")
    try:
        if replay:
            r = subprocess.run([exe, "--replay", replay] + th, text=True, stdout=subprocess.PIPE)
            print(r.stdout)
            return {"replay_rc": r.returncode}
        names = [l[2:] for l in sh([exe, "--list"] + th).splitlines() if l[:2] in ("S ", "J ")]
        if only:
            names = [n for n in names if re.search(only, n)]
        limit = spec.get("limit", {}).get(tier, 400 if tier == "quick" else 3000)
        results, errors = [], []

        def one(n):
            try:
                r = subprocess.run([exe, "--run", n, "--limit", str(limit), "--known", kpath] + th, text=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 300)
            except subprocess.TimeoutExpired:
                return {"scenario": n, "error": "no answer within %d s" % (limit + 300)}
            for l in r.stdout.splitlines():
                if l.startswith("{"):
                    return json.loads(l)
            return {"scenario": n, "error": "explorer ended with %d: %s" % (r.returncode, (r.stderr or r.stdout)[-800:])}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, names):
                if "error" in r or r.get("msg", "").startswith("internal:"):
                    errors.append(r)
                results.append(r)
        return {"results": results, "errors": errors, "kf": kf}
    finally:
        if os.path.exists(kpath):
            os.remove(kpath)


def setup():
    """prebuilds the explorers (each check rebuilds whatever a change of /repo makes stale)"""
    import checks
    for pid, spec in checks.CHECKS.items():
        for part in spec["parts"]:
            if part["kind"] == "cpp":
                build_cpp(part["harness"])
            else:
                import pychecks
                pychecks.build()
    print("built")
    return 0


def selftest(only):
    """state caching hides nothing: cached and uncached explorations end in the same states"""
    import checks
    rc = 0
    for h in sorted({p["harness"] for c in checks.CHECKS.values() for p in c["parts"] if p["kind"] == "cpp"}):
        if only and h not in only:
            continue
        exe = build_cpp(h)
        names = [l[2:] for l in sh([exe, "--list"]).splitlines() if l[:2] == "S "]

        def one(n):
            r = subprocess.run([exe, "--selftest", n, "--limit", "60"], text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return json.loads(r.stdout) if r.stdout.startswith("{") else {"scenario": n, "bad": True, "err": r.stderr[-300:]}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, names))
        bad = [r for r in rs if r["bad"]]
        print("%s: %d scenarios, %d uncached executions, %d final states, %d compared completely, %d differ" % (
            h, len(rs), sum(r.get("execs_uncached", 0) for r in rs), sum(r.get("finals_uncached", 0) for r in rs), sum(bool(r.get("complete")) for r in rs), len(bad)))
        for r in bad:
            print("  DIFFERS: %s" % r); rc = 1
    return rc


def main():
    a = sys.argv[1:]
    sys.path.insert(0, VERIF)
    if a[0] == "--setup":
        return setup()
    if a[0] == "--selftest":
        return selftest(a[1:])
    if a[0] == "--conformance":
        return conformance(a[1:])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--only": only = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        else: print("unknown argument " + a[i]); return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks
    spec = checks.CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    if replay:
        m = re.search(r"^tier: (\w+)", open(replay).read(), re.M)
        tier = m.group(1) if m else tier
    parts = []
    for part in spec["parts"]:
        if part["kind"] == "cpp":
            parts.append(run_cpp(pid, part, tier, only, replay))
        else:
            import pychecks
            parts.append(pychecks.run(pid, part, tier, only, replay))
    if replay:
        return max(p.get("replay_rc", 0) for p in parts)
    results = [r for p in parts for r in p["results"]]
    errors = [r for p in parts for r in p["errors"]]
    viol = [r for r in results if r.get("violated") and not r.get("msg", "").startswith("internal:")]
    known = {}
    for p in parts:
        for r in p["results"]:
            for msg, n in (r.get("known") or {}).items():
                for s, m, what in p["kf"]:
                    if re.fullmatch(s, r["scenario"]) and re.search(m, msg):
                        known.setdefault(what, [0, msg, r["scenario"]])[0] += n
                        break
    ok = [r for r in results if "error" not in r]
    sched = [r for r in ok if r.get("kind") == "schedules"]
    inp = [r for r in ok if r.get("kind") == "inputs"]
    cov = {
        "states": sum(r.get("states", 0) for r in sched) + sum(r.get("evaluations", 0) for r in inp),
        "transitions": sum(r.get("transitions", 0) for r in sched) + sum(r.get("transitions", 0) or r.get("evaluations", 0) for r in inp),
        "traces_validated_against_impl": sum(r.get("execs", 0) for r in sched) + sum(r.get("evaluations", 0) for r in inp),
        "samples": [s for r in ok for s in r.get("samples", [])][:12],
        "exhaustive": bool(ok) and all(r.get("exhaustive", True) for r in ok) and not errors,
        "capped": [r["scenario"] + ": " + r["cap"] for r in ok if r.get("cap")],
        "executions_with_crash": sum(r.get("crash_execs", 0) for r in sched),
        "executions_with_injected_fault": sum(r.get("fault_execs", 0) for r in sched),
        "distinct_outcomes": sum(r.get("outcomes", 0) for r in sched) + sum(r.get("distinct", 0) for r in inp),
        "scenarios": [{k: r[k] for k in ("scenario", "execs", "states", "transitions", "outcomes", "maxdepth", "preempt", "evaluations", "distinct", "wall") if k in r} for r in ok],
        "deviation_bounds": spec.get("bounds", ""),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assume", checks.ASSUMPTIONS) + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for what, (n, msg, sc) in known.items():
        print("KNOWN-FINDING: property=%s %s (met in %d executions, e.g. %s: %s)" % (pid, what, n, sc, msg.replace("\n", " ")[:300]))
    for k, r in enumerate(viol):
        p = write_replay(pid, "%d" % k, r, tier)
        print("violated in [%s]: %s" % (r["scenario"], r["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    for r in errors:
        print("CHECK ERROR in [%s]: %s" % (r.get("scenario"), r.get("error") or r.get("msg")))
    if cov["capped"]:
        print("note: capped (not exhaustive): " + "; ".join(cov["capped"]))
    print("%s %s: %d scenarios, %d states, %d transitions, %d executions of the real code, %d distinct outcomes, %.1f s" % (
        pid, tier, len(results), cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["distinct_outcomes"], ev["wall_s"]))
    if viol:
        return 1
    return 2 if errors or not results else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
