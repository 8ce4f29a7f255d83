"""Shared by the explorations of the Python bindings: the built package, a controlled scheduler, result bookkeeping.

A worker process runs one scenario:
  worker.py PROP --mod DIR --list|--run NAME [--thorough] [--known FILE] [--replay FILE]
"""
import os, sys, re, gc, json, time, glob, threading, contextlib

OPT = {"thorough": False, "known": [], "limit": 400.0}
NS = "vpc%d_" % os.getpid()     # prefix of every name this process creates
_n = [0]


def fresh_ns():
    _n[0] += 1
    return "%s%d_" % (NS, _n[0])


def cleanup(prefix=NS):
    for f in glob.glob("/dev/shm/" + prefix + "*") + glob.glob("/dev/shm/sem." + prefix + "*"):
        with contextlib.suppress(OSError):
            os.unlink(f)


_beat = [None, 0]


def beat_open(path):
    import mmap
    with open(path, "w+b") as f:
        f.write(b"\0" * 4096)
        f.flush()
        _beat[0] = mmap.mmap(f.fileno(), 4096)


def beat(what):
    """tells the parent what is about to be called: a call that never returns is recognised by it"""
    m = _beat[0]
    if m is None:
        return
    _beat[1] += 1
    b = (what if isinstance(what, str) else repr(what)).encode()[:3900]
    m[0:8] = _beat[1].to_bytes(8, "little")
    m[8:8 + len(b) + 1] = b + b"\0"


class Violation(Exception):
    pass


class Report:
    def __init__(self, scenario):
        self.scenario = scenario
        self.n = 0
        self.trans = 0
        self.distinct = set()
        self.samples = []
        self.known = {}
        self.bad = None
        self.t0 = time.time()
        self.extra = {}

    def count(self, outcome=None, k=1):
        self.n += k
        if outcome is not None and len(self.distinct) < 200000:
            self.distinct.add(outcome)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append("[%s] %s" % (self.scenario, s))

    def violation(self, msg, inp="", choices=None):
        """known findings are counted and passed over; anything else ends the scenario"""
        for s, m in OPT["known"]:
            if re.fullmatch(s, self.scenario) and re.search(m, msg):
                self.known[msg] = self.known.get(msg, 0) + 1
                return
        if self.bad is None:
            self.bad = (msg, inp, choices)
        raise Violation(msg)

    def over(self):
        return time.time() - self.t0 > OPT["limit"]

    def result(self, kind):
        r = {"scenario": self.scenario, "kind": kind, "violated": self.bad is not None, "samples": self.samples,
             "wall": round(time.time() - self.t0, 2), "exhaustive": True}
        if self.known:
            r["known"] = self.known
        if self.bad:
            r["msg"], r["input"], ch = self.bad
            if ch is not None:
                r["choices"] = ch
        if kind == "inputs":
            r["evaluations"] = self.n
            r["distinct"] = len(self.distinct)
            if self.trans:
                r["transitions"] = self.trans
        else:
            r["execs"] = self.n
            r["transitions"] = self.trans
            r["states"] = self.trans + self.n
            r["outcomes"] = len(self.distinct)
        r.update(self.extra)
        if r.get("cap"):
            r["exhaustive"] = False
        return r


def own_error(e):
    """does this exception tell that the harness does not fit the code, or that resources are short?  What the code under
    test raises where nothing should be raised is a violation."""
    if isinstance(e, (MemoryError, KeyboardInterrupt, SystemExit)):
        return True
    t = e.__traceback__
    while t is not None and t.tb_next is not None:
        t = t.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    own = t is not None and os.path.dirname(os.path.abspath(t.tb_frame.f_code.co_filename)) == here
    return own and isinstance(e, (ImportError, SyntaxError, NameError, AttributeError, OSError, AssertionError))


def settle(rep, e, inp=""):
    """a violation that was raised without being reported"""
    if rep.bad is None:
        try:
            rep.violation(str(e), str(inp))
        except Violation:
            pass
    if rep.bad is not None:
        raise Violation(str(e))


def in_child(rep, fn):
    """fn() in a process of its own; what it counted is added to rep; returns its result"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            rep.n = rep.trans = 0
            rep.distinct = set()
            rep.known = {}
            rep.samples = []
            err = ret = None
            try:
                ret = fn()
            except Violation as e:
                try:
                    settle(rep, e)
                except Violation:
                    pass
            except BaseException as e:
                import traceback
                if own_error(e):
                    err = traceback.format_exc()
                else:
                    try:
                        rep.violation("%s: %s" % (type(e).__name__, e), traceback.format_exc())
                    except Violation:
                        pass
            with os.fdopen(w, "wb") as f:
                pickle.dump((rep.n, rep.trans, rep.distinct, rep.bad, rep.known, rep.samples, err, _n[0], ret), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    cleanup()
    if not data:
        rep.violation("the interpreter stands still: no thread of the process goes on" if st & 127 == 14 else "the process was ended by signal %d" % (st & 127), _beat[0][8:3000].split(b"\0")[0].decode() if _beat[0] else "")
    n, t, d, bad, known, samples, err, _n[0], ret = pickle.loads(data)
    if err:
        raise RuntimeError(err)
    rep.n += n
    rep.trans += t
    rep.distinct |= d
    for k, v in known.items():
        rep.known[k] = rep.known.get(k, 0) + v
    rep.samples = (rep.samples + samples)[:3]
    if bad:
        rep.bad = bad
        raise Violation(bad[0])
    return ret


def in_batches(rep, items, fn, size=400):
    """fn(item) for all items, each batch in a process of its own (the library never unmaps, so one process would run out)"""
    import itertools
    items = iter(items)
    while True:
        batch = list(itertools.islice(items, size))
        if not batch:
            return

        def some():
            for x in batch:
                beat(x)
                try:
                    fn(x)
                except Violation as e:
                    settle(rep, e, x)
                except Exception as e:
                    if own_error(e):
                        raise
                    rep.violation("%s: %s" % (type(e).__name__, e), str(x))
        in_child(rep, some)
        if rep.over():
            rep.extra["cap"] = "stopped after %d evaluations" % rep.n
            return


# ---------------------------------------------------------------- controlled scheduler
class Abandon(BaseException):
    """unwinds the threads of an execution that is over"""


class Sched:
    """Runs the given programs as threads of which exactly one is active; at every scheduling point (call()) the next one
    is picked by the explorer.  A thread whose pending step is not enabled cannot be picked."""

    def __init__(self, choices, preempt=None, max_steps=400):
        self.prefix = choices
        self.taken = []          # (chosen index, number of alternatives)
        self.preempt = preempt
        self.max_steps = max_steps
        self.cv = threading.Condition()
        self.threads = []
        self.active = None
        self.trace = []
        self.steps = 0
        self.error = None
        self.version = 0         # grows with every step that may have changed something
        self.used = 0
        self.stop = False

    class T:
        pass

    def spawn(self, name, fn):
        t = Sched.T()
        t.name, t.fn, t.done, t.enabled, t.what, t.started, t.obj, t.idle_at = name, fn, False, None, "start", False, None, -1
        t.th = threading.Thread(target=self._body, args=(t,), daemon=True)
        self.threads.append(t)
        return t

    def _body(self, t):
        with self.cv:
            while self.active is not t:
                self.cv.wait()
        try:
            if not self.stop:
                t.fn()
        except Abandon:
            pass
        except BaseException as e:
            if self.error is None:
                self.error = (t.name, e)
        with self.cv:
            t.done = True
            self.version += 1
            if t is self.active:
                self._next(t)

    def me(self):
        c = threading.current_thread()
        for t in self.threads:
            if t.th is c:
                return t
        return None

    def _runnable(self):
        return [t for t in self.threads if not t.done and (t.enabled is None or t.enabled())]

    def choose(self, n):
        """nondeterministic choice of the environment"""
        if n == 1:
            return 0
        k = len(self.taken)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    def _next(self, cur):
        """cv held: pick who runs now"""
        if self.stop or self.error is not None or self.steps > self.max_steps:
            self._finish()
            return
        r = self._runnable()
        if not r:
            self._finish()
            return
        if cur in r:             # staying is the default, switching away from it is a preemption
            r.remove(cur)
            r.insert(0, cur)
            if self.preempt is not None and self.used >= self.preempt:
                r = r[:1]
        k = self.choose(len(r))
        if cur in r and r[k] is not cur:
            self.used += 1
        self.active = r[k]
        self.cv.notify_all()

    def _finish(self):
        self.stop = True
        for t in self.threads:
            if not t.done:
                self.active = t      # let it unwind
                self.cv.notify_all()
                return
        self.active = None
        self.cv.notify_all()

    def call(self, what, enabled=None, obj=None):
        """scheduling point of the calling thread: returns when it is picked to perform this step"""
        t = self.me()
        if t is None:
            return
        with self.cv:
            if self.stop:
                raise Abandon()
            t.what, t.enabled, t.obj = what, enabled, obj
            self.steps += 1
            self._next(t)
            while self.active is not t:
                self.cv.wait()
            if self.stop:
                raise Abandon()
            t.enabled = None
            t.obj = None
            self.trace.append("%s: %s" % (t.name, what))
            beat(" | ".join(self.trace[-12:]))

    def peers_at(self, obj):
        """other threads which are about to use obj (and may hold its lock meanwhile)"""
        m = self.me()
        return [t for t in self.threads if t is not m and not t.done and t.obj == obj]

    def changed(self):
        self.version += 1

    def wait_change(self, what):
        """the step before led nowhere: blocked until somebody else did something"""
        v = self.version
        self.call(what, enabled=lambda: self.version != v)

    def run(self):
        for t in self.threads:
            t.th.start()
        with self.cv:
            self._next(None)
            while self.active is not None:
                self.cv.wait()
        for t in self.threads:
            t.th.join()
        self.blocked = [t for t in self.threads if not t.done]
        return self


def explore(rep, build, preempt=None, max_steps=400, only=None, max_execs=None, batch=400):
    """depth first over all choice sequences; build(sched) spawns the programs and returns final(sched, msg) -> outcome.
    Every `batch` executions run in a process of their own."""
    prefix = list(only) if only is not None else []

    def one(prefix):
        s = Sched(prefix, preempt, max_steps)
        beat("start of the execution")
        final = build(s)
        s.run()
        ch = [c for c, _ in s.taken]
        tr = "\n".join(s.trace)
        msg = None
        if s.error is not None:
            e = s.error[1]
            msg = str(e) if isinstance(e, Violation) else "%s raised %s: %s" % (s.error[0], type(e).__name__, e)
        elif s.steps > max_steps:
            msg = "not finished after %d steps" % max_steps
        out = None
        try:
            out = final(s, msg)
        except Violation as e:
            msg = msg or str(e)
        rep.n += 1
        rep.trans += len(s.trace)
        if out is not None:
            rep.distinct.add(out)
        if len(rep.samples) < 2:
            rep.sample("schedule %s: %s" % (" ".join(map(str, ch)), " | ".join(s.trace)[:400]))
        if msg is not None:
            rep.violation(msg, tr, ch)
        t = s.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        return [c for c, _ in t[:-1]] + [t[-1][0] + 1] if t else None

    def some(prefix):
        gc.disable()             # finalisers run between executions, not within them
        gc.collect()
        gc.freeze()
        for _ in range(batch):
            prefix = one(prefix)
            gc.collect()
            if prefix is None or rep.over():
                break
        return prefix
    if only is not None:
        gc.disable()
        one(prefix)
        return
    while prefix is not None:
        p = prefix
        prefix = in_child(rep, lambda: some(p))
        if prefix is not None and (rep.over() or (max_execs and rep.n >= max_execs)):
            rep.extra["cap"] = "stopped after %d executions" % rep.n
            return
