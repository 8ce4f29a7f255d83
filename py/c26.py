"""C26: producers, consumers and everything that waits, through the Python bindings.

Histories: every sequence of calls up to a depth by one caller on a producer and two consumers, each call compared with a
ledger of triggers and acknowledgements.  Blocking calls are made only where the ledger says that they end.
Waits: for every call which may wait, a thread makes it while its cause lasts and another thread of the same process goes on,
counts, and removes the cause."""
import itertools, os, signal, threading, time
import numpy as np
import EigenIPC.PyEigenIPC as M
from common import fresh_ns, Violation, beat, in_batches

QUIET = dict(verbose=False, vlevel=M.VLevel.V0)


class Led:
    """reference: what was triggered, taken, acknowledged and collected"""

    def __init__(self, nc):
        self.trig = 0
        self.taken = [0] * nc
        self.acks = 0
        self.base = 0
        self.p = "new"
        self.c = ["new"] * nc


class World:
    def __init__(self, nc, up):
        self.ns = fresh_ns()
        self.nc = nc
        self.p = M.Producer(basename="pc", namespace=self.ns, **QUIET)
        self.c = [M.Consumer(basename="pc", namespace=self.ns, **QUIET) for _ in range(nc)]
        self.l = Led(nc)
        self.log = []
        if up:
            self.do("p.run")
            for k in range(nc):
                self.do("c.run", k)

    def bad(self, m):
        raise Violation("%s | history: %s" % (m, "; ".join(self.log)))

    def call(self, what, f, must_raise=False):
        try:
            r = f()
        except Exception as e:
            if must_raise:
                return "raised"
            self.bad("%s raises %s" % (what, e))
        if must_raise:
            self.bad("%s of a participant which is not running returns %r" % (what, r))
        return r

    def enabled(self):
        l, out = self.l, []
        out.append(("p.trigger", None))
        for n in range(1, self.nc + 1):
            for form in ("1", "timed"):
                out.append(("p.collect" + form, n))
        if l.acks - l.base >= 1 and l.p == "run":
            out.append(("p.collect", min(self.nc, l.acks - l.base)))
        for k in range(self.nc):
            out.append(("c.wait1", k))
            if l.c[k] == "run" and l.trig == l.taken[k] + 1:
                out.append(("c.wait", k))
            out.append(("c.ack", k))
            if l.c[k] != "run" and l.p == "run" and l.trig == 0 and l.c[k] == "new":
                out.append(("c.run", k))
            if l.c[k] == "run":
                out.append(("c.close", k))
        if l.p == "new":
            out.append(("p.run", None))
        if l.p == "run":
            out.append(("p.close", None))
        return out

    def do(self, op, k=None):
        l = self.l
        self.log.append(op + ("" if k is None else "(%d)" % k))
        beat(" ".join(self.log))
        if op == "p.run":
            self.call("run()", self.p.run)
            l.p = "run"
        elif op == "p.close":
            self.call("close()", self.p.close)
            l.p = "closed"
        elif op == "p.trigger":
            r = self.call("trigger()", self.p.trigger, l.p != "run")
            if r is None:
                l.trig += 1
        elif op.startswith("p.collect"):
            f = {"p.collect": lambda: self.p.wait_ack_from(k), "p.collect1": lambda: self.p.wait_ack_from(k, 1),
                 "p.collecttimed": lambda: self.p.wait_ack_from(n_consumers=k, ms_timeout=2)}[op]
            r = self.call("wait_ack_from(%d)" % k, f, l.p != "run")
            if r != "raised":
                want = l.acks - l.base >= k
                if r is not want:
                    self.bad("wait_ack_from(%d) returns %r with %d acknowledgements since the last collection" % (k, r, l.acks - l.base))
                if r:
                    l.base = l.acks
        elif op in ("c.wait", "c.wait1"):
            must = l.c[k] != "run"
            missed = not must and l.trig - l.taken[k] > 1
            f = self.c[k].wait if op == "c.wait" else lambda: self.c[k].wait(ms_timeout=1) if len(self.log) % 2 else self.c[k].wait(1)
            try:
                r = f()
            except Exception as e:
                if not (must or missed):
                    self.bad("wait() raises %s" % e)
                return
            if must or missed:
                self.bad("wait() of a consumer which %s returns %r" % ("missed triggers" if missed else "is not running", r))
            if r is not (l.trig > l.taken[k]):
                self.bad("wait() of consumer %d returns %r after %d triggers of which it took %d" % (k, r, l.trig, l.taken[k]))
            if r:
                l.taken[k] += 1
        elif op == "c.ack":
            must = l.c[k] != "run"
            r = self.call("ack()", self.c[k].ack, must)
            if r != "raised":
                if r is not True:
                    self.bad("ack() returns %r" % (r,))
                l.acks += 1
        elif op == "c.run":
            self.call("run()", self.c[k].run)
            l.c[k] = "run"
        elif op == "c.close":
            self.call("close()", self.c[k].close)
            l.c[k] = "closed"

    def end(self):
        if self.l.p == "run":           # everything adds up
            while self.l.acks - self.l.base:
                self.do("p.collect1", 1)
            for k in range(self.nc):
                if self.l.c[k] == "run" and self.l.trig - self.l.taken[k] <= 1:
                    self.do("c.wait1", k)
        for c in self.c:
            c.close()
        self.p.close()


def histories(rep, only, nc, depth, up, first=None):
    """all sequences, depth first by re-execution; the tree of each prefix of length 2 is a batch of its own"""
    def tree(prefix, depth):
        path = [list(x) for x in prefix]
        fixed = len(path)
        while True:
            w = World(nc, up)
            d = 0
            while d < depth:
                e = w.enabled()
                if d == len(path):
                    path.append([0, len(e)])
                w.do(*e[path[d][0]])
                d += 1
            w.end()
            rep.count(tuple(w.log[-depth:]))
            rep.trans += depth
            rep.sample("; ".join(w.log))
            while len(path) > fixed and path[-1][0] + 1 >= path[-1][1]:
                path.pop()
            if len(path) == fixed:
                return
            path[-1][0] += 1

    w = World(nc, up)
    n0 = len(w.enabled())
    w.end()
    prefixes = []
    for a in range(n0):
        w = World(nc, up)
        w.do(*w.enabled()[a])
        n1 = len(w.enabled())
        w.end()
        prefixes += [[[a, n0], [b, n1]] for b in range(n1)]
    in_batches(rep, prefixes, lambda p: tree(p, depth), 4)


# ---------------------------------------------------------------- waits hold up their own thread only
def srv(ns, **kw):
    return M.ServerFactory(n_rows=2, n_cols=2, basename="b", namespace=ns, safe=True, force_reconnection=False, dtype=M.dtype.Float, **QUIET, **kw)


def cli(ns):
    return M.ClientFactory(basename="b", namespace=ns, dtype=M.dtype.Float, safe=True, **QUIET)


def waits():
    """name -> function(ns) returning (the call which waits, what ends the wait, check of its result)"""
    def refused(o, end, check):
        """meanwhile another thread is refused by the same object, which is nothing to the thread that waits"""
        seen = []

        def go():
            seen.append(o.read(np.zeros((2, 2), dtype=np.float32), 0, 0) is False and o.write(np.zeros((2, 2), dtype=np.float32), 0, 0) is False)
            end()
        return go, lambda r: seen == [True] and check(r)
    def attach(ns):
        c, h = cli(ns), []

        def go():
            h.append(srv(ns))
            h[0].run()
        return c.attach, go, lambda r: c.isRunning()

    def detach(ns):
        s, c = srv(ns), cli(ns)
        s.run()
        c.attach()
        s.dataSemAcquire()
        return (c.detach,) + refused(c, s.dataSemRelease, lambda r: s.getNClients() == 0)

    def close(ns):
        s, c = srv(ns), cli(ns)
        s.run()
        c.attach()
        s.dataSemAcquire()
        return (c.close,) + refused(c, s.dataSemRelease, lambda r: s.getNClients() == 0)

    def acquire(ns):
        s, c = srv(ns), cli(ns)
        s.run()
        c.attach()
        s.dataSemAcquire()
        b = np.zeros((2, 2), dtype=np.float32)
        return (c.dataSemAcquire,) + refused(c, s.dataSemRelease, lambda r: not s.read(b, 0, 0) and (c.dataSemRelease() or s.read(b, 0, 0)))

    def sacquire(ns):
        s, c = srv(ns), cli(ns)
        s.run()
        c.attach()
        c.dataSemAcquire()
        b = np.zeros((2, 2), dtype=np.float32)
        return (s.dataSemAcquire,) + refused(s, c.dataSemRelease, lambda r: not c.read(b, 0, 0) and (s.dataSemRelease() or c.read(b, 0, 0)))

    def count(ns):
        s, c = srv(ns), cli(ns)
        s.run()
        c.attach()
        c.dataSemAcquire()
        return (s.getNClients,) + refused(s, c.dataSemRelease, lambda r: r == 1)

    def strings(ns):
        h, c = [], M.StringTensorClient(basename="b", name_space=ns)

        def go():
            h.append(M.StringTensorServer(length=2, basename="b", name_space=ns))
            h[0].run()
        return c.run, go, lambda r: c.isRunning() and c.length() == 2

    def pc(ns, nc=1):
        p = M.Producer(basename="pc", namespace=ns, **QUIET)
        p.run()
        c = [M.Consumer(basename="pc", namespace=ns, **QUIET) for _ in range(nc)]
        for x in c:
            x.run()
        return p, c

    def crun(ns):
        c, h = M.Consumer(basename="pc", namespace=ns, **QUIET), []

        def go():
            h.append(M.Producer(basename="pc", namespace=ns, **QUIET))
            h[0].run()
        return c.run, go, lambda r: c.ack() is True

    def wait(ns):
        p, c = pc(ns)
        return c[0].wait, p.trigger, lambda r: r is True

    def twait(ns):
        p, c = pc(ns)
        return (lambda: c[0].wait(60000)), p.trigger, lambda r: r is True

    def cclose(ns):
        p, c = pc(ns)
        return (lambda: (c[0].wait(1), c[0].close())), lambda: None, lambda r: r == (False, None)

    def acks(ns):
        p, c = pc(ns)
        return (lambda: p.wait_ack_from(1)), c[0].ack, lambda r: r is True

    def tacks(ns):
        p, c = pc(ns, 2)
        return (lambda: p.wait_ack_from(2, 60000)), (lambda: (c[0].ack(), c[1].ack())), lambda r: r is True
    return {k: v for k, v in locals().items()}


def one_wait(rep, name, f, peers, quick):
    """in a process of its own: the thread which waits, `peers` threads which go on meanwhile, then the wait is ended"""
    beat("%s with %d other threads" % (name, peers))
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(40)                   # if the interpreter stands still nobody else can tell
    ns = fresh_ns()
    w, end, ok = f(ns)
    res, started, counts, over = [], threading.Event(), [0] * (peers + 1), [False]

    def waiter():
        started.set()
        try:
            res.append(("ok", w()))
        except BaseException as e:
            res.append(("raised", e))

    def other(k):
        while not over[0]:
            counts[k] += 1
            time.sleep(0)
    ts = [threading.Thread(target=waiter, daemon=True)] + [threading.Thread(target=other, args=(k,), daemon=True) for k in range(peers)]
    for t in ts[1:]:
        t.start()
    ts[0].start()
    started.wait()
    if not quick:                      # the call has long begun
        for _ in range(20):
            time.sleep(0.005)
    n = list(counts)
    lim = time.time() + 30
    while any(counts[k] <= n[k] for k in range(peers)) and time.time() < lim:
        time.sleep(0.001)
    if any(counts[k] <= n[k] for k in range(peers)):
        rep.violation("other threads do not go on while one waits in %s()" % name)
    end()
    ts[0].join(30)
    over[0] = True
    if not res:
        rep.violation("%s() does not return although what it waited for has come" % name)
    if res[0][0] != "ok":
        rep.violation("%s() raises %s" % (name, res[0][1]))
    if not ok(res[0][1]):
        rep.violation("%s() returned %r, and what it waited for is not there" % (name, res[0][1]))
    signal.alarm(0)
    rep.count((name, peers, quick))


def all_waits(rep, only, names):
    fs = waits()
    in_batches(rep, [(n, k, q) for n in names for k in (0, 1, 3) for q in (False, True)], lambda x: one_wait(rep, x[0], fs[x[0]], x[1], x[2]), 1)


def durations(rep, only):
    """a timed call which nobody answers gives up when its time is up, not earlier; how much later depends on the machine"""
    def one(x):
        call, ms = x
        w = World(1, True)
        p, c = w.p, w.c[0]
        if call.startswith("one given"):
            c.ack()
        f = {"wait": lambda: c.wait(ms), "wait, keyword": lambda: c.wait(ms_timeout=ms), "wait_ack_from": lambda: p.wait_ack_from(1, ms),
             "wait_ack_from, keywords": lambda: p.wait_ack_from(n_consumers=1, ms_timeout=ms), "one given, wait_ack_from": lambda: p.wait_ack_from(2, ms)}[call]
        beat("%s with a time-out of %d ms" % (call, ms))
        t0 = time.time()
        r = f()
        el = (time.time() - t0) * 1e3
        if r is not False:
            rep.violation("%s with a time-out of %d ms returns %r although nothing happened" % (call, ms, r))
        if el < ms - 0.1:
            rep.violation("%s with a time-out of %d ms gives up after %.3f ms" % (call, ms, el))
        if el > ms + 20000:
            rep.violation("%s with a time-out of %d ms gives up only after %.3f ms" % (call, ms, el))
        rep.count((call, ms))
    in_batches(rep, [(c, ms) for c in ("wait", "wait, keyword", "wait_ack_from", "wait_ack_from, keywords", "one given, wait_ack_from") for ms in (1, 7, 60, 400, 1100)], one, 5)
    rep.sample("time-outs of 1 to 1100 ms")


NAMES = {"attach": ["attach", "strings", "crun"], "lock": ["detach", "close", "acquire", "sacquire", "count"],
         "triggers and acknowledgements": ["wait", "twait", "acks", "tacks", "cclose"]}


def scenarios(th):
    out = [("waits: " + k, "inputs", lambda r, o, v=v: all_waits(r, o, v)) for k, v in NAMES.items()]
    d = 1 if th else 0
    out.append(("durations", "inputs", durations))
    out.append(("1 consumer, running", "inputs", lambda r, o: histories(r, o, 1, 5 + d, True)))
    out.append(("1 consumer, from the beginning", "inputs", lambda r, o: histories(r, o, 1, 5 + d, False)))
    out.append(("2 consumers, running", "inputs", lambda r, o: histories(r, o, 2, 4 + d, True)))
    out.append(("2 consumers, from the beginning", "inputs", lambda r, o: histories(r, o, 2, 4 + d, False)))
    return out
