"""C20: SharedTWrapper on the server's and on the client's side against a plain reference.

The state is (mirror of the server side, mirror of the client side, shared tensor).  Every reachable state over a small value
domain is visited; in each of them every operation of both sides is performed on the real wrappers and compared."""
import itertools, sys, signal
import numpy as np
import EigenIPC.PyEigenIPC as M
import EigenIPC.PyEigenIPCExt.wrappers.shared_data_view as SDV
from EigenIPC.PyEigenIPCExt.wrappers.shared_data_view import SharedTWrapper
from common import fresh_ns, Violation, beat, in_batches

DT = {"Bool": (M.dtype.Bool, np.bool_, (0, 1)), "Int": (M.dtype.Int, np.int32, (0, -7)), "Float": (M.dtype.Float, np.float32, (0, 1.5)),
      "Double": (M.dtype.Double, np.float64, (0, -2.25))}


class Spin(Exception):
    pass


class Limited:
    """the low-level participant; a wrapper that polls it for ever is recognised by the number of its calls"""

    def __init__(self, o):
        self._o, self.left, self.refuse, self.calls = o, float("inf"), 0, 0

    def __getattr__(self, k):
        return getattr(self._o, k)

    def isRunning(self):
        self._tick()
        return self._o.isRunning()

    def _tick(self):
        self.calls += 1
        self.left -= 1
        if self.left < 0:
            raise Spin()

    def write(self, *a, **kw):
        self._tick()
        if self.refuse:
            self.refuse -= 1
            return False
        return self._o.write(*a, **kw)

    def read(self, *a, **kw):
        self._tick()
        if self.refuse:
            self.refuse -= 1
            return False
        return self._o.read(*a, **kw)


MADE = []      # the low-level participants of the wrappers, in the order of their creation


def limited(f):
    def g(*a, **kw):
        MADE.append(Limited(f(*a, **kw)))
        return MADE[-1]
    return g


SDV.ServerFactory, SDV.ClientFactory = limited(M.ServerFactory), limited(M.ClientFactory)


class Sys:
    def __init__(self, dt, R, C, fill, safe=True, layout=None):
        self.R, self.C = R, C
        self.np_t = DT[dt][1]
        self.ns = fresh_ns()
        self.fill = fill
        kw = {} if safe else {"safe": False}        # safe is the default
        del MADE[:]
        self.w = [SharedTWrapper(namespace=self.ns, basename="b", is_server=True, n_rows=R, n_cols=C, dtype=DT[dt][0], fill_value=fill, **kw),
                  SharedTWrapper(namespace=self.ns, basename="b", is_server=False, dtype=DT[dt][0], fill_value=fill, **kw)]
        self.raw = M.ClientFactory(basename="b", namespace=self.ns, dtype=DT[dt][0], layout=self.w[0].layout, verbose=False, vlevel=M.VLevel.V0, safe=True)
        self.lim = list(MADE)
        self.state = None

    def run(self):
        for w in self.w:
            w.run()
        self.raw.attach()
        f = 0 if self.fill is None else self.fill
        self.expect = [np.full((self.R, self.C), f, dtype=self.np_t) for _ in range(3)]

    def get(self):
        b = np.zeros((self.R, self.C), dtype=self.np_t)
        if not self.raw.read(b, 0, 0):
            raise Violation("the lock of the tensor is still held")
        return b

    def put(self, st):
        for w, a in zip(self.w, st):
            w.get_numpy_mirror()[:, :] = a
        if not self.raw.write(np.ascontiguousarray(st[2]), 0, 0):
            raise Violation("the lock of the tensor is still held")

    def now(self):
        return [self.w[0].get_numpy_mirror().copy(), self.w[1].get_numpy_mirror().copy(), self.get()]

    def close(self):
        self.raw.close()
        self.w[1].close()
        self.w[0].close()


def key(st):
    return b"".join(np.ascontiguousarray(a).tobytes() for a in st)


REFUSED = "refused"


def blocks(R, C):
    return [(i, j, r, c) for i in range(R) for j in range(C) for r in range(1, R - i + 1) for c in range(1, C - j + 1)]


def outside(R, C):
    return [(-1, 0, 1, 1), (0, -1, 1, 1), (R, 0, 1, 1), (0, C, 1, 1), (-1, 0, R, C), (0, -1, R, C), (1, 0, R, C), (0, 1, R, C), (0, 0, R + 1, C), (0, 0, R, C + 1),
            (-R, 0, R, C), (0, -C, R, C), (-1, -1, 2, 2), (R, C, 1, 1), (R + 5, 0, 1, 1), (-1, 0, 1, C), (-2, 0, 1, 1)]


def ops(R, C, vals, lock):
    """(name, function of (wrapper, its limit) -> result, reference(state, side) -> (state, result))"""
    out = []

    def add(name, f, ref):
        out.append((name, f, ref))

    def put_shared(st, m, i, j, r, c):
        st[2][i:i + r, j:j + c] = st[m][i:i + r, j:j + c]

    def get_shared(st, m, i, j, r, c):
        st[m][i:i + r, j:j + c] = st[2][i:i + r, j:j + c]
    # local edits are seen nowhere else
    for i in range(R):
        for j in range(C):
            for v in vals:
                def f(w, i=i, j=j, v=v): w.get_numpy_mirror()[i, j] = v
                def ref(st, m, i=i, j=j, v=v): st[m][i, j] = v; return None
                add("mirror[%d,%d]=%s" % (i, j, v), f, ref)
    for (i, j, r, c) in blocks(R, C):
        for rd in (True, False):
            def ref(st, m, b=(i, j, r, c), rd=rd, res=True): (get_shared if rd else put_shared)(st, m, *b); return res
            add("synch(%d,%d,%d,%d,read=%s)" % (i, j, r, c, rd), lambda w, b=(i, j, r, c), rd=rd: w.synch(*b, read=rd), ref)
            # the returned value of the retrying forms is not specified beyond not being a failure
            add("synch_retry(%d,%d,%d,%d,read=%s)" % (i, j, r, c, rd), lambda w, b=(i, j, r, c), rd=rd: w.synch_retry(*b, read=rd) is not False, ref)
    for rd in (True, False):
        for rt in (True, False):
            def ref(st, m, rd=rd): (get_shared if rd else put_shared)(st, m, 0, 0, R, C); return True
            add("synch_all(read=%s,retry=%s)" % (rd, rt), lambda w, rd=rd, rt=rt: w.synch_all(read=rd, retry=rt), ref)
    # called without saying so, synchronizing means reading
    def ref(st, m): get_shared(st, m, 0, 0, R, C); return True
    add("synch_all() to read", lambda w: w.synch_all(), ref)
    add("synch_all(retry=True) to read", lambda w: w.synch_all(retry=True), ref)
    add("synch(whole) to read", lambda w: w.synch(0, 0, R, C), ref)
    add("synch_retry(whole) to read", lambda w: w.synch_retry(0, 0, R, C) is not False, ref)
    def ref(st, m): put_shared(st, m, 0, 0, R, C); return True
    add("synch_all(read=False)", lambda w: w.synch_all(read=False), ref)
    for i in range(R):
        for j in range(C):
            def ref(st, m, i=i, j=j): get_shared(st, m, i, j, 1, 1); return (st[m][i, j].item(), True)
            add("read(%d,%d)" % (i, j), lambda w, i=i, j=j: w.read(i, j), ref)
            add("read_retry(%d,%d)" % (i, j), lambda w, i=i, j=j: w.read_retry(i, j), ref)
            for v in vals:
                v = v.item() if isinstance(v, np.generic) else v
                def ref(st, m, i=i, j=j, v=v): st[m][i, j] = v; put_shared(st, m, i, j, 1, 1); return True
                add("write(%r,%d,%d)" % (v, i, j), lambda w, i=i, j=j, v=v: w.write(v, i, j), ref)
                add("write_retry(%r,%d,%d)" % (v, i, j), lambda w, i=i, j=j, v=v: w.write_retry(v, i, j) is not False, ref)
    for (i, j, r, c) in blocks(R, C):
        for k, order in ((0, "C"), (1, "F"), (2, "T")):
            a = np.array([vals[(x + k) % len(vals)] for x in range(r * c)]).reshape(r, c)
            a = np.array(a, order="F") if order == "F" else np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1] if order == "T" else a
            def ref(st, m, i=i, j=j, a=a):
                st[m][i:i + a.shape[0], j:j + a.shape[1]] = a
                put_shared(st, m, i, j, *a.shape)
                return True

            def chk(w, g, i=i, j=j, a=a):
                b = a.astype(w.get_numpy_mirror().dtype)
                b0 = b.copy()
                res = g(b, i, j)
                if (b != b0).any(): raise Violation("writing altered the array which was written")
                return res
            add("write(array %s,%d,%d)" % (a.tolist(), i, j), lambda w, chk=chk: chk(w, w.write), ref)
            if k == 0:
                add("write_retry(array %s,%d,%d)" % (a.tolist(), i, j), lambda w, chk=chk: chk(w, lambda *x: w.write_retry(*x) is not False), ref)

        def rd(w, g, i=i, j=j, r=r, c=c, order="C"):
            b = np.full((r, c), 1, dtype=w.get_numpy_mirror().dtype, order=order)
            res = g(i, j, b)
            if (res is None or res[1] is not True) and (b != np.ones_like(b)).any():
                raise Violation("a read which reports a failure filled the array with %s" % b.tolist())
            return (b.tolist(), res[1])
        def ref(st, m, i=i, j=j, r=r, c=c): get_shared(st, m, i, j, r, c); return (st[m][i:i + r, j:j + c].tolist(), True)
        for o in "CF":
            add("read(%d,%d,array %dx%d %s)" % (i, j, r, c, o), lambda w, rd=rd, o=o: rd(w, w.read, order=o), ref)
        add("read_retry(%d,%d,array %dx%d)" % (i, j, r, c), lambda w, rd=rd: rd(w, w.read_retry), ref)

    def refz(st, m): st[m][:] = 0; put_shared(st, m, 0, 0, R, C); return None
    add("to_zero()", lambda w: w.to_zero(), refz)
    add("is_running()", lambda w: w.is_running(), lambda st, m: True)
    # anything out of range: refused (an exception or False) without effect
    none = lambda st, m: REFUSED
    for (i, j, r, c) in outside(R, C):
        for rd in (True, False):
            add("synch(%d,%d,%d,%d,read=%s)" % (i, j, r, c, rd), lambda w, b=(i, j, r, c), rd=rd: w.synch(*b, read=rd), none)
            add("synch_retry(%d,%d,%d,%d,read=%s)" % (i, j, r, c, rd), lambda w, b=(i, j, r, c), rd=rd: w.synch_retry(*b, read=rd), none)
        for nm in ("write", "write_retry"):
            add("%s(array %dx%d,%d,%d)" % (nm, r, c, i, j), lambda w, b=(i, j, r, c), nm=nm: getattr(w, nm)(np.ones((b[2], b[3]), dtype=w.get_numpy_mirror().dtype), b[0], b[1]), none)
        for nm in ("read", "read_retry"):
            def f(w, b=(i, j, r, c), nm=nm):
                a = np.full((b[2], b[3]), vals[-1], dtype=w.get_numpy_mirror().dtype)
                a0 = a.copy()
                try:
                    res = getattr(w, nm)(b[0], b[1], a)
                finally:
                    if (a != a0).any(): raise Violation("a refused read altered the array")
                return res[1]
            add("%s(%d,%d,array %dx%d)" % (nm, i, j, r, c), f, none)
    for i, j in [(-1, 0), (0, -1), (R, 0), (0, C), (-R, 0), (0, -C), (-R - 1, 0), (R + 3, C + 3)]:
        for nm in ("read", "read_retry"):
            add("%s(%d,%d)" % (nm, i, j), lambda w, i=i, j=j, nm=nm: getattr(w, nm)(i, j)[1], none)
        for nm in ("write", "write_retry"):
            add("%s(%r,%d,%d)" % (nm, vals[-1], i, j), lambda w, i=i, j=j, nm=nm: getattr(w, nm)(vals[-1], i, j), none)
    for nm, a in (("1-dimensional", np.ones(1)), ("3-dimensional", np.ones((1, 1, 1))), ("0-dimensional", np.array(1.0)), ("list", [[1]]), ("None", None), ("text", "1")):
        add("write(%s)" % nm, lambda w, a=a: w.write(a.astype(w.get_numpy_mirror().dtype) if isinstance(a, np.ndarray) else a, 0, 0), none)
        if a is not None:
            add("read into %s" % nm, lambda w, a=a: w.read(0, 0, a.astype(w.get_numpy_mirror().dtype) if isinstance(a, np.ndarray) else a)[1], none)
    return out


def perform(rep, s, op, m, mode, history):
    """one operation on the real wrapper and on the reference, which have the same state; -> next state"""
    name, f, ref = op
    w, lim = s.w[m], s.lim[m]
    st = [a.copy() for a in s.expect]
    what = "%s of the %s side%s" % (name, ("server", "client")[m], mode)
    beat(what)
    lim.left = 40
    raised = None
    try:
        got = f(w)
    except Violation as e:
        rep.violation("%s: %s" % (what, e), "\n".join(history + [what]))
    except Spin:
        rep.violation("%s polls the shared tensor for ever" % what, "\n".join(history + [what]))
    except Exception as e:
        got, raised = REFUSED, e
    exp = ref(st, m)
    if exp is REFUSED:
        if got is True:
            rep.violation("%s was accepted" % what, "\n".join(history + [what]))
        if got is None and raised is None and "retry" not in name:
            rep.violation("%s was neither refused nor reported" % what, "\n".join(history + [what]))
    elif got is REFUSED:
        rep.violation("%s raised %s" % (what, raised), "\n".join(history + [what]))
    elif got != exp and not (isinstance(got, tuple) and got == exp):
        rep.violation("%s returned %r instead of %r" % (what, got, exp), "\n".join(history + [what]))
    now = s.now()
    for n, a, b, in zip(("the server side's mirror", "the client side's mirror", "the shared tensor"), now, st):
        if a.tobytes() != b.tobytes():
            rep.violation("%s is %s instead of %s after %s in state %s" % (n, a.tolist(), b.tolist(), what, [x.tolist() for x in s.expect]), "\n".join(history + [what]))
    rep.count()
    return st


def states(rep, only, dt, R, C, fill, safe=True):
    """every operation in every reachable state"""
    vals = DT[dt][2]
    s = Sys(dt, R, C, fill, safe)
    s.run()
    init = s.now()
    for n, a, b in zip(("server side's mirror", "client side's mirror", "shared tensor"), init, s.expect):
        if a.tobytes() != b.tobytes():
            rep.violation("the %s starts as %s instead of %s" % (n, a.tolist(), b.tolist()))
    allops = ops(R, C, vals, None)
    seen = {key(init)}
    todo = [init]
    while todo and not rep.over():
        st = todo.pop()
        for op in allops:
            for m in (0, 1):
                s.expect = st
                s.put(st)
                n = perform(rep, s, op, m, "", [])
                k = key(n)
                if k not in seen:
                    seen.add(k)
                    todo.append(n)
    if todo:
        rep.extra["cap"] = "%d states seen, %d not expanded" % (len(seen), len(todo))
    rep.distinct = seen
    rep.trans = rep.n
    rep.sample("%s %dx%d fill %s: %d reachable states, %d operations by each side" % (dt, R, C, fill, len(seen), len(allops)))
    s.close()


def refusals(rep, only, dt, R, C):
    """the lock is busy for 1..3 attempts: retrying forms get through, the others are refused and change nothing shared"""
    vals = DT[dt][2]
    s = Sys(dt, R, C, None)
    s.run()
    allops = [o for o in ops(R, C, vals, None) if o[2](([np.zeros((R, C))] * 3)[:] and [np.zeros((R, C), dtype=s.np_t) for _ in range(3)], 0) is not REFUSED]
    a = np.arange(R * C).reshape(R, C)
    sts = [[np.array([[vals[(x * k + q) % 2] for x in r] for r in a], dtype=s.np_t) for q in (0, 1, k % 2)] for k in range(4)]
    for st in sts:
        for op in allops:
            for m in (0, 1):
                for busy in (1, 2, 3):
                    name = op[0]
                    retry = "retry" in name and "retry=False" not in name or name == "to_zero()"
                    touches = not name.startswith("mirror[") and name != "is_running()"
                    s.expect = st
                    s.put(st)
                    s.lim[m].refuse = busy
                    if retry or not touches:
                        perform(rep, s, op, m, " with %d refusals" % busy, [])
                    else:
                        beat(name)
                        s.lim[m].left = 40
                        try:
                            got = op[1](s.w[m])
                        except Spin:
                            rep.violation("%s keeps trying" % name)
                        except Violation as e:
                            rep.violation("%s with a busy lock: %s" % (name, e))
                        except Exception as e:
                            got = False
                        ok = got[1] if isinstance(got, tuple) else got
                        if ok is not False:
                            rep.violation("%s returned %r although the lock was busy" % (name, got))
                        now = s.now()
                        if now[2].tobytes() != st[2].tobytes():
                            rep.violation("the shared tensor was changed by %s which was refused" % name)
                        if now[1 - m].tobytes() != st[1 - m].tobytes():
                            rep.violation("the other side's mirror was changed by %s" % name)
                        if "read" in name and "read=False" not in name and now[m].tobytes() != st[m].tobytes():
                            rep.violation("the mirror was changed by %s which was refused" % name)
                        rep.count((name, busy))
                    s.lim[m].refuse = 0
    rep.sample("%d operations with 1 to 3 refusals" % len(allops))
    s.close()


def histories(rep, only, dt, R, C, depth, fill):
    """all sequences of operations from the start, on one pair of wrappers each, without touching them in between"""
    vals = DT[dt][2]
    allops = [(o, m) for o in ops(R, C, vals[1:], None) for m in (0, 1)
              if not any(x in o[0] for x in ("array", "synch_retry", "into", "write(list", "write(None", "write(text", "dimensional")) or o[0].startswith("synch_all")]
    if depth > 2:      # one of each kind, and only those with an effect
        pick = ("mirror[0,0]", "synch(0,0,1,1", "synch_all(read=True,retry=False", "synch_all(read=False,retry=True", "read(0,0)", "write(", "write_retry(", "to_zero")
        allops = [x for x in allops if x[0][0].startswith(pick) and "-1" not in x[0][0] and ",1,0)" not in x[0][0] and ",0,1)" not in x[0][0] and ",4,4)" not in x[0][0]]

    def one(seq):
        s = Sys(dt, R, C, fill)
        s.run()
        h = []
        for op, m in seq:
            s.expect = perform(rep, s, op, m, "", h)
            h.append("%s by %d" % (op[0], m))
        rep.distinct.add(key(s.expect))
        s.close()
    in_batches(rep, itertools.product(allops, repeat=depth), one)
    rep.sample("%s: all sequences of %d of %d operations" % (dt, depth, len(allops)))


def lives(rep, only, dt, R, C):
    """closing and reopening: operations of a closed side are refused and return"""
    vals = DT[dt][2]
    allops = [o for o in ops(R, C, vals, None)]
    for m in (0, 1):
        for op in allops:
            s = Sys(dt, R, C, None)
            s.run()
            v = np.array([[vals[(i + j) % 2] for j in range(C)] for i in range(R)], dtype=s.np_t)
            s.put([v, v * 0, v])
            s.w[m].close()
            name = op[0]
            if not name.startswith("mirror[") and not name == "is_running()":
                beat("%s after close" % name)
                s.lim[m].left = 40
                try:
                    got = op[1](s.w[m])
                except Spin:
                    rep.violation("%s of a closed side never returns" % name)
                except Violation as e:
                    rep.violation("%s of a closed side: %s" % (name, e))
                except Exception:
                    got = False
                ok = got[1] if isinstance(got, tuple) else got
                if ok is True:
                    rep.violation("%s of a closed side returned %r" % (name, got))
                if m == 1:
                    if s.get().tobytes() != v.tobytes():
                        rep.violation("the tensor was changed by %s of a closed client" % name)
                rep.count((name, m))
            s.close()
    # a client which comes, goes and returns finds the tensor as it is; a server restarted
    for k in range(1, 4):
        s = Sys(dt, R, C, None)
        s.run()
        v = np.array([[vals[(i + j + k) % 2] for j in range(C)] for i in range(R)], dtype=s.np_t)
        for q in range(k):
            s.w[0].get_numpy_mirror()[:, :] = v
            s.lim[0].left = s.lim[1].left = 100
            s.w[0].synch_all(read=False, retry=True)
            c = SharedTWrapper(namespace=s.ns, basename="b", is_server=False, dtype=DT[dt][0])
            c.run()
            if (c.n_rows, c.n_cols) != (R, C) or c.get_numpy_mirror().any():
                rep.violation("a new client has %sx%s %s" % (c.n_rows, c.n_cols, c.get_numpy_mirror()))
            if s.w[0].get_n_clients() != 3:
                rep.violation("%s clients instead of 3" % s.w[0].get_n_clients())
            c.synch_all(read=True, retry=True)
            if c.get_numpy_mirror().tobytes() != v.tobytes():
                rep.violation("a new client reads %s instead of %s" % (c.get_numpy_mirror(), v))
            c.close()
            v = np.roll(v, 1)
            rep.count()
        s.close()


def scenarios(th):
    out = []
    for dt in DT:
        for fill in (None, DT[dt][2][1]):
            f = "" if fill is None else " filled"
            out.append(("states %s 1x2%s" % (dt, f), "inputs", lambda r, o, dt=dt, fl=fill: states(r, o, dt, 1, 2, fl)))
            out.append(("states %s 2x1%s" % (dt, f), "inputs", lambda r, o, dt=dt, fl=fill: states(r, o, dt, 2, 1, fl)))
        out.append(("states %s 2x2" % dt, "inputs", lambda r, o, dt=dt: states(r, o, dt, 2, 2, None)))
        out.append(("refusals %s 2x2" % dt, "inputs", lambda r, o, dt=dt: refusals(r, o, dt, 2, 2)))
        out.append(("closed %s 2x2" % dt, "inputs", lambda r, o, dt=dt: lives(r, o, dt, 2, 2)))
    out.append(("states Float 2x2 unsafe", "inputs", lambda r, o: states(r, o, "Float", 2, 2, None, safe=False)))
    out.append(("histories Float 1x2", "inputs", lambda r, o: histories(r, o, "Float", 1, 2, 2, None)))
    out.append(("histories Int 2x1 filled", "inputs", lambda r, o: histories(r, o, "Int", 2, 1, 2, -7)))
    out.append(("long histories Double 1x1", "inputs", lambda r, o: histories(r, o, "Double", 1, 1, 4 if th else 3, None)))
    if th:
        out.append(("states Bool 2x3", "inputs", lambda r, o: states(r, o, "Bool", 2, 3, None)))
        out.append(("states Int 3x2", "inputs", lambda r, o: states(r, o, "Int", 3, 2, None)))
    return out
