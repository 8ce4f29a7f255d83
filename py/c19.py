"""C19: NumPy arrays and Python strings through the bindings, against NumPy as reference."""
import itertools, os
import numpy as np
import EigenIPC.PyEigenIPC as M
from common import fresh_ns, Violation, beat

DT = [("Bool", np.bool_, "Bool"), ("Int", np.int32, "Int"), ("Float", np.float32, "Float"), ("Double", np.float64, "Double")]
LAY = [("RowMaj", M.RowMajor), ("ColMaj", M.ColMajor)]
CANARY = 0xA5


def values(dt, n, salt):
    """n values of type dt: distinct (but for bool), with the delicate ones among them"""
    if dt == np.bool_:
        return np.array([((i * 2654435761 + salt * 40503) >> 7) & 1 for i in range(n)], dtype=np.bool_)
    if dt == np.int32:
        sp = [0, -1, 2**31 - 1, -2**31, 1]
        return np.array([sp[i] if i < 5 and salt % 2 else salt * 1000 + i for i in range(n)], dtype=np.int32)
    sp = [np.nan, np.inf, -np.inf, -0.0, np.finfo(dt).tiny / 4, np.finfo(dt).max]
    return np.array([sp[i] if i < 6 and salt % 2 else salt * 1000.5 + i for i in range(n)], dtype=dt)


def same(a, b):
    return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


class Pair:
    """a server and a client of one tensor, made by the factories or the typed classes"""

    def __init__(self, d, lay, R, C, typed, safe=True, force=False, ns=None, run=True):
        name, np_t, en = d
        self.np_t, self.R, self.C, self.lay, self.order = np_t, R, C, lay, "C" if lay[0] == "RowMaj" else "F"
        self.ns = ns or fresh_ns()
        dt = getattr(M.dtype, en)
        if typed:
            self.s = getattr(M, "PyServer" + name + lay[0])(R, C, "b", self.ns, False, M.VLevel.V0, force, safe)
            self.c = getattr(M, "PyClient" + name + lay[0])("b", self.ns, False, M.VLevel.V0, safe)
        else:
            self.s = M.ServerFactory(n_rows=R, n_cols=C, basename="b", namespace=self.ns, verbose=False, vlevel=M.VLevel.V0,
                                     force_reconnection=force, dtype=dt, layout=lay[1], safe=safe)
            self.c = M.ClientFactory(basename="b", namespace=self.ns, verbose=False, vlevel=M.VLevel.V0, dtype=dt, layout=lay[1], safe=safe)
        if run:
            self.s.run()
            self.c.attach()
        self.buf = np.zeros((R, C), dtype=np_t, order=self.order)

    def set(self, a):
        if not self.s.write(np.array(a, dtype=self.np_t, order=self.order), 0, 0):
            raise Violation("writing a whole contiguous array of the tensor's own type and layout was refused")

    def get(self):
        if not self.c.read(self.buf, 0, 0):
            raise Violation("reading a whole contiguous array of the tensor's own type and layout was refused")
        return self.buf

    def close(self):
        self.c.close()
        self.s.close()


def attempt(f, *a):
    """True/False, or the exception: both ways of refusing"""
    try:
        return f(*a)
    except Exception as e:
        return "raised " + type(e).__name__


class Arr:
    """an array with its surrounding memory"""

    def __init__(self, dt, r, c, s0, s1, shift=0):
        it = np.dtype(dt).itemsize
        lo = min(0, (r - 1) * s0) + min(0, (c - 1) * s1) if r and c else 0
        hi = max(0, (r - 1) * s0) + max(0, (c - 1) * s1) + it if r and c else 0
        self.mem = np.full(hi - lo + 64, CANARY, dtype=np.uint8)
        self.off = 32 - lo - shift
        self.a = np.ndarray((r, c), dtype=dt, buffer=self.mem.data, offset=self.off, strides=(s0, s1))

    def fill(self, v):
        self.mem[:] = CANARY
        self.a[...] = v


def aliased(r, c, s0, s1, it):
    seen = set()
    for i in range(r):
        for j in range(c):
            for k in range(it):
                p = i * s0 + j * s1 + k
                if p in seen:
                    return True
                seen.add(p)
    return False


def plain(r, c, s0, s1, it, order):
    """arrangements which must be accepted: those of the tensor's layout, without gaps or with equal positive steps"""
    if r == 0 or c == 0:
        return False
    if order == "C":
        return s1 > 0 and s1 % it == 0 and s0 % it == 0 and s0 >= s1 * c
    return s0 > 0 and s0 % it == 0 and s1 % it == 0 and s1 >= s0 * r


def strides(rep, only, d, lay, typed, thorough):
    R, C = 3, 4
    p = Pair(d, lay, R, C, typed)
    dt = d[1]
    it = np.dtype(dt).itemsize
    st = sorted({k * it for k in (-8, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 12)} |
                ({it + 1, 4 * it + 1, -it - 1, it // 2} if it > 1 else set()))
    base = values(dt, R * C, 2).reshape(R, C)
    vals = values(dt, (R + 1) * (C + 1), 3)
    for r, c in itertools.product(range(0, R + 2), range(0, C + 2)):
        if not thorough and r * c > 9:
            sts = [x for x in st if abs(x) <= 5 * it]
        else:
            sts = st
        for s0, s1 in itertools.product(sts, sts):
            al = aliased(r, c, s0, s1, it)
            for shift in ((0, 1) if it > 1 else (0,)):
                A = Arr(dt, r, c, s0, s1, shift)
                cases = [(i, j) for i in range(-1, R - r + 2) for j in range(-1, C - c + 2)]
                if r > R or c > C or r == 0 or c == 0 or shift:
                    cases = [(0, 0), (R - r, C - c), (0, 1)]
                for (i, j) in cases:
                    fits = i >= 0 and j >= 0 and i + r <= R and j + c <= C
                    must = fits and plain(r, c, s0, s1, it, p.order)
                    for op in ("write", "read"):
                        if op == "read" and al:
                            continue
                        for who in ("server", "client"):
                            o = p.s if who == "server" else p.c
                            p.set(base)
                            A.fill(vals[:r * c].reshape(r, c) if op == "write" else vals[::-1][:r * c].reshape(r, c))
                            before = A.mem.tobytes()
                            what = (d[0], lay[0], "typed" if typed else "factory", who, op, "shape", (r, c), "strides", (s0, s1), "shift", shift, "at", (i, j))
                            beat(what)
                            got = attempt(getattr(o, op), A.a, i, j)
                            exp = base.copy()
                            if op == "write" and got is True and fits:
                                exp[i:i + r, j:j + c] = A.a
                            expmem = before
                            if op == "read" and got is True and fits:
                                B = Arr(dt, r, c, s0, s1, shift)
                                B.fill(vals[::-1][:r * c].reshape(r, c))
                                B.a[...] = base[i:i + r, j:j + c]
                                expmem = B.mem.tobytes()
                            now = p.get()
                            rep.count((op, str(got)[:12], r, c))
                            if got is True and not fits and r and c:
                                rep.violation("a block outside the tensor was accepted: %s" % (what,), str(what))
                            if must and got is not True:
                                rep.violation("refused (%s): %s" % (got, what), str(what))
                            if not same(now, exp):
                                rep.violation("the tensor is\n%s\ninstead of\n%s\nafter %s -> %s" % (now, exp, what, got), str(what))
                            if A.mem.tobytes() != expmem:
                                rep.violation("the array or memory around it is not as expected after %s -> %s" % (what, got), str(what))
        if rep.over():
            rep.extra["cap"] = "time"
            break
    rep.sample("%s %s strides %s, shapes up to %dx%d at every position" % (d[0], lay[0], st, R + 1, C + 1))
    p.close()


def sizes(rep, only, d, typed, thorough):
    """every tensor shape: whole and element-wise, all value patterns, server and client, both layouts"""
    dt = d[1]
    top = 6 if thorough else 5
    shapes = [(r, c) for r in range(1, top) for c in range(1, top)] + [(1, 17), (17, 1), (33, 5), (4, 64), (100, 3)]
    for lay in LAY:
        for R, C in shapes:
            p = Pair(d, lay, R, C, typed)
            for o in (p.s, p.c):
                if (o.getNRows(), o.getNCols()) != (R, C):
                    rep.violation("dimensions %s instead of %s" % ((o.getNRows(), o.getNCols()), (R, C)))
                if o.getScalarType() != getattr(M.dtype, d[2]) or M.toNumpyDType(o.getScalarType()) != np.dtype(dt):
                    rep.violation("a tensor of %s says its type is %s (%s)" % (d[0], o.getScalarType(), M.toNumpyDType(o.getScalarType())))
                if o.getNamespace() != p.ns or o.getBasename() != "b":
                    rep.violation("name (%s,%s) instead of (%s,b)" % (o.getNamespace(), o.getBasename(), p.ns))
                if o.isRunning() is not True:
                    rep.violation("not running after run()/attach()")
            if p.s.getNClients() != 1:
                rep.violation("%s clients instead of 1" % p.s.getNClients())
            z = np.ones((R, C), dtype=dt, order=p.order)
            if p.c.read(z, 0, 0) is not True or z.any():
                rep.violation("a new tensor is not zero: %s" % z)
            for salt in (range(4) if R * C < 64 else range(2)):
                v = values(dt, R * C, salt).reshape(R, C)
                for w, rd in ((p.s, p.c), (p.c, p.s), (p.s, p.s), (p.c, p.c)):
                    beat((d[0], lay[0], R, C, salt))
                    if w.write(np.array(v, order=p.order), 0, 0) is not True:
                        rep.violation("a whole array was refused: %s %s %s" % (d[0], lay[0], (R, C)))
                    b = np.zeros((R, C), dtype=dt, order=p.order)
                    if rd.read(b, 0, 0) is not True or not same(b, v):
                        rep.violation("read %s instead of %s (%s %s)" % (b, v, d[0], lay[0]))
                    rep.count((R, C, lay[0]))
                    e = np.zeros((1, 1), dtype=dt)
                    if R * C <= 64:
                        for i in range(R):
                            for j in range(C):
                                if rd.read(e, i, j) is not True or not same(e[0, 0], v[i, j]):
                                    rep.violation("element (%d,%d) is %s instead of %s (%s %s)" % (i, j, e, v[i, j], d[0], lay[0]))
                                rep.count()
            # element by element
            w = np.zeros((R, C), dtype=dt)
            p.set(w)
            if R * C <= 64:
                v = values(dt, R * C, 3).reshape(R, C)
                for i in range(R):
                    for j in range(C):
                        o = p.s if (i + j) % 2 else p.c
                        if o.write(v[i:i + 1, j:j + 1].copy(), i, j) is not True:
                            rep.violation("element (%d,%d) refused" % (i, j))
                        w[i, j] = v[i, j]
                        if not same(p.get(), w):
                            rep.violation("tensor %s instead of %s after writing element (%d,%d)" % (p.buf, w, i, j))
                        rep.count()
            p.close()
    rep.sample("%s shapes %s" % (d[0], shapes[-6:]))


class Sub(np.ndarray):
    pass


def odd(rep, only, d, lay, typed, thorough):
    """everything which is not a writable two-dimensional array of the right type; odd positions; not running"""
    R, C = 2, 3
    dt = d[1]
    p = Pair(d, lay, R, C, typed)
    base = values(dt, R * C, 2).reshape(R, C)
    v = values(dt, R * C, 3).reshape(R, C)
    F = lambda a: np.array(a, order=p.order)
    things = []
    for t in ["?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "e", "f", "d", "g", "F", "D", "O", "S4", "U4", "V4", "M8[s]", "m8[s]",
              ">f4", ">f8", ">i4", ">i8", "V8", "V1"]:
        x = np.dtype(t)
        if x == np.dtype(dt):
            continue
        with np.errstate(all="ignore"):
            try:
                a = np.zeros((R, C), dtype=x, order=p.order)
            except Exception:
                continue
        things.append(("dtype " + t, a))
    things.append(("structured", np.zeros((R, C), dtype=[("x", dt)])))
    for sh in [(), (1,), (R * C,), (R,), (C,), (1, R, C), (R, C, 1), (2, 1, R, C)]:
        things.append(("shape %s" % (sh,), np.zeros(sh, dtype=dt, order=p.order)))
    things += [("list", v.tolist()), ("tuple", tuple(map(tuple, v.tolist()))), ("None", None), ("number", 1), ("string", "abcdef"),
               ("bytes", b"0" * 64), ("memoryview", memoryview(F(v))), ("object", object()), ("dict", {}), ("type", np.ndarray)]
    ok = [("subclass", F(v).view(Sub)), ("read-only", F(v)), ("broadcast row", np.broadcast_to(v[:1, :], (R, C))),
          ("broadcast column", np.broadcast_to(v[:, :1], (R, C))), ("broadcast element", np.broadcast_to(v[:1, :1], (R, C))),
          ("masked", np.ma.masked_array(F(v), mask=np.ones((R, C), bool))), ("matrix", np.matrix(F(v)) if True else None),
          ("other layout", np.array(v, order="F" if p.order == "C" else "C")), ("transposed", F(v.T).T), ("reversed rows", F(v)[::-1]),
          ("reversed columns", F(v)[:, ::-1]), ("reversed", F(v)[::-1, ::-1]), ("field", np.zeros((R, C), dtype=[("p", "u1"), ("x", dt)], order=p.order)["x"]),
          ("even field", np.zeros((R, C), dtype=[("p", dt), ("x", dt)], order=p.order)["x"])]
    ok[1][1].flags.writeable = False
    for fam, lst in (("bad", things), ("ok", ok)):
        for name, a in lst:
            for op in ("write", "read"):
                for who in ("server", "client"):
                    for i, j in [(0, 0), (0, 1), (-1, 0), (1, 1)]:
                        p.set(base)
                        own = isinstance(a, np.ndarray)
                        cp = np.array(a, copy=True, subok=False) if own else a
                        was = cp.tobytes() if own and cp.dtype != object else repr(a)
                        what = (d[0], lay[0], "typed" if typed else "factory", who, op, name, (i, j))
                        beat(what)
                        got = attempt(getattr(p.s if who == "server" else p.c, op), a, i, j)
                        rep.count((name, op, str(got)[:14]))
                        now = p.get()
                        fits = own and a.ndim == 2 and i >= 0 and j >= 0 and i + a.shape[0] <= R and j + a.shape[1] <= C
                        exp, expa = base, was
                        if got is True:
                            if fam == "bad":
                                rep.violation("accepted: %s" % (what,), str(what))
                            if not fits:
                                rep.violation("accepted outside the tensor: %s" % (what,), str(what))
                            if op == "write":
                                exp = base.copy()
                                exp[i:i + a.shape[0], j:j + a.shape[1]] = np.asarray(a)
                            elif name == "read-only" or "broadcast" in name:
                                rep.violation("a read into an array which cannot be written was accepted: %s" % (what,), str(what))
                            else:
                                expa = np.ascontiguousarray(base[i:i + a.shape[0], j:j + a.shape[1]]).tobytes()
                        elif fits and name in ("subclass",) or (fits and op == "write" and name == "read-only"):
                            rep.violation("refused (%s): %s" % (got, what), str(what))
                        if not same(now, exp):
                            rep.violation("the tensor is %s instead of %s after %s -> %s" % (now, exp, what, got), str(what))
                        n2 = np.ascontiguousarray(np.asarray(a)).tobytes() if own and cp.dtype != object else repr(a)
                        if own and cp.dtype != object and op == "read" and got is True:
                            if n2 != expa:
                                rep.violation("the array is %s instead of %s after %s" % (a, base, what), str(what))
                            if a.flags.writeable:
                                np.asarray(a)[...] = cp
                        elif n2 != was:
                            rep.violation("the array was altered by %s -> %s" % (what, got), str(what))
    # positions of every kind
    A = F(v[:1, :1])
    for i in [0, 1, 2, -1, 2**31 - 1, -2**31, 2**31, 2**32, 2**63, 2**64, 0.0, 1.0, 0.5, "0", None, True, np.int64(1), np.int32(0), np.int64(2**32), np.float64(1), np.bool_(True), np.array(1)]:
        for pos in (0, 1):
            for op in ("write", "read"):
                for o in (p.s, p.c):
                    p.set(base)
                    B = A.copy(order=p.order)
                    args = (i, 0) if pos == 0 else (0, i)
                    beat((op, args))
                    got = attempt(getattr(o, op), B, *args)
                    rep.count((str(got)[:14], op))
                    try:
                        k = i.__index__() if not isinstance(i, (float, str, type(None), np.floating)) else (int(i) if isinstance(i, (float, np.floating)) and i == int(i) else None)
                    except TypeError:
                        k = None
                    valid = k is not None and 0 <= k < (R, C)[pos]
                    if got is True and not valid:
                        rep.violation("position %r accepted" % (args,))
                    if type(i) is int and valid and got is not True:
                        rep.violation("position %r refused" % (args,))
                    exp = base.copy()
                    if got is True and op == "write":
                        exp[(k, 0) if pos == 0 else (0, k)] = A[0, 0]
                    if not same(p.get(), exp):
                        rep.violation("tensor %s instead of %s after %s at %r" % (p.buf, exp, op, args))
                    expb = base[(k, 0) if pos == 0 else (0, k)] if got is True and op == "read" else A[0, 0]
                    if not same(B[0, 0], expb):
                        rep.violation("array %s instead of %s after %s at %r" % (B, expb, op, args))
    # the lock is held by somebody else
    for holder, others in ((p.s, (p.c,)), (p.c, (p.s,))):
        p.set(base)
        holder.dataSemAcquire()
        for o in others:
            B = F(v)
            for op in ("write", "read"):
                got = attempt(getattr(o, op), B, 0, 0)
                rep.count((op, "locked", str(got)))
                if got is True:
                    rep.violation("%s succeeded while the lock was held by another participant" % op)
                if not same(B, v):
                    rep.violation("the array was altered by a refused " + op)
        holder.dataSemRelease()
        if not same(p.get(), base):
            rep.violation("the tensor was altered by a refused write")
    p.close()
    # not running (before the start, after stop and close)
    q = Pair(d, lay, R, C, typed, run=False)
    for when in ("new", "stopped", "closed"):
        if when == "stopped":
            q.s.run(); q.c.attach(); q.set(base); q.c.close(); q.s.stop()
        if when == "closed":
            q.s.close()
        for o in ([q.s, q.c]):
            for op in ("write", "read"):
                B = F(v)
                beat((when, op))
                got = attempt(getattr(o, op), B, 0, 0)
                rep.count((when, op, str(got)[:14]))
                if got is True:
                    rep.violation("%s succeeded on a %s participant" % (op, when))
                if not same(B, v):
                    rep.violation("the array was altered by %s on a %s participant" % (op, when))
    rep.sample("%s %s: %d things which are no proper arrays, %d unusual arrays" % (d[0], lay[0], len(things), len(ok)))


def options(rep, only, typed, thorough):
    """the participants are what the options say"""
    for d in DT:
        for lay in LAY:
            for R, C in ((1, 1), (2, 3), (3, 2)):
                # a client of any other description is refused (or gives up): see C04; here: the class says what it is
                for safe in (True, False):
                    p = Pair(d, lay, R, C, typed, safe=safe)
                    v = values(d[1], R * C, 2).reshape(R, C)
                    p.set(v)
                    p.s.dataSemAcquire()
                    B = np.zeros((R, C), dtype=d[1], order=p.order)
                    got = attempt(p.c.read, B, 0, 0)
                    rep.count((safe, str(got)))
                    if got is not (not safe):
                        rep.violation("read with the lock held by another: %s (safe=%s, %s %s)" % (got, safe, d[0], lay[0]))
                    got = attempt(p.c.write, np.array(v, order=p.order), 0, 0)
                    if got is not (not safe):
                        rep.violation("write with the lock held by another: %s (safe=%s, %s %s)" % (got, safe, d[0], lay[0]))
                    p.s.dataSemRelease()
                    p.c.dataSemAcquire()
                    for op in ("read", "write"):
                        got = attempt(getattr(p.s, op), B, 0, 0)
                        if got is not (not safe):
                            rep.violation("%s by the server with the lock held by a client: %s (safe=%s, %s %s)" % (op, got, safe, d[0], lay[0]))
                    p.c.dataSemRelease()
                    # a second server of the name: refused unless it may take over
                    for force in (False, True):
                        beat(("second server", force))
                        q = None
                        try:
                            q = Pair(d, lay, R + 1, C, typed, safe=safe, force=force, ns=p.ns, run=False)
                            q.s.run()
                            up = q.s.isRunning()
                        except Exception:
                            up = False
                        rep.count(("second", force, up))
                        if up is not force:
                            rep.violation("a second server with force_reconnection=%s: running=%s (%s %s)" % (force, up, d[0], lay[0]))
                        if up:
                            if q.s.getNRows() != R + 1:
                                rep.violation("rows %s" % q.s.getNRows())
                            q.s.close()
                    p.c.close(); p.s.close()
                # stop and start again, with values kept for the client, and a client which comes and goes
                p = Pair(d, lay, R, C, typed)
                for k in range(3):
                    v = values(d[1], R * C, k).reshape(R, C)
                    p.set(v)
                    if not same(p.get(), v): rep.violation("round %d: %s instead of %s" % (k, p.buf, v))
                    p.c.detach()
                    if p.s.getNClients() != 0: rep.violation("%s clients after detaching" % p.s.getNClients())
                    if p.c.isRunning(): rep.violation("a detached client says it is running")
                    p.c.attach()
                    if p.s.getNClients() != 1: rep.violation("%s clients after attaching" % p.s.getNClients())
                    p.s.stop()
                    if p.s.isRunning(): rep.violation("a stopped server says it is running")
                    p.s.run()
                    if not p.s.isRunning(): rep.violation("a restarted server says it is not running")
                    rep.count(("restart", k))
                p.close()
    rep.sample("safe, force_reconnection, stop/run, detach/attach for all types and layouts")


STR = ["", "a", "ab", "abc", "abcd", "abcde", "\u00e9", "\u4e2d\u6587", "\U0001f600", "x" * 15, "y" * 16, "z" * 17, " ", "\n", "end;", "k" * 255, "\u00e9" * 400, "w" * 1023, "w" * 1024, "\u4e2d" * 341 + "a"]
LONG = ["w" * 1025, "w" * 1026, "w" * 4096, "\u4e2d" * 342]


def decode(col):
    return np.ascontiguousarray(col).tobytes()


def strings(rep, only, thorough):
    for n in (1, 2, 3):
        ns = fresh_ns()
        s = M.StringTensorServer(length=n, basename="st", name_space=ns)
        s.run()
        c = M.StringTensorClient(basename="st", name_space=ns)
        c.run()
        for o in (s, c):
            if o.length() != n or not o.isRunning() or o.getNamespace() != ns or o.getBasename() != "st":
                rep.violation("length %s, running %s, name (%s,%s)" % (o.length(), o.isRunning(), o.getNamespace(), o.getBasename()))
        ref = [""] * n

        def check(what):
            for o in (s, c):
                l = ["?"] * n
                beat(what)
                if o.read_vec(l, 0) is not True or l != ref:
                    rep.violation("list %r instead of %r after %s" % (l, ref, what), str(what))
                for k in range(n):
                    if o.read_str(k) != (ref[k], True):
                        rep.violation("string %d is %r instead of %r after %s" % (k, o.read_str(k), ref[k], what), str(what))
                for k in (-1, n, n + 1, 2**31 - 1, -2**31):
                    if o.read_str(k)[1] is not False:
                        rep.violation("string %d of %d was read: %r" % (k, n, o.read_str(k)))
                # pieces of the list, also ones which go beyond it
                for m in range(0, n + 2):
                    for k in range(-1, n + 2):
                        l = ["?%d" % q for q in range(m)]
                        got = attempt(o.read_vec, l, k)
                        fit = m > 0 and k >= 0 and k + m <= n
                        rep.count((m, k, str(got)))
                        if got is not fit and not (m == 0):
                            rep.violation("%d strings from %d on of %d: %s" % (m, k, n, got))
                        exp = ref[k:k + m] if fit else ["?%d" % q for q in range(m)]
                        if l != exp:
                            rep.violation("read %r instead of %r (%d from %d on, %s)" % (l, exp, m, k, got))
                raw = o.get_raw_buffer()
                if raw.dtype != np.int32 or raw.ndim != 2 or raw.shape[1] != n:
                    rep.violation("raw buffer %s %s for %d strings" % (raw.dtype, raw.shape, n))
                for k in range(n):
                    b = ref[k].encode()
                    col = decode(raw[:, k])
                    if (col[:len(b)] != b or col[len(b):].strip(b"\x00")):
                        rep.violation("raw buffer column %d holds %r instead of %r" % (k, col[:len(b) + 4], b))
                raw[...] = 77       # a copy: changes nothing
        check("start")
        for w in (s, c):
            for k in range(n):
                for x in STR:
                    got = attempt(w.write_str, x, k)
                    if got is not True:
                        rep.violation("writing %r at %d of %d: %s" % (x[:20], k, n, got))
                    ref[k] = x
                    check("write_str(%r, %d)" % (x[:20], k))
            for k in (-1, n, n + 1, 2**31 - 1):
                if attempt(w.write_str, "zz", k) is True:
                    rep.violation("a string was written at %d of %d" % (k, n))
            for x in LONG:
                for k in range(n):
                    for f, y in ((w.write_str, x), (w.write_vec, [x]), (w.write_vec, ["q"] * k + [x])):
                        got = attempt(f, y, k if y is x or len(y) == 1 else 0)
                        rep.count(("long", str(got)[:14]))
                        if got is True:
                            rep.violation("a string of %d bytes was accepted" % len(x.encode()))
                check("long strings")
            check("writes outside")
            for m in range(0, n + 2):
                for k in range(-1, n + 2):
                    l = [STR[(m * 5 + k * 3 + q) % 12] + str(q) for q in range(m)]
                    keep = list(l)
                    got = attempt(w.write_vec, l, k)
                    fit = m > 0 and k >= 0 and k + m <= n
                    if m and got is not fit:
                        rep.violation("writing %d strings from %d on of %d: %s" % (m, k, n, got))
                    if l != keep:
                        rep.violation("the list was altered by writing it")
                    if got is True and m:
                        ref[k:k + m] = l
                    check("write_vec(%r, %d) -> %s" % (l, k, got))
            for bad in (None, 3, b"abc", ["a", 3], [None], "ab", ("a",), {"a": 1}, np.array(["a"])):
                for f in (w.write_vec, w.write_str):
                    got = attempt(f, bad, 0)
                    rep.count((str(type(bad)), str(got)[:14]))
                    if got is True:
                        # sequences of strings and bytes are converted: then the result is what it says
                        y = s.read_str(0)[0]
                        exp = bad.decode() if isinstance(bad, bytes) else bad if f == w.write_str else bad[0]
                        if y != str(exp):
                            rep.violation("%r was accepted and reads back as %r" % (bad, y))
                        l = ["?"] * n
                        s.read_vec(l, 0)
                        ref[:] = l
                    check("%r -> %s" % (bad, got))
        # the underlying participant of the list is not a copy and stays usable
        for o in (s, c):
            m = o.get_shared_mem()
            if (m.getNCols(), m.isRunning()) != (n, True):
                rep.violation("the shared memory of a list of %d strings has %d columns, running=%s" % (n, m.getNCols(), m.isRunning()))
            del m
            check("get_shared_mem()")
        if s.get_shared_mem().getNClients() != 1:
            rep.violation("%s clients" % s.get_shared_mem().getNClients())
        # the lock is held by the other side
        for a, b in ((s, c), (c, s)):
            a.get_shared_mem().dataSemAcquire()
            l = ["?"] * n
            for got in (attempt(b.read_vec, l, 0), attempt(b.write_vec, ["q"] * n, 0), attempt(b.write_str, "q", 0), b.read_str(0)[1]):
                if got is True:
                    rep.violation("an access succeeded while the lock was held by another")
            if l != ["?"] * n:
                rep.violation("a refused read altered the list: %r" % l)
            a.get_shared_mem().dataSemRelease()
            check("refused accesses")
        c.close()
        s.close()
        for o in (s, c):
            l = ["?"]
            if attempt(o.read_vec, l, 0) is True or attempt(o.write_str, "a", 0) is True or l != ["?"]:
                rep.violation("a closed list was accessed: %r" % l)
    rep.sample("lists of 1 to 3 strings; strings %s" % [x[:8] for x in STR])


def scenarios(th):
    out = []
    for d in DT:
        for typed in (False, True):
            t = "typed" if typed else "factory"
            out.append(("shapes %s %s" % (d[0], t), "inputs", lambda r, o, d=d, ty=typed: sizes(r, o, d, ty, th)))
            for lay in LAY:
                out.append(("strides %s %s %s" % (d[0], lay[0], t), "inputs", lambda r, o, d=d, l=lay, ty=typed: strides(r, o, d, l, ty, th)))
                out.append(("unusual %s %s %s" % (d[0], lay[0], t), "inputs", lambda r, o, d=d, l=lay, ty=typed: odd(r, o, d, l, ty, th)))
    for typed in (False, True):
        out.append(("options %s" % ("typed" if typed else "factory"), "inputs", lambda r, o, ty=typed: options(r, o, ty, th)))
    out.append(("strings", "inputs", lambda r, o: strings(r, o, th)))
    return out
