"""C21: SharedTensorDict: start-up of server and clients in every order, contents, writes per key."""
import itertools
import numpy as np
import EigenIPC.PyEigenIPC as M
import EigenIPC.PyEigenIPCExt.wrappers.shared_data_view as SDV
import EigenIPC.PyEigenIPCExt.wrappers.shared_tensor_dict as STD
from common import fresh_ns, Violation, beat, explore, in_batches, Abandon

CUR = [None]      # the scheduler of the current execution
RUNNING = {}      # (namespace, basename) -> a server runs
REFUSE = [0]      # how many more accesses may be refused because a peer holds the lock


class Proxy:
    """a participant of the bindings; every call which touches shared memory is a scheduling point"""

    def __init__(self, kind, o, ns, base):
        self._k, self._o, self._n = kind, o, (ns, base)

    def __getattr__(self, k):
        return getattr(self._o, k)

    def _data(self, what, f, refused):
        s = CUR[0]
        if s is None or s.me() is None:
            return f()
        s.call("%s %s" % (what, self._n[1]), obj=self._n)
        if REFUSE[0] > 0 and s.peers_at(self._n) and s.choose(2):
            REFUSE[0] -= 1
            s.trace[-1] += " refused: a peer holds the lock"
            return refused
        r = f()
        me = s.me()
        sig = (what, self._n, s.version)
        s.changed() if "write" in what else None
        if "read" in what:      # polling: reading again before anybody did anything leads nowhere
            if getattr(me, "last", None) == sig:
                s.wait_change("wait for a change of " + self._n[1])
                r = f()
            me.last = (what, self._n, s.version)
        return r

    def run(self):
        s = CUR[0]
        if s is None or s.me() is None:
            return self._o.run()
        if self._k == "client":
            s.call("attach " + self._n[1], enabled=lambda: RUNNING.get(self._n))
            self._o.run()
        else:
            s.call("run " + self._n[1])
            self._o.run()
            RUNNING[self._n] = True
        s.changed()

    def attach(self):
        s = CUR[0]
        if s is None or s.me() is None:
            return self._o.attach()
        s.call("attach " + self._n[1], enabled=lambda: RUNNING.get(self._n))
        self._o.attach()
        s.changed()

    def write(self, *a, **kw):
        return self._data("write", lambda: self._o.write(*a, **kw), False)

    def read(self, *a, **kw):
        return self._data("read", lambda: self._o.read(*a, **kw), False)

    def write_vec(self, *a, **kw):
        return self._data("write", lambda: self._o.write_vec(*a, **kw), False)

    def read_vec(self, *a, **kw):
        return self._data("read", lambda: self._o.read_vec(*a, **kw), False)


class Factory:
    def __init__(self, kind, f):
        self.k, self.f = kind, f
        n = f.__name__
        self.args = ["n_rows", "n_cols", "basename", "namespace"] if n == "ServerFactory" else ["length", "basename", "name_space"] if n == "StringTensorServer" else \
            ["basename", "namespace" if n == "ClientFactory" else "name_space"]

    def __call__(self, *a, **kw):
        s = CUR[0]
        kw.update(zip(self.args, a))
        if len(a) > len(self.args):
            a = a[len(self.args):]
            raise TypeError("more positional arguments than the stand-in knows: %r" % (a,))
        a = ()
        if self.k == "server" and s is not None and s.me() is not None:
            s.call("create " + kw["basename"])
        return Proxy(self.k, self.f(*a, **kw), kw.get("namespace", kw.get("name_space")), kw["basename"])


def install():
    SDV.ServerFactory = Factory("server", M.ServerFactory)
    SDV.ClientFactory = Factory("client", M.ClientFactory)
    STD.StringTensorServer = Factory("server", M.StringTensorServer)
    STD.StringTensorClient = Factory("client", M.StringTensorClient)


def values(rows, cols, salt=0):
    return (np.arange(rows * cols).reshape(rows, cols) + 100 * salt).astype(np.float32)


def compare(who, d, names, dims, cols, ref):
    if list(d.names) != list(names):
        raise Violation("%s has the names %r instead of %r" % (who, list(d.names), names))
    if [int(x) for x in d.dimensions] != list(dims):
        raise Violation("%s has the dimensions %r instead of %r" % (who, list(d.dimensions), dims))
    for n in names:
        v = d.get(n)
        if v.shape != ref[n].shape or v.dtype != ref[n].dtype or not np.array_equal(v, ref[n], equal_nan=True):
            raise Violation("%s has %s=%s %s instead of %s" % (who, n, v.tolist(), v.shape, ref[n].tolist()))


def startup(rep, only, names, dims, cols, nclients, preempt, refusals, late, writes):
    """all orders of the start of a server and clients; the server then writes, the clients synchronise"""
    install()

    def body(choices):
        pass

    def build(s):
        CUR[0] = s
        RUNNING.clear()
        REFUSE[0] = refusals
        ns = fresh_ns()
        objs, res = [], {}
        ref = {n: values(d, cols, k) for k, (n, d) in enumerate(zip(names, dims))}

        def server():
            d = STD.SharedTensorDict(names=list(names), dimensions=list(dims), n_nodes=cols, namespace=ns, is_server=True)
            objs.append(d)
            d.run()
            for n in names[:writes]:
                if d.write(ref[n], n) is not True:
                    raise Violation("the server could not write " + n)
            res["server"] = d

        def client(k):
            d = STD.SharedTensorDict(namespace=ns, is_server=False)
            objs.append(d)
            d.run()
            if list(d.names) != list(names):
                raise Violation("a client joined with the names %r instead of %r" % (list(d.names), list(names)))
            if [int(x) for x in d.dimensions] != list(dims):
                raise Violation("a client joined with the dimensions %r instead of %r" % (list(d.dimensions), list(dims)))
            if (d.n_dims, d.n_nodes) != (sum(dims), cols):
                raise Violation("a client joined with the shape %r instead of %r" % ((d.n_dims, d.n_nodes), (sum(dims), cols)))
            if d.synch() is not True:          # retrying is the default
                raise Violation("a client could not synchronise")
            for n in names:      # what was not written yet is the fill value (or memory which was not filled yet)
                v = d.get(n)
                if v.shape != ref[n].shape:
                    raise Violation("%s has the shape %s instead of %s" % (n, v.shape, ref[n].shape))
                if not (np.array_equal(v, ref[n]) or np.isnan(v).all()):
                    raise Violation("a client reads %s=%s which was never written" % (n, v.tolist()))
            res[k] = d
        s.spawn("server", server)
        for k in range(nclients):
            s.spawn("client%d" % k, lambda k=k: client(k))

        def final(s, msg):
            try:
                CUR[0] = None
                if msg is None:
                    stuck = [t.name for t in s.threads if t.name not in ("server",) and int(t.name[6:]) not in res]
                    if stuck or "server" not in res:
                        raise Violation("%s did not get through its start" % (stuck or "the server"))
                    exp = dict(ref)
                    for n in names[writes:]:
                        exp[n] = np.full_like(ref[n], np.nan)
                    for k in ["server"] + list(range(nclients)):
                        if k != "server":
                            res[k].synch(retry=True)
                        compare(str(k), res[k], names, dims, cols, exp)
                    # a write by a client arrives at the server and the other clients, under its name only
                    for k in range(nclients):
                        n = names[k % len(names)]
                        exp[n] = values(*exp[n].shape, 7 + k)
                        if res[k].write(exp[n], n) is not True:
                            raise Violation("a client could not write")
                        for q in ["server"] + list(range(nclients)):
                            res[q].synch(retry=True)
                            compare(str(q), res[q], names, dims, cols, exp)
                return "refused %d" % (refusals - REFUSE[0])
            finally:
                CUR[0] = None
                for o in objs[::-1]:
                    o.close()
        return final
    explore(rep, build, preempt=preempt, max_steps=300, only=only)


def contents(rep, only, shapes, cols, names):
    """every write through every key by both sides, of every height and width; all other keys keep their values"""
    def one(x):
        dims = x
        nm = names[:len(dims)]
        ns = fresh_ns()
        s = STD.SharedTensorDict(names=list(nm), dimensions=list(dims), n_nodes=cols, namespace=ns, is_server=True)
        s.run()
        c = STD.SharedTensorDict(namespace=ns, is_server=False)
        c.run()
        ref = {n: np.full((d, cols), np.nan, dtype=np.float32) for n, d in zip(nm, dims)}
        both = (("server", s), ("client", c))

        def check(what):
            for who, d in both:
                if d.synch(retry=True) is not True or d.synch(retry=False) is not True:
                    raise Violation("%s cannot synchronise after %s" % (who, what))
                try:
                    compare(who, d, nm, dims, cols, ref)
                except Violation as e:
                    rep.violation("dimensions %s, after %s: %s" % (dims, what, e), str(what))
        check("start")
        k = 0
        for who, d in both:
            for n, rows in zip(nm, dims):
                for h in range(1, max(dims) + 2):
                    for w in (1, cols, cols + 1):
                        for retry in (True, False):
                            k += 1
                            v = values(h, w, k)
                            what = "a write of %dx%d through %s by the %s (retry=%s)" % (h, w, n, who, retry)
                            beat(what)
                            v0 = v.copy()
                            try:
                                got = d.write(v, n, retry=retry)
                            except Exception as e:
                                got = "raised %s" % e
                            fits = h <= rows and w <= cols
                            rep.count((dims, h, w, str(got)[:7]))
                            if fits:
                                if got is not True:
                                    rep.violation("dimensions %s: %s: %s" % (dims, what, got), what)
                                ref[n][:h, :w] = v
                            elif got is True:
                                rep.violation("dimensions %s: %s was accepted" % (dims, what), what)
                            if not np.array_equal(v, v0):
                                rep.violation("%s altered the array" % what, what)
                            check(what)
                # a row, and what get() returns is a copy
                v = values(1, cols, k)[0]
                if d.write(v, n) is not True:
                    rep.violation("a row was refused by %s" % n)
                ref[n][0, :] = v
                check("a row")
                d.get(n)[:] = -1
                check("a change of the array that get() returned")
            for f in (lambda: d.get("no such name"), lambda: d.write(values(1, cols), "no such name")):
                try:
                    f()
                    rep.violation("a name which does not exist was accepted")
                except (ValueError, KeyError, RuntimeError):
                    pass
                check("a name which does not exist")
        c.close()
        for f in (lambda: c.write(values(1, 1), nm[0]), lambda: c.synch()):
            try:
                if f() is True:
                    rep.violation("a closed client reports success")
            except Violation:
                raise
            except Exception:
                pass
        s.close()
    in_batches(rep, shapes, one, 60)
    rep.sample("dimensions %s, %d columns, every height and width of the written array" % (list(shapes)[:6], cols))


def namelists(rep, only, lists):
    """the names arrive as they are, in their order"""
    def one(nm):
        ns = fresh_ns()
        dims = [1 + (k % 2) for k in range(len(nm))]
        s = STD.SharedTensorDict(names=list(nm), dimensions=dims, n_nodes=2, namespace=ns, is_server=True)
        s.run()
        c = STD.SharedTensorDict(namespace=ns, is_server=False)
        c.run()
        ref = {n: values(d, 2, k) for k, (n, d) in enumerate(zip(nm, dims))}
        for k, n in enumerate(nm):
            (s if k % 2 else c).write(ref[n], n)
        for who, d in (("server", s), ("client", c)):
            d.synch()
            try:
                compare(who, d, list(nm), dims, 2, ref)
            except Violation as e:
                rep.violation(str(e), str(nm))
        rep.count(len(nm))
        c.close()
        s.close()
    in_batches(rep, lists, one, 60)
    rep.sample("name lists such as %r" % (lists[-1],))


def scenarios(th):
    out = []

    def st(title, *a):
        out.append(("start " + title, "schedules", lambda r, o, a=a: startup(r, o, *a)))
    st("1 client", ("a", "bc"), (1, 2), 2, 1, None if th else None, 0, False, 1)
    st("1 client, refusals", ("a", "bc"), (2, 1), 1, 1, 3 if th else 2, 2, False, 1)
    st("2 clients", ("a", "b"), (1, 1), 1, 2, 3 if th else 2, 0, False, 2)
    st("2 clients, refusals", ("a", "b"), (1, 1), 1, 2, 2 if th else 1, 2, False, 1)
    st("3 clients", ("x",), (3,), 1, 3, 2 if th else 1, 0, False, 1)
    mx = 3
    shapes = [d for n in range(1, 4 if th else 4) for d in itertools.product(range(1, mx + 1), repeat=n)]
    for cols in (1, 2, 3):
        out.append(("contents %d columns" % cols, "inputs", lambda r, o, c=cols: contents(r, o, shapes, c, ["k", "key", "other key"])))
    out.append(("contents, many keys", "inputs", lambda r, o: contents(r, o, [tuple(1 + (3 * k) % 7 for k in range(n)) for n in (8, 17)], 5, ["key %d" % k for k in range(17)])))
    out.append(("contents, large", "inputs", lambda r, o: contents(r, o, [(60, 1, 40), (130,)], 70, ["l", "s", "m"])))
    al = ["a", "b", "ab", "", "\u00e9\u4e2d", "x" * 100, "a b;c"]
    lists = [l for n in (1, 2, 3) for l in itertools.permutations(al, n)] + [tuple("n%d" % k for k in range(m)) for m in (5, 10, 40)]
    out.append(("names", "inputs", lambda r, o: namelists(r, o, lists)))
    return out
