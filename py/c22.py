"""C22: the ROS bridge, between a recording stand-in for ROS and real shared memory."""
import sys, types, itertools, array, struct, collections, os, glob
import numpy as np
import EigenIPC.PyEigenIPC as M
from common import fresh_ns, Violation, beat, explore, in_batches, Sched

CUR = [None]      # the scheduler of the current execution
W = [None]        # the ROS world of the current execution


# ---------------------------------------------------------------- messages
FMT = {"Bool": ("?", False), "Int32": ("i", False), "Float32": ("f", False), "Float64": ("d", False),
       "Int32MultiArray": ("i", True), "Float32MultiArray": ("f", True), "Float64MultiArray": ("d", True)}


class Msg:
    """ROS 1 keeps what it is given until it serialises it; ROS 2 converts it at once"""

    def __init__(self, data=None):
        f, arr = FMT[type(self).__name__]
        if data is None:
            data = [] if arr else {"?": False, "i": 0}.get(f, 0.0)
        if arr and W[0] is not None and W[0].backend == "ros2":
            data = array.array(f, data)
        self.data = data

    def wire(self):
        f, arr = FMT[type(self).__name__]
        if arr:
            return struct.pack("<%d%s" % (len(self.data), f), *self.data)
        if not isinstance(self.data, (int, float, np.number)):
            raise TypeError("field data must be a number: %r" % (self.data,))
        return struct.pack("<" + f, self.data)


def unwire(cls, b):
    f, arr = FMT[cls.__name__]
    m = cls.__new__(cls)
    v = struct.unpack("<%d%s" % (len(b) // struct.calcsize(f), f), b)
    m.data = (array.array(f, v) if W[0].backend == "ros2" else v) if arr else v[0]
    return m


# ---------------------------------------------------------------- world
class Sub:
    def __init__(self, w, name, cls, callback, queue):
        self.w, self.name, self.cls, self.cb = w, name, cls, callback
        self.q = collections.deque(maxlen=queue)
        self.open = True
        w.subs.append(self)
        for p in w.pubs:
            if p.name == name and p.open:
                for m in p.latched():
                    self.arrive(p, m)

    def arrive(self, p, b):
        if p.cls is not self.cls:      # ROS refuses to connect different types
            return
        self.q.append(b)
        self.w.moved()

    def deliver(self):
        """the callback, as ROS calls it; ROS 1 logs what it raises, with ROS 2 it reaches who spins"""
        b = self.q.popleft()
        self.w.moved()
        m = unwire(self.cls, b)
        try:
            self.cb(m)
        except Violation:
            raise
        except Exception as e:
            self.w.raised.append((self.name, str(e)))
            if self.w.backend == "ros2":
                raise
        finally:
            self.w.moved()

    def unregister(self):
        self.open = False
        if self in self.w.subs:
            self.w.subs.remove(self)
    destroy = unregister


class Pub:
    def __init__(self, w, name, cls, queue, latch):
        self.w, self.name, self.cls, self.latch = w, name, cls, latch
        self.keep = collections.deque(maxlen=(queue or 1) if w.backend == "ros2" else 1)
        self.open = True
        w.pubs.append(self)

    def latched(self):
        if not self.latch:
            return []
        return [m.wire() if isinstance(m, Msg) else m for m in self.keep]

    def publish(self, m):
        if type(m) is not self.cls:
            raise TypeError("%s published on a topic of %s" % (type(m).__name__, self.cls.__name__))
        b = m.wire()
        self.keep.append(m if self.w.backend == "ros1" else b)     # rospy keeps the message itself
        for s in list(self.w.subs):
            if s.name == self.name:
                s.arrive(self, b)

    def unregister(self):
        self.open = False
        if self in self.w.pubs:
            self.w.pubs.remove(self)
    destroy = unregister


class World:
    def __init__(self, backend):
        self.backend, self.pubs, self.subs, self.raised = backend, [], [], []
        self.node = Node(self) if backend == "ros2" else None

    def moved(self):
        s = CUR[0]
        if s is not None:
            s.changed()

    def pending(self):
        return [s for s in self.subs if s.q]

    def drain(self, order=None):
        while self.pending():
            p = self.pending()
            (p[0] if order is None else sorted(p, key=order)[0]).deliver()


class Node:
    def __init__(self, w):
        self.w = w

    def create_publisher(self, msg_type, topic, qos_profile, **kw):
        return Pub(self.w, topic, msg_type, qos_profile.depth, qos_profile.durability == "TRANSIENT_LOCAL")

    def create_subscription(self, msg_type, topic, callback, qos_profile, **kw):
        return Sub(self.w, topic, msg_type, callback, qos_profile.depth)

    def destroy_subscription(self, s):
        s.unregister()

    def destroy_publisher(self, p):
        p.unregister()


class QoS:
    def __init__(self, **kw):
        self.depth = kw.get("depth", 10)
        self.durability = kw.get("durability", "VOLATILE")


class Names:
    def __getattr__(self, k):
        return k


def thread_sleep(ns=0, *a):
    s = CUR[0]
    if s is not None and s.me() is not None:
        me = s.me()      # returns at once unless nothing happened since the sleep before
        v = getattr(me, "slept", None)
        s.call("sleep", enabled=lambda: s.version != v)
        me.slept = s.version
    else:
        raise Violation("waits for ever although nothing is being delivered")


def stubs():
    if "rospy" in sys.modules:
        return
    mod = {}
    for n in ("rospy", "rclpy", "rclpy.qos", "rclpy.node", "std_msgs", "std_msgs.msg", "perf_sleep", "perf_sleep.pyperfsleep"):
        mod[n] = sys.modules[n] = types.ModuleType(n)
    for n in FMT:
        setattr(mod["std_msgs.msg"], n, type(n, (Msg,), {}))
    mod["std_msgs"].msg = mod["std_msgs.msg"]
    mod["rospy"].Publisher = lambda name, data_class, queue_size=None, latch=False, **kw: Pub(W[0], name, data_class, queue_size, latch)
    mod["rospy"].Subscriber = lambda name, data_class, callback=None, queue_size=None, **kw: Sub(W[0], name, data_class, callback, queue_size)
    mod["rclpy"].qos, mod["rclpy"].node = mod["rclpy.qos"], mod["rclpy.node"]
    mod["rclpy.node"].Node = Node
    q = mod["rclpy.qos"]
    q.QoSProfile = QoS
    q.ReliabilityPolicy = q.DurabilityPolicy = q.HistoryPolicy = q.LivelinessPolicy = Names()
    mod["perf_sleep.pyperfsleep"].PerfSleep = type("PerfSleep", (), {"thread_sleep": staticmethod(thread_sleep)})
    mod["perf_sleep"].pyperfsleep = mod["perf_sleep.pyperfsleep"]


# ---------------------------------------------------------------- shared memory side
REFUSE = [0]
POLLS = [0]


class Side:
    """a participant the bridge was given or created; accesses are scheduling points and may be refused (the lock is held)"""

    def __init__(self, o, name):
        self._o, self._name = o, name
        self._written = []

    def __getattr__(self, k):
        return getattr(self._o, k)

    def _acc(self, what, f):
        s = CUR[0]
        if s is not None and s.me() is not None:
            s.call("%s shared memory" % what)
            if REFUSE[0] > 0 and s.choose(2):
                REFUSE[0] -= 1
                s.trace[-1] += " refused"
                s.changed()
                return False
        elif REFUSE[0] > 0:
            REFUSE[0] -= 1
            return False
        r = f()
        if r is False:
            POLLS[0] += 1
            if POLLS[0] > 200:
                raise Violation("polls for ever: every access to shared memory is refused although nobody holds the lock")
        else:
            POLLS[0] = 0
        return r

    def read(self, *a, **kw):
        return self._acc("read", lambda: self._o.read(*a, **kw))

    def read_vec(self, *a, **kw):
        return self._acc("read", lambda: self._o.read_vec(*a, **kw))

    def write(self, *a, **kw):
        return self._acc("write", lambda: self._o.write(*a, **kw))


class TSide(Side):
    pass


class SSide(Side):
    pass


class TornArray(np.ndarray):
    """assigning to elements in place takes time (numpy converts large arrays without holding the interpreter)"""

    def __setitem__(self, k, v):
        s = CUR[0]
        if s is None or s.me() is None:
            return np.ndarray.__setitem__(self, k, v)
        t = np.array(np.asarray(self))
        t[k] = v
        a, b = np.asarray(self).reshape(-1), t.reshape(-1)
        for j in range(a.size):
            if j:
                s.call("in-place copy of element %d" % j)
            a[j] = b[j]
            s.changed()


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def full(*a, **kw):
        return np.full(*a, **kw).view(TornArray)

    @staticmethod
    def zeros(*a, **kw):
        return np.zeros(*a, **kw).view(TornArray)

    @staticmethod
    def empty(*a, **kw):
        return np.zeros(*a, **kw).view(TornArray)


SERVERS = []


def load():
    stubs()
    import EigenIPC.PyEigenIPCExt.extensions.ros_bridge.abstractions as A
    import EigenIPC.PyEigenIPCExt.extensions.ros_bridge.to_ros as T
    import EigenIPC.PyEigenIPCExt.extensions.ros_bridge.from_ros as F
    T.Client, T.StringTensorClient = TSide, SSide
    A.np = NpShim()

    def factory(**kw):
        s = TSide(M.ServerFactory(**kw), kw["basename"])
        s.kw = kw
        SERVERS.append(s)
        return s
    F.ServerFactory = factory
    return A, T, F


DT = {"Bool": (M.dtype.Bool, np.bool_), "Int": (M.dtype.Int, np.int32), "Float": (M.dtype.Float, np.float32), "Double": (M.dtype.Double, np.float64)}


def special(nd):
    if nd is np.bool_:
        return [False, True]
    if nd is np.int32:
        return [0, 1, -1, 2**31 - 1, -2**31, 65536]
    fi = np.finfo(nd)
    return [0.0, -0.0, 1.5, np.nan, np.inf, -np.inf, fi.max, -fi.max, fi.tiny, fi.smallest_subnormal]


def fillings(nd, r, c, deep):
    """arrays to send: numbered ones, and every special value at every place"""
    n = r * c
    out = []
    if nd is np.bool_:
        if n <= (9 if deep else 6):
            out = [np.array(b, dtype=nd).reshape(r, c) for b in itertools.product((False, True), repeat=n)]
        else:
            out = [np.array([i == k for i in range(n)], dtype=nd).reshape(r, c) for k in range(n)]
        return out
    base = (np.arange(n) + 1).astype(nd).reshape(r, c)
    out.append(base)
    out.append(-base)
    for k in range(n):
        for v in special(nd):
            a = base.copy()
            a.reshape(-1)[k] = v
            out.append(a)
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def open_client(server):
    c = M.ClientFactory(basename=server._o.getBasename(), namespace=server._o.getNamespace(), verbose=False, vlevel=M.VLevel.V0,
                        dtype=server.kw["dtype"])
    c.attach()
    return c


def shared(server, nd):
    """the tensor on the receiving side, as a client sees it"""
    c = open_client(server)
    a = np.zeros((c.getNRows(), c.getNCols()), dtype=nd)
    if c.read(a, 0, 0) is not True:
        raise Violation("the receiving side cannot be read as %s" % nd.__name__)
    c.close()
    return a


def to_ros(T, client, backend, queue=1):
    return T.ToRos(client=client, queue_size=queue, ros_backend=backend, node=W[0].node)


def from_ros(F, base, ns, backend, queue=1):
    return F.FromRos(basename=base, namespace=ns, queue_size=queue, ros_backend=backend, vlevel=M.VLevel.V0, verbose=False, node=W[0].node)


def cleanup(objs):
    CUR[0] = None
    for o in objs[::-1]:
        try:
            o.close()
        except Exception:
            pass
    W[0] = None
    del SERVERS[:]


# ---------------------------------------------------------------- values
def tensors(rep, only, backend, dt, layout, shapes, deep):
    A, T, F = load()
    edt, nd = DT[dt]

    def one(x):
        (r, c), late, queue, running = x
        ns = fresh_ns()
        W[0] = World(backend)
        REFUSE[0] = POLLS[0] = 0
        s = M.ServerFactory(n_rows=r, n_cols=c, basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0,
                            force_reconnection=False, dtype=edt, safe=True, layout=layout)
        s.run()
        cl = TSide(M.ClientFactory(basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0, dtype=edt, layout=layout), "t")
        if running:
            cl._o.attach()
        t = to_ros(T, cl, backend, queue)
        what = "%s %dx%d, %s" % (dt, r, c, "receiver first" if late else "sender first")
        beat(what)
        b = None
        try:
            if late:
                b = from_ros(F, "t", ns, backend, queue)
                if b.run() or b.update():
                    rep.violation(what + ": the receiving side runs before it knows the tensor")
            first = True
            for a in fillings(nd, r, c, deep):
                if s.write(np.asfortranarray(a) if layout == M.ColMajor else a, 0, 0) is not True:
                    raise RuntimeError("cannot write the source")
                if first:
                    t.run()
                    if b is None:
                        b = from_ros(F, "t", ns, backend, queue)
                    W[0].drain()
                    if b.run() is not True or b.run() is not True:
                        rep.violation(what + ": the receiving side does not run although the description was delivered")
                    k = SERVERS[-1]
                    if (k._o.getNRows(), k._o.getNCols()) != (r, c):
                        rep.violation("%s: recreated as %dx%d" % (what, k._o.getNRows(), k._o.getNCols()))
                    if k._o.getScalarType() != edt:
                        rep.violation("%s: recreated with the type %s" % (what, k._o.getScalarType()))
                    first = False
                if t.update() is not True:
                    rep.violation("%s: update() of the sender reports a failure" % what, str(a.tolist()))
                W[0].drain()
                if b.update() is not True:
                    rep.violation("%s: update() of the receiver reports a failure" % what, str(a.tolist()))
                g = shared(SERVERS[-1], nd)
                rep.count((dt, r, c, late, queue))
                if not same(g, a):
                    rep.violation("%s: %s arrives as %s" % (what, a.tolist(), g.tolist()), str(a.tolist()))
            if W[0].raised:
                rep.violation("%s: a callback raised %s" % (what, W[0].raised[0]))
        finally:
            cleanup([s] + ([b] if b is not None else []) + [t])
    items = [(sh, late, q, run) for sh in shapes for late in (False, True) for q in (1, 2) for run in (True, False)]
    in_batches(rep, items, one, 4)
    rep.sample("%s of shapes %s..., each value of %s at each place" % (dt, list(shapes)[:5], special(nd)[:4]))


def strings(rep, only, backend, lists):
    """a list of strings arrives as the same list for a reader of the receiving side"""
    A, T, F = load()

    def one(x):
        hist, late = x
        ns = fresh_ns()
        W[0] = World(backend)
        REFUSE[0] = POLLS[0] = 0
        n = len(hist[0])
        s = M.StringTensorServer(length=n, basename="names", name_space=ns, verbose=False, vlevel=M.VLevel.V0, force_reconnection=False)
        s.run()
        cl = SSide(M.StringTensorClient(basename="names", name_space=ns, verbose=False, vlevel=M.VLevel.V0), "names")
        t = to_ros(T, cl, backend)
        b, rd = None, None
        try:
            base = None
            if s.write_vec(list(hist[0]), 0) is not True:
                raise RuntimeError("cannot write the source")
            if not late:
                t.run()
            base = s.getBasename()
            b = from_ros(F, base, ns, backend)
            if late:
                t.run()
            W[0].drain()
            if b.run() is not True:
                rep.violation("strings: the receiving side does not run although the description was delivered")
            k = SERVERS[-1]
            for l in hist:
                beat(repr(l))
                if s.write_vec(list(l), 0) is not True:
                    raise RuntimeError("cannot write the source")
                if t.update() is not True:
                    rep.violation("strings: update() of the sender reports a failure", repr(l))
                W[0].drain()
                if b.update() is not True:
                    rep.violation("strings: update() of the receiver reports a failure", repr(l))
                a = shared(k, np.int32)
                got = []
                for j in range(a.shape[1]):      # every column holds the code of one string
                    raw = np.ascontiguousarray(a[:, j]).tobytes()
                    got.append(raw.split(b"\0")[0].decode("utf8"))
                rep.count((len(l), late))
                if got != list(l):
                    rep.violation("the strings %r arrive as %r" % (list(l), got), repr(l))
        finally:
            cleanup([s] + ([b] if b is not None else []) + [t])
    items = [(h, late) for h in lists for late in (False, True)]
    in_batches(rep, items, one, 40)
    rep.sample("lists such as %r" % (lists[-1],))


def colmajor(rep, only, backend):
    tensors(rep, only, backend, "Int", M.ColMajor, [(2, 2), (2, 3)], False)


# ---------------------------------------------------------------- what is delivered when
def orders(rep, only, backend, depth, shape, dt):
    """every sequence of: a publication, a delivery on one topic, run(), update(); against a plain reference"""
    A, T, F = load()
    edt, nd = DT[dt]
    r, c = shape

    def mk(k):
        return (np.arange(r * c).reshape(r, c) + 10 * k).astype(nd) if nd is not np.bool_ else ((np.arange(r * c).reshape(r, c) + k) % 2).astype(nd)

    def build(s):
        CUR[0] = s
        ns = fresh_ns()
        w = W[0] = World(backend)
        REFUSE[0] = POLLS[0] = 0
        objs = []

        def main():
            srv = M.ServerFactory(n_rows=r, n_cols=c, basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0,
                                  force_reconnection=False, dtype=edt, safe=True)
            srv.run()
            objs.append(srv)
            cl = TSide(M.ClientFactory(basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0, dtype=edt), "t")
            t = b = None
            val = 0
            sent = shown = None            # newest content delivered / what the receiving tensor must hold
            known = set()
            running = False
            for _ in range(depth):
                ops = []
                if t is None:
                    ops.append("sender")
                else:
                    ops.append("publish")
                if b is None:
                    ops.append("receiver")
                else:
                    ops += ["run", "update"]
                    ops += ["deliver " + x.name for x in sorted(w.pending(), key=lambda x: x.name)]
                op = ops[s.choose(len(ops))]
                s.trace.append(op)
                beat(op)
                if op == "sender":
                    t = to_ros(T, cl, backend)
                    objs.append(t)
                    val += 1
                    srv.write(mk(val), 0, 0)
                    t.run()
                elif op == "publish":
                    val += 1
                    srv.write(mk(val), 0, 0)
                    if t.update() is not True:
                        raise Violation("update() of the sender reports a failure")
                elif op == "receiver":
                    b = from_ros(F, "t", ns, backend)
                    objs.append(b)
                elif op == "run":
                    n = len(SERVERS)
                    g = b.run()
                    if g is not (len(known) == 3):
                        raise Violation("run() returns %r with %d of 3 descriptions delivered" % (g, len(known)))
                    if len(SERVERS) - n != (1 if g and not running else 0):
                        raise Violation("run() creates %d servers" % (len(SERVERS) - n))
                    if g and not running:
                        running = True
                        k = SERVERS[-1]
                        if (k._o.getNRows(), k._o.getNCols(), k._o.getScalarType()) != (r, c, edt):
                            raise Violation("recreated as %dx%d %s" % (k._o.getNRows(), k._o.getNCols(), k._o.getScalarType()))
                        shown = None
                elif op == "update":
                    g = b.update()
                    if g is not running:
                        raise Violation("update() returns %r although the receiver is %s" % (g, "running" if running else "not running"))
                    if g:
                        shown = sent
                else:
                    x = [y for y in w.pending() if "deliver " + y.name == op][0]
                    if x.name.endswith("/Data"):
                        d = unwire(x.cls, x.q[0])
                        sent = np.array(d.data, dtype=nd).reshape(r, c)
                        ok = [m for m in range(val + 1) if same(mk(m), sent)] or np.isnan(sent.astype(float)).all() or not sent.any()
                        if not ok:
                            raise Violation("%s was sent, which was never in shared memory" % sent.tolist())
                    else:
                        known.add(x.name)
                    x.deliver()
                if running and shown is not None:
                    g = shared(SERVERS[-1], nd)
                    if not same(g, shown):
                        raise Violation("the receiving side holds %s instead of %s" % (g.tolist(), shown.tolist()))
                if w.raised:
                    raise Violation("a callback raised %s" % (w.raised[0],))
        s.spawn("main", main)

        def final(s, msg):
            cleanup(objs)
            return s.trace[-1] if s.trace else None
        return final
    explore(rep, build, only=only, max_steps=1000, batch=300)


def malformed(rep, only, backend):
    """messages which do not fit the description have no effect, and what follows is received"""
    A, T, F = load()
    nm = A.NamingConventions()

    def one(x):
        (r, c), dt, bad = x
        edt, nd = DT[dt]
        ns = fresh_ns()
        w = W[0] = World(backend)
        REFUSE[0] = POLLS[0] = 0
        b = from_ros(F, "t", ns, backend)
        what = "%s %dx%d, %s" % (dt, r, c, bad)
        beat(what)
        try:
            qs = QoS(depth=10, durability="TRANSIENT_LOCAL")
            I = sys.modules["std_msgs.msg"].Int32
            D = A.toRosDType(nd, True)
            P = {}
            for k, n in (("d", nm.DataName(ns, "t")), ("r", nm.nRowsName(ns, "t")), ("c", nm.nColsName(ns, "t")), ("t", nm.dTypeName(ns, "t"))):
                P[k] = Pub(w, n, D if k == "d" else I, 10, True)
            code = {"Bool": 0, "Int": 1, "Float": 2, "Double": 3}[dt]

            def go(k, m):
                P[k].publish(m)
                e = len(w.raised)
                while w.pending():
                    try:
                        w.pending()[0].deliver()
                    except Violation:
                        raise
                    except Exception:
                        pass
                return len(w.raised) > e
            if bad[0] == "type code before the right one":
                if not go("t", I(data=bad[1])):
                    rep.violation(what + ": accepted")
                if b.run():
                    rep.violation(what + ": runs without a type")
            if go("r", I(data=r)) or go("c", I(data=c)) or go("t", I(data=code)):
                rep.violation("%s: a right description is refused: %s" % (what, w.raised[-1]))
            if b.run() is not True:
                rep.violation(what + ": does not run")
            k = SERVERS[-1]
            v1, v2 = (np.arange(r * c).astype(nd), (np.arange(r * c) + 1).astype(nd) if nd is not np.bool_ else np.ones(r * c, dtype=nd))
            go("d", D(data=v1))
            if b.update() is not True or not same(shared(k, nd), v1.reshape(r, c)):
                rep.violation(what + ": the first data does not arrive")
            if bad[0] == "data of length":
                if not go("d", D(data=np.arange(bad[1]).astype(nd))):
                    rep.violation(what + ": accepted")
            elif bad[0] == "another":
                if not go(bad[1], I(data=bad[2])):
                    rep.violation(what + ": accepted")
            elif bad[0] == "the same again":
                if go("r", I(data=r)) or go("c", I(data=c)) or go("t", I(data=code)):
                    rep.violation("%s: refused: %s" % (what, w.raised[-1]))
            if b.run() is not True or b.update() is not True or not same(shared(k, nd), v1.reshape(r, c)):
                rep.violation(what + ": what was received before changes to %s" % shared(k, nd).tolist())
            go("d", D(data=v2))
            if b.update() is not True or not same(shared(k, nd), v2.reshape(r, c)):
                rep.violation(what + ": later data does not arrive")
            if (k._o.getNRows(), k._o.getNCols(), k._o.getScalarType()) != (r, c, edt) or len(SERVERS) != 1:
                rep.violation(what + ": the receiving tensor was changed")
            rep.count((dt, r, c, bad))
        finally:
            cleanup([b])
    items = []
    for (r, c) in [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]:
        for dt in DT:
            bads = [("the same again",)] + [("data of length", n) for n in range(0, r * c + 4) if n != r * c] + \
                [("another", "r", v) for v in (0, -1, r + 1, 2**31 - 1)] + [("another", "c", v) for v in (0, -1, c + 1, 2**31 - 1)] + \
                [("another", "t", v) for v in range(-1, 6) if v != {"Bool": 0, "Int": 1, "Float": 2, "Double": 3}[dt]] + \
                [("type code before the right one", v) for v in (-1, 4, 5)]
            items += [((r, c), dt, x) for x in bads]
    in_batches(rep, items, one, 100)
    rep.sample("data of wrong lengths, other descriptions, unknown types")


# ---------------------------------------------------------------- threads
DIRS = os.sep + "ros_bridge" + os.sep


def traced(fn):
    """every line of the bridge is a scheduling point of the calling thread"""
    def local(frame, ev, arg):
        if ev == "line":
            CUR[0].call("%s:%d" % (frame.f_code.co_name, frame.f_lineno))
        return local

    def tracer(frame, ev, arg):
        f = frame.f_code
        if DIRS in f.co_filename and not f.co_name.startswith("__") and not f.co_filename.endswith(("defs.py", "_utils.py")) and \
                f.co_name not in ("toRosDType", "close"):
            return local
        return None

    def run():
        sys.settrace(tracer)      # of this thread only
        try:
            fn()
        finally:
            sys.settrace(None)
    return run


def threads(rep, only, dt, shape, nmsg, nupd, preempt, refusals, early):
    """ROS 1: a callback thread per topic runs concurrently with the receiver's own thread, line by line"""
    A, T, F = load()
    edt, nd = DT[dt]
    r, c = shape

    def mk(k):
        return np.full((r, c), k, dtype=nd)

    def build(s):
        CUR[0] = None
        ns = fresh_ns()
        w = W[0] = World("ros1")
        REFUSE[0] = POLLS[0] = 0
        b = from_ros(F, "t", ns, "ros1", queue=None)
        nm = A.NamingConventions()
        D, I = A.toRosDType(nd, True), sys.modules["std_msgs.msg"].Int32
        code = {"Bool": 0, "Int": 1, "Float": 2, "Double": 3}[dt]
        for n, m in ((nm.nRowsName(ns, "t"), r), (nm.nColsName(ns, "t"), c), (nm.dTypeName(ns, "t"), code)):
            Pub(w, n, I, 1, True).publish(I(data=m))
        dp = Pub(w, nm.DataName(ns, "t"), D, 1, True)
        dp.publish(D(data=mk(1).reshape(-1)))
        if not early:
            w.drain()
            if b.run() is not True:
                raise Violation("the receiver does not run although the description was delivered")
        started, done = [0], [0]       # newest message whose callback began / ended
        over = [False]
        res = []

        def moved_cb(sub):
            data = sub.name.endswith("/Data")
            if data:
                started[0] = int(unwire(sub.cls, sub.q[0]).data[0])
            k = started[0]
            sub.deliver()
            if data:
                done[0] = k

        def ros(names):
            def find(pick=False):
                p = sorted((x for x in w.pending() if x.name in names), key=lambda x: x.name)
                return p[s.choose(len(p)) if pick else 0] if p else None

            def go():
                while True:
                    s.call("wait", enabled=lambda: find() is not None or over[0])
                    if over[0]:
                        return
                    moved_cb(find(True))
            return go

        def main():
            while early:
                v = s.version
                if b.run():
                    break
                s.call("wait for the description", enabled=lambda: s.version != v)
            k = SERVERS[-1]
            for i in range(nupd):
                lo = done[0]
                g = b.update()
                hi = started[0]
                if g is not True:
                    raise Violation("update() of a running receiver returns %r" % (g,))
                a = shared(k, nd)
                u = set(np.nan_to_num(a, nan=0).astype(float).reshape(-1).tolist())
                if len(u) != 1:
                    raise Violation("the receiving side holds %s, a mixture of messages" % a.tolist())
                v = u.pop()
                if not lo <= v <= hi:
                    raise Violation("the receiving side holds message %g after update(); %d was delivered before it began, %d when it ended" % (v, lo, hi))
                res.append(v)
            over[0] = True
            s.changed()

        def sender():
            for k in range(2, nmsg + 1):
                s.call("publish %d" % k)
                dp.publish(D(data=mk(k).reshape(-1)))
        CUR[0] = s
        s.spawn("main", traced(main))
        if early:
            s.spawn("meta", traced(ros([nm.nRowsName(ns, "t"), nm.nColsName(ns, "t"), nm.dTypeName(ns, "t")])))
        s.spawn("data", traced(ros([nm.DataName(ns, "t")])))
        if nmsg > 1:
            s.spawn("sender", sender)
        REFUSE[0] = refusals

        def final(s, msg):
            try:
                CUR[0] = None
                if msg is None:
                    if len(res) != nupd:
                        raise Violation("the receiver did not get through its updates")
                    if w.raised:
                        raise Violation("a callback raised %s" % (w.raised[0],))
                return tuple(res)
            finally:
                cleanup([b])
        return final
    explore(rep, build, preempt=preempt, only=only, max_steps=3000, batch=300)


def refused(rep, only, backend):
    """accesses which find the lock held are repeated: what is sent and received is what was there"""
    A, T, F = load()

    def one(x):
        dt, n1, n2 = x
        edt, nd = DT[dt]
        ns = fresh_ns()
        w = W[0] = World(backend)
        REFUSE[0] = POLLS[0] = 0
        s = M.ServerFactory(n_rows=2, n_cols=2, basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0,
                            force_reconnection=False, dtype=edt, safe=True)
        s.run()
        cl = TSide(M.ClientFactory(basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0, dtype=edt), "t")
        t = to_ros(T, cl, backend)
        b = from_ros(F, "t", ns, backend)
        try:
            t.run()
            w.drain()
            b.run()
            for k in range(3):
                a = np.array([[k, 1], [0, 1 - k]]).astype(nd)
                s.write(a, 0, 0)
                REFUSE[0] = n1
                if t.update() is not True or REFUSE[0]:
                    rep.violation("update() of the sender gives up after %d refused accesses" % (n1 - REFUSE[0]))
                w.drain()
                REFUSE[0] = n2
                if b.update() is not True or REFUSE[0]:
                    rep.violation("update() of the receiver gives up after %d refused accesses" % (n2 - REFUSE[0]))
                g = shared(SERVERS[-1], nd)
                rep.count((dt, n1, n2))
                if not same(g, a):
                    rep.violation("%s arrives as %s after %d and %d refused accesses" % (a.tolist(), g.tolist(), n1, n2))
        finally:
            cleanup([s, b, t])
    in_batches(rep, [(d, a, b) for d in DT for a in (0, 1, 2, 5, 50) for b in (0, 1, 2, 5, 50)], one, 50)
    rep.sample("0..50 refused accesses")


def names_of(ns):
    """the "is running" flag of a server outlives it on purpose: late clients read it"""
    return sorted(n for n in glob.glob("/dev/shm/" + ns + "*") + glob.glob("/dev/shm/sem." + ns + "*") if not n.endswith("isSrvrRunning"))


def closing(rep, only, backend):
    """whoever is closed, at whatever point, gives back what it holds"""
    A, T, F = load()

    def one(x):
        text, who, stage, times = x
        what = "%s, %s closed %s" % ("list of strings" if text else "tensor", who, stage)
        beat(what)
        ns = fresh_ns()
        w = W[0] = World(backend)
        REFUSE[0] = POLLS[0] = 0
        if text:
            s = M.StringTensorServer(length=2, basename="t", name_space=ns, verbose=False, vlevel=M.VLevel.V0, force_reconnection=False)
            cl = SSide(M.StringTensorClient(basename="t", name_space=ns, verbose=False, vlevel=M.VLevel.V0), "t")
        else:
            s = M.ServerFactory(n_rows=2, n_cols=2, basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0,
                                force_reconnection=False, dtype=M.dtype.Int, safe=True)
            cl = TSide(M.ClientFactory(basename="t", namespace=ns, verbose=False, vlevel=M.VLevel.V0, dtype=M.dtype.Int), "t")
        s.run()
        source = names_of(ns)

        def put(k):
            if (s.write_vec(["a%d" % k, "b"], 0) if text else s.write(np.full((2, 2), k, dtype=np.int32), 0, 0)) is not True:
                raise RuntimeError("cannot write the source")

        def clients():
            """of the source; a server of a list of strings does not tell"""
            return int(cl._o.isRunning()) if text else s.getNClients()
        t, b = to_ros(T, cl, backend), None
        try:
            base = s.getBasename()
            b = from_ros(F, base, ns, backend)
            if stage != "at once":
                put(1)
                t.run()
                if clients() != 1:
                    rep.violation("%s: the source has %d clients" % (what, clients()))
            if stage == "with part of the description":
                w.pending()[0].deliver()
                if b.run():
                    rep.violation(what + ": the receiving side runs before it knows the tensor")
            elif stage in ("when running", "after data"):
                w.drain()
                if b.run() is not True:
                    rep.violation(what + ": the receiving side does not run although the description was delivered")
            if stage == "after data":
                for k in (2, 3):
                    put(k)
                    if t.update() is not True:
                        rep.violation(what + ": update() of the sender reports a failure")
                    w.drain()
                    if b.update() is not True:
                        rep.violation(what + ": update() of the receiver reports a failure")
            held = [n for n in names_of(ns) if n not in source]
            if bool(held) != (stage in ("when running", "after data")):
                rep.violation("%s: the receiving side holds %r" % (what, held))
            for k in range(times):
                if who != "receiver":
                    t.close()
                if who != "sender":
                    b.close()
            rep.count((text, who, stage, times))
            if who != "receiver" and clients() != 0:
                rep.violation("%s: the source still counts %d clients" % (what, clients()))
            if who == "receiver" and clients() != (0 if stage == "at once" else 1):
                rep.violation("%s: the source counts %d clients" % (what, clients()))
            left = [n for n in names_of(ns) if n not in source]
            if left != ([] if who != "sender" else held):
                rep.violation("%s: %r of the receiving side is left, it held %r" % (what, left, held))
            if who != "sender" and w.subs:
                rep.violation("%s: the receiving side still listens to %r" % (what, [x.name for x in w.subs]))
            if who != "receiver" and w.pubs:
                rep.violation("%s: the sending side still publishes %r" % (what, [x.name for x in w.pubs]))
            if [n for n in source if n not in names_of(ns)]:
                rep.violation("%s: the tensor of the source is gone" % what)
            if who != "sender" and b.update() is not False:
                rep.violation("%s: update() of the closed receiver claims to have updated its tensor" % what)
            if who != "receiver" and t.update() is not False:
                rep.violation("%s: update() of the closed sender claims to have sent something" % what)
            if who == "receiver" and stage != "at once":       # the other side goes on
                put(9)
                if t.update() is not True:
                    rep.violation("%s: update() of the sender reports a failure" % what)
            if who == "sender" and stage in ("when running", "after data") and b.update() is not True:
                rep.violation("%s: update() of the receiver reports a failure" % what)
        finally:
            cleanup([s] + ([b] if b is not None else []) + [t])
    stages = ("at once", "before the description arrives", "with part of the description", "when running", "after data")
    in_batches(rep, [(x, who, st, n) for x in (False, True) for who in ("sender", "receiver", "both sides") for st in stages for n in (1, 2)], one, 10)
    rep.sample("sender, receiver or both closed once or twice, %s" % ", ".join(stages))


def pairs(rep, only, backend):
    """two tensors bridged at once, in one world: nothing of one shows in the other"""
    A, T, F = load()

    def one(x):
        (n1, b1), (n2, b2), dts, order, swap = x
        what = "%s (%s/%s) and %s (%s/%s)" % (dts[0], n1, b1, dts[1], n2, b2)
        beat(what)
        ns = fresh_ns()
        w = W[0] = World(backend)
        REFUSE[0] = POLLS[0] = 0
        src, snd, rcv, objs = [], [], [], []
        key = {"by name": lambda q: q.name, "backwards": lambda q: tuple(-ord(ch) for ch in q.name), "as sent": None}[order]
        try:
            for k, (n, b) in enumerate(((n1, b1), (n2, b2))):
                edt, nd = DT[dts[k]]
                s = M.ServerFactory(n_rows=2 + k, n_cols=3 - k, basename=b, namespace=ns + n, verbose=False, vlevel=M.VLevel.V0,
                                    force_reconnection=False, dtype=edt, safe=True)
                s.run()
                src.append(s)
                cl = TSide(M.ClientFactory(basename=b, namespace=ns + n, verbose=False, vlevel=M.VLevel.V0, dtype=edt), b)
                snd.append(to_ros(T, cl, backend))
                objs += [s, snd[-1]]
            for k, (n, b) in list(enumerate(((n1, b1), (n2, b2))))[::-1 if swap else 1]:
                rcv.append((k, from_ros(F, b, ns + n, backend)))
                objs.append(rcv[-1][1])
            rcv = [b for k, b in sorted(rcv, key=lambda y: y[0])]
            snd[0].run()
            w.drain(key)
            if rcv[0].run() is not True or rcv[1].run():
                rep.violation("%s: the description of the first one starts the other or nobody" % what)
            snd[1].run()
            w.drain(key)
            if rcv[1].run() is not True:
                rep.violation(what + ": the second one does not run")
            holds = [np.zeros((2 + k, 3 - k), dtype=DT[dts[k]][1]) for k in (0, 1)]
            for k in (0, 1, 1, 0, 0):                      # one of them changes, both are brought up to date
                nd = DT[dts[k]][1]
                holds[k] = ((holds[k] == 0) if nd is np.bool_ else holds[k] + np.arange(1, 7).reshape(2 + k, 3 - k)).astype(nd)
                src[k].write(holds[k], 0, 0)
                if snd[k].update() is not True:
                    rep.violation(what + ": update() of a sender reports a failure")
                w.drain(key)
                if rcv[k].update() is not True:
                    rep.violation(what + ": update() of a receiver reports a failure")
                got = [shared(SERVERS[j], DT[dts[j]][1]) for j in (0, 1)]
                rep.count((n1 == n2, b1 == b2, dts, order, swap))
                if not same(got[k], holds[k]) or got[1 - k].shape != holds[1 - k].shape:
                    rep.violation("%s: the receiving sides hold %s and %s" % (what, got[0].tolist(), got[1].tolist()))
            for j in (1, 0):
                rcv[j].update()
                if not same(shared(SERVERS[j], DT[dts[j]][1]), holds[j]):
                    rep.violation("%s: one of them arrives as %s instead of %s" % (what, shared(SERVERS[j], DT[dts[j]][1]).tolist(), holds[j].tolist()))
        finally:
            cleanup(objs)
    nn = [(("n", "a"), ("n", "b")), (("n", "a"), ("m", "a")), (("", "a"), ("n", "a")), (("n", "a"), ("a", "n")), (("n", "a"), ("n", "aData")),
          (("n", "ab"), ("na", "b")), (("n", "Data"), ("n", "NRows")), (("n", "a"), ("n", "a_1"))]
    # pairs which are one and the same in shared memory (C17) are left out
    nn = [p for p in nn if "".join(p[0]) != "".join(p[1])]
    dd = [("Int", "Int"), ("Int", "Float"), ("Bool", "Double")]
    in_batches(rep, [(a, b, d, o, sw) for a, b in nn for d in dd for o in ("by name", "backwards", "as sent") for sw in (False, True)], one, 40)
    rep.sample("pairs of names such as %r" % (nn[:3],))


def scenarios(th):
    out = []
    mx = 4 if th else 3
    shapes = [(r, c) for r in range(1, mx + 1) for c in range(1, mx + 1)] + [(1, 7), (7, 1), (5, 2)]
    vec = [s for s in shapes if 1 in s]
    for be in ("ros1", "ros2"):
        for dt in DT:
            out.append(("tensors %s %s" % (dt, be), "inputs", lambda r, o, be=be, dt=dt: tensors(r, o, be, dt, M.RowMajor, shapes, th)))
        out.append(("column vectors %s" % be, "inputs", lambda r, o, be=be: tensors(r, o, be, "Float", M.ColMajor, vec, th)))
        out.append(("column major %s" % be, "inputs", lambda r, o, be=be: colmajor(r, o, be)))
        al = ["", "a", "bc", "def", "abcd", "hello", "\u00e9\u4e2d", "x" * 256]
        ls = [[l] for n in (1, 2) for l in itertools.product(al, repeat=n)] + [[a, b] for a in itertools.product(al[:4], repeat=2) for b in itertools.product(al[2:7], repeat=2)]
        out.append(("strings %s" % be, "inputs", lambda r, o, be=be, ls=ls: strings(r, o, be, ls)))
        out.append(("malformed %s" % be, "inputs", lambda r, o, be=be: malformed(r, o, be)))
        out.append(("closing %s" % be, "inputs", lambda r, o, be=be: closing(r, o, be)))
        out.append(("two tensors %s" % be, "inputs", lambda r, o, be=be: pairs(r, o, be)))
        out.append(("refused accesses %s" % be, "inputs", lambda r, o, be=be: refused(r, o, be)))
        for dt, sh in (("Int", (1, 2)), ("Double", (2, 1))):
            out.append(("orders %s %s" % (dt, be), "schedules", lambda r, o, be=be, dt=dt, sh=sh: orders(r, o, be, 9 if th else 8, sh, dt)))
    out.append(("threads, data", "schedules", lambda r, o: threads(r, o, "Float", (1, 3), 3, 2, 3 if th else 2, 0, False)))
    out.append(("threads, data and refused accesses", "schedules", lambda r, o: threads(r, o, "Int", (2, 1), 2, 2, 2, 1, False)))
    out.append(("threads, description", "schedules", lambda r, o: threads(r, o, "Double", (2, 1), 1, 2, 2 if th else 1, 0, True)))
    return out
