"""C15: result files hold the initial state and every period-th step, faithfully."""
from .omode import *
from .h5 import *
from .h5 import EShape, Disk, WI
import itertools

FW = PKG + ".file_writer"
FILES = ["rkopenmdao/file_writer.py"]
FUNCS = ["OpenMDAOHDF5Callback.before_iteration", "OpenMDAOHDF5Callback.after_iteration", "OpenMDAOHDF5Callback.get_write_indices", "read_hdf5_file", "read_last_local_error"]
ASSUMPTIONS = ["contract of h5py: a file maps group names to datasets; mode 'w' truncates, 'r+' keeps; creating an existing name fails; writes through a block index change exactly that block (collective with the mpio driver)",
               "callbacks are called before and after every step, with the number and the data of the step (C14); the first step is not recomputed by pyRevolve (C05)",
               "layout of the quantities as in C11; quantities have at least one dimension and are distributed along the first one; they are not named 'time' or 'error_measure'",
               "np.unravel_index returns the multi-index of a flat index (mixed radix)"]
RT_NOTE = "real integrator with the real callback: random layouts, step counts, periods, embedded and adaptive schemes, pyrevolve recomputation, reruns over old files; files read back with h5py and with the readers"
LEVEL = "one step of the writer from any file proved for any number of quantities; block indices for 1..3 dimensions; readers for small files"
L1_TRUST = ["h5py", "np.unravel_index"]


class FW_(Wrapper):
    """metadata as in C11; shapes know whether they contain a zero"""
    dims = None     # bounded level: (local rows, global rows, trailing dimensions)

    def shape(self, role, k):
        if role == "time":
            return None
        w = "p" if role == "ind" else "u"
        d = None
        if self.dims and w == "u":
            d = (sub(self.r1(k), self.r0(k)),) + self.trail(k)
        return EShape((w, lift(k)), self.length(role, k), d)

    def r0(self, k):
        return self.dims[int(T.cval(lift(k)))][0]

    def r1(self, k):
        return self.dims[int(T.cval(lift(k)))][1]

    def trail(self, k):
        return tuple(lift(d) for d in self.dims[int(T.cval(lift(k)))][3:])

    def item(self, w, k):
        q = super().item(w, k)
        a = q.attrs["array_metadata"]
        g = a.attrs["global_shape"]
        d = None
        if self.dims and w == "u":
            t = self.trail(k)
            d = (lift(self.dims[int(T.cval(k))][2]),) + t
            m = ONE
            for x in t:
                m = mul(m, x)
            a.attrs["global_start_index"], a.attrs["global_end_index"] = mul(self.r0(k), m), mul(self.r1(k), m)
            self.I.assume(eq(self.length("u", k), mul(sub(self.r1(k), self.r0(k)), m)))
        a.attrs["global_shape"] = EShape(g.name, g.total, d)
        return q


def sym_dims(I, ranks):
    """layouts with symbolic sizes: rows r0..r1 of R, trailing dimensions; ranks: number of dimensions per quantity"""
    out = []
    for q, nd in enumerate(ranks):
        r0, r1, R = (I.fresh(f"{n}{q}", "I") for n in ("r0_", "r1_", "R"))
        I.assume(le(ZERO, r0), le(r0, r1), le(r1, R), le(ONE, R))
        t = tuple(I.fresh(f"d{q}_{j}", "I") for j in range(nd - 1))
        I.assume(*[le(ONE, x) for x in t])
        out.append((r0, r1, R) + t)
    return out


def unravel(I, cands):
    """contract of np.unravel_index: the unique multi-index of the flat index; found among the candidates, else by division"""
    def f(I2, ar, kw):
        d = dict(zip(("indices", "shape", "order"), ar), **kw)
        if d.get("order", "C") != "C":
            raise Unsupported("unravel_index order")
        idx = num(I, d["indices"])
        dims = [lift(x) for x in I.iter_list(d["shape"])]
        total = ONE
        for x in dims:
            total = mul(total, x)
        if T.is_const(idx) and all(T.is_const(x) for x in dims):
            i, out = int(T.cval(idx)), []
            if not 0 <= i < int(T.cval(total)):
                I.raise_("ValueError", "index out of bounds")
            for x in reversed(dims):
                i, r = divmod(i, int(T.cval(x)))
                out.append(r)
            return tuple(reversed(out))
        for c in cands(dims):
            flat = ZERO
            for i, x in zip(c, dims):
                flat = add(mul(flat, x), i)
            if I.decide(eq(idx, flat)) is True and all(I.decide(and_(le(ZERO, i), lt(i, x))) is True for i, x in zip(c, dims)):
                return tuple(NP.unlift(i) for i in c)
        raise Unsupported("unravel_index")
    I.stubs["numpy"].ns["unravel_index"] = Builtin("unravel_index", f)


def comm_stubs(I):
    ns = I.stubs["mpi4py.MPI"].ns
    ns["Comm"] = PyClass("Comm", [I.object_cls], {})
    ns["COMM_WORLD"] = I.register(Obj(ns["Comm"], {}, "COMM_WORLD"))
    return ns["COMM_WORLD"]


class Setting:
    def __init__(self, I, embedded, first, Q=None, exists=True, own_comm=True, period=None, step=None, dims=None):
        self.I, self.embedded, self.first = I, embedded, first
        world = comm_stubs(I)
        I.stubs["h5py"] = Module("h5py", {"File": Builtin("h5py.File", lambda I2, ar, kw: self.disk.open_(I2, ar, kw))})
        FW_.dims = dims
        self.W = W = FW_(I, Q, 0)
        self.P = lift(period) if period is not None else I.fresh("period", "I")
        I.assume(le(ONE, self.P))
        if first:
            self.i = ONE
        else:
            self.i = lift(step) if step is not None else I.fresh("step", "I")
            I.assume(lt(ONE, self.i))
        self.comm = I.register(Obj(I.object_cls, {}, "comm")) if own_comm else world
        self.name = "result.h5"
        kw = dict(comm=self.comm) if own_comm else {}
        self.cb = I.call(I.get(FW + ":OpenMDAOHDF5Callback"), [], dict(filename=self.name, write_out_period=self.P, **kw))
        self.disk = Disk(I, W, self.name, self.comm, exists, embedded)
        if dims is None:
            I.contracts = dict(I.contracts)

            def wi(I2, f, ar, kw):
                q = (ar + list(kw.values()))[-1]
                k = q.attrs["name"].args[1][0]
                I.side_condition("get_write_indices needs a non-empty local part", lt(ZERO, W.length("old", k)))
                r = WI(k)
                I.register(r)
                return r
            I.contracts["OpenMDAOHDF5Callback.get_write_indices"] = wi
        else:
            def cands(ds):
                z, last = (ZERO,) * (len(ds) - 1), tuple(sub(d, ONE) for d in ds[1:])
                out = []
                for (a, b, *_) in dims:
                    a, b = lift(a), lift(b)
                    out += [(a,) + z, (sub(b, ONE),) + last, (sub(b, ONE),) + z, (b,) + z, (a,) + last]
                return out
            unravel(I, cands)
            self.disk.block = self.block
        self.ghost()

    def block(self, I, k, key):
        W = self.W
        loc = [(W.r0(k), W.r1(k))] + [(ZERO, d) for d in W.trail(k)]
        if len(key) != len(loc):
            return False
        gd = [lift(W.dims[int(T.cval(k))][2])] + list(W.trail(k))
        for s, (a, b), d in zip(key, loc, gd):
            if not isinstance(s, SliceV) or s.step not in (None, 1):
                return False
            lo = ZERO if s.lo is None else lift(s.lo)
            hi = d if s.hi is None else lift(s.hi)
            if I.decide(eq(lo, lift(a))) is not True or I.decide(eq(hi, lift(b))) is not True:
                return False
        return True

    def due(self, g):
        return eq(T.app("imod", [g, self.P], "I"), ZERO) if not (T.is_const(g) and T.is_const(self.P)) else (T.TRUE if int(T.cval(g)) % int(T.cval(self.P)) == 0 else T.FALSE)

    def ghost(self):
        """invariant of the file for all groups (instantiated where needed)"""
        I, D = self.I, self.disk
        self.g, self.k, self.j = (I.fresh(n, "I") for n in ("g", "q", "j"))
        W = self.W
        I.assume(le(ZERO, self.g))
        if W.Q is not ZERO:
            I.assume(le(ZERO, self.k), lt(self.k, W.Q), le(ZERO, self.j), lt(self.j, W.length("old", self.k)))
        if not T.is_const(W.Q):
            W.item("u", self.k)
        if not self.first:
            D.lemma = lambda g, k: [T.or_(not_(self.had(g)), eq(app("file_data?", [g, k], "I"), ONE))]
            for g in (ZERO, self.i, self.g):
                I.assume(*self.inv(g))
        self.old = {n: b._fn for n, b in D.b.items()}

    def inv(self, g):
        """groups of an earlier state of the file: only multiples of the period, complete"""
        D, W = self.disk, self.W
        p = D.flag("present", g)
        out = [T.or_(not_(p), self.due(g), eq(g, ZERO)), T.or_(not_(p), D.flag("time?", g)), T.or_(eq(D.b["present"].read((g,)), ZERO), p)]
        if g is ZERO:
            out.append(p)
        out.append(T.or_(not_(p), D.flag("err?", g) if self.embedded else eq(D.b["err?"].read((g,)), ZERO)))
        for k in ([lift(x) for x in range(int(T.cval(W.Q)))] if T.is_const(W.Q) else []) + [self.k]:
            out.append(T.or_(not_(p), D.flag("data?", g, k)))
        return out

    def state(self, prefix):
        I = self.I
        s, m = lift(2), I.fresh("m", "I")
        cls = I.get(STATEM + (":EmbeddedRungeKuttaDiscretizationState" if self.embedded else ":RungeKuttaDiscretizationState"))
        ds = I.call(cls, [], dict(ode_state_size=self.W.n, independent_input_size=self.W.q, independent_output_size=ZERO, number_of_stages=s, linearization_point_size=ZERO))
        hist = lift(2 if self.embedded else 0)
        tis = I.call(I.get(TISM + ":TimeIntegrationState"), [ds, arr(I, prefix + "sug", (ONE if self.embedded else ZERO,)), arr(I, prefix + "sh", (hist,)), arr(I, prefix + "eh", (hist,))], {})
        for n in ("start_state", "final_state", "start_time", "final_time"):
            havoc(I.getattr(ds, n), prefix + n)
        return tis


def run_step(embedded, first, **kw):
    def run(I):
        k2 = dict(kw)
        if "ranks" in k2:
            k2["dims"] = sym_dims(I, k2.pop("ranks"))
            k2["Q"] = len(k2["dims"])
        S = Setting(I, embedded, first, **k2)
        W, D, i = S.W, S.disk, S.i
        scheme = I.register(Obj(I.object_cls, {}, "scheme"))
        for phase in ("before", "after"):
            tis = S.state(phase + "_")
            try:
                I.call(I.getattr(S.cb, phase + "_iteration"), [i, tis, W.ode, scheme], {})
            except PyExc as ex:
                truth(I, f"{phase}_iteration does not fail", False, f"{ex.obj.cls.name}{ex.obj.attrs.get('args')}")
                raise PathEnd()
            truth(I, "the file is closed", D.open is None)
        truth(I, "there is a file", D.exists)
        fin = lambda n: (lambda ix: app("after_" + n, list(ix)))
        st = lambda ix: app("after_start_state", list(ix))
        g, k, j = S.g, S.k, S.j
        R = lambda n, *ix: D.b[n].read(tuple(lift(x) for x in ix))
        pos = add(W.st("u", k), j)
        # every group
        expect = or_(eq(g, ZERO), and_(eq(g, ONE), S.due(g))) if first else or_(S.had(g), and_(eq(g, i), S.due(i)))
        I.oblige("present groups", eqs=(eq(R("present", g), ONE), expect))
        some = W.Q is not ZERO
        full = lambda gg, who: (I.oblige(f"{who}: time is stored", D.flag("time?", gg)), some and I.oblige(f"{who}: every quantity is stored", D.flag("data?", gg, k)),
                                I.oblige(f"{who}: error measure is stored iff the scheme is embedded", D.flag("err?", gg) if embedded else eq(R("err?", gg), ZERO)))

        def when(c, f):
            if c is T.FALSE:
                return
            saved = I.facts
            I.assume(c)
            if P.feasible(I.facts):
                f()
            I.facts = saved

        def now():
            full(i, "group of the step")
            I.oblige("time of the step", eqs=(R("time", i), app("after_final_time", [ZERO])))
            some and I.oblige("values of the step", eqs=(R("data", i, k, j), app("after_final_state", [pos])))
            if embedded:
                I.oblige("error measure of the step", eqs=(R("err", i), app("after_eh", [ZERO])))
        when(S.due(i), now)
        if first:
            full(ZERO, "group of the start")
            I.oblige("start time", eqs=(R("time", ZERO), app("after_start_time", [ZERO])))
            some and I.oblige("initial values", eqs=(R("data", ZERO, k, j), app("after_start_state", [pos])))
            if embedded:
                I.oblige("error measure of the start is zero", eqs=(R("err", ZERO), ZERO))
        else:
            def others():
                for n, ix in (("present", (g,)), ("time?", (g,)), ("err?", (g,)), ("data?", (g, k)), ("time", (g,)), ("err", (g,)), ("data", (g, k, j))):
                    I.oblige(f"other groups are unchanged ({n})", eqs=(R(n, *ix), S.old[n](tuple(ix))))
            when(T.or_(not_(eq(g, i)), not_(S.due(i))), others)
    return run


Setting.had = lambda S, g: eq(app("file_present", [g], "I"), ONE)


def units(tier):
    u = []
    for emb in (False, True):
        e = "embedded" if emb else "simple"
        for ex in (True, False):
            u.append((f"first step, {e}, {'old' if ex else 'no'} file", run_step(emb, True, exists=ex), {}, {}))
        u.append((f"later or repeated step, {e}", run_step(emb, False), {}, {}))
        u.append((f"first step, {e}, no quantities", run_step(emb, True, Q=0), {}, {}))
        u.append((f"later or repeated step, {e}, no quantities", run_step(emb, False, Q=0), {}, {}))
    u.append(("default communicator", run_step(False, True, own_comm=False), {}, {}))
    return u


# ------------------------------------------------------------ indices of the local block
def run_indices(nd):
    def run(I):
        dims = sym_dims(I, [nd])
        S = Setting(I, False, True, Q=1, dims=dims)
        r0, r1, R = dims[0][:3]
        I.assume(lt(r0, r1))
        q = S.W.item("u", ZERO)
        try:
            f = I.get(FW + ":OpenMDAOHDF5Callback.get_write_indices")
        except PyExc:
            raise Unsupported("get_write_indices is gone")
        r = I.call(f, [q], {})
        if not truth(I, "one index range per dimension", isinstance(r, tuple) and len(r) == nd, repr(r)):
            raise PathEnd()
        for n, (s, (a, b), d) in enumerate(zip(r, [(r0, r1)] + [(ZERO, x) for x in dims[0][3:]], (R,) + dims[0][3:])):
            if not truth(I, "index ranges are slices of step one", isinstance(s, SliceV) and s.step in (None, 1), repr(s)):
                raise PathEnd()
            I.oblige(f"start of the block in dimension {n}", eqs=(ZERO if s.lo is None else lift(s.lo), a))
            I.oblige(f"end of the block in dimension {n}", eqs=(d if s.hi is None else lift(s.hi), b))
    return run


# ------------------------------------------------------------ readers
class RFile(Native):
    """file opened for reading: groups (keys in file order), each with time, error measure and datasets"""

    def __init__(self, S, name, kw):
        self.S = S
        self.closed = False

    def keys(self):
        return [k for k, _ in self.S.groups]

    def live(self, I):
        if self.closed:
            I.raise_("ValueError", "the file is closed")

    def py_getattr(self, I, name):
        if name == "__enter__":
            return Builtin(name, lambda I2, ar, kw: self)
        if name in ("__exit__", "close"):
            return Builtin(name, lambda I2, ar, kw: setattr(self, "closed", True))
        self.live(I)
        grp = lambda n: RGroup(self, n)
        if name == "keys":
            return Builtin(name, lambda I2, ar, kw: self.keys())
        if name == "values":
            return Builtin(name, lambda I2, ar, kw: [grp(n) for _, n in self.S.groups])
        if name == "items":
            return Builtin(name, lambda I2, ar, kw: [(k, grp(n)) for k, n in self.S.groups])
        raise Unsupported("file." + name)

    def py_iterlist(self, I):
        self.live(I)
        return self.keys()

    def py_len(self, I):
        return len(self.S.groups)

    def py_contains(self, I, key):
        g = group_no(I, key_parts(I, key)[0])
        return or_(*[eq(g, lift(n)) for _, n in self.S.groups])

    def py_getitem(self, I, key):
        self.live(I)
        p = key_parts(I, key)
        g = group_no(I, p[0])
        for _, n in self.S.groups:
            if I.branch(eq(g, lift(n))):
                r = RGroup(self, n)
                return r if len(p) == 1 else r.py_getitem(I, p[1])
        I.raise_("KeyError", str(key))


class RGroup(Native):
    def __init__(self, f, n):
        self.f, self.n = f, lift(n)

    def py_getitem(self, I, key):
        S = self.f.S
        self.f.live(I)
        if key == "time":
            return RData(self.f, (ONE,), lambda ix, n=self.n: app("f_time", [n]))
        if key == "error_measure" and S.embedded:
            return RData(self.f, (ONE,), lambda ix, n=self.n: app("f_err", [n]))
        if key in S.names:
            q = S.names.index(key)
            return RData(self.f, S.shapes[q], lambda ix, n=self.n: app("f_data%d" % q, [n] + list(ix)))
        I.raise_("KeyError", str(key))

    def py_contains(self, I, key):
        return key == "time" or (key == "error_measure" and self.f.S.embedded) or key in self.f.S.names

    def py_getattr(self, I, name):
        if name == "keys":
            return Builtin(name, lambda I2, ar, kw: sorted(self.f.S.names + ["time"] + (["error_measure"] if self.f.S.embedded else [])))
        raise Unsupported("group." + name)


class RData(Native):
    def __init__(self, f, shape, fn):
        self.f, self.shape_, self.fn = f, shape, fn

    def py_arr(self, I):
        self.f.live(I)
        return arr(I, "dataset", self.shape_, fn=self.fn)

    def py_getitem(self, I, key):
        a = self.py_arr(I)
        if key is Ellipsis or key == ():
            return a
        return I.getitem(a, key)

    def py_len(self, I):
        return NP.unlift(self.shape_[0])

    def py_getattr(self, I, name):
        if name == "shape":
            return tuple(NP.unlift(x) for x in self.shape_)
        return I.getattr(self.py_arr(I), name)


class Readings:
    def __init__(self, I, keys, ranks, embedded=True):
        self.I, self.embedded = I, embedded
        comm_stubs(I)
        self.opened = []
        I.stubs["h5py"] = Module("h5py", {"File": Builtin("h5py.File", self.open_)})
        self.groups = keys
        self.names = [f"quantity{n}" for n in (2, 0, 1)][:len(ranks)]
        self.shapes = []
        for q, nd in enumerate(ranks):
            d = tuple(I.fresh(f"d{q}_{j}", "I") for j in range(nd))
            I.assume(*[le(ONE, x) for x in d])
            self.shapes.append(d)

    def open_(self, I, ar, kw):
        d = dict(zip(("name", "mode"), ar), **kw)
        truth(I, "the given file is opened", d.get("name") == "some.h5", repr(d.get("name")))
        truth(I, "files are opened for reading", d.get("mode", "r") == "r", repr(d.get("mode")))
        f = RFile(self, "some.h5", kw)
        I.register(f)
        self.opened.append(f)
        return f

    def data(self, q, n):
        return lambda ix: app("f_data%d" % q, [lift(n)] + list(ix))

    def stored(self, q, n):
        return lamof(self.data(q, n), self.shapes[q])


def run_read(keys, ranks, listed, embedded=True):
    def run(I):
        S = Readings(I, [(str(n), n) for n in keys], ranks, embedded)
        names = [S.names[q] for q in listed]
        shapes = [S.shapes[q] for q in listed]

        def val(a, q):
            if not isinstance(a, Arr) or a.ndim != len(S.shapes[q]):
                truth(I, "initial values given to the solution are arrays of the shape of the quantity", False, repr(a))
                raise PathEnd()
            for x, y in zip(a.shape, S.shapes[q]):
                I.oblige("shape of the initial values given to the solution", eqs=(x, y))
            return a.lam()

        def sol(I2, ar, kw):
            t, x0, t0 = ar
            if len(listed) == 1:
                a = [num(I, t), val(x0, listed[0]), num(I, t0)]
                return arr(I, "solution", shapes[0], fn=lambda ix: app("sol", a + [ZERO] + list(ix)))
            x0 = I.iter_list(x0)
            if not truth(I, "the solution gets the initial values of all quantities", len(x0) == len(listed), repr(x0)):
                raise PathEnd()
            a = [num(I, t)] + [val(x, q) for x, q in zip(x0, listed)] + [num(I, t0)]
            return I.register([arr(I, "solution", shp, fn=lambda ix, c=c: app("sol", a + [lift(c)] + list(ix))) for c, shp in enumerate(shapes)])
        try:
            r = I.call(I.get(FW + ":read_hdf5_file"), ["some.h5", I.register(list(names)), Builtin("solution", sol)], {})
        except PyExc as ex:
            truth(I, "reading does not fail", False, f"{ex.obj.cls.name}{ex.obj.attrs.get('args')}")
            raise PathEnd()
        truth(I, "the file is closed", bool(S.opened) and all(f.closed for f in S.opened))
        if not truth(I, "time, errors and values are returned", isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, dict) for x in r), repr(r)):
            raise PathEnd()
        t, e, x = r
        ok = truth(I, "times of exactly the stored steps", set(t) == set(keys), repr(list(t)))
        ok &= truth(I, "values of exactly the listed quantities and stored steps", set(x) == set(names) and all(set(v) == set(keys) for v in x.values()), repr(list(x)))
        ok &= truth(I, "errors of exactly the listed quantities and stored steps", set(e) == set(names) and all(set(v) == set(keys) for v in e.values()), repr(list(e)))
        if not ok:
            raise PathEnd()
        tm = lambda n: app("f_time", [lift(n)])
        for n in keys:
            I.oblige("time of a stored step", eqs=(num(I, t[n]), tm(n)))
            a = [tm(n)] + [S.stored(q, 0) for q in listed] + [tm(0)]
            for c, q in enumerate(listed):
                same_array(I, "values of a stored step", x[S.names[q]][n], S.data(q, n), S.shapes[q])
                same_array(I, "error is the distance to the solution", e[S.names[q]][n],
                           lambda ix: T.abs_(sub(app("sol", a + [lift(c)] + list(ix)), S.data(q, n)(ix))), S.shapes[q])
    return run


def run_last(count):
    def run(I):
        ks = [I.fresh(f"step{j}", "I") for j in range(count)]
        I.assume(*[le(ZERO, k) for k in ks])
        for i in range(count):
            for j in range(i):
                I.assume(not_(eq(ks[i], ks[j])))
        S = Readings(I, [(T.app("fstr", [k], "S"), k) for k in ks], [1])
        try:
            r = I.call(I.get(FW + ":read_last_local_error"), ["some.h5"], {})
        except PyExc as ex:
            truth(I, "reading the last error does not fail", False, f"{ex.obj.cls.name}{ex.obj.attrs.get('args')}")
            raise PathEnd()
        truth(I, "the file is closed", bool(S.opened) and all(f.closed for f in S.opened))
        last = I.fresh("last", "I")
        I.assume(or_(*[eq(last, k) for k in ks]), *[le(k, last) for k in ks])
        I.oblige("last local error is the error measure of the last stored step", eqs=(num(I, r), app("f_err", [last])))
    return run


def always(tier):
    u = [(f"local block of {nd}-dimensional quantities", run_indices(nd), {}, {}) for nd in (1, 2, 3)]
    cases = [([0], [2], [0]), ([0, 3], [1], [0]), ([0, 10, 2], [1, 2], [0, 1]), ([0, 12, 4, 8], [2, 1, 1], [2, 0]), ([0, 5], [1, 1, 1], [1, 0, 2]), ([0, 1], [3], [0])]
    for keys, ranks, listed in cases:
        u.append((f"reading groups {keys}, quantities of {ranks} dimensions, listed {listed}", run_read(keys, ranks, listed, len(keys) % 2 == 0), {}, {}))
    for c in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        u.append((f"last error of {c} stored steps", run_last(c), {}, {}))
    return u


def bounded(tier, ints=()):
    u = []
    for emb in (False, True):
        for ranks in ((1,), (2, 1), (1, 3)):
            for first in (True, False):
                for period, step in (((1, 2), (2, 3), (3, 6), (4, 2), (None, None)) if not first else ((1, None), (2, None), (None, None))):
                    u.append((f"step {'1' if first else step}, period {period}, dimensions {ranks}, embedded {emb}", run_step(emb, first, ranks=ranks, period=period, step=step), {}, {}))
    u += [x for x in units(tier) if "no quantities" in x[0]]
    return u
