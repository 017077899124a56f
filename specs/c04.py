"""C04: copying and serialising states loses and aliases nothing."""
from .common import *

FILES = ["rkopenmdao/time_discretization/runge_kutta_discretization_state.py", "rkopenmdao/time_integration_state.py",
         "rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py"]
FUNCS = ["RungeKuttaDiscretizationState.__init__", "RungeKuttaDiscretizationState.set", "EmbeddedRungeKuttaDiscretizationState.__init__",
         "EmbeddedRungeKuttaDiscretizationState.set", "TimeIntegrationState.set",
         "(bounded in the number of stages) RungeKuttaDiscretizationState.to_dict/from_dict", "(bounded) EmbeddedRungeKuttaDiscretizationState.to_dict/from_dict",
         "(bounded) TimeIntegrationState.to_dict/from_dict", "(bounded) RungeKuttaCheckpoint.get_data/get_data_location/size"]
ASSUMPTIONS = ["states handed to set() have equal sizes and the target's arrays are distinct from each other"]
RT_NOTE = "real states of random sizes, set / to_dict / from_dict / pyrevolve checkpoint round trips"
LEVEL = "set() and the constructors proved for every number of stages and size; to_dict/from_dict/checkpoints for 1..4 stages"
RT_BUDGET = 10
PRM = PKG + ".checkpoint_interface.runge_kutta_integrator_pyrevolve_classes"
TI_FIELDS = ["step_size_suggestion", "step_size_history", "error_history"]


class St:
    """a state (discretization state or whole integration state) and access to all its arrays"""

    def __init__(self, I, embedded, s, name, whole, shared=None):
        self.I, self.embedded, self.whole = I, embedded, whole
        self.n, self.q, self.o, self.m = sizes(I, "n", "q", "o", "m")
        self.k1, self.k2 = sizes(I, "k1", "k2")
        self.s = s
        cls = I.get(STATEM + (":EmbeddedRungeKuttaDiscretizationState" if embedded else ":RungeKuttaDiscretizationState"))
        self.ds = I.call(cls, [], dict(ode_state_size=self.n, independent_input_size=self.q, independent_output_size=self.o,
                                       number_of_stages=s, linearization_point_size=self.m))
        self.obj = self.ds
        if whole:
            self.obj = I.call(I.get(TISM + ":TimeIntegrationState"), [self.ds, arr(I, name + "sug", (ONE,)), arr(I, name + "sh", (self.k1,)), arr(I, name + "eh", (self.k2,))], {})
        self.name = name

    def fields(self):
        fs = [("d", f) for f in STATE_FIELDS + (EMB_FIELDS if self.embedded else [])]
        return fs + ([("t", f) for f in TI_FIELDS] if self.whole else [])

    def shape(self, kf):
        k, f = kf
        if k == "t":
            return {"step_size_suggestion": (ONE,), "step_size_history": (self.k1,), "error_history": (self.k2,)}[f]
        return state_shape(f, lift(self.s), self.n, self.q, self.o, self.m)

    def get(self, kf, obj=None):
        I = self.I
        o = obj if obj is not None else self.obj
        k, f = kf
        if k == "d" and self.whole:
            o = I.getattr(o, "discretization_state")
        return I.getattr(o, f)

    def havoc(self, prefix):
        out = {}
        for kf in self.fields():
            a = self.get(kf)
            if not isinstance(a, Arr):
                raise Unsupported(f"{kf} is not an array")
            if len(a.axes) != len(a.buf.shape) or any(x[0] == "f" for x in a.axes):
                raise Unsupported("state field is a view")
            havoc(a, prefix + kf[1])
            out[kf] = content(a)
        return out

    def check(self, what, want, obj=None):
        for kf in self.fields():
            same_array(self.I, f"{what}: {kf[1]}", self.get(kf, obj), want[kf], self.shape(kf))


def run_set(embedded, whole, s_conc=None):
    def run(I):
        if s_conc is None:
            s = var("s", "I")
            I.assume(le(ZERO, s))
        else:
            s = s_conc
        a, b = St(I, embedded, s, "a", whole), St(I, embedded, s, "b", whole)
        for kf in a.fields():
            x = a.get(kf)
            truth(I, f"constructor: {kf[1]} is an array of its own", isinstance(x, Arr) and all(root(a.get(o).buf) is not root(x.buf) for o in a.fields() if o != kf))
            if kf[0] == "d":
                same_array(I, f"constructor: {kf[1]} is zero", x, lambda ix: ZERO, a.shape(kf))
        ha, hb = a.havoc("A_"), b.havoc("B_")
        oldarr = {kf: a.get(kf) for kf in a.fields()}
        try:
            I.call(I.getattr(a.obj, "set"), [b.obj], {})
        except PyExc as ex:
            truth(I, "set does not raise", False, repr(ex.obj.attrs.get("args")))
            return
        a.check("set copies", hb)
        b.check("set leaves the source unchanged", hb)
        bb = [b.get(kf).buf for kf in b.fields()]
        for kf in a.fields():
            x = a.get(kf)
            truth(I, f"set writes into the existing array: {kf[1]}", root(x.buf) is root(oldarr[kf].buf))
            truth(I, f"set shares no memory: {kf[1]}", all(root(x.buf) is not root(y) for y in bb))
            same_array(I, f"set: array object seen by others holds the value: {kf[1]}", oldarr[kf], hb[kf], a.shape(kf))
    return run


def leaves(d, out):
    if isinstance(d, dict):
        for v in d.values():
            leaves(v, out)
    elif isinstance(d, Arr):
        out.append(d)
    else:
        raise Unsupported(f"exported {type(d).__name__}")
    return out


def run_dict(embedded, whole, s):
    def run(I):
        a = St(I, embedded, s, "a", whole)
        ha = a.havoc("A_")
        try:
            d = I.call(I.getattr(a.obj, "to_dict"), [], {})
            b = I.call(I.getattr(I.get(TISM + ":TimeIntegrationState") if whole else a.ds.cls, "from_dict"), [d], {})
        except PyExc as ex:
            truth(I, "to_dict/from_dict do not raise", False, f"{ex.obj.cls.name} {ex.obj.attrs.get('args')}")
            return
        a.check("to_dict leaves the state unchanged", ha)
        ds = I.getattr(b, "discretization_state") if whole else b
        truth(I, "from_dict yields a state of the same kind", isinstance(b, Obj) and b.cls is a.obj.cls and ds.cls is a.ds.cls, f"{b!r}")
        a.check("from_dict(to_dict(x)) equals x", ha, b)
        lv = leaves(d, [])
        saved = [content(x) for x in lv]
        a.havoc("Z_")
        for x, c in zip(lv, saved):
            x.write(c)
        a.check("writing the exported arrays back restores the state", ha)
    return run


def run_checkpoint(embedded, s):
    def run(I):
        a = St(I, embedded, s, "a", True)
        ha = a.havoc("A_")
        try:
            cp = I.call(I.get(PRM + ":RungeKuttaCheckpoint"), [a.obj], {})
            t = I.fresh("timestep", "I")
            data = I.call(I.getattr(cp, "get_data"), [t], {})
            size = I.getattr(cp, "size")
            a.check("get_data leaves the state unchanged", ha)
            a.havoc("Z_")
            loc = I.call(I.getattr(cp, "get_data_location"), [t], {})
        except PyExc as ex:
            truth(I, "checkpoint access does not raise", False, f"{ex.obj.cls.name} {ex.obj.attrs.get('args')}")
            return
        truth(I, "as many data as locations", isinstance(data, list) and isinstance(loc, list) and len(data) == len(loc), f"{data!r:.80}")
        if len(data) != len(loc):
            return
        tot = ZERO
        for x, y in zip(loc, data):
            for d1, d2 in zip(x.shape, y.shape):
                I.oblige("data has the shape of its location", eqs=(d1, d2))
            truth(I, "data is a copy", all(root(y.buf) is not root(a.get(kf).buf) for kf in a.fields()))
            tot = add(tot, mul(*x.shape))
        for x, y in zip(loc, data):
            x.write(content(y))
        a.check("restoring a checkpoint restores the state", ha)
        I.oblige("size is the number of stored values", eqs=(size, tot))
    return run


def units(tier):
    return [(f"set{' embedded' if e else ''}{' integration state' if w else ''}", run_set(e, w), {}, {}) for e in (False, True) for w in (False, True)]


def always(tier):
    ss = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 6)
    return [(f"dict s={s}{' embedded' if e else ''}{' integration state' if w else ''}", run_dict(e, w, s), {}, {"unroll": 8}) for s in ss for e in (False, True) for w in (False, True)] + \
        [(f"checkpoint s={s}{' embedded' if e else ''}", run_checkpoint(e, s), {}, {"unroll": 8}) for s in ss[:2] for e in (False, True)]


def bounded(tier, ints=()):
    return [(f"set s={s}{' embedded' if e else ''}{' integration state' if w else ''}", run_set(e, w, s), {}, {"unroll": 8}) for s in (1, 2, 3) for e in (False, True) for w in (False, True)]
