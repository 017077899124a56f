"""Shared contract machinery: symbolic inputs, abstract ODE / tableau, postcondition helpers."""
from fractions import Fraction
from pyvc import terms as T, prover as P
from pyvc.terms import (Term, ZERO, ONE, add, sub, mul, le, lt, eq, and_, or_, not_, ite, var, app, lift, fresh_bound,
                        sum_, const)
from pyvc.values import (root, Buf, Arr, Obj, PyClass, Builtin, Native, PyFunc, Bound, Unsupported, PyExc, SymRange, ClsM,
                         Static, Prop)
from pyvc.interp import Interp, explore, PathEnd, Report
from pyvc.loops import ClosedForm
from . import stubs

PKG = "rkopenmdao"
SORPC = PKG + ".time_discretization.stage_ordered_runge_kutta_discretization"
ODEM = PKG + ".discretized_ode.discretized_ode"
STATEM = PKG + ".time_discretization.runge_kutta_discretization_state"
TABM = PKG + ".butcher_tableau"
IFM = PKG + ".time_discretization.time_discretization_scheme_interface"
TISM = PKG + ".time_integration_state"


def arr(I, name, shape, dtype="R", fn=None):
    """symbolic numpy array named `name`."""
    shape = tuple(lift(x) for x in shape)
    b = Buf(shape, fn or (lambda idx: app(name, list(idx), dtype if dtype in "IR" else "R")), dtype, name)
    I.register(b)
    return Arr(b)


def havoc(a, name):
    """give the (whole) array arbitrary content."""
    a.buf.setfn(lambda idx: app(name, list(idx)))
    a.buf.name = name


def content(a):
    """current content as a function of the index tuple (immune to later writes)."""
    return a.frozen()


def same_array(I, name, a, fn, shape=None):
    """obligation: array `a` (of the given shape) equals fn(idx) everywhere."""
    if not isinstance(a, Arr):
        if isinstance(a, (int, float, Fraction, Term)) and shape is not None and len(shape) == 0:
            return I.oblige(name, eqs=(a, fn(())))
        I.report.add(name, P.Result("refuted", "type", f"not an array: {a!r}"), I)
        return False
    if shape is not None:
        if len(a.shape) != len(shape):
            I.report.add(name, P.Result("refuted", "shape", f"{len(a.shape)} dimensions, expected {len(shape)}"), I)
            return False
        for d1, d2 in zip(a.shape, shape):
            I.oblige(name + " [shape]", eqs=(d1, d2))
    ix = [I.fresh("i", "I") for _ in a.shape]
    saved = I.facts
    for v, d in zip(ix, a.shape):
        I.assume(le(ZERO, v), lt(v, d))
    if ix:
        I.inst_facts(ix)
    ok = I.oblige(name, eqs=(a.get(tuple(ix)), fn(tuple(ix))))
    I.facts = saved
    return ok


def truth(I, name, ok, detail=""):
    r = P.Result("proved", "structural") if ok else P.Result("refuted", "structural", detail)
    if I.collect is not None:
        I.collect.append((name, r))
    else:
        I.report.add(name, r, I)
    return ok


def lamof(fn, dims):
    vs = [fresh_bound() for _ in dims]
    return T.lam(vs, tuple(lift(d) for d in dims), fn(tuple(vs)))


def stub_class(I, name, base, methods):
    ns = {}
    for nm, f in methods.items():
        ns[nm] = Builtin(f"{name}.{nm}", f)
    c = PyClass(name, [base] if base is not None else [I.object_cls], ns)
    return c


def argmap(I, names, args, kw):
    """bind positional/keyword args of a stub."""
    out = dict(zip(names, args))
    if len(args) > len(names):
        I.raise_("TypeError", "too many arguments")
    for k, v in kw.items():
        if k not in names or k in out:
            I.raise_("TypeError", f"argument {k}")
        out[k] = v
    for n in names:
        if n not in out:
            I.raise_("TypeError", f"missing argument {n}")
    return out


def sym_tableau(I, s, embedded=False, name=""):
    """a ButcherTableau built by the real constructor from arbitrary arrays of s stages."""
    A = arr(I, "A" + name, (s, s))
    b = arr(I, "b" + name, (s,))
    c = arr(I, "c" + name, (s,))
    kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=I.fresh("p", "I"))
    if embedded:
        e = arr(I, "e" + name, (s,))
        kw.update(butcher_adaptive_weights=e, phat=I.fresh("phat", "I"))
        tab = I.call(I.get(TABM + ":EmbeddedButcherTableau"), [], kw)
    else:
        e = None
        tab = I.call(I.get(TABM + ":ButcherTableau"), [], kw)
    I.warned.clear()
    return tab, A, b, c, e


def num(I, x):
    """a scalar argument as a term"""
    from pyvc import npmodel as NP
    if isinstance(x, Arr):
        if len(x.shape) == 0:
            return x.get(())
        if len(x.shape) == 1 and I.decide(eq(x.shape[0], ONE)):
            return x.get((ZERO,))
        raise Unsupported("array where a scalar is expected")
    return lift(x)


class SymList(Native):
    """a list of symbolic length n whose k-th element is item(k)"""

    def __init__(self, I, n, item):
        self.n, self.item = n, item
        I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_truth(self, I):
        return lt(ZERO, self.n)

    def py_len(self, I):
        return self.n

    def py_symiter(self, I, st, fr):
        r = SymRange(ZERO, self.n)
        r.item = self.item
        r.list = self
        return I.sym_for(st, fr, r)

    def py_symitems(self, I):
        return self.n, self.item

    def py_getitem(self, I, k):
        if not isinstance(k, (int, Term)):
            raise Unsupported("slice of a symbolic list")
        k = lift(k)
        if I.decide(lt(k, ZERO)) is True:
            k = add(self.n, k)
        if I.decide(and_(le(ZERO, k), lt(k, self.n))) is not True:
            raise Unsupported("index of a symbolic list")
        return self.item(k)


class AbstractODE:
    """Contract of DiscretizedODE: the stage maps are (uninterpreted) functions of exactly the
    documented arguments; they return fresh arrays and modify nothing."""

    def __init__(self, I, n, q, o, m, linear=False):
        self.I, self.n, self.q, self.o, self.m = I, n, q, o, m
        base = I.get(ODEM + ":DiscretizedODE")
        self.res = I.get(ODEM + ":DiscretizedODEResultState")
        self.inp = I.get(ODEM + ":DiscretizedODEInputState")
        self.calls = []
        self.hook = {}
        st = lambda f: (lambda I2, ar, kw: f(*ar[1:], **kw))
        self.cls = stub_class(I, "AbstractODE", base, {
            "compute_update": lambda I2, ar, kw: self.update(ar[1:], kw),
            "compute_update_derivative": lambda I2, ar, kw: self.deriv(ar[1:], kw),
            "compute_update_adjoint_derivative": lambda I2, ar, kw: self.adj(ar[1:], kw),
            "compute_state_norm": lambda I2, ar, kw: self.norm(ar[1:], kw),
            "get_state_size": lambda I2, ar, kw: self.n,
            "get_independent_input_size": lambda I2, ar, kw: self.q,
            "get_independent_output_size": lambda I2, ar, kw: self.o,
            "get_linearization_point_size": lambda I2, ar, kw: self.m,
        })
        self.obj = I.register(Obj(self.cls, {}, "ode"))

    def vec(self, x, size, what):
        I = self.I
        if not isinstance(x, Arr) or len(x.shape) != 1:
            truth(I, f"call of the ODE: {what} is a vector", False, repr(x))
            raise PathEnd()
        I.oblige(f"call of the ODE: size of {what}", eqs=(x.shape[0], size))
        return x.lam()

    def _args(self, inp, h, a, lp):
        I = self.I
        g = lambda n: I.getattr(inp, n)
        args = [self.vec(g("step_input"), self.n, "step_input"), self.vec(g("stage_input"), self.n, "stage_input"),
                self.vec(g("independent_input"), self.q, "independent_input"), num(I, g("time")), num(I, h), num(I, a)]
        if lp:
            args.append(self.vec(g("linearization_point"), self.m, "linearization_point"))
        return args

    def _mk(self, name, args, size):
        return arr(self.I, name, (size,), fn=lambda idx, args=tuple(args): app(name, list(args) + list(idx)))

    def update(self, ar, kw):
        d = argmap(self.I, ["ode_input", "step_size", "stage_factor"], ar, kw)
        args = self._args(d["ode_input"], d["step_size"], d["stage_factor"], False)
        return self.I.call(self.res, [], dict(
            stage_update=self._mk("F_upd", args, self.n), stage_state=self._mk("F_st", args, self.n),
            independent_output=self._mk("F_out", args, self.o), linearization_point=self._mk("F_lp", args, self.m)))

    def deriv(self, ar, kw):
        d = argmap(self.I, ["ode_input_perturbation", "step_size", "stage_factor"], ar, kw)
        args = self._args(d["ode_input_perturbation"], d["step_size"], d["stage_factor"], True)
        if self.I.getattr(d["ode_input_perturbation"], "linearization_point") is None:
            raise Unsupported("no linearization point")
        return self.I.call(self.res, [], dict(
            stage_update=self._mk("J_upd", args, self.n), stage_state=self._mk("J_st", args, self.n),
            independent_output=self._mk("J_out", args, self.o)))

    def adj(self, ar, kw):
        I = self.I
        d = argmap(I, ["ode_result_perturbation", "step_size", "stage_factor"], ar, kw)
        r = d["ode_result_perturbation"]
        g = lambda n: I.getattr(r, n)
        args = [self.vec(g("stage_update"), self.n, "stage_update"), self.vec(g("stage_state"), self.n, "stage_state"),
                self.vec(g("independent_output"), self.o, "independent_output"), num(I, d["step_size"]),
                num(I, d["stage_factor"]), self.vec(g("linearization_point"), self.m, "linearization_point")]
        f = self.hook.get("adj")
        if f:
            f(args)
        return I.call(self.inp, [], dict(
            step_input=self._mk("T_step", args, self.n), stage_input=self._mk("T_stage", args, self.n),
            independent_input=self._mk("T_ind", args, self.q), time=app("T_time", list(args))))

    def norm(self, ar, kw):
        I = self.I
        x = I.getattr(ar[0], "stage_state")
        return app("onorm", [x.lam()])


STATE_FIELDS = ["start_state", "stage_states", "stage_updates", "final_state", "independent_inputs",
                "stage_independent_outputs", "final_independent_outputs", "start_time", "stage_times", "final_time",
                "step_size", "linearization_points"]
EMB_FIELDS = ["embedded_state", "error_estimate"]


def state_shape(f, s, n, q, o, m):
    return {"start_state": (n,), "stage_states": (s, n), "stage_updates": (s, n), "final_state": (n,),
            "independent_inputs": (q,), "stage_independent_outputs": (s, o), "final_independent_outputs": (o,),
            "start_time": (ONE,), "stage_times": (s,), "final_time": (ONE,), "step_size": (ONE,),
            "linearization_points": (s, m), "embedded_state": (n,), "error_estimate": (n,)}[f]


def havoc_state(I, st, prefix, embedded):
    out = {}
    for f in STATE_FIELDS + (EMB_FIELDS if embedded else []):
        a = I.getattr(st, f)
        if not isinstance(a, Arr):
            raise Unsupported(f"state field {f} is not an array")
        havoc(a, prefix + f)
        out[f] = content(a)
    return out


def sizes(I, *names):
    vs = []
    for n in names:
        v = var(n, "I")
        I.assume(le(ZERO, v))
        vs.append(v)
    return vs


class StageLoop:
    """Loop contract for a loop over stages: after k iterations, row j<k of each of the given
    arrays holds its specified value, the other rows are as on entry.
    rows: {Buf: (value(j, rest), definition(j, rest))}: `value` may be a ghost function whose
    definitional unfolding at row j is `definition`."""

    def __init__(self, s, rows):
        self.s, self.rows = s, rows

    def matches_while(self, I, st, fr):
        return False

    def for_inv(self, I, st, fr, rng):
        if rng.step != 1 or rng.start is not ZERO:
            return None
        if I.decide(eq(rng.n, self.s)) is not True:
            return None
        return _StageInv(I, self.rows)


class _StageInv(ClosedForm):
    def __init__(self, I, rows):
        self.entry = {b: b._fn for b in rows}
        bufs = {}
        for b, (val, df) in rows.items():
            def f(k, idx, b=b, val=val, e=self.entry[b]):
                return ite(lt(idx[0], k), val(idx[0], idx[1:]), e(idx))
            bufs[b] = f
        super().__init__("stage loop", bufs)
        self.rows = rows

    def holds(self, I, k, what):
        ok = True
        for b, (val, df) in self.rows.items():
            vs = [I.fresh("ix", "I") for _ in b.shape]
            fs = set(I.facts)
            for v, d in zip(vs, b.shape):
                fs |= {le(ZERO, v), lt(v, d)}
            j, rest = vs[0], tuple(vs[1:])
            if k is ZERO:
                want = self.entry[b](tuple(vs))
                r = P.prove_eq(b.read(tuple(vs)), want, frozenset(fs), I.hyps)
            else:
                km = sub(k, ONE)
                # row k-1 by definition, rows below by the ghost value, rows above as on entry
                r = P.prove_eq(b.read((km,) + rest), df(km, rest), frozenset(fs), I.hyps)
                if r.status == "proved":
                    f2 = frozenset(fs | {lt(j, km)})
                    r = P.prove_eq(b.read(tuple(vs)), val(j, rest), f2, I.hyps)
                if r.status == "proved":
                    f2 = frozenset(fs | {lt(km, j)})
                    r = P.prove_eq(b.read(tuple(vs)), self.entry[b](tuple(vs)), f2, I.hyps)
            I.collect.append((f"{what}: {b.name}", r))
            ok = ok and r.status == "proved"
        return ok


class RKSetting:
    """scheme built by the real constructors from an arbitrary tableau, abstract ODE, sizes n,q,o,m."""

    def __init__(self, I, s_conc=None, embedded=False):
        self.I = I
        self.n, self.q, self.o, self.m = sizes(I, "n", "q", "o", "m")
        if s_conc is None:
            self.s = var("s", "I")
            I.assume(le(ONE, self.s))
        else:
            self.s = lift(s_conc)
        self.s_conc, self.embedded = s_conc, embedded
        self.ode = AbstractODE(I, self.n, self.q, self.o, self.m)
        self.tab, self.A, self.b, self.c, self.e = sym_tableau(I, s_conc if s_conc is not None else self.s, embedded)
        cls = I.get(SORPC + (":StageOrderedEmbeddedRungeKuttaDiscretization" if embedded else ":StageOrderedRungeKuttaDiscretization"))
        self.scheme = I.call(cls, [self.tab], {})
        self.Af, self.bf, self.cf = content(self.A), content(self.b), content(self.c)
        self.ef = content(self.e) if embedded else None
        self.h = var("h")

    def state(self, prefix):
        I = self.I
        st = I.call(I.getattr(self.scheme, "create_empty_discretization_state"), [self.ode.obj], {})
        return st, havoc_state(I, st, prefix, self.embedded)

    def shape(self, f):
        return state_shape(f, self.s, self.n, self.q, self.o, self.m)

    def total(self, lo, hi, fn):
        """sum of fn(l) for lo <= l < hi"""
        lo, hi = lift(lo), lift(hi)
        if T.is_const(lo) and T.is_const(hi):
            return add(ZERO, *[fn(lift(l)) for l in range(int(T.cval(lo)), int(T.cval(hi)))])
        v = fresh_bound()
        return sum_(v, lo, hi, fn(v))

    def frame_tableau(self):
        I = self.I
        for nm, a, f in (("A", self.A, self.Af), ("b", self.b, self.bf), ("c", self.c, self.cf)) + ((("b_hat", self.e, self.ef),) if self.embedded else ()):
            same_array(I, f"frame: tableau {nm} unchanged", a, f)
        for nm, a in (("butcher_matrix", self.A), ("butcher_weight_vector", self.b), ("butcher_time_stages", self.c)):
            v = I.getattr(self.tab, nm)
            if v is not a:
                same_array(I, f"frame: tableau.{nm}", v, content(a), a.shape)

    def frame_state(self, st, old, label):
        for f, fn in old.items():
            same_array(self.I, f"frame: {label} {f} unchanged", self.I.getattr(st, f), fn, self.shape(f))

    def call(self, meth, args, what):
        I = self.I
        hid = Hidden([self.scheme, self.tab] + [a for a in args if isinstance(a, Obj) and a is not self.ode.obj], allow=STATE_FIELDS + EMB_FIELDS)
        try:
            ret = I.call(I.getattr(self.scheme, meth), args, {})
        except PyExc as ex:
            truth(I, f"{what} does not raise", False, f"{ex.obj.cls.name}{ex.obj.attrs.get('args')}")
            raise PathEnd()
        hid.unchanged()
        return ret


class Tangent:
    """ghost definition of the tangent recursion about linearization points lp(j, .)."""

    def __init__(self, S, dx0, dp, dt0, lp):
        self.S, self.dx0, self.dt0, self.lp = S, dx0, dt0, lp
        self.lam_x, self.lam_p = lamof(dx0, (S.n,)), lamof(dp, (S.q,))
        self.memo = {}

    def K(self, j, i):
        if self.S.s_conc is not None:
            return app("J_upd", list(self.args(j)) + [i])
        return app("dK", [j, i])

    def args(self, j):
        if j not in self.memo:
            S = self.S
            acc = lambda ix: S.total(ZERO, j, lambda l: mul(S.Af((j, l)), self.K(l, ix[0])))
            self.memo[j] = (self.lam_x, lamof(acc, (S.n,)), self.lam_p, self.dt0, S.h, S.Af((j, j)),
                            lamof(lambda ix: self.lp((j,) + ix), (S.m,)))
        return self.memo[j]

    def row(self, F):
        return lambda j, rest: app(F, list(self.args(j)) + list(rest))

    def rows(self, st):
        g = lambda f: self.S.I.getattr(st, f).buf
        return {g("stage_updates"): (lambda j, r: self.K(j, r[0]), self.row("J_upd")),
                g("stage_states"): (self.row("J_st"),) * 2,
                g("stage_independent_outputs"): (self.row("J_out"),) * 2,
                g("stage_times"): (lambda j, r: self.dt0,) * 2}


def stage_counts(tier, ints):
    """stage counts of the bounded pass: small ones and those next to integer literals of the source"""
    ss = {1, 2, 3} | ({4} if tier != "quick" else set())
    ss |= {k + 1 for k in ints if k + 1 <= 6}
    return sorted(ss)


class Hidden:
    """objects under contract keep nothing between calls: otherwise one call from a fresh object says nothing about histories"""

    def __init__(self, objs, allow=()):
        self.objs, self.allow = objs, set(allow)
        self.was = [self.look(o) for o in objs]

    def look(self, o):
        out = {}
        for n, v in o.attrs.items():
            if n not in self.allow:
                out[n] = (v, v.buf._fn if isinstance(v, Arr) else dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else None)
        return out

    def unchanged(self):
        for o, w in zip(self.objs, self.was):
            now = self.look(o)
            for n in set(w) | set(now):
                a, b = w.get(n), now.get(n)
                if a is None or b is None or not (a[0] is b[0] or (isinstance(a[0], (int, Fraction, str)) and type(a[0]) is type(b[0]) and a[0] == b[0])) or not (a[1] is b[1] or (isinstance(a[1], (dict, list)) and a[1] == b[1])):
                    raise Unsupported(f"{o.cls.name} keeps {n} between calls")
