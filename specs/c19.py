"""C19: the integrator component presents exactly the stage problem's quantities."""
from .omode import *
from .integ import Harness, RKI, TCM, Comm
from .stubs import Options
from pyvc.values import PyClass

INF = float("inf")
FILES = ["rkopenmdao/runge_kutta_integrator.py"]
FUNCS = ["RungeKuttaIntegrator." + f for f in ("setup", "_setup_ode", "_setup_wrt_and_of_vars", "_add_time_integration_derivative_info", "_add_time_independent_variable_derivative_info",
         "_add_inputs_and_outputs", "_add_time_integration_inputs_and_outputs", "_add_time_independent_inputs", "check_checkpointing_type", "check_error_controller",
         "_setup_runge_kutta_discretization", "_setup_integration_states", "_setup_checkpointing")]
ASSUMPTIONS = ["metadata of the quantities as in C11 (shape, local and distributed flags, tagged variables)",
               "contract of OpenMDAO: add_input / add_output declare a variable of the given shape (copy_shape: the shape of the named one) and default value (1.0 if none is given); "
               "options apply check_valid to the values set; get_val of the stage problem returns the value of a tagged variable in its shape"]
RT_NOTE = "real integrator components around random stage problems: metadata and default values of all outer variables, option checks"
LEVEL = "proved for any number of quantities and independent inputs; additionally 0..2 of each"
RT_BUDGET = 10


class Sink(Native):
    """a list that is only appended to"""

    def __init__(self, I):
        I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_getattr(self, I, name):
        if name in ("append", "extend"):
            return Builtin(name, lambda I2, ar, kw: None)
        if name == "clear":
            return Builtin(name, lambda I2, ar, kw: None)
        raise Unsupported("list." + name)


class Declared(Native):
    """variables declared by the component: single ones by name, and for each kind the number of leading quantities"""

    def __init__(self, I, S):
        self.I, self.S = I, S
        self.items, self.count = {}, {"in": ZERO, "out": ZERO, "par": ZERO}
        I.register(self)

    def snap(self):
        return dict(items=dict(self.items), count=dict(self.count))

    def restore(self, s):
        self.items, self.count = dict(s["items"]), dict(s["count"])

    def __contains__(self, name):
        # names of different quantities differ; a clash within one loop iteration shows up
        return name in self.items

    def __setitem__(self, name, d):
        self.items[name] = d

    def __repr__(self):
        return "declared variables"


class Setup:
    def __init__(self, I, Q=None, Pn=None, embedded=False, rank=0):
        self.I = I
        self.comm = Comm(I, rank)
        self.W = Wrapper(I, Q, Pn, comm=self.comm)
        W = self.W
        self.asked = []
        self.reads = []
        I.contracts["OpenMDAOODE"] = self.make_ode
        self.order = []
        cls = stub_class(I, "TheStageProblem", None, {
            "setup": lambda I2, ar, kw: self.order.append("setup"), "final_setup": lambda I2, ar, kw: self.order.append("final_setup"),
            "get_val": lambda I2, ar, kw: self.get_val(ar[1] if len(ar) > 1 else kw.get("name"), kw)})
        self.prob = I.register(Obj(cls, {"model": W.model, "comm": self.comm}, "stage problem"))
        self.h0 = var("h_init")
        crit = I.register(Obj(stub_class(I, "AnyCriterion", I.get(TCM + ":TerminationCriterion"), {"is_iteration_finished": lambda I2, ar, kw: (_ for _ in ()).throw(Unsupported("criterion"))}), {}, "criterion"))
        cfg = I.call(I.get(PKG + ".integration_config:IntegrationConfig"), [False, crit, self.h0], {})
        s = var("s", "I")
        I.assume(le(ONE, s))
        self.tab = sym_tableau(I, s, embedded)[0]
        ctrl = stub_class(I, "AnyController", I.get(PKG + ".error_controller:ErrorController"), {})
        self.tol = var("tol")
        ec = I.call(I.get(PKG + ".error_controller:ErrorControllerConfig"), [], dict(tol=self.tol))
        mk = Builtin("mkctrl", lambda I2, ar, kw: I2.call(ctrl, [], dict(alpha=ZERO, config=ec)))
        self.made = []
        cp = stub_class(I, "AnyCheckpointer", I.get(PKG + ".checkpoint_interface.checkpoint_interface:CheckpointInterface"), {
            "__init__": lambda I2, ar, kw: self.made.append((ar, kw)), "__post_init__": lambda I2, ar, kw: None})
        self.crit = crit
        opts = dict(time_stage_problem=self.prob, butcher_tableau=self.tab, integration_config=cfg, time_integration_quantities=W.qn, time_independent_input_quantities=W.pn,
                    checkpointing_type=cp, error_controller=I.register([mk]), compute_callbacks=I.register([]), compute_jacvec_product_fwd_callbacks=I.register([]),
                    compute_jacvec_product_rev_callbacks=I.register([]), checkpoint_options=I.register({"some_option": 17}))
        self.rk = I.call(I.get(RKI + ":RungeKuttaIntegrator"), [], opts)
        self.rk.attrs["comm"] = self.comm
        if Q is None:
            for k, v in list(self.rk.attrs.items()):
                if isinstance(v, list) and not v:
                    self.rk.attrs[k] = Sink(I)
            self.dec = Declared(I, self)
            self.rk.attrs["io"] = self.dec
            for parts in (("in", "out"), ("in",), ("out",), ("par",)):
                I.loop_specs.append(DeclLoop(self, parts))
            I.loop_specs.append(DeclLoop(self, ()))

    def make_ode(self, I, f, ar, kw):
        a = argmap(I, ["time_stage_problem", "time_integration_quantities", "independent_input_quantities", "norm_order", "norm_exclusions"], ar, dict({"independent_input_quantities": None, "norm_order": None, "norm_exclusions": None}, **kw)) \
            if not ar[2:] else dict(zip(["time_stage_problem", "time_integration_quantities", "independent_input_quantities"], ar))
        truth(I, "the ODE wraps the stage problem", a["time_stage_problem"] is self.prob)
        truth(I, "the stage problem is set up before it is wrapped", self.order == ["setup", "final_setup"], repr(self.order))
        truth(I, "the ODE gets the requested quantities", a["time_integration_quantities"] is self.W.qn and a["independent_input_quantities"] is self.W.pn)
        self.asked.append(1)
        return self.W.ode

    def val(self, role, k, i):
        return app("val_" + role, [lift(k), i])

    def get_val(self, name, kw):
        I = self.I
        if not isinstance(name, Name) or kw.get("units") or kw.get("indices"):
            if isinstance(name, Name):
                raise Unsupported("get_val arguments")
            I.raise_("KeyError", str(name))
        W = self.W
        if name.role == "time":
            raise Unsupported("value of the time")
        n = W.length(name.role, name.k)
        a = arr(I, "value", (n,), fn=lambda ix: self.val(name.role, name.k, ix[0]))
        a.tag = W.shape(name.role, name.k)
        return a

    # ------------------------------------------------------------ expected declarations
    def expected(self, part, k):
        W = self.W
        nm = {"in": "u", "out": "u", "par": "p"}[part]
        name = app({"u": "qname", "p": "pname"}[nm], [lift(k)], "S")
        return {"in": lambda: self.I.binop("Add", name, "_initial"), "out": lambda: self.I.binop("Add", name, "_final"), "par": lambda: name}[part]()

    def check_decl(self, part, k, d, what, report):
        """report(name, goal=..., eqs=..., ok=...)"""
        I, W = self.I, self.W
        role = {"in": "old", "out": "old", "par": "ind"}[part]
        unknown = set(d) - {"kind", "shape", "val", "distributed", "copy_shape", "desc", "tags"}
        if unknown:
            raise Unsupported(f"declaration with {sorted(unknown)}")
        report(f"{what}: kind", ok=d["kind"] == ("output" if part == "out" else "input"))
        want = W.shape(role, k)
        if "copy_shape" in d:
            report(f"{what}: shape", ok=part == "out" and d["copy_shape"] is self.expected("in", k) and d.get("shape") is None)
        else:
            s = d.get("shape")
            if isinstance(s, ShapeV):
                if same_shape(I, s, want):
                    report(f"{what}: shape", ok=True)
                else:
                    report(f"{what}: shape", ok=False)
            elif s is None and part != "out" and isinstance(d.get("val"), Arr):
                report(f"{what}: shape", ok=same_shape(I, d["val"].tag, want))
            else:
                report(f"{what}: shape", ok=False)
        dist = d.get("distributed", False)
        want_d = W.dist(lift(k))
        if isinstance(dist, Term):
            report(f"{what}: distributed flag", goal=T.or_(and_(dist, want_d), and_(not_(dist), not_(want_d))))
        else:
            report(f"{what}: distributed flag", goal=want_d if dist else not_(want_d))
        if part == "out":
            return
        w = "p" if part == "par" else "u"
        n = W.length(role, k)
        has = W.hasold(lift(k)) if part == "in" else T.TRUE
        v = d.get("val")
        i = I.fresh("i", "I")
        inside = and_(le(ZERO, i), lt(i, n))
        ref = ite(has, self.val(role, k, i), ZERO)
        if v is None:
            # default of OpenMDAO is 1.0
            report(f"{what}: default value", goal=eq(n, ZERO))
        elif isinstance(v, Arr) and v.ndim:
            if v.tag is not None and not same_shape(I, v.tag, want):
                report(f"{what}: shape of the default value", goal=le(n, ZERO))
            if v.tag is None:
                report(f"{what}: shape of the default value", goal=le(n, ONE))
            report(f"{what}: size of the default value", eqs=(v.shape[0], n))
            f = content(v)
            report(f"{what}: default value", eqs=(ite(inside, f((i,)), ZERO), ite(inside, ref, ZERO)))
        else:
            x = num(I, v)
            report(f"{what}: default value", eqs=(ite(inside, x, ZERO), ite(inside, ref, ZERO)))

    def obl(self, name, goal=None, eqs=None, ok=None):
        if ok is not None:
            return truth(self.I, name, ok)
        return self.I.oblige(name, goal=goal, eqs=eqs)


class DeclLoop:
    """loops over the quantities that declare variables (parts: which ones per quantity)"""

    def __init__(self, S, parts):
        self.S, self.parts = S, parts

    def matches_while(self, I, st, fr):
        return False

    def for_inv(self, I, st, fr, rng):
        l = getattr(rng, "list", None)
        W = self.S.W
        if l is W.plist:
            return _Decl(self.S, self.parts) if self.parts in (("par",), ()) else None
        if l is W.qlist:
            return _Decl(self.S, self.parts) if "par" not in self.parts else None
        return None


class _Decl:
    exclusive = True

    def __init__(self, S, parts):
        self.S, self.parts = S, parts
        self.name = "declared " + ("+".join(parts) or "nothing")
        self.bufs, self.locs, self.vars = {}, {(S.dec, "items"), (S.dec, "count")}, set()

    def setup(self, I, fr):
        self.fr = fr
        self.items0, self.count0 = dict(self.S.dec.items), dict(self.S.dec.count)

    def at(self, I, k, final=False):
        D = self.S.dec
        D.items, D.count = dict(self.items0), dict(self.count0)
        for p in self.parts:
            D.count[p] = lift(k)

    def holds(self, I, k, what):
        D = self.S.dec

        def rep(name, goal=None, eqs=None, ok=None):
            if ok is not None:
                r = P.Result("proved" if ok else "refuted", "structure", name)
            elif eqs is not None:
                r = P.prove_eq(lift(eqs[0]), lift(eqs[1]), I.facts, I.hyps)
            else:
                r = P.prove(goal, I.facts, I.hyps)
            I.collect.append((f"{what}: {name}", r))
            return r.status == "proved"
        if k is ZERO:
            return all([rep(f"no {p} declared before the loop", ok=D.count[p] is ZERO) for p in self.parts] + [True])
        km = sub(k, ONE)
        new = {n: d for n, d in D.items.items() if n not in self.items0}
        want = {self.S.expected(p, km): p for p in self.parts}
        ok = rep("declares " + (", ".join(self.parts) or "nothing"), ok=set(new) == set(want))
        if ok:
            n0 = len(I.collect)
            for n, p in want.items():
                self.S.check_decl(p, km, new[n], {"in": "initial value input", "out": "final value output", "par": "independent input"}[p], rep)
            ok = all(r.status == "proved" for _, r in I.collect[n0:])
        return ok


def time_vars(S, items):
    """declared times; the rest of the names"""
    I = S.I
    for nm, kind in (("time_initial", "input"), ("time_final", "output")):
        d = items.get(nm)
        truth(I, f"{nm} is declared", d is not None and d["kind"] == kind)
        if d is None:
            continue
        s, v = d.get("shape"), d.get("val")
        one = s in (1, (1,)) or (isinstance(s, Term) and lift(s) is ONE) or (s is None and (not isinstance(v, Arr) or all(x is ONE for x in v.shape)))
        truth(I, f"{nm} is a scalar", one, repr(s))
        truth(I, f"{nm} is not distributed", not d.get("distributed", False))
        if kind == "input":
            x = v.get(tuple(ZERO for _ in v.shape)) if isinstance(v, Arr) else lift(1 if v is None else v)
            I.oblige("the initial time defaults to zero", eqs=(x, ZERO))
    return {n: d for n, d in items.items() if n not in ("time_initial", "time_final")}


def run_setup(Q, Pn, embedded, rank):
    def run(I):
        S = Setup(I, Q, Pn, embedded, rank)
        try:
            I.call(I.getattr(S.rk, "setup"), [], {})
        except PyExc as ex:
            truth(I, "setup does not raise", False, f"{ex.obj.cls.name} {ex.obj.attrs.get('args')}")
            raise PathEnd()
        truth(I, "one ODE is made", len(S.asked) == 1)
        W = S.W
        if Q is None:
            rest = time_vars(S, S.dec.items)
            truth(I, "no other variables are declared", not rest, repr(list(rest)))
            for p, n in (("in", W.Q), ("out", W.Q), ("par", W.Pn)):
                # a loop without iterations is skipped
                I.oblige(f"every quantity is declared ({p})", eqs=(S.dec.count[p], n))
        else:
            rest = time_vars(S, S.rk.attrs["io"])
            want = {S.expected(p, k): (p, k) for p, n in (("in", Q), ("out", Q), ("par", Pn)) for k in range(n)}
            truth(I, "exactly the variables of the quantities are declared", set(rest) == set(want), f"{list(rest)} instead of {list(want)}")
            for n, (p, k) in want.items():
                if n in rest:
                    S.check_decl(p, k, rest[n], f"{ {'in': 'initial value input', 'out': 'final value output', 'par': 'independent input'}[p]} {k}", S.obl)
        # checkpointer
        truth(I, "one checkpointer is made", len(S.made) == 1)
        for ar, kw in S.made[:1]:
            truth(I, "the checkpointer gets criterion and options", kw.get("termination_criterion") is S.crit and kw.get("some_option") == 17, repr(kw))
    return run


def checker(S, name):
    """check_valid function declared for an option"""
    return S.get(name)


class Spy(Options):
    pass


def run_checks(I):
    """option checks: checkpointer classes and controllers only"""
    seen = {}
    orig = Options.declare

    def declare(self, I2, ar, kw):
        seen[ar[0] if ar else kw["name"]] = kw
        return orig(self, I2, ar, kw)
    Options.declare = declare
    try:
        I.call(I.get(RKI + ":RungeKuttaIntegrator"), [], {})
    finally:
        Options.declare = orig
    base = I.get(PKG + ".checkpoint_interface.checkpoint_interface:CheckpointInterface")
    ecb = I.get(PKG + ".error_controller:ErrorController")
    good, other = stub_class(I, "Good", base, {}), stub_class(I, "Other", None, {})
    ctrl = stub_class(I, "Ctrl", ecb, {"__init__": lambda I2, ar, kw: None})
    mk = lambda c: Builtin("factory", lambda I2, ar, kw: I2.register(Obj(c, {}, "made")))
    L = lambda *x: I.register(list(x))

    def attempt(option, v, valid, what):
        f = seen[option].get("check_valid")
        if f is None:
            if not valid:
                truth(I, what, False)
            return
        try:
            I.call(f, [option, v], {})
            ok = True
        except PyExc as ex:
            truth(I, what + ": with a TypeError", ex.obj.cls.name == "TypeError")
            ok = False
        truth(I, what, ok == valid)
    for c in ("all_checkpointer:AllCheckpointer", "no_checkpointer:NoCheckpointer", "pyrevolve_checkpointer:PyrevolveCheckpointer"):
        attempt("checkpointing_type", I.get(PKG + ".checkpoint_interface." + c), True, f"{c.split(':')[1]} is accepted")
    attempt("checkpointing_type", good, True, "a checkpointer class is accepted")
    attempt("checkpointing_type", other, False, "another class is rejected")
    attempt("error_controller", L(mk(ctrl)), True, "a controller factory is accepted")
    attempt("error_controller", L(mk(ctrl), mk(ctrl)), True, "several controller factories are accepted")
    attempt("error_controller", L(mk(other)), False, "another factory is rejected")
    attempt("error_controller", L(mk(ctrl), mk(other)), False, "another factory behind a valid one is rejected")
    attempt("error_controller", L(mk(other), mk(ctrl)), False, "another factory before a valid one is rejected")
    attempt("error_controller", L(mk(ctrl), 3), False, "what cannot be called is rejected")


def units(tier):
    u = [(f"setup, {'embedded' if e else 'main'} tableau, rank {r}", run_setup(None, None, e, r), {}, {}) for e in (False, True) for r in (0, 1)]
    return u + [("option checks", run_checks, {}, {})]


def always(tier):
    return [(f"setup, {q} quantities, {p} inputs, rank {r}", run_setup(q, p, False, r), {}, {}) for q in (0, 1, 2) for p in (0, 1, 2) for r in (0, 1) if q or p]
