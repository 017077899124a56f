"""Symbolic harness around the real RungeKuttaIntegrator: it is constructed and set up through its
options; the ODE, the step functions of the discretization (contract C01-C03), the checkpointer
(contract C05), error measurer, error controller, termination criterion and callbacks are stubs with
contracts."""
from .common import *
from pyvc.npmodel import ShapeV

RKI = PKG + ".runge_kutta_integrator"
MDX = PKG + ".metadata_extractor"
TCM = PKG + ".termination_criterion"
INF = float("inf")
TI = ["step_size_suggestion", "step_size_history", "error_history"]


class Comm(Native):
    """communicator: this rank and what the other ranks contribute"""

    def __init__(self, I, rank):
        self.rank, self.size = rank, 2
        self.others = I.fresh("others", "I")
        I.assume(le(ZERO, self.others))
        self.log = []
        I.register(self)

    def snap(self):
        return dict(n=len(self.log))

    def restore(self, s):
        del self.log[s["n"]:]

    def py_getattr(self, I, name):
        if name in ("rank", "size"):
            return getattr(self, name)
        if name == "allreduce":
            def f(I2, ar, kw):
                op = ar[1] if len(ar) > 1 else kw.get("op", "SUM")
                if op != "SUM":
                    raise Unsupported("allreduce " + str(op))
                x = ar[0]
                if isinstance(x, bool):
                    x = int(x)
                self.log.append(x)
                return add(lift(x), self.others)
            return Builtin("allreduce", f)
        raise Unsupported("comm." + name)


class Vec(Native):
    """OpenMDAO vector of one component: named arrays, flat content with an opaque shape"""

    def __init__(self, I, kind, name, sizes_, fn=None):
        self.kind, self.I = kind, I
        self.v = {}
        for n, tot in sizes_.items():
            a = arr(I, f"{name}_{n}", (tot,), fn=(lambda ix: ZERO) if fn == 0 else None)
            a.tag = None if n.startswith("time_") else ShapeV(n.rsplit("_", 1)[0] if n.endswith(("_initial", "_final")) else n, tot)
            self.v[n] = a
        I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_getattr(self, I, name):
        if name == "_kind":
            return self.kind
        raise Unsupported("vector." + name)

    def py_getitem(self, I, k):
        if k not in self.v:
            I.raise_("KeyError", str(k))
        return self.v[k]

    def py_setitem(self, I, k, val):
        if k not in self.v:
            I.raise_("KeyError", str(k))
        a = self.v[k]
        if val is a:
            return
        if isinstance(val, Arr):
            if len(val.shape) == 0:
                x = val.get(())
                a.write(lambda ix: x)
                return
            if val.tag is not None and a.tag is not None and val.tag.name != a.tag.name:
                truth(I, f"values written to {k} have its shape", False, f"{val.tag} instead of {a.tag}")
            elif (val.tag is None) != (a.tag is None) and I.decide(eq(a.shape[0], ONE)) is not True:
                truth(I, f"values written to {k} have its shape", False, f"{val.tag} instead of {a.tag}")
            I.oblige(f"size of the values written to {k}", eqs=(val.shape[0], a.shape[0]))
            f = content(val)
            a.write(lambda ix: f(ix))
        else:
            x = lift(val)
            a.write(lambda ix: x)

    def py_contains(self, I, k):
        return k in self.v

    def flat(self, I, k):
        return content(self.v[k])


class Harness:
    def __init__(self, I, embedded=True, adaptive=True, nq=1, np_=1, rank=0, crit="abstract", controller=None, callbacks=None, checkpointer=None, s=2):
        self.I, self.embedded, self.adaptive = I, embedded, adaptive
        self.n = self.q = ZERO
        self.qs, self.ps = [], []
        for k in range(nq):
            t = var(f"len_u{k}", "I")
            I.assume(le(ZERO, t))
            self.qs.append((f"u{k}", self.n, t))
            self.n = add(self.n, t)
        for k in range(np_):
            t = var(f"len_p{k}", "I")
            I.assume(le(ZERO, t))
            self.ps.append((f"p{k}", self.q, t))
            self.q = add(self.q, t)
        self.m = var("m", "I")
        I.assume(le(ZERO, self.m))
        self.s = lift(s)
        self.ode = AbstractODE(I, self.n, self.q, ZERO, self.m)
        g = lambda n: I.get(f"{MDX}:{n}")
        mk = lambda off, t, nm: I.call(g("ArrayMetadata"), [], dict(shape=ShapeV(nm, t), global_shape=ShapeV(nm, t), local=True, start_index=off, end_index=add(off, t), global_start_index=0, global_end_index=t))
        ql = I.register([I.call(g("TimeIntegrationQuantity"), [], dict(name=n, type="time_integration", array_metadata=mk(off, t, n),
              translation_metadata=I.call(g("TimeIntegrationTranslationMetadata"), [n + ".old", n + ".acc", n + ".out"], {}))) for n, off, t in self.qs])
        pl = I.register([I.call(g("TimeIndependentQuantity"), [], dict(name=n, type="independent_input", array_metadata=mk(off, t, n),
              translation_metadata=I.call(g("TimeIndependentInputTranslationMetadata"), [n + ".in"], {}))) for n, off, t in self.ps])
        self.meta = I.call(g("TimeIntegrationMetadata"), [], dict(time_variable="t", time_integration_array_size=self.n, time_independent_input_size=self.q,
              time_integration_quantity_list=ql, time_independent_input_quantity_list=pl))
        self.ode.obj.attrs["time_integration_metadata"] = self.meta
        I.contracts = dict(I.contracts)
        I.contracts["OpenMDAOODE"] = lambda I2, c, ar, kw: self.ode.obj
        self.comm = Comm(I, rank)
        # options
        self.T = var("T_end")
        self.h0 = var("h_init")
        self.log = []
        if crit == "final_time":
            self.crit = I.call(I.get(TCM + ":PredefinedFinalTime"), [self.T], {})
        elif crit == "steps":
            self.N = var("N", "I")
            I.assume(le(ZERO, self.N))
            self.crit = I.call(I.get(TCM + ":PredefinedNumberOfSteps"), [self.N], {})
        else:
            c = stub_class(I, "AnyCriterion", I.get(TCM + ":TerminationCriterion"), {
                "is_iteration_finished": lambda I2, ar, kw: self.finished(ar[1:], kw),
                "remaining_time": lambda I2, ar, kw: app("Rem", [num(I2, ar[1])])})
            self.crit = I.register(Obj(c, {}, "criterion"))
        cfg = I.call(I.get(PKG + ".integration_config:IntegrationConfig"), [adaptive, self.crit, self.h0], {})
        self.tab = sym_tableau(I, s, embedded)[0]
        em = stub_class(I, "AnyMeasurer", I.get(PKG + ".error_measurer:ErrorMeasurer"), {"get_measure": lambda I2, ar, kw: self.measure(ar[1:], kw)})
        self.tol = var("tol")
        ctrl = stub_class(I, "AnyController", I.get(PKG + ".error_controller:ErrorController"), {"__call__": lambda I2, ar, kw: self.control(kw)})
        self.ec_cfg = I.call(I.get(PKG + ".error_controller:ErrorControllerConfig"), [], dict(tol=self.tol))

        def mkctrl(I2, ar, kw):
            self.log.append(("controller made", kw))
            return I2.call(ctrl, [], dict(alpha=ZERO, config=self.ec_cfg))
        self.cp_cls = checkpointer or self.stub_checkpointer()
        prob = I.register(Obj(stub_class(I, "StageProblem", I.get("openmdao.api:Problem") if False else None, {
            "setup": lambda I2, ar, kw: None, "final_setup": lambda I2, ar, kw: None,
            "get_val": lambda I2, ar, kw: self.stage_val(ar[1])}), {}, "stage problem"))
        opts = dict(time_stage_problem=prob, butcher_tableau=self.tab, integration_config=cfg, time_integration_quantities=I.register([q[0] for q in self.qs]),
                    time_independent_input_quantities=I.register([p[0] for p in self.ps]), checkpointing_type=self.cp_cls,
                    error_controller=I.register([Builtin("mkctrl", mkctrl)]), error_measurer=I.register(Obj(em, {}, "measurer")))
        for nm, lst in (callbacks or {}).items():
            opts[nm] = lst
        if controller is not None:
            opts.update(controller(I, self))
        for nm in ("compute_callbacks", "compute_jacvec_product_fwd_callbacks", "compute_jacvec_product_rev_callbacks"):
            opts.setdefault(nm, I.register([]))
        self.rk = I.call(I.get(RKI + ":RungeKuttaIntegrator"), [], opts)
        self.rk.attrs["comm"] = self.comm
        self.rk.attrs["_vector_class"] = Builtin("_vector_class", lambda I2, ar, kw: self.out_vec("scratch"))
        for f in ("compute_step", "compute_step_derivative", "compute_step_adjoint_derivative"):
            for c in ("StageOrderedRungeKuttaDiscretization", "StageOrderedEmbeddedRungeKuttaDiscretization"):
                I.contracts[f"{c}.{f}"] = lambda I2, fn, ar, kw, f=f: getattr(self, f)(ar[1:], kw)
        I.call(I.getattr(self.rk, "setup"), [], {})

    # ------------------------------------------------------------ stubs
    def stage_val(self, name):
        I = self.I
        for n, off, t in self.qs + self.ps:
            if name.split(".")[0] == n:
                a = arr(I, "val_" + name, (t,))
                a.tag = ShapeV(n, t)
                return a
        I.raise_("KeyError", name)

    def in_vec(self, name, fn=None):
        d = {"time_initial": ONE}
        d.update({n + "_initial": t for n, off, t in self.qs})
        d.update({n: t for n, off, t in self.ps})
        return Vec(self.I, "input", name, d, fn)

    def out_vec(self, name, fn=None):
        d = {"time_final": ONE}
        d.update({n + "_final": t for n, off, t in self.qs})
        return Vec(self.I, "output", name, d, fn)

    def stub_checkpointer(self):
        I = self.I
        fields = ["termination_criterion", "run_step_func", "run_step_jacvec_rev_func", "state", "state_perturbation"]

        def init(I2, ar, kw):
            d = argmap(I2, ["self"] + fields, ar, kw)
            for f in fields:
                d["self"].attrs[f] = d[f]
            self.cp = d["self"]
            return None
        return stub_class(I, "AnyCheckpointer", I.get(PKG + ".checkpoint_interface.checkpoint_interface:CheckpointInterface"), {
            "__init__": init, "__post_init__": lambda I2, ar, kw: None, "create_checkpointer": lambda I2, ar, kw: self.cp_create(),
            "iterate_forward": lambda I2, ar, kw: self.cp_forward(ar[1]), "iterate_reverse": lambda I2, ar, kw: self.cp_reverse(ar[1])})

    def cp_create(self):
        return None

    def finished(self, ar, kw):
        raise Unsupported("criterion")

    def measure(self, ar, kw):
        I = self.I
        d = argmap(I, ["error_estimate", "state", "ode"], ar, kw) if not kw else dict(zip(["error_estimate", "state", "ode"], list(ar) + list(kw.values())))
        truth(I, "the measurer gets the ODE", d["ode"] is self.ode.obj)
        g = lambda o: I.getattr(o, "stage_state").lam()
        return app("EM", [g(d["error_estimate"]), g(d["state"])])

    def control(self, kw):
        raise Unsupported("controller")

    # ------------------------------------------------------------ states
    def fields(self, pert=False):
        return [("d", f) for f in STATE_FIELDS + (EMB_FIELDS if self.embedded else [])] + [("t", f) for f in TI]

    def get(self, tis, kf):
        I = self.I
        o = I.getattr(tis, "discretization_state") if kf[0] == "d" else tis
        a = I.getattr(o, kf[1])
        if not isinstance(a, Arr):
            raise Unsupported(f"{kf[1]} is no array")
        return a

    def shape(self, kf, hist=2):
        k, f = kf
        if k == "t":
            return {"step_size_suggestion": (ONE if hist else ZERO,), "step_size_history": (lift(hist),), "error_history": (lift(hist),)}[f]
        return state_shape(f, self.s, self.n, self.q, ZERO, self.m)

    def new_state(self, prefix, hist=2):
        I = self.I
        cls = I.get(STATEM + (":EmbeddedRungeKuttaDiscretizationState" if self.embedded else ":RungeKuttaDiscretizationState"))
        ds = I.call(cls, [], dict(ode_state_size=self.n, independent_input_size=self.q, independent_output_size=ZERO, number_of_stages=self.s, linearization_point_size=self.m))
        tis = I.call(I.get(TISM + ":TimeIntegrationState"), [ds, arr(I, prefix + "sug", (ONE if hist else ZERO,)), arr(I, prefix + "sh", (lift(hist),)), arr(I, prefix + "eh", (lift(hist),))], {})
        return tis, self.havoc(tis, prefix)

    def havoc(self, tis, prefix):
        out = {}
        for kf in self.fields():
            a = self.get(tis, kf)
            havoc(a, prefix + kf[1])
            out[kf] = content(a)
        return out

    def snap(self, tis):
        return {kf: content(self.get(tis, kf)) for kf in self.fields()}

    def check_state(self, what, tis, want, hist=2, only=None, lib=None):
        I = self.I
        if not (isinstance(tis, Obj) and tis.cls.name == "TimeIntegrationState"):
            truth(I, f"{what} is a state", False, repr(tis))
            raise PathEnd()
        for kf in self.fields():
            if only is not None and kf[1] not in only:
                continue
            if want.get(kf) is None:
                continue
            same_array(I, f"{what}: {kf[1]}", self.get(tis, kf), want[kf], self.shape(kf, hist))

    # ------------------------------------------------------------ contracts of the discretization
    def step_args(self, st, h):
        """everything a step depends on"""
        d = lambda f: st[("d", f)]
        return [lamof(d("final_state"), (self.n,)), lamof(d("independent_inputs"), (self.q,)), d("final_time")((ZERO,)), lift(h)]

    def step_spec(self, st, h):
        """discretization state after one step from `st` with step size h"""
        args = self.step_args(st, h)
        out = {}
        for kf in self.fields():
            k, f = kf
            if k == "t":
                continue
            fn = lambda ix, f=f: app("Step_" + f, args + list(ix))
            if f == "start_state":
                fn = st[("d", "final_state")]
            elif f == "start_time":
                fn = st[("d", "final_time")]
            elif f == "final_time":
                fn = lambda ix: add(st[("d", "final_time")]((ZERO,)), lift(h))
            elif f == "step_size":
                fn = lambda ix: lift(h)
            elif f == "independent_inputs":
                fn = st[("d", "independent_inputs")]
            out[kf] = fn
        return out

    def dsnap(self, ds):
        return {("d", f): content(self.I.getattr(ds, f)) for f in STATE_FIELDS + (EMB_FIELDS if self.embedded else [])}

    def put(self, ds, want):
        for (k, f), fn in want.items():
            if k == "d":
                self.I.getattr(ds, f).write(fn)

    def isds(self, ds, what):
        if not (isinstance(ds, Obj) and ds.cls.name.endswith("DiscretizationState")):
            truth(self.I, f"{what} gets a discretization state", False, repr(ds))
            raise PathEnd()

    def compute_step(self, ar, kw):
        I = self.I
        d = argmap(I, ["ode", "time_discretization_state", "step_size"], ar, kw)
        ds = d["time_discretization_state"]
        self.isds(ds, "compute_step")
        truth(I, "the step is made for the ODE", d["ode"] is self.ode.obj)
        h = num(I, d["step_size"])
        old = self.dsnap(ds)
        self.log.append(("step", h, old))
        self.put(ds, self.step_spec(old, h))
        return ds

    def deriv_spec(self, prim, pert, h):
        """perturbation after a derivative step about `prim`"""
        d = lambda f: pert[("d", f)]
        args = [lamof(prim[("d", "linearization_points")], (self.s, self.m)), lamof(d("final_state"), (self.n,)), lamof(d("independent_inputs"), (self.q,)),
                d("final_time")((ZERO,)), lift(h)]
        out = {}
        for kf in self.fields():
            k, f = kf
            if k == "t":
                continue
            fn = lambda ix, f=f: app("Tan_" + f, args + list(ix))
            if f == "start_state":
                fn = d("final_state")
            elif f in ("start_time", "final_time"):
                fn = d("final_time")
            elif f in ("independent_inputs",):
                fn = d("independent_inputs")
            out[kf] = fn
        return out

    def compute_step_derivative(self, ar, kw):
        I = self.I
        d = argmap(I, ["ode", "time_discretization_state", "time_discretization_state_perturbation", "step_size"], ar, kw)
        ds, dp = d["time_discretization_state"], d["time_discretization_state_perturbation"]
        self.isds(ds, "compute_step_derivative")
        self.isds(dp, "compute_step_derivative")
        h = num(I, d["step_size"])
        a, b = self.dsnap(ds), self.dsnap(dp)
        self.log.append(("tangent", h, a, b))
        self.put(dp, self.deriv_spec(a, b, h))
        return dp

    def adj_spec(self, prim, pert, h):
        d = lambda f: pert[("d", f)]
        args = [lamof(prim[("d", "linearization_points")], (self.s, self.m)), lamof(d("final_state"), (self.n,)), d("final_time")((ZERO,)), lift(h)]
        out = {}
        for kf in self.fields():
            k, f = kf
            if k == "t":
                continue
            fn = lambda ix, f=f: app("Adj_" + f, args + list(ix))
            if f == "independent_inputs":
                fn = lambda ix: add(d("independent_inputs")(ix), app("Adj_ind", args + list(ix)))
            elif f in ("final_time", "start_time"):
                fn = lambda ix: app("Adj_time", args)
            elif f in ("final_state", "start_state"):
                fn = lambda ix: app("Adj_state", args + list(ix))
            out[kf] = fn
        return out

    def compute_step_adjoint_derivative(self, ar, kw):
        I = self.I
        d = argmap(I, ["ode", "time_discretization_state", "time_discretization_state_perturbation", "step_size"], ar, kw)
        ds, dp = d["time_discretization_state"], d["time_discretization_state_perturbation"]
        self.isds(ds, "compute_step_adjoint_derivative")
        self.isds(dp, "compute_step_adjoint_derivative")
        h = num(I, d["step_size"])
        a, b = self.dsnap(ds), self.dsnap(dp)
        self.log.append(("adjoint", h, a, b))
        self.put(dp, self.adj_spec(a, b, h))
        return dp
