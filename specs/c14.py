"""C14: callbacks see every step once, in order, with its data."""
from . import c05
from .traj import *

CB = PKG + ".callback"
FILES = ["rkopenmdao/runge_kutta_integrator.py", "rkopenmdao/callback.py", "rkopenmdao/checkpoint_interface/all_checkpointer.py", "rkopenmdao/checkpoint_interface/no_checkpointer.py",
         "rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py", "rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py"]
FUNCS = ["RungeKuttaIntegrator." + f for f in ("_run_step", "_run_step_jacvec_fwd", "_run_step_jacvec_rev", "_compute_jacvec_fwd_run_steps", "setup")] + c05.FUNCS
ASSUMPTIONS = ["callbacks do not modify what they are shown", "contracts of the step functions (C01-C03), of the step iteration (C07)",
               "contract of pyRevolve as in C05"]
RT_NOTE = "logging callbacks on the real integrator: all modes, checkpointers, list lengths, fixed and adaptive, repeated runs"
LEVEL = "proved for any number of steps and callbacks; additionally 0..3 callbacks"
MODES = {"primal": "compute_callbacks", "fwd": "compute_jacvec_product_fwd_callbacks", "rev": "compute_jacvec_product_rev_callbacks"}


class Log(Native):
    def __init__(self, I):
        self.cur, self.phase, self.it = ZERO, "before", None
        I.register(self)

    def snap(self):
        return dict(cur=self.cur, phase=self.phase, it=self.it)

    def restore(self, s):
        self.__dict__.update(s)


class Cb(Traj):
    """callback lists of the three modes; length: symbolic or a number"""

    def __init__(self, I, mode, length=None, **kw):
        self.I, self.log_, self.cmode = I, Log(I), mode
        base = I.get(CB + ":Callback")
        names = ["self", "iteration", "time_integration_state", "ode", "discretization_scheme"]
        self.L = {}
        lists = {}
        for m, opt in MODES.items():
            cls = stub_class(I, f"{m} callback", base, {
                "before_iteration": lambda I2, ar, kw2, m=m: self.call(m, "before", argmap(I2, names, ar, kw2)),
                "after_iteration": lambda I2, ar, kw2, m=m: self.call(m, "after", argmap(I2, names, ar, kw2))})
            mk = lambda k, cls=cls: I.register(Obj(cls, {"k": k}, "cb"))
            if length is None:
                n = var(f"number_of_{m}_callbacks", "I")
                I.assume(le(ZERO, n))
                lists[opt] = SymList(I, n, mk)
            else:
                n = lift(length)
                lists[opt] = I.register([mk(lift(k)) for k in range(length)])
            self.L[m] = n
        super().__init__(I, callbacks=lists, **kw)
        self.scheme = None

    def call(self, m, phase, d):
        I, lg = self.I, self.log_
        truth(I, "only callbacks of the mode are called", m == self.cmode, f"{m} instead of {self.cmode}")
        truth(I, f"{phase}_iteration is called {phase} the step", lg.phase == phase, lg.phase)
        I.oblige(f"callbacks are called once each, in list order ({phase})", eqs=(d["self"].attrs["k"], lg.cur))
        I.oblige(f"callbacks get the number of the step ({phase})", eqs=(num(I, d["iteration"]), self.number()))
        truth(I, "callbacks get the ODE", d["ode"] is self.ode.obj)
        truth(I, "callbacks get the discretization", isinstance(d["discretization_scheme"], Obj) and d["discretization_scheme"].cls.name.endswith("Discretization"), repr(d["discretization_scheme"]))
        self.seen(phase, d["time_integration_state"])
        lg.cur = add(lg.cur, ONE)
        return None

    def number(self):
        return add(self.g.pos, ONE if self.log_.phase == "before" else ZERO)

    def seen(self, phase, tis):
        k = self.g.pos
        want = {("d", f): self.dfield(f, k) for f in STATE_FIELDS + (EMB_FIELDS if self.embedded else []) if phase == "after" or f in KEY}
        if phase == "after":
            want[("d", "start_state")] = lambda ix: X("final_state", sub(k, ONE), ix)
            want[("d", "start_time")] = lambda ix: X("final_time", sub(k, ONE), ix)
            if ("d", "step_size") in want:
                want[("d", "step_size")] = lambda ix: self.h0 if not self.adaptive else Used(k)
        if self.adaptive:
            for f in TI:
                want[("t", f)] = self.tfield(f, k)
        else:
            want[("t", "step_size_suggestion")] = lambda ix: self.h0
        self.check_state(f"state seen {phase} the step", tis, want)
        if not self.adaptive and phase == "after":
            self.I.oblige("step size seen after the step", eqs=(self.get(tis, ("t", "step_size_history")).get((ZERO,)), self.h0))

    def turn(self):
        """the step is made: all callbacks have been called before it"""
        I, lg = self.I, self.log_
        if lg.phase == "before":
            I.oblige("all callbacks are called before the step", eqs=(lg.cur, self.L[self.cmode]))
            lg.phase, lg.cur = "after", ZERO

    def end(self):
        I, lg = self.I, self.log_
        truth(I, "the step is made", lg.phase == "after")
        I.oblige("all callbacks are called after the step", eqs=(lg.cur, self.L[self.cmode]))
        lg.phase, lg.cur = "before", ZERO

    def before_step(self, h):
        if self.cmode == "fwd" and self.log_.phase == "after":
            self.end_if_complete()
        self.turn()

    def end_if_complete(self):
        pass


class CbLoop:
    """invariant of a loop over a callback list"""

    def __init__(self, H):
        self.H = H

    def for_inv(self, I, st, fr, rng):
        if getattr(rng, "list", None) is None:
            return None
        lg = self.H.log_
        c0 = lg.cur
        return ClosedForm("callbacks", {}, {(lg, "cur"): lambda k: add(c0, k)})

    def matches_while(self, I, st, fr):
        return False


def start(H):
    """a state of the run in progress: k steps made"""
    I, g = H.I, H.g
    tis, _ = H.new_state("S_")
    k = I.fresh("made", "I")
    I.assume(le(ZERO, k))
    g.pos = k
    for kf in H.fields():
        if kf[0] == "d" and kf[1] in KEY:
            H.get(tis, kf).write(H.dfield(kf[1], k))
        elif kf[0] == "t" and H.adaptive:
            H.get(tis, kf).write(H.tfield(kf[1], k))
    if not H.adaptive:
        H.get(tis, ("t", "step_size_suggestion")).write(lambda ix: H.h0)
    return tis, k


def guard(I, f):
    try:
        return f()
    except PyExc as ex:
        truth(I, "the step does not raise", False, f"{ex.obj.cls.name}{ex.obj.attrs.get('args')}")
        raise PathEnd()


def run_primal(adaptive, rank, length=None, max_rej=None):
    def run(I):
        H = Cb(I, "primal", length, adaptive=adaptive, embedded=adaptive, rank=rank)
        H.max_rej = max_rej
        if length is None:
            I.loop_specs.append(CbLoop(H))
            H.install_retry()
        tis, k = start(H)
        guard(I, lambda: I.call(H.cp.attrs["run_step_func"], [add(k, ONE), tis], {}))
        H.end()
    return run


def run_rev(embedded, rank, length=None):
    def run(I):
        H = Cb(I, "rev", length, adaptive=embedded, embedded=embedded, rank=rank)
        if length is None:
            I.loop_specs.append(CbLoop(H))
        tis, _ = H.new_state("S_")
        sb = H.snap(tis)
        step = var("step", "I")
        H.number = lambda: step
        H.seen = lambda phase, x: H.check_state(f"state seen {phase} the reverse step", x, sb)

        def adj(ar, kw):
            H.turn()
            return Harness.compute_step_adjoint_derivative(H, ar, kw)
        H.compute_step_adjoint_derivative = adj
        p = H.cp.attrs["state_perturbation"]
        guard(I, lambda: I.call(H.cp.attrs["run_step_jacvec_rev_func"], [step, tis, p], {}))
        H.end()
    return run


class Fwd(Cb):
    """a whole forward-mode run"""

    def finished(self, ar, kw):
        self.between()
        return super().finished(ar, kw)

    def between(self):
        lg = self.log_
        if lg.phase == "after":
            self.end()
        else:
            self.I.oblige("no callback is called outside of a step", eqs=(lg.cur, ZERO))

    def compute_step_derivative(self, ar, kw):
        truth(self.I, "after_iteration is called after the derivative step", self.log_.phase == "after")
        self.I.oblige("after_iteration is called after the derivative step", eqs=(self.log_.cur, ZERO))
        return super().compute_step_derivative(ar, kw)


class FwdLoop(StepsLoop):
    """the step loop; at its head all callbacks of the previous step have been called"""

    def run_while(self, I, st, fr):
        from .ckpt import StepLoop
        H = self.H
        from .traj import _Inv

        class Inv(_Inv):
            def __init__(s, I2, H2, st2, p2):
                super().__init__(I2, H2, st2, p2)
                lg = H2.log_
                s.entry = (lg.phase, lg.cur)
                s.locs |= {(lg, "cur"), (lg, "phase")}

            def at(s, I2, k, final=False):
                super().at(I2, k, final)
                lg = s.H.log_
                # after k steps: the step is complete, or nothing has happened yet
                if I2.decide(eq(k, ZERO)) is True or (I2.decide(le(ONE, k)) is not True and I2.choose(2, "first") == 0):
                    I2.assume(eq(k, ZERO))
                    lg.phase, lg.cur = "before", ZERO
                else:
                    I2.assume(le(ONE, k))
                    lg.phase, lg.cur = "after", s.H.L["fwd"]

            def holds(s, I2, k, what):
                ok = super().holds(I2, k, what)
                lg = s.H.log_
                if what == "entry":
                    r = P.prove_eq(lg.cur, ZERO, I2.facts)
                    good = lg.phase == "before"
                else:
                    r = P.prove_eq(lg.cur, s.H.L["fwd"], I2.facts)
                    good = lg.phase == "after"
                I2.collect.append((f"{what}: callbacks of the step complete", r if good else P.Result("refuted", "structural", lg.phase)))
                return ok and good and r.status == "proved"

        class L(StepLoop):
            def cands(s, I2):
                return [Inv(I2, H, *self.find(I2, fr))]
        L(None, [], []).run_while(I, st, fr)


def run_fwd(adaptive, rank, length=None, max_rej=None):
    def run(I):
        H = Fwd(I, "fwd", length, adaptive=adaptive, embedded=adaptive, rank=rank)
        H.max_rej = max_rej
        if length is None:
            I.loop_specs += [CbLoop(H), FwdLoop(H)]
            H.install_retry()
        x, dx, do = H.run_inputs(), H.run_dinputs(), H.out_vec("jv", 0)
        H.begin("fwd")
        guard(I, lambda: I.call(I.getattr(H.rk, "compute_jacvec_product"), [x, dx, do, "fwd"], {}))
        H.between()
    return run


def run_outer(op):
    """compute and the reverse product call no callbacks outside of steps; default: callbacks only on rank 0"""
    from . import c06

    def run(I):
        class O(c06.D):
            pass
        called = []
        base = I.get(CB + ":Callback")
        cls = stub_class(I, "callback", base, {n: (lambda I2, ar, kw2: called.append(1)) for n in ("before_iteration", "after_iteration")})
        H = O(I, simple=True, adaptive=False, embedded=False, callbacks={o: I.register([I.register(Obj(cls, {}, "cb"))]) for o in MODES.values()})
        del called[:]
        if op == "primal":
            guard(I, lambda: H.primal(H.in_vec("cur"), H.out_vec("out")))
        else:
            guard(I, lambda: H.reverse(H.in_vec("cur"), H.in_vec("grad", 0), H.out_vec("seed")))
        truth(I, "callbacks are only called by steps", not called)
    return run


def units(tier):
    u = []
    for ad, rank in ((False, 0), (True, 1)):
        k = "adaptive" if ad else "fixed"
        u += [(f"primal step, {k}", run_primal(ad, rank), {}, {}), (f"forward run, {k}", run_fwd(ad, rank), {}, {}), (f"reverse step, {k}", run_rev(ad, rank), {}, {})]
    u += [("compute", run_outer("primal"), {}, {}), ("reverse product", run_outer("rev"), {}, {})]
    return u + c05.units(tier)


def always(tier):
    u = []
    for n in (0, 1, 3):
        u += [(f"primal step, {n} callbacks", run_primal(False, 0, n), {}, {}), (f"primal step, adaptive, {n} callbacks", run_primal(True, 1, n, 1), {}, {"unroll": 6}),
              (f"reverse step, {n} callbacks", run_rev(False, 0, n), {}, {})]
    u += [(f"forward run, {n} callbacks", run_fwd(ad, 0, n, 1), {}, {"unroll": 2, "max_paths": 2000}) for n, ad in ((0, False), (2, False), (2, True))]
    return u


def bounded(tier, ints=()):
    return [("compute", run_outer("primal"), {}, {}), ("reverse product", run_outer("rev"), {}, {})] + c05.bounded(tier, ints)
