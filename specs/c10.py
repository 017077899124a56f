"""C10: integration stops exactly when its termination criterion says so."""
from . import c05, c06, c07, c08
from .integ import *
from .traj import StepsLoop

FILES = ["rkopenmdao/termination_criterion.py", "rkopenmdao/runge_kutta_integrator.py", "rkopenmdao/error_controller.py",
         "rkopenmdao/checkpoint_interface/all_checkpointer.py", "rkopenmdao/checkpoint_interface/no_checkpointer.py", "rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py"]
FUNCS = ["PredefinedNumberOfSteps.is_iteration_finished", "PredefinedFinalTime.is_iteration_finished", "PredefinedFinalTime.remaining_time",
         "NoCheckpointer.iterate_forward", "AllCheckpointer.iterate_forward", "PyrevolveCheckpointer.iterate_forward", "RungeKuttaIntegrator._compute_jacvec_fwd_run_steps",
         "RungeKuttaIntegrator._iterate_on_step", "RungeKuttaIntegrator.setup", "ErrorController._run", "ErrorController.__call__", "ErrorControllerDecorator._run", "ErrorControllerDecorator.__call__"]
ASSUMPTIONS = ["contract of the time step: the new time is the old time plus the step size (C01)",
               "contract of pyRevolve as in C05",
               "a retry (recursive call) is replaced by the contract being proved (partial correctness)"]
RT_NOTE = "real integrator: step counts, final times, fixed and adaptive stepping, all checkpointers, forward mode"
LEVEL = "proved for any number of steps"


def tis_at(H, t):
    tis, _ = H.new_state("X_")
    H.get(tis, ("d", "final_time")).write(lambda ix: t)
    return tis


def run_steps_crit(I):
    N, i = var("N", "I"), var("i", "I")
    I.assume(le(ZERO, i))
    H = Harness(I, adaptive=False, embedded=False)
    c = I.call(I.get(TCM + ":PredefinedNumberOfSteps"), [N], {})
    tis, _ = H.new_state("X_")
    before = H.snap(tis)
    f = I.truth(I.call(I.getattr(c, "is_iteration_finished"), [i, tis], {}))
    I.oblige("finished exactly from the prescribed number of steps on", goal=le(N, i) if f else lt(i, N))
    H.check_state("frame: state", tis, before)


def run_time_crit(I):
    Te, t, i = var("T"), var("t"), var("i", "I")
    H = Harness(I, adaptive=False, embedded=False)
    c = I.call(I.get(TCM + ":PredefinedFinalTime"), [Te], {})
    tis = tis_at(H, t)
    before = H.snap(tis)
    f = I.truth(I.call(I.getattr(c, "is_iteration_finished"), [i, tis], {}))
    I.oblige("finished exactly when the time has reached the final time", goal=le(Te, t) if f else lt(t, Te))
    I.oblige("remaining time", eqs=(num(I, I.call(I.getattr(c, "remaining_time"), [t], {})), sub(Te, t)))
    H.check_state("frame: state", tis, before)


class Horizon(c07.Rec):
    """real final-time criterion; the controller's suggestions do not exceed the remaining time"""

    def rem(self):
        return sub(self.T, self.trial()[("d", "final_time")]((ZERO,)))

    def decided(self, sug, acc):
        self.I.assume(le(sug, add(self.rem(), ZERO if acc else self.h)))


def fits(H, st):
    return le(add(st[("d", "final_time")]((ZERO,)), st[("t", "step_size_suggestion")]((ZERO,))), H.T)


def run_horizon(rank):
    def run(I):
        H = Horizon(I, crit="final_time", rank=rank)
        truth(I, "the criterion of the configuration controls the iteration", H.cp.attrs["termination_criterion"] is H.crit)
        hk = c07.recursion(H)
        for nm, f in I.get(RKI + ":RungeKuttaIntegrator").ns.items():
            if isinstance(f, PyFunc) and f.name not in ("setup", "compute", "compute_jacvec_product"):
                I.contracts[f.qual] = hk
        tis, _ = H.new_state("X_")
        I.assume(fits(H, H.snap(tis)))
        orig = H.retry

        def retry(t):
            I.oblige("a retry fits into the horizon", goal=fits(H, H.snap(t)))
            orig(t)
            I.assume(le(H.get(t, ("d", "final_time")).get((ZERO,)), H.T), fits(H, H.snap(t)))
        H.retry = retry
        c07.run_step(H, tis)
        if H.retried is None and H.accepted is None:
            truth(I, "the step ends accepted or is retried", False)
            return
        I.oblige("no committed step ends after the final time", goal=le(H.get(tis, ("d", "final_time")).get((ZERO,)), H.T))
        I.oblige("the next step fits into the horizon", goal=fits(H, H.snap(tis)))
    return run


def run_inf(I):
    """without a remaining time the controller is told infinity"""
    told = []

    class S(c07.Stepping):
        def control(self, kw):
            told.append(kw["remaining_time"])
            return I.call(I.get(PKG + ".error_controller:ErrorControllerStatus"), [I.fresh("sug"), True], {})
    H = S(I, crit="steps")
    truth(I, "the criterion of the configuration controls the iteration", H.cp.attrs["termination_criterion"] is H.crit)
    tis, _ = H.new_state("X_")
    del told[:]
    c07.run_step(H, tis)
    truth(I, "no limit of the remaining time", len(told) == 1 and told[0] == INF, repr(told))


def cap(I, what, st, d):
    a, s = I.getattr(st, "acceptance"), I.getattr(st, "step_size_suggestion")
    acc = I.truth(a)
    if s == INF:
        truth(I, what, False, "infinite")
        return
    I.oblige(what, goal=le(lift(s), add(d["remaining_time"], ZERO if acc else d["delta_t"])))


def run_cap(up, wrapped):
    def run(I):
        S = c08.Setting(I, up, "sym")
        c = I.call(I.get(c08.EC + ":ErrorController"), [], dict(config=S.cfg, **S.exps("x")))
        if wrapped:
            I.call(I.get(c08.EC + ":ErrorControllerDecorator"), [], dict(alpha=var("fb"), error_controller=c))
        d = S.inputs()
        try:
            st = I.call(c, [], d)
        except PyExc:
            return
        cap(I, "the suggestion does not exceed the remaining time", st, d)
    return run


def run_cap_dec(up):
    """decorator (integral controller as fallback) around any controller that respects the remaining time, in either mode"""
    def run(I):
        S = c08.Setting(I, up, "sym")
        status = I.get(c08.EC + ":ErrorControllerStatus")

        def call(I2, ar, kw):
            d = argmap(I2, ["self", "error_measure", "delta_t", "remaining_time", "error_history", "step_size_history"], ar, kw)
            k = I2.choose(3, "base")
            if k == 2:
                I2.raise_(I2.get(PKG + ".errors:OuterErrorControllerError"), "base")
            s = I2.fresh("bsug")
            I2.assume(le(s, add(num(I2, d["remaining_time"]), ZERO if k == 0 else num(I2, d["delta_t"]))))
            return I2.call(status, [s, k == 0], {})
        base = I.call(stub_class(I, "AnyController", I.get(c08.EC + ":ErrorController"), {"__call__": call}), [], dict(alpha=var("ba"), config=S.cfg))
        dec = I.call(I.get(c08.EC + ":ErrorControllerDecorator"), [], dict(error_controller=base, alpha=var("f_alpha")))
        for k in range(2):
            d = S.inputs(str(k))
            I.assume(eq(app(f"sh{k}", [ZERO]), ZERO), lt(ZERO, d["error_measure"]))
            try:
                st = I.call(dec, [], d)
            except PyExc:
                return
            cap(I, "the suggestion does not exceed the remaining time", st, d)
    return run


def units(tier):
    u = [("step-count criterion", run_steps_crit, {}, {}), ("final-time criterion", run_time_crit, {}, {})]
    u += [("NoCheckpointer", c05.run_simple("No", False), {}, {}), ("AllCheckpointer", c05.run_simple("All", False), {}, {}),
          ("Pyrevolve", c05.run_pyrevolve(None, None, None, False), {}, {}), ("Pyrevolve Memory", c05.run_pyrevolve("Memory", {"n_checkpoints": 3}, None, False), {}, {})]
    u += [("forward mode, fixed", c06.run_ind("fwd", False, False, 0), {}, {}), ("forward mode, adaptive", c06.run_ind("fwd", True, True, 1), {}, {})]
    u += [("horizon", run_horizon(0), {}, {}), ("horizon, other rank", run_horizon(1), {}, {}), ("no horizon", run_inf, {}, {})]
    for up in ("sym", "inf"):
        u += [(f"cap upper={up}", run_cap(up, False), {}, {}), (f"cap upper={up} wrapped", run_cap(up, True), {}, {}), (f"cap decorator upper={up}", run_cap_dec(up), {}, {})]
    return u


def bounded(tier, ints=()):
    u = [x for x in units(tier) if "criterion" in x[0] or x[0].startswith("cap") or x[0] == "no horizon"]
    for n in (0, 1, 2, 3):
        u += [(f"{w}Checkpointer N={n}", c05.run_simple(w, False, n), {}, {"unroll": 6}) for w in ("No", "All")]
        if n:
            u.append((f"Pyrevolve N={n}", c05.run_pyrevolve(None, None, n, False), {}, {"unroll": 6}))
    u += [("forward mode", c06.run_hist(("fwd",), False, 0), {}, {"unroll": 3, "max_paths": 3000})]

    def seq(I):
        H = Horizon(I, crit="final_time")
        H.max_rej = 2
        tis, _ = H.new_state("X_")
        I.assume(fits(H, H.snap(tis)))
        for k in range(2):
            c07.run_step(H, tis)
            I.oblige("no committed step ends after the final time", goal=le(H.get(tis, ("d", "final_time")).get((ZERO,)), H.T))
            I.oblige("the next step fits into the horizon", goal=fits(H, H.snap(tis)))
    u.append(("horizon, two steps", seq, {}, {"unroll": 6}))
    return u
