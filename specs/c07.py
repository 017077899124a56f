"""C07: adaptive stepping commits a step only when it is accepted."""
from .integ import *

FILES = ["rkopenmdao/runge_kutta_integrator.py", "rkopenmdao/time_integration_state.py"]
FUNCS = ["RungeKuttaIntegrator._run_step", "RungeKuttaIntegrator._iterate_on_step", "RungeKuttaIntegrator._get_error_measure", "RungeKuttaIntegrator.setup"]
ASSUMPTIONS = ["contract of compute_step (C01): in place, depends on final state, final time, independent inputs and step size",
               "the controller is arbitrary: any suggestion, any decision, any internal state",
               "a retry (recursive call) is replaced by the contract being proved (partial correctness)"]
RT_NOTE = "real integrator with scripted controllers: random accept/reject sequences, histories, several runs"
LEVEL = "proved for any controller, number of rejections and sizes; two consecutive steps with up to four rejections executed in full"


class Stepping(Harness):
    """ghost: committed state X, current trial step size"""

    def begin(self, tis):
        self.X = self.snap(tis)
        self.h = self.X[("t", "step_size_suggestion")]((ZERO,))
        self.accepted = None
        self.asked = 0

    def trial(self):
        return self.step_spec(self.X, self.h)

    def em(self):
        t = self.trial()
        return app("EM", [lamof(t[("d", "error_estimate")], (self.n,)), lamof(t[("d", "final_state")], (self.n,))])

    def rem(self):
        return app("Rem", [self.trial()[("d", "final_time")]((ZERO,))])

    max_rej = None

    def control(self, kw):
        I = self.I
        truth(I, "the controller is not asked again after acceptance", self.accepted is None)
        self.asked += 1
        I.oblige("controller: error measure of the trial step", eqs=(kw["error_measure"], self.em()))
        I.oblige("controller: step size of the trial step", eqs=(num(I, kw["delta_t"]), self.h))
        I.oblige("controller: remaining time after the trial step", eqs=(num(I, kw["remaining_time"]), self.rem()))
        for f, k in (("error_history", "error_history"), ("step_size_history", "step_size_history")):
            same_array(I, f"controller: {f}", kw[f], self.X[("t", k)], (lift(2),))
        # a step is made from the committed state only
        sug = I.fresh("sug")
        acc = True if self.max_rej is not None and self.asked > self.max_rej else I.choose(2, "accept") == 0
        self.decided(sug, acc)
        st = I.call(I.get(PKG + ".error_controller:ErrorControllerStatus"), [sug, acc], {})
        if acc:
            self.accepted = (self.h, self.em(), sug)
        else:
            self.h = sug
            self.pending = sug
        return st

    def decided(self, sug, acc):
        pass

    def expected(self):
        h, em, sug = self.accepted
        want = self.step_spec(self.X, h)
        sh, eh = self.X[("t", "step_size_history")], self.X[("t", "error_history")]
        want[("t", "step_size_suggestion")] = lambda ix: sug
        want[("t", "step_size_history")] = lambda ix: ite(eq(ix[0], ZERO), h, sh((ZERO,)))
        want[("t", "error_history")] = lambda ix: ite(eq(ix[0], ZERO), em, eh((ZERO,)))
        return want

    def expected_fixed(self):
        want = self.step_spec(self.X, self.h)
        h = self.h
        want[("t", "step_size_suggestion")] = self.X[("t", "step_size_suggestion")]
        want[("t", "error_history")] = self.X[("t", "error_history")]
        return want


def recursion(H):
    """contract of the (re-entered) step iteration"""
    stack = []

    def hook(I, f, ar, kw):
        tis = [a for a in list(ar) + list(kw.values()) if isinstance(a, Obj) and a.cls.name == "TimeIntegrationState"]
        if len(tis) != 1:
            return NotImplemented
        if f.qual not in stack:
            stack.append(f.qual)
            try:
                return I.run(f, ar, kw)
            finally:
                stack.pop()
        tis = tis[0]
        H.retry(tis)
        return tis
    return hook


class Rec(Stepping):
    retried = None

    def retry(self, tis):
        I = self.I
        truth(I, "a retry only follows a rejection", self.asked == 1 and self.accepted is None)
        truth(I, "one retry per rejection", self.retried is None)
        want = dict(self.X)
        sug = self.pending
        want[("t", "step_size_suggestion")] = lambda ix: sug
        self.check_state("a retry starts from the unchanged committed state", tis, want)
        for (k, f), fn in list(want.items()):
            a = self.get(tis, (k, f))
            a.write(lambda ix, f=f: app("R_" + f, list(ix)))
        self.retried = {kf: (lambda ix, f=kf[1]: app("R_" + f, list(ix))) for kf in self.fields()}


def run_step(H, tis):
    I = H.I
    H.begin(tis)
    try:
        return I.call(H.cp.attrs["run_step_func"], [var("step", "I"), tis], {})
    except PyExc as ex:
        truth(I, "the step does not raise", False, f"{ex.obj.cls.name}{ex.obj.attrs.get('args')}")
        raise PathEnd()


def run_unbounded(rank):
    def run(I):
        H = Rec(I, rank=rank)
        hk = recursion(H)
        cls = I.get(RKI + ":RungeKuttaIntegrator")
        for nm, f in cls.ns.items():
            if isinstance(f, PyFunc) and f.name not in ("setup", "compute", "compute_jacvec_product"):
                I.contracts[f.qual] = hk
        tis, _ = H.new_state("X_")
        ret = run_step(H, tis)
        if H.retried is not None:
            want = H.retried
        elif H.accepted is None:
            truth(I, "the step ends accepted or is retried", False)
            return
        else:
            want = H.expected()
        H.check_state("state after the step", tis, want)
        H.check_state("returned state", ret, want)
    return run


def run_fixed(embedded, rank):
    def run(I):
        H = Stepping(I, embedded=embedded, adaptive=False, rank=rank)
        tis, _ = H.new_state("X_")
        ret = run_step(H, tis)
        truth(I, "the controller is not asked with fixed step size", H.asked == 0)
        want = H.expected_fixed()
        for nm, x in (("state after the step", tis), ("returned state", ret)):
            H.check_state(nm, x, want)
            I.oblige(f"{nm}: step size of the step", eqs=(H.get(x, ("t", "step_size_history")).get((ZERO,)), H.h))
    return run


def run_seq(steps, rej):
    """several steps with up to `rej` rejections each, everything inlined"""
    def run(I):
        H = Stepping(I)
        H.max_rej = rej
        tis, _ = H.new_state("X_")
        for k in range(steps):
            n0 = len([x for x in H.log if x[0] == "step"])
            ret = run_step(H, tis)
            if H.accepted is None:
                truth(I, "the step ends accepted", False)
                return
            want = H.expected()
            H.check_state(f"state after the step", tis, want)
            H.check_state(f"returned state", ret, want)
            truth(I, "one trial per question to the controller", len([x for x in H.log if x[0] == "step"]) - n0 == H.asked)
            tis = ret if I.choose(2, "continue with the returned state") else tis
    return run


def units(tier):
    return [("adaptive step", run_unbounded(0), {}, {}), ("adaptive step, other rank", run_unbounded(1), {}, {}),
            ("fixed step", run_fixed(False, 0), {}, {}), ("fixed step, embedded", run_fixed(True, 1), {}, {})]


def always(tier):
    return [("two steps, up to two rejections", run_seq(2, 2), {}, {"unroll": 8}), ("one step, up to four rejections", run_seq(1, 4), {}, {"unroll": 8})]


def bounded(tier, ints=()):
    return always(tier)[:1]
