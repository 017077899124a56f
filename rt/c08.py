from common import *
import numpy as np
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig, ErrorControllerDecorator
from rkopenmdao.errors import OuterErrorControllerError, InnerErrorControllerError

MIN_CASES = 300


class Ref:
    """documented behaviour of a (possibly nested) controller"""

    def __init__(self, cfg, x, base=None):
        self.cfg, self.x, self.base = cfg, x, base
        self.wrapped = False
        self.own = False       # the fallback stays in charge until it accepts
        self.count = 0
        if base is not None:
            base.wrapped = True

    def formula(self, d):
        tol, lo, up, sf = self.cfg["tol"], self.cfg["lower_bound"], self.cfg["upper_bound"], self.cfg["safety_factor"]
        em, dt, rem, eh, sh = (d[k] for k in ("error_measure", "delta_t", "remaining_time", "error_history", "step_size_history"))
        acc = dt - lo < 1e-10 or em <= tol
        if em == 0:
            est = dt
        else:
            est = sf * dt * (tol / em) ** self.x["alpha"] * (eh[0] / tol) ** self.x["beta"] * (tol / eh[1]) ** self.x["gamma"]
            if sh[0] != 0:
                est *= (dt / sh[0]) ** self.x["a"]
                if sh[1] != 0:
                    est *= (sh[0] / sh[1]) ** self.x["b"]
        est = max(lo, min(up, est))
        est = min(rem + (0 if acc else dt), est)
        return est, bool(acc)

    def call(self, d):
        dt = d["delta_t"]
        if self.base is None:
            s, a = self.formula(d)
            if not a and s > dt and not self.wrapped:
                return ("raise", "OuterErrorControllerError")
            return ("ok", s, a)
        if not self.own:
            r = self.base.call(d)
            if r[0] == "ok":
                if r[2]:
                    self.count = 0
                    return r
                self.count += 1
                if r[1] < dt and self.count <= self.cfg["max_iter"]:
                    return r
            elif r[1] != "OuterErrorControllerError":
                return r
            self.count = 0
        s, a = self.formula(d)
        self.own = not a
        if not a and s > dt and not self.wrapped:
            return ("raise", "InnerErrorControllerError")
        return ("ok", s, a)


def cases(rng, tier):
    n = 0
    while n < (2500 if tier == "quick" else 40000):
        n += 1
        yield dict(kind=("single", "wrapped", "wrapped", "nested")[n % 4], seed=rng.randrange(10**6))


def run(case):
    r = random.Random(case["seed"])
    depth = {"single": 1, "wrapped": 2, "nested": 3}[case["kind"]]
    cfg = dict(tol=r.choice([1e-6, 1e-3, 0.5, 1.0]), lower_bound=r.choice([0, 0, 1e-3, 0.05]), upper_bound=r.choice([np.inf, 0.5, 2.0, 0.1]),
               safety_factor=r.choice([0.95, 1.0, 0.5, 1.3]), max_iter=r.choice([0, 1, 2, 3, 5]))
    real, ref = None, None
    for k in range(depth):
        sign = r.choice([1, 1, 1, -1])
        x = dict(alpha=sign * r.choice([0.0, 0.2, 0.5, 1.0]), beta=r.choice([0, 0, -0.3, 0.4]), gamma=r.choice([0, 0, 0.25, -0.2]), a=r.choice([0, 0, 1, -0.5]), b=r.choice([0, 0, 0.3, -1]))
        if real is None:
            real, ref = ErrorController(config=ErrorControllerConfig(**cfg), **x), Ref(cfg, x)
        else:
            real, ref = ErrorControllerDecorator(error_controller=real, **x), Ref(cfg, x, ref)
    sh = [0.0, 0.0]
    eh = [cfg["tol"], cfg["tol"]]
    dt = r.choice([0.1, 0.05, 0.5, 0.3])
    for k in range(14):
        em = r.choice([0.0, cfg["tol"], cfg["tol"] * r.uniform(0.01, 1), cfg["tol"] * r.uniform(1, 50), cfg["tol"] * r.uniform(1, 50), cfg["tol"] * r.uniform(1, 3)])
        dt = r.choice([dt, dt, r.uniform(0.01, 1), cfg["lower_bound"] + 5e-11, cfg["upper_bound"] if cfg["upper_bound"] < 10 else 0.25]) or 0.1
        rem = r.choice([100.0, 100.0, np.inf, r.uniform(0, 0.3), 0.0])
        d = dict(error_measure=em, delta_t=dt, remaining_time=rem, error_history=np.array(eh), step_size_history=np.array(sh))
        exp = ref.call(d)
        hs = np.array(d["error_history"]), np.array(d["step_size_history"])
        try:
            st = real(**d)
            got = ("ok", st.step_size_suggestion, bool(st.acceptance))
        except (OuterErrorControllerError, InnerErrorControllerError) as ex:
            got = ("raise", type(ex).__name__)
        desc = f"call {k}: error {em!r}, step {dt!r}, remaining {rem!r}, errors {eh}, steps {sh}, {cfg}"
        need(exp[0] == got[0] and (exp[0] == "ok" or exp[1] == got[1]), f"outcome {got}, expected {exp}; {desc}")
        exact(d["error_history"], hs[0], "error history modified")
        exact(d["step_size_history"], hs[1], "step size history modified")
        if exp[0] == "raise":
            return
        need(exp[2] == got[2], f"acceptance {got[2]}, expected {exp[2]}; {desc}")
        close(got[1], exp[1], f"suggestion; {desc}", 1e-10)
        if exp[2]:
            sh = [dt, sh[0]]
            eh = [em or cfg["tol"], eh[0]]
        dt = exp[1] if exp[1] > 0 and r.random() < 0.7 else dt


if __name__ == "__main__":
    main(sys.modules[__name__])
