from common import *
import numpy as np
import rk
import integ
from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig, ErrorControllerStatus
from rkopenmdao.error_measurer import SimpleErrorMeasurer, ImprovedErrorMeasurer
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps, PredefinedFinalTime

CASE_TIMEOUT = 60


DIAL = {"N": 300}


def cases(rng, tier):
    k = 0
    while k < (250 if tier == "quick" else 4000):
        k += 1
        yield dict(kind="adaptive" if k % 4 else "fixed", seed=rng.randrange(10**6), s=1 + k % 5, N=rng.choice([1, 2, 3, 5, 8]),
                   shapes=rng.choice([[[2]], [[2, 2], [1]], [[1], [3]], [[1]]]), rej=rng.choice([0.2, 0.5, 0.7]), runs=rng.choice([1, 2, 3]),
                   crit=rng.choice(["steps", "time"]), embedded=bool(k % 8), meas=rng.choice(["simple", "ratio"]))


class Scripted(ErrorController):
    def __init__(self, script, log, h0):
        self.h0 = h0
        super().__init__(alpha=0.0, config=ErrorControllerConfig(tol=0.37))
        self.script, self.log = script, log

    def __call__(self, **kw):
        acc, fac = self.script()
        sug = (self.h0 if acc else float(kw["delta_t"])) * fac
        self.log.append(("ask", {k: np.array(v, dtype=float) for k, v in kw.items()}, acc, float(sug)))
        return ErrorControllerStatus(sug, acc)


class Rec(Callback):
    def __init__(self, log, what):
        self.log, self.what = log, what

    def snap(self, st):
        d = {f: np.array(getattr(st.discretization_state, f)) for f in ("final_state", "final_time", "start_state", "start_time", "stage_updates", "independent_inputs", "linearization_points") + (("error_estimate", "embedded_state") if hasattr(st.discretization_state, "error_estimate") else ())}
        d.update({f: np.array(getattr(st, f)) for f in ("step_size_suggestion", "step_size_history", "error_history")})
        return d

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.log.append((self.what + "before", iteration, self.snap(time_integration_state)))

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.log.append((self.what + "after", iteration, self.snap(time_integration_state)))


def run(c):
    r = random.Random(c["seed"])
    adaptive = c["kind"] == "adaptive"
    emb = adaptive or c["embedded"]
    tab, A, b, cc, e = rk.tableau(c["seed"], c["s"], emb)
    m = integ.Model(c["seed"], c["shapes"], [[2]])
    log = []
    rejects = [0]

    def script():
        acc = not (r.random() < c["rej"] and rejects[0] < 6)
        rejects[0] = 0 if acc else rejects[0] + 1
        return acc, r.uniform(0.5, 1.3) if acc else r.uniform(0.3, 0.9)
    h0 = r.choice([0.1, 0.25, 0.03])
    crit = PredefinedNumberOfSteps(c["N"]) if c["crit"] == "steps" else PredefinedFinalTime(h0 * c["N"] * 0.9 + 0.45)
    meas = SimpleErrorMeasurer() if c["meas"] == "simple" else ImprovedErrorMeasurer(0.2, 0.5)
    opts = dict(error_controller=[lambda p, base=None, **kw: Scripted(script, log, h0)], error_measurer=meas) if adaptive else {}
    kinds = r.choice([NoCheckpointer, AllCheckpointer])
    rki, prob = integ.integrator(m, tab, crit, h0, adaptive, checkpointing_type=kinds, compute_callbacks=[Rec(log, "")], compute_jacvec_product_fwd_callbacks=[Rec(log, "fwd ")], **opts)
    d = integ.Driver(m, rki, prob)
    for k in range(c["runs"]):
        del log[:]
        rejects[0] = 0
        x, p, t0 = m.x0 + 0.1 * k, m.p0 - 0.2 * k, 0.2 + 0.1 * k
        fwd = r.random() < 0.4
        if fwd:
            d.fwd(x, p, t0, np.ones(m.n), np.ones(m.q), 0.5)
        else:
            d.compute(x, p, t0)
        check(m, tab, A, b, cc, e, log, x, p, t0, h0, crit, adaptive, meas, emb, "fwd " if fwd else "")


def norm2(v):
    return float(np.sqrt(np.sum(np.asarray(v) ** 2)))


def check(m, tab, A, b, cc, e, log, x, p, t, h0, crit, adaptive, meas, emb, pre):
    h = h0
    sh, eh = [0.0, 0.0], [0.37, 0.37]
    i = 0
    it = 0
    T = getattr(crit, "termination_time", None)
    while i < len(log):
        it += 1
        need(log[i][0] == pre + "before" and log[i][1] == it, f"entry {i}: {log[i][:2]}, expected before step {it}")
        s = log[i][2]
        i += 1
        close(s["final_state"], x, f"state before step {it}")
        close(s["step_size_suggestion"][0], h, f"step size before step {it}")
        if adaptive:
            close(s["step_size_history"], sh, f"step sizes before step {it}")
            close(s["error_history"], eh, f"errors before step {it}")
        while True:
            xn, K = m.step(tab, t, x, p, h)
            err = h * (b - e) @ K if emb else None
            if not adaptive:
                break
            em = norm2(err)
            if not isinstance(meas, SimpleErrorMeasurer):
                em = em / (norm2(xn) + 0.2 / 0.5)
            need(i < len(log) and log[i][0] == "ask", f"step {it}: the controller is not asked about the trial")
            _, kw, acc, sug = log[i]
            i += 1
            close(kw["delta_t"], h, f"step {it}: step size told to the controller")
            close(kw["error_measure"], em, f"step {it}: error measure told to the controller", 1e-8)
            close(kw["step_size_history"], sh, f"step {it}: step sizes told to the controller")
            close(kw["error_history"], eh, f"step {it}: errors told to the controller", 1e-8)
            if T is not None:
                close(kw["remaining_time"], T - (t + h), f"step {it}: remaining time told to the controller")
            else:
                need(np.isinf(kw["remaining_time"]), "remaining time without final time")
            if acc:
                sh, eh = [h, sh[0]], [em, eh[0]]
                hn = sug
                break
            h = sug
        need(i < len(log) and log[i][0] == pre + "after" and log[i][1] == it, f"step {it} is not completed")
        s = log[i][2]
        i += 1
        close(s["start_state"], x, f"start state of step {it}")
        close(s["start_time"][0], t, f"start time of step {it}")
        close(s["final_state"], xn, f"state after step {it}", 1e-8)
        close(s["final_time"][0], t + h, f"time after step {it}")
        close(s["independent_inputs"], p, f"independent inputs after step {it}")
        close(s["step_size_history"][0], h, f"recorded step size of step {it}")
        if emb:
            close(s["error_estimate"], err, f"error estimate of step {it}", 1e-8)
        if adaptive:
            close(s["step_size_history"], sh, f"step sizes after step {it}")
            close(s["error_history"], eh, f"errors after step {it}", 1e-8)
            close(s["step_size_suggestion"][0], hn, f"step size for the step after {it}")
        x, t = xn, t + h
        if adaptive:
            h = hn
    need(it >= 1, "no step")


if __name__ == "__main__":
    main(sys.modules[__name__])
