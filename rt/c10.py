from common import *
import numpy as np
import rk
import integ
from rkopenmdao.callback import Callback
from rkopenmdao.error_controllers import integral, h_211 as h211, ppid
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps, PredefinedFinalTime
from rkopenmdao.time_discretization.runge_kutta_discretization_state import RungeKuttaDiscretizationState
from rkopenmdao.time_integration_state import TimeIntegrationState

CASE_TIMEOUT = 60
CK = dict(no=NoCheckpointer, all=AllCheckpointer, pyrevolve=PyrevolveCheckpointer)


DIAL = {"N": 1500}


def cases(rng, tier):
    k = 0
    while k < (200 if tier == "quick" else 3000):
        k += 1
        if k % 5 == 0:
            yield dict(kind="crit", seed=rng.randrange(10**6))
            continue
        yield dict(kind="run", seed=rng.randrange(10**6), crit=rng.choice(["steps", "time"]), N=rng.choice([1, 2, 3, 5, 7, 11]), ck=rng.choice(list(CK)), adaptive=rng.random() < 0.5,
                   fwd=rng.random() < 0.35, ctrl=rng.choice([["integral"], ["h211", "integral"], ["ppid"]]), exact=rng.random() < 0.4, tol=rng.choice([1e-2, 1e-3, 1e-1]), runs=rng.choice([1, 2]))


class Log(Callback):
    def __init__(self):
        self.t, self.n = [], []

    def before_iteration(self, iteration, time_integration_state, ode, d):
        if iteration == 1:
            self.t, self.n = [], []

    def after_iteration(self, iteration, time_integration_state, ode, d):
        self.t.append(float(time_integration_state.discretization_state.final_time[0]))
        self.n.append(iteration)


def run(c):
    r = np.random.default_rng(c["seed"])
    if c["kind"] == "crit":
        st = TimeIntegrationState(RungeKuttaDiscretizationState(ode_state_size=2, independent_input_size=0, independent_output_size=0, number_of_stages=2, linearization_point_size=0), np.zeros(1), np.zeros(2), np.zeros(2))
        Te = float(r.choice([0.0, 1.0, -2.5, r.normal()]))
        for t in (Te, np.nextafter(Te, np.inf), np.nextafter(Te, -np.inf), Te + 1, Te - 1, Te + r.normal()):
            st.discretization_state.final_time[0] = t
            crit = PredefinedFinalTime(Te)
            need(bool(crit.is_iteration_finished(int(r.integers(0, 9)), st)) == (t >= Te), f"final time {Te}: finished at {t}")
            close(crit.remaining_time(t), Te - t, "remaining time")
        N = int(r.integers(0, 50))
        for i in (0, N - 1, N, N + 1, 1):
            need(bool(PredefinedNumberOfSteps(N).is_iteration_finished(i, st)) == (i >= N), f"{N} steps: finished after {i}")
        return
    tab, A, b, cc, e = rk.tableau(c["seed"], 2, c["adaptive"])
    m = integ.Model(c["seed"], [[2]], [[1]])
    t0 = 0.25
    h = float(r.choice([0.125, 0.0625, 0.5]))
    span = h * c["N"] if c["exact"] else h * (c["N"] - float(r.uniform(0.01, 0.99)))
    steps = c["crit"] == "steps" or c["ck"] == "pyrevolve"
    if c["adaptive"] and not steps:
        span = max(span, h)
    crit = PredefinedNumberOfSteps(c["N"]) if steps else PredefinedFinalTime(t0 + span)
    opts = dict(error_controller=[dict(integral=integral, h211=h211, ppid=ppid)[k] for k in c["ctrl"]],
                error_controller_options=dict(config=ErrorControllerConfig(tol=c["tol"], lower_bound=1e-2, upper_bound=0.5))) if c["adaptive"] else {}
    if c["adaptive"] and len(c["ctrl"]) > 1:
        opts["error_controller"] = opts["error_controller"][::-1]
    log, flog = Log(), Log()
    rki, prob = integ.integrator(m, tab, crit, h, c["adaptive"], checkpointing_type=CK[c["ck"]], compute_callbacks=[log], compute_jacvec_product_fwd_callbacks=[flog], **opts)
    d = integ.Driver(m, rki, prob)
    for k in range(c["runs"]):
        try:
            if c["fwd"]:
                d.fwd(m.x0, m.p0, t0, np.ones(m.n), np.ones(m.q), 0.0)
            else:
                d.compute(m.x0, m.p0, t0)
        except Exception as ex:
            if type(ex).__name__ in ("InnerErrorControllerError", "OuterErrorControllerError"):
                return
            raise
        L = flog if c["fwd"] else log
        need(L.n == list(range(1, len(L.n) + 1)), f"steps are numbered {L.n[:20]}")
        if steps:
            need(len(L.n) == c["N"], f"{len(L.n)} steps instead of {c['N']}")
            continue
        Te = t0 + span
        ts = [t0] + L.t
        need(all(t < Te for t in ts[:-1]), f"a step is made after the final time {Te}: {ts[-3:]}")
        need(ts[-1] >= Te, f"stopped at {ts[-1]} before the final time {Te}")
        if c["adaptive"]:
            need(ts[-1] <= Te + 1e-9, f"a committed step ends at {ts[-1]} after the final time {Te}")
        else:
            need(ts[-1] < Te + h + 1e-12, f"too many steps: {ts[-1]} for final time {Te}")


if __name__ == "__main__":
    main(sys.modules[__name__])
