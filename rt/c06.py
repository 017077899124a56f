from common import *
import numpy as np
import rk
import integ
from rkopenmdao.callback import Callback
from rkopenmdao.error_controllers import integral
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps, PredefinedFinalTime

CASE_TIMEOUT = 60


DIAL = {"N": 300}


def cases(rng, tier):
    k = 0
    while k < (150 if tier == "quick" else 3000):
        k += 1
        yield dict(seed=rng.randrange(10**6), s=1 + k % 4, N=rng.choice([1, 2, 3, 5]), ck=rng.choice(["all", "pyrevolve"]),
                   shapes=rng.choice([[[2]], [[2, 2], [1]], [[1], [3]]]), pshapes=rng.choice([[], [[2]], [[1], [1, 2]]]), adaptive=k % 3 == 0,
                   crit=rng.choice(["steps", "time"]), ops=script(rng))


def script(rng):
    """requests with one of four inputs each"""
    if rng.random() < .35:
        # something happens between a primal run and its reverse run
        k, between = str(rng.randrange(4)), [rng.choice(["fwd", "fwd", "rev", "primal", "fwd!", "rev!", "primal!"]) + str(rng.randrange(4)) for _ in range(rng.choice([1, 1, 2]))]
        return ["primal" + k] + between + ["rev" + k]
    return [rng.choice(["primal", "fwd", "rev", "rev", "primal!", "rev!", "fwd!"]) + str(rng.randrange(4)) for _ in range(rng.choice([2, 3, 4, 6]))]


class Steps(Callback):
    def __init__(self):
        self.h, self.fail = [], None

    def before_iteration(self, iteration, *a, **k):
        if self.fail is not None and iteration == self.fail:
            raise RuntimeError("planned")
        if iteration == 1 and k.get("x", True):
            pass

    def after_iteration(self, iteration, time_integration_state, *a, **k):
        self.h.append((iteration, float(time_integration_state.step_size_history[0])))


def run(c):
    r = np.random.default_rng(c["seed"])
    tab, A, b, cc, e = rk.tableau(c["seed"], c["s"], c["adaptive"])
    m = integ.Model(c["seed"], c["shapes"], c["pshapes"])
    h0 = float(r.choice([0.1, 0.25]))
    T = 0.9 * h0 * c["N"] + 0.45 if c["adaptive"] else 0.2 + h0 * (c["N"] - 0.5)
    crit = PredefinedNumberOfSteps(c["N"]) if c["crit"] == "steps" or c["ck"] == "pyrevolve" else PredefinedFinalTime(T)
    cb, cf, cr = Steps(), Steps(), Steps()
    opts = dict(error_controller=[integral], error_controller_options=dict(config=ErrorControllerConfig(tol=1e-2, lower_bound=1e-2, upper_bound=0.5))) if c["adaptive"] else {}
    rki, prob = integ.integrator(m, tab, crit, h0, c["adaptive"], checkpointing_type=AllCheckpointer if c["ck"] == "all" else PyrevolveCheckpointer,
                                 compute_callbacks=[cb], compute_jacvec_product_fwd_callbacks=[cf], compute_jacvec_product_rev_callbacks=[cr], **opts)
    d = integ.Driver(m, rki, prob)
    base = (m.x0, m.p0, 0.2)
    # inputs that differ in one role only
    inp = [base, [(m.x0 + 0.3 * r.normal(size=m.n), m.p0, 0.2), (m.x0, m.p0 + 0.3 * r.normal(size=m.q), 0.2), (m.x0, m.p0, 0.13)][c["seed"] % 3],
           (m.x0 + 0.1, m.p0 - 0.1, 0.1),
           # next to the base point
           [(m.x0 * (1 + 4e-6), m.p0, 0.2), (m.x0, m.p0 * (1 + 4e-6), 0.2), (m.x0, m.p0, 0.2 * (1 + 4e-6))][c["seed"] % 3]]
    ref = {}

    def steps(k):
        """step sizes of the run for these inputs, from an own integrator"""
        if k not in ref:
            cb2 = Steps()
            rk2, pr2 = integ.integrator(m, tab, crit, h0, c["adaptive"], compute_callbacks=[cb2], compute_jacvec_product_fwd_callbacks=[], compute_jacvec_product_rev_callbacks=[], **opts)
            integ.Driver(m, rk2, pr2).compute(*inp[k])
            ref[k] = [h for _, h in cb2.h]
        return ref[k]
    for j, op in enumerate(c["ops"]):
        k = int(op[-1])
        op = op[:-1]
        x, p, t = inp[k]
        hs = steps(k)
        what = f"request {j} ({op})"
        if op == "primal":
            got, tf = d.compute(x, p, t)
            want = m.run(tab, t, x, p, hs)[-1]
            close(got, want[1], what + ": final state", 1e-8)
            close(tf, want[0], what + ": final time", 1e-8)
        elif op == "fwd":
            dx, dp, dt = r.normal(size=m.n), r.normal(size=m.q), float(r.normal())
            z = r.integers(0, 8)         # seeds of single roles: the others are zero
            dx, dp, dt = (dx * (z not in (1, 3, 5))), (dp * (z not in (2, 3, 6))), (dt * (z not in (1, 2, 7)))
            got, tf = d.fwd(x, p, t, dx, dp, dt)
            wx, wt = m.jvp(tab, t, x, p, hs, dt, dx, dp)
            close(got, wx, what + ": product", 1e-7)
            close(tf, wt, what + ": time product", 1e-7)
        elif op == "rev":
            wx, wt = r.normal(size=m.n), float(r.normal())
            z = r.integers(0, 6)
            wx, wt = (wx * (z != 1)), (wt * (z not in (2, 3)))
            gx, gp, gt = d.rev(x, p, t, wx, wt)
            J = m.jacobian(tab, t, x, p, hs)
            want = np.concatenate([wx, [wt]]) @ J
            close(np.concatenate([gx, gp, [gt]]), want, what + ": gradient", 1e-7)
        else:
            f = {"primal!": cb, "rev!": cr, "fwd!": cf}[op]
            f.fail = int(r.integers(1, len(hs) + 1))
            try:
                if op == "primal!":
                    d.compute(x, p, t)
                elif op == "fwd!":
                    d.fwd(x, p, t, np.ones(m.n), np.ones(m.q), 1.0)
                else:
                    d.rev(x, p, t, np.ones(m.n), 1.0)
                need(False, what + ": the planned exception is swallowed")
            except RuntimeError as ex:
                if "planned" not in str(ex):
                    raise
            finally:
                f.fail = None


if __name__ == "__main__":
    main(sys.modules[__name__])
