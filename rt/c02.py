from common import *
import numpy as np
import rk
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedRungeKuttaDiscretization, StageOrderedEmbeddedRungeKuttaDiscretization)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues)


DIAL = {"s": 24, "n": 400, "steps": 300}


def cases(rng, tier):
    k = 0
    while k < (400 if tier == "quick" else 4000):
        k += 1
        yield dict(kind="tangent", seed=rng.randrange(10**6), s=1 + k % 9, n=rng.choice([1, 2, 3, 5]), q=rng.choice([0, 1, 3]),
                   o=rng.choice([0, 2]), embedded=bool(k % 2), explicit=rng.random() < 0.3, steps=rng.choice([1, 2, 3]), hist=rng.choice([0, 6]),
                   h=rng.choice([0.1, 0.37, -0.2, 1.0]))


def ref_tangent(ode, A, b, lp, dx, dp, dt, h):
    s, n = len(b), len(dx)
    k = np.zeros((s, n)); xs = np.zeros((s, n)); out = np.zeros((s, ode.o))
    for i in range(s):
        acc = np.zeros(n)
        for j in range(i):
            acc = acc + A[i, j] * k[j]
        d = ode._J(lp[i], h, A[i, i]) @ np.concatenate([dx, acc, dp, [dt]])
        k[i], xs[i], out[i] = d[:n], d[n:2 * n], d[2 * n:]
    return dict(stage_updates=k, stage_states=xs, stage_independent_outputs=out, stage_times=np.full(s, dt),
                final_state=dx + h * (b @ k), final_time=np.array([dt]), start_state=dx, start_time=np.array([dt]), independent_inputs=dp)


def run(case):
    emb = case["embedded"]
    tab, A, b, c, e = rk.tableau(case["seed"], case["s"], emb, case["explicit"])
    ode = rk.RefODE(case["seed"], case["n"], case["q"], case["o"])
    sch = (StageOrderedEmbeddedRungeKuttaDiscretization if emb else StageOrderedRungeKuttaDiscretization)(tab)
    r = np.random.default_rng(case["seed"])
    sv = TimeDiscretizationStartingValues(r.normal(), r.normal(size=case["n"]), r.normal(size=case["q"]))
    dsv = TimeDiscretizationStartingValues(r.normal(), r.normal(size=case["n"]), r.normal(size=case["q"]))
    h = case["h"]
    st = sch.time_discretization_starting_scheme(ode, sv, h)
    for f, v in (("final_state", sv.initial_values), ("independent_inputs", sv.independent_inputs), ("final_time", [sv.initial_time])):
        exact(getattr(st, f), v, f"starting scheme {f}")
    pert = sch.time_discretization_starting_scheme_derivative(ode, sv, dsv, h)
    for f, v in (("final_state", dsv.initial_values), ("independent_inputs", dsv.independent_inputs), ("final_time", [dsv.initial_time])):
        exact(getattr(pert, f), v, f"starting scheme derivative {f}")
    if case["steps"] == 1:
        rk.fill(st, case["seed"] + 3, emb)
        keep = {f: np.array(getattr(pert, f)) for f in ("final_state", "independent_inputs", "final_time")}
        rk.fill(pert, case["seed"] + 4, emb)
        for f, v in keep.items():
            getattr(pert, f)[...] = v
    else:
        st = sch.compute_step(ode, st, h)
    for _ in range(case["steps"]):
        pold, dold = rk.snap(st, emb), rk.snap(pert, emb)
        ref = ref_tangent(ode, A, b, pold["linearization_points"], dold["final_state"], dold["independent_inputs"], dold["final_time"][0], h)
        ret = sch.compute_step_derivative(ode, st, pert, h)
        for who, x in (("", pert), ("returned ", ret)):
            for f, v in ref.items():
                close(getattr(x, f), v, f"{who}{f} after the tangent step", 1e-9)
        for f, v in pold.items():
            exact(getattr(st, f), v, f"primal {f} modified by the tangent step")
        pert = ret
        if case["steps"] > 1:
            st = sch.compute_step(ode, st, h)
    rng, ode2 = random.Random(case["seed"]), rk.RefODE(case["seed"] + 31, case["n"], case["q"], case["o"])
    hh, od = h, ode
    for k in range(case.get("hist", 0)):      # other histories on the same objects
        act = rng.randrange(6)
        if act == 0:
            od = ode2 if od is ode else ode
        elif act == 1:
            rk.fill(st, case["seed"] + 100 + k, emb)
        elif act == 2:
            rk.fill(pert, case["seed"] + 200 + k, emb)
        elif act == 3:
            pert.independent_inputs[...] = np.random.default_rng(k).normal(size=case["q"])
        elif act == 4:
            st.linearization_points[...] = np.random.default_rng(k).normal(size=st.linearization_points.shape)
        else:
            hh = rng.choice([0.1, 0.37, -0.2, 1.0])
        pold, dold = rk.snap(st, emb), rk.snap(pert, emb)
        ref = ref_tangent(od, A, b, pold["linearization_points"], dold["final_state"], dold["independent_inputs"], dold["final_time"][0], hh)
        ret = sch.compute_step_derivative(od, st, pert, hh)
        for who, x in (("", pert), ("returned ", ret)):
            for f, v in ref.items():
                close(getattr(x, f), v, f"{who}{f} after a further tangent step", 1e-8)
        for f, v in pold.items():
            exact(getattr(st, f), v, f"primal {f} modified by the tangent step")
    dv = sch.time_discretization_finalization_scheme_derivative(ode, st, pert, h)
    exact(np.ravel(dv.final_values), pert.final_state, "finalization derivative values")
    exact(np.ravel(dv.final_time), pert.final_time, "finalization derivative time")
    v = sch.time_discretization_finalization_scheme(ode, st, h)
    exact(np.ravel(v.final_values), st.final_state, "finalization values")
    exact(np.ravel(v.final_time), st.final_time, "finalization time")
    for nm, v in (("butcher_matrix", A), ("butcher_weight_vector", b), ("butcher_time_stages", c)):
        exact(getattr(tab, nm), v, f"tableau {nm} modified")


if __name__ == "__main__":
    main(sys.modules[__name__])
