from common import *
import numpy as np
import rk
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedRungeKuttaDiscretization, StageOrderedEmbeddedRungeKuttaDiscretization)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues, TimeDiscretizationFinalizationValues)
from c02 import ref_tangent


DIAL = {"s": 24, "n": 400}


def cases(rng, tier):
    k = 0
    while k < (400 if tier == "quick" else 4000):
        k += 1
        yield dict(kind="adjoint", seed=rng.randrange(10**6), s=1 + k % 9, n=rng.choice([1, 2, 3, 5]), q=rng.choice([0, 1, 3]),
                   o=rng.choice([0, 2]), embedded=bool(k % 2), explicit=rng.random() < 0.3, h=rng.choice([0.1, 0.37, -0.2, 1.0]),
                   hist=rng.choice([0, 5]))


def run(case):
    emb = case["embedded"]
    tab, A, b, c, e = rk.tableau(case["seed"], case["s"], emb, case["explicit"])
    ode = rk.RefODE(case["seed"], case["n"], case["q"], case["o"])
    sch = (StageOrderedEmbeddedRungeKuttaDiscretization if emb else StageOrderedRungeKuttaDiscretization)(tab)
    r = np.random.default_rng(case["seed"])
    h = case["h"]
    st = rk.fill(sch.create_empty_discretization_state(ode), case["seed"] + 3, emb)
    adj = rk.fill(sch.create_empty_discretization_state(ode), case["seed"] + 5, emb)
    rng, od, hh = random.Random(case["seed"]), ode, h
    ode2 = rk.RefODE(case["seed"] + 31, case["n"], case["q"], case["o"])
    for k in range(1 + case.get("hist", 0)):
        act = rng.randrange(6) if k else -1      # other histories on the same objects
        if act == 0:
            od = ode2 if od is ode else ode
        elif act == 1:
            rk.fill(st, case["seed"] + 100 + k, emb)
        elif act == 2:
            rk.fill(adj, case["seed"] + 200 + k, emb)
        elif act == 3:
            adj.independent_inputs[...] = 0.0
        elif act == 4:
            adj.stage_states[...] = 0.0
            st.linearization_points[...] = np.random.default_rng(k).normal(size=st.linearization_points.shape)
        elif act == 5:
            hh = rng.choice([0.1, 0.37, -0.2, 1.0])
        lp = np.array(st.linearization_points)
        pold, old = rk.snap(st, emb), rk.snap(adj, emb)
        ret = sch.compute_step_adjoint_derivative(od, st, adj, hh)
        for t in range(3):
            dx, dp, dt = r.normal(size=case["n"]), r.normal(size=case["q"]), r.normal()
            tg = ref_tangent(od, A, b, lp, dx, dp, dt, hh)
            lhs = old["final_state"] @ tg["final_state"] + old["final_time"][0] * tg["final_time"][0] + np.sum(old["stage_states"] * tg["stage_states"])
            scale = 1.0 + max(np.max(np.abs(v), initial=0.0) for v in (*old.values(), tg["final_state"], tg["stage_states"]))
            for who, x in (("", adj), ("returned ", ret)):
                for xs, ts in (("final_state", "final_time"), ("start_state", "start_time")):
                    rhs = getattr(x, xs) @ dx + float(np.ravel(getattr(x, ts))[0]) * dt + (x.independent_inputs - old["independent_inputs"]) @ dp
                    big = max(scale, np.max(np.abs(getattr(x, xs)), initial=0.0))
                    close(rhs / big, lhs / big, f"{who}inner product with the adjoint ({xs}, {ts}), round {k}", 1e-8)
        for f, v in pold.items():
            exact(getattr(st, f), v, f"primal {f} modified by the adjoint step")
    for nm, v in (("butcher_matrix", A), ("butcher_weight_vector", b), ("butcher_time_stages", c)):
        exact(getattr(tab, nm), v, f"tableau {nm} modified")
    # starting / finalization adjoints
    w = rk.fill(sch.create_empty_discretization_state(ode), case["seed"] + 6, emb)
    wold = rk.snap(w, emb)
    sv = TimeDiscretizationStartingValues(r.normal(), r.normal(size=case["n"]), r.normal(size=case["q"]))
    dsv = TimeDiscretizationStartingValues(r.normal(), r.normal(size=case["n"]), r.normal(size=case["q"]))
    d = rk.snap(sch.time_discretization_starting_scheme_derivative(ode, sv, dsv, h), emb)
    a = sch.time_discretization_starting_scheme_adjoint_derivative(ode, sv, w, h)
    close(a.initial_values @ dsv.initial_values + a.independent_inputs @ dsv.independent_inputs + float(np.ravel(a.initial_time)[0]) * dsv.initial_time,
          sum(np.sum(wold[f] * d[f]) for f in d if f != "step_size"), "starting scheme adjoint inner product")
    fv = TimeDiscretizationFinalizationValues(np.array([r.normal()]), r.normal(size=case["n"]), r.normal(size=case["o"]))
    dfin = rk.fill(sch.create_empty_discretization_state(ode), case["seed"] + 8, emb)
    do = rk.snap(dfin, emb)
    dv = sch.time_discretization_finalization_scheme_derivative(ode, st, dfin, h)
    af = rk.snap(sch.time_discretization_finalization_scheme_adjoint_derivative(ode, st, fv, h), emb)
    close(sum(np.sum(af[f] * do[f]) for f in af),
          fv.final_values @ dv.final_values + fv.final_independent_outputs @ dv.final_independent_outputs + fv.final_time[0] * np.ravel(dv.final_time)[0],
          "finalization adjoint inner product")


if __name__ == "__main__":
    main(sys.modules[__name__])
