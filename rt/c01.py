from common import *
import numpy as np
import rk
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedRungeKuttaDiscretization, StageOrderedEmbeddedRungeKuttaDiscretization)


DIAL = {"s": 24, "n": 400, "steps": 300}


def cases(rng, tier):
    k = 0
    while k < (400 if tier == "quick" else 4000):
        k += 1
        yield dict(kind="step", seed=rng.randrange(10**6), s=1 + k % 9, n=rng.choice([1, 2, 3, 5]), q=rng.choice([0, 1, 3]),
                   o=rng.choice([0, 2]), embedded=bool(k % 2), explicit=rng.random() < 0.3, steps=rng.choice([1, 2, 3]), hist=rng.choice([0, 6]),
                   h=rng.choice([0.1, 0.37, -0.2, 1.0]))


def run(case):
    emb = case["embedded"]
    tab, A, b, c, e = rk.tableau(case["seed"], case["s"], emb, case["explicit"])
    odes = [rk.RefODE(case["seed"] + 31 * i, case["n"], case["q"], case["o"]) for i in range(2)]
    sch = (StageOrderedEmbeddedRungeKuttaDiscretization if emb else StageOrderedRungeKuttaDiscretization)(tab)
    sts = [rk.fill(sch.create_empty_discretization_state(odes[0]), case["seed"] + i, emb) for i in range(2)]
    rng = random.Random(case["seed"])
    h, ode, st = case["h"], odes[0], sts[0]
    for k in range(case["steps"] + case.get("hist", 0)):
        if k >= case["steps"]:          # other histories: same or other objects, refilled in place, same or other step size
            act = rng.randrange(6)
            if act == 0:
                st = sts[rng.randrange(2)]
            elif act == 1:
                ode = odes[rng.randrange(2)]
            elif act == 2:
                rk.fill(st, case["seed"] + 100 + k, emb)
            elif act == 3:
                st.independent_inputs[...] = np.random.default_rng(k).normal(size=case["q"])
            elif act == 4:
                st.final_state[...] = np.array(st.start_state)
                st.final_time[...] = np.array(st.start_time)
            else:
                h = rng.choice([0.1, 0.37, -0.2, 1.0])
        old = rk.snap(st, emb)
        ref = rk.ref_step(ode, A, b, c, e, old["final_state"], old["independent_inputs"], old["final_time"][0], h)
        ode.calls.clear()
        ret = sch.compute_step(ode, st, h)
        for who, x in (("", st), ("returned ", ret)):
            for f, v in ref.items():
                close(getattr(x, f), v, f"{who}{f} after step {k}", 1e-9)
        need(len(ode.calls) == case["s"], f"ODE evaluated {len(ode.calls)} times for {case['s']} stages")
        for i, (z, hh, aa) in enumerate(ode.calls):
            close(z, ref["linearization_points"][i], f"arguments of stage {i}")
            close([hh, aa], [h, A[i, i]], f"step size and stage factor of stage {i}")
        if k < case["steps"]:
            h = h * 0.9
    for nm, v in (("butcher_matrix", A), ("butcher_weight_vector", b), ("butcher_time_stages", c)):
        exact(getattr(tab, nm), v, f"tableau {nm} modified")
    if emb:
        exact(tab.butcher_adaptive_weights, e, "tableau embedded weights modified")


if __name__ == "__main__":
    main(sys.modules[__name__])
