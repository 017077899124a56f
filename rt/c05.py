from common import *
import copy
import contextlib
import numpy as np
import rk
import c04
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    RungeKuttaDiscretizationState, EmbeddedRungeKuttaDiscretizationState)
from rkopenmdao.time_integration_state import TimeIntegrationState
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps, PredefinedFinalTime, TerminationCriterion
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer

MULTI = dict(kind="pyrevolve", rtype="MultiLevel", opts={"storage_list": {"Numpy": {"n_ckp": 5}, "Disk": {"n_ckp": 5}}}, N=12, seed=1, embedded=False, inplace=True, hist="fr")
OPTS = [("Memory", None), ("Memory", {}), ("Memory", {"n_checkpoints": 1}), ("Memory", {"n_checkpoints": 2}), ("Memory", {"n_checkpoints": 3}),
        ("Memory", {"n_checkpoints": 9}), ("Disk", {}), ("Disk", {"n_checkpoints": 2}), ("SingleLevel", {}), ("SingleLevel", {"n_checkpoints": 1}),
        ("SingleLevel", {"n_checkpoints": 2, "diskstorage": True}), (None, {"n_checkpoints": 4})]
NS = [1, 2, 3, 4, 5, 7, 12, 20, 30]
HIST = ["fr", "frfr", "ffr", "frffr", "frfrfr"]


DIAL = {"N": 3000}


def cases(rng, tier):
    yield dict(MULTI)
    i = 0
    while i < (700 if tier == "quick" else 7000):
        i += 1
        base = dict(seed=rng.randrange(10**6), embedded=bool(i % 2), inplace=rng.random() < 0.7, N=NS[i % len(NS)], hist=rng.choice(HIST))
        if i % 3 == 0:
            yield dict(base, kind="all", crit=rng.choice(["steps", "time", "state"]), N=rng.choice([0] + NS))
        elif i % 7 == 1:
            yield dict(base, kind="no", crit=rng.choice(["steps", "time", "state"]), N=rng.choice([0] + NS), hist="fff")
        else:
            rt, o = OPTS[(i // 2) % len(OPTS)]
            yield dict(base, kind="pyrevolve", rtype=rt, opts=o)


def signature(case, msg):
    if case == MULTI and "pop from an empty stack" in msg:
        return "multilevel-N12-5-5"
    return case["kind"]


class StateCrit(TerminationCriterion):
    """finished as soon as the first state entry reaches a bound"""

    def __init__(self, bound):
        self.bound = bound

    def is_iteration_finished(self, iteration, state):
        return bool(state.discretization_state.final_state[0] >= self.bound)


def run(c):
    emb = c["embedded"]
    cc = dict(embedded=emb, whole=True, kind="set", n=3, q=2, o=1, m=2, s=2 + c["seed"] % 3, k1=2, k2=2)
    N = c["N"]
    log = []
    pert_cc = dict(cc, k1=0, k2=0)

    def stepval(step, snap):
        """value after a step: depends on the number and on every field"""
        out = {}
        mix = sum(float(np.sum(np.cos(v))) * (j + 1) for j, v in enumerate(snap.values()))
        for j, (f, v) in enumerate(snap.items()):
            out[f] = np.sin(v + 0.1 * step + 0.01 * mix * (j + 1)) + np.arange(v.size).reshape(v.shape) * 0.1
        out["final_state"] = out["final_state"].copy()
        out["final_state"][0] = snap["final_state"][0] + 1.0
        out["final_time"] = snap["final_time"] + 0.25
        out["step_size_history"] = out["step_size_history"] + step
        return out

    def revval(step, snap, psnap):
        mix = sum(float(np.sum(np.sin(v))) * (j + 1) for j, v in enumerate(snap.values()))
        return {f: np.cos(v + 0.1 * step + 0.05 * mix * (j + 1)) for j, (f, v) in enumerate(psnap.items())}

    def write(st, val):
        for f, a in c04.arrays(st, emb).items():
            a[...] = val[f]

    def apply(st, val):
        if c["inplace"]:
            write(st, val)
            return st
        new = copy.deepcopy(st)
        write(new, val)
        return new

    def fwdf(step, st):
        s = c04.snap(st, emb)
        log.append(("f", step, s))
        return apply(st, stepval(step, s))

    def revf(step, st, p):
        s, ps = c04.snap(st, emb), c04.snap(p, emb)
        log.append(("r", step, s, ps))
        return apply(p, revval(step, s, ps))
    if c["kind"] == "pyrevolve" or c.get("crit") == "steps":
        crit = PredefinedNumberOfSteps(N)
    elif c["crit"] == "time":
        crit = PredefinedFinalTime(0.25 * N + 1.0)
    else:
        crit = StateCrit(N + 0.0)
    state, pert = c04.make(cc), c04.make(pert_cc)
    pert = TimeIntegrationState(pert.discretization_state, np.zeros(0), np.zeros(0), np.zeros(0))
    kw = dict(termination_criterion=crit, run_step_func=fwdf, run_step_jacvec_rev_func=revf, state=state, state_perturbation=pert)
    opts = keep = None
    if c["kind"] == "pyrevolve":
        if c["rtype"]:
            kw["revolver_type"] = c["rtype"]
        if c["opts"] is not None:
            opts = copy.deepcopy(c["opts"])
            for s in (opts.get("storage_list") or {}).values():
                s["dtype"] = float
            keep = copy.deepcopy(opts)
            kw["revolver_options"] = opts
    cls = dict(all=AllCheckpointer, no=NoCheckpointer, pyrevolve=PyrevolveCheckpointer)[c["kind"]]
    r = np.random.default_rng(c["seed"])

    def same(got, want, msg):
        for f in want:
            need(got[f].shape == want[f].shape and np.array_equal(got[f], want[f]), f"{msg}: {f} is {got[f].ravel()[:4].tolist()}, expected {want[f].ravel()[:4].tolist()}")
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
        ck = cls(**kw)
        traj = None
        for op in c["hist"]:
            log.clear()
            if op == "f":
                own = r.random() < 0.6
                init = state if own else c04.make(cc)
                c04.fill(init, int(r.integers(10**6)), emb)
                init.discretization_state.final_state[0] = 0.0
                init.discretization_state.final_time[0] = 1.0
                s0 = c04.snap(init, emb)
                ck.create_checkpointer()
                res = ck.iterate_forward(init)
                traj = [s0]
                for i in range(N):
                    traj.append(stepval(i + 1, traj[-1]))
                need([l[1] for l in log if l[0] == "f"] == list(range(1, N + 1)), f"forward steps {[l[1] for l in log][:40]} instead of 1..{N}")
                need(all(l[0] == "f" for l in log), "reverse step in a forward run")
                for l in log:
                    same(l[2], traj[l[1] - 1], f"state at the start of forward step {l[1]}")
                same(c04.snap(res, emb), traj[N], "result of the forward iteration")
            else:
                seed = pert if r.random() < 0.6 else copy.deepcopy(pert)
                c04.fill(seed, int(r.integers(10**6)), emb)
                p0 = c04.snap(seed, emb)
                res = ck.iterate_reverse(seed)
                rl = [l for l in log if l[0] == "r"]
                need([l[1] for l in rl] == list(range(N, 0, -1)), f"reverse steps {[l[1] for l in rl][:40]} instead of {N}..1")
                p = p0
                for l in rl:
                    same(l[2], traj[l[1]], f"state given to reverse step {l[1]}")
                    same(l[3], p, f"adjoint given to reverse step {l[1]}")
                    p = revval(l[1], traj[l[1]], p)
                for l in log:
                    if l[0] == "f":
                        same(l[2], traj[l[1] - 1], f"state at the start of recomputed step {l[1]}")
                same(c04.snap(res, emb), p, "result of the reverse iteration")
    if opts is not None:
        need(opts == keep, f"the options of the user were modified: {list(opts)}")


if __name__ == "__main__":
    main(sys.modules[__name__])
