from common import *
import numpy as np
import rk
import integ
from rkopenmdao.callback import Callback, IterationLogging, WallClockMeasurement
from rkopenmdao.error_controllers import integral
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps, PredefinedFinalTime

CASE_TIMEOUT = 60
REV = [("Memory", {}), ("Memory", {"n_checkpoints": 1}), ("Memory", {"n_checkpoints": 2}), ("Disk", {}), ("SingleLevel", {"n_checkpoints": 2})]


DIAL = {"N": 300}


def cases(rng, tier):
    k = 0
    while k < (200 if tier == "quick" else 3000):
        k += 1
        ck = ["all", "pyrevolve", "no"][k % 3]
        ops = [rng.choice(["primal", "fwd"] + ["rev"] * 2 * (ck != "no")) + str(rng.randrange(2)) for _ in range(rng.choice([1, 2, 3, 5]))]
        yield dict(kind=ck, seed=rng.randrange(10**6), s=1 + k % 4, N=rng.choice([1, 2, 3, 5, 9]), shapes=rng.choice([[[2]], [[2, 2], [1]]]),
                   adaptive=k % 4 == 0 and ck != "pyrevolve", crit=rng.choice(["steps", "time"]), ops=ops,
                   n=[rng.choice([0, 1, 1, 2, 3]) for _ in range(3)], rt=rng.randrange(len(REV)), shipped=k % 9 == 0)


class Rec(Callback):
    def __init__(self, log, mode, i):
        self.log, self.mode, self.i = log, mode, i

    def add(self, phase, iteration, st, ode, scheme):
        d = st.discretization_state
        self.log.append((self.mode, phase, self.i, iteration, {f: np.array(getattr(d, f)) for f in ("start_state", "final_state", "start_time", "final_time", "stage_updates", "independent_inputs")},
                         type(ode).__name__, type(scheme).__name__))

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.add("before", iteration, time_integration_state, ode, discretization_scheme)

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.add("after", iteration, time_integration_state, ode, discretization_scheme)


def groups(log, n, what):
    """the log as a list of steps: each a run of n befores in list order, then n afters, all with one number and mode"""
    out, pos = [], 0
    while pos < len(log):
        m, it = log[pos][0], log[pos][3]
        k = n[m]
        part = log[pos:pos + 2 * k]
        need([(e[0], e[1], e[2], e[3]) for e in part] == [(m, ph, i, it) for ph in ("before", "after") for i in range(k)],
             f"{what}: calls {[(e[0], e[1], e[2], e[3]) for e in part]}")
        need(all("ODE" in e[5] and "Discretization" in e[6] for e in part), f"{what}: wrong ODE or discretization {part[0][5:]}")
        out.append((m, it, part[0][4], part[k][4]))
        need(all(all(np.array_equal(a[4][f], part[j][4][f]) for f in a[4]) for j in (0, k) for a in part[j:j + k]), f"{what}: callbacks of one list see different data")
        pos += 2 * k
    return out


def run(c):
    r = np.random.default_rng(c["seed"])
    tab, A, b, cc, e = rk.tableau(c["seed"], c["s"], c["adaptive"])
    m = integ.Model(c["seed"], c["shapes"], [[2]])
    h0 = float(r.choice([0.1, 0.25]))
    T = 0.9 * h0 * c["N"] + 0.45 if c["adaptive"] else 0.2 + h0 * (c["N"] - 0.5)
    crit = PredefinedNumberOfSteps(c["N"]) if c["crit"] == "steps" or c["kind"] == "pyrevolve" else PredefinedFinalTime(T)
    log = []
    modes = ("primal", "fwd", "rev")
    n = dict(zip(modes, c["n"]))
    mk = {mo: [Rec(log, mo, i) for i in range(n[mo])] for mo in modes}
    if c["shipped"]:
        for mo in modes:
            mk[mo] = mk[mo] + [IterationLogging(mo), WallClockMeasurement()]
    opts = dict(error_controller=[integral], error_controller_options=dict(config=ErrorControllerConfig(tol=1e-2, lower_bound=1e-2, upper_bound=0.5))) if c["adaptive"] else {}
    if c["kind"] == "pyrevolve":
        ty, o = REV[c["rt"]]
        opts["checkpoint_options"] = dict(revolver_type=ty, revolver_options=dict(o))
    rki, prob = integ.integrator(m, tab, crit, h0, c["adaptive"], checkpointing_type={"all": AllCheckpointer, "no": NoCheckpointer, "pyrevolve": PyrevolveCheckpointer}[c["kind"]],
                                 compute_callbacks=mk["primal"], compute_jacvec_product_fwd_callbacks=mk["fwd"],
                                 compute_jacvec_product_rev_callbacks=mk["rev"], **opts)
    d = integ.Driver(m, rki, prob)
    inp = [(m.x0, m.p0, 0.2), (m.x0 + 0.2, m.p0 - 0.1, 0.2)]
    need(not log, "callbacks are called during setup")
    refs = {}

    def ref(k):
        """start, end, times of every step for these inputs, from an integrator of its own (fixed: from the reference formulas)"""
        if k not in refs:
            if c["adaptive"]:
                lg = []
                rk2, pr2 = integ.integrator(m, tab, crit, h0, True, compute_callbacks=[Rec(lg, "primal", 0)], compute_jacvec_product_fwd_callbacks=[], compute_jacvec_product_rev_callbacks=[], **opts)
                integ.Driver(m, rk2, pr2).compute(*inp[k])
                hs = [float(x[4]["final_time"][0] - x[4]["start_time"][0]) for x in lg if x[1] == "after"]
            else:
                hs = [h0] * c["N"]
            x, p, t = inp[k]
            tr, ks = [(t, x)], []
            for h in hs:
                x, K = m.step(tab, t, x, p, h)
                t = t + h
                tr.append((t, x))
                ks.append(K)
            refs[k] = (tr, ks)
        return refs[k]
    for j, op in enumerate(c["ops"]):
        k, op = int(op[-1]), op[:-1]
        tr, ks = ref(k)
        N = len(ks)
        what = f"request {j} ({op})"
        x, p, t = inp[k]
        del log[:]
        if op == "primal":
            d.compute(x, p, t)
        elif op == "fwd":
            d.fwd(x, p, t, np.ones(m.n), np.ones(m.q), 0.3)
        else:
            d.rev(x, p, t, np.ones(m.n), 0.3)
        g = groups(log, n, what)
        for mo, it, b4, af in g:
            need(isinstance(it, (int, np.integer)) and 1 <= it <= N, f"{what}: {mo} callback with step number {it} of {N}")
            if mo != "rev":
                close(b4["final_state"], tr[it - 1][1], f"{what}: state shown before {mo} step {it}", 1e-8)
                close(b4["final_time"], [tr[it - 1][0]], f"{what}: time shown before {mo} step {it}", 1e-8)
            for f, want in (("start_state", tr[it - 1][1]), ("start_time", [tr[it - 1][0]]), ("final_time", [tr[it][0]]), ("final_state", tr[it][1]), ("independent_inputs", p)):
                if mo == "rev" and c["kind"] == "pyrevolve" and f in ("final_state", "final_time"):
                    continue
                close(af[f], want, f"{what}: {f} shown after {mo} step {it}", 1e-8)
                if mo == "rev":
                    close(b4[f], want, f"{what}: {f} shown before {mo} step {it}", 1e-8)
            close(af["stage_updates"].ravel(), ks[it - 1].ravel(), f"{what}: stage updates shown after {mo} step {it}", 1e-7)
        seq = [(mo, it) for mo, it, _, _ in g]
        fwd_steps = [("primal", i + 1) for i in range(N)] if n["primal"] else []
        if op == "primal":
            need(seq == fwd_steps, f"{what}: steps {seq}")
        elif op == "fwd":
            need(seq == ([("fwd", i + 1) for i in range(N)] if n["fwd"] else []), f"{what}: steps {seq}")
        else:
            need([i for mo, i in seq if mo == "rev"] == (list(range(N, 0, -1)) if n["rev"] else []), f"{what}: reverse steps {seq}")
            need(all(mo != "fwd" for mo, _ in seq), f"{what}: forward-mode callbacks called: {seq}")
            prim = [x2 for x2 in seq if x2[0] == "primal"]
            if c["kind"] == "all":
                need(prim in ([], fwd_steps), f"{what}: primal steps {prim}")
                need(seq[:len(prim)] == prim, f"{what}: order {seq}")
            else:
                # recomputed steps lie at or below the next reverse step
                nxt = N
                for mo, i in seq:
                    if mo == "rev":
                        nxt = i - 1
                    elif n["rev"]:
                        need(i <= nxt, f"{what}: step {i} is recomputed after reverse step {nxt + 1}: {seq}")


if __name__ == "__main__":
    main(sys.modules[__name__])
