from common import *
import threading
import numpy as np
import integ
import rk
from mpi4py import MPI
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.metadata_extractor import ArrayMetadata
from rkopenmdao.error_measurer import ErrorMeasurer, SimpleErrorMeasurer, ImprovedErrorMeasurer
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

CASE_TIMEOUT = 60


class Ring:
    """collective operations between threads that stand for the ranks"""

    def __init__(self, size):
        self.size, self.bar, self.buf = size, threading.Barrier(size, timeout=20), [None] * size

    def gather(self, rank, x):
        self.buf[rank] = x
        self.bar.wait()
        out = list(self.buf)
        self.bar.wait()
        return out


class Comm:
    def __init__(self, ring, rank):
        self.ring, self.rank, self.size = ring, rank, ring.size

    Get_rank = lambda self: self.rank
    Get_size = lambda self: self.size

    def allgather(self, x):
        return self.ring.gather(self.rank, x)

    def allreduce(self, x, op=MPI.SUM):
        a = self.allgather(x)
        if op == MPI.SUM:
            return sum(a[1:], a[0])
        if op == MPI.MAX:
            return max(a)
        if op == MPI.MIN:
            return min(a)
        if op == MPI.LAND:
            return all(a)
        if op == MPI.LOR:
            return any(a)
        raise RuntimeError("operation")

    def Allreduce(self, s, r, op=MPI.SUM):
        r[...] = self.allreduce(np.array(s, copy=True), op)

    def bcast(self, x, root=0):
        return self.allgather(x)[root]


def signature(case, msg):
    if case["kind"] == "partial":
        return "replicated-on-2-of-3-ranks" if "order 2.0: got [2.828" in msg else "partial"
    return case["kind"]


def cases(rng, tier):
    k = 0
    yield dict(kind="partial", seed=1)
    while k < (300 if tier == "quick" else 4000):
        k += 1
        if k % 6 == 0:
            yield dict(kind="step", seed=rng.randrange(10**6), N=rng.choice([1, 2, 3]), rel=rng.random() < 0.5)
            continue
        Q = rng.choice([1, 2, 3, 5, 12])
        yield dict(kind="norm", seed=rng.randrange(10**6), Q=Q, ranks=rng.choice([1, 1, 2, 3]), order=rng.choice(["inf", 1, 1.0, 1.5, 2, 2.0, 3, 4, "default"]),
                   excl=rng.choice([None, [], [0], [Q - 1], [0, 1], [1], [10], list(range(Q)), ["other"]]), dist=[rng.random() < 0.5 for _ in range(Q)], empty=rng.random() < 0.3,
                   eta=rng.choice([1e-6, 1e-3, 0.5]), eps=rng.choice([1e-6, 1e-2, 2.0]), zero=rng.random() < 0.1, warm=rng.random() < 0.3)


def norm(x, p):
    x = np.abs(x)
    if x.size == 0:
        return 0.0
    return float(np.max(x)) if p == np.inf else float(np.sum(x ** p) ** (1.0 / p))


def run(c):
    r = np.random.default_rng(c["seed"])
    if c["kind"] == "step":
        return step(c, r)
    if c["kind"] == "partial":
        return partial(c)
    Q, R = c["Q"], c["ranks"]
    p = {"inf": np.inf, "default": 2.0}.get(c["order"], c["order"])
    m = integ.Model(c["seed"], [[1]] * Q, [[1]])
    excl = None if c["excl"] is None else [e if e == "other" else m.un[e] for e in c["excl"] if e == "other" or e < Q]
    dist = c["dist"] if R > 1 else [False] * Q
    glob = [r.normal(size=int(r.integers(1, 5)) + (R if d else 0)) * (0 if c["zero"] else 1) for d in dist]
    glob2 = [g + r.normal(size=g.size) for g in glob]
    ring = Ring(R)
    cuts = []
    for g, d in zip(glob, dist):
        k = sorted(r.integers(0, g.size + 1, R - 1)) if d and c["empty"] else [g.size * (i + 1) // R for i in range(R - 1)]
        cuts.append([0] + list(k) + [g.size])
    odes, states = [], []
    for rank in range(R):
        prob = integ.stage_problem(m)
        with integ.quiet():
            prob.setup()
            prob.final_setup()
        kw = {} if c["order"] == "default" else dict(norm_order=p)
        ode = OpenMDAOODE(prob, m.un, m.pn, norm_exclusions=excl, **kw)
        pos, parts, parts2 = 0, [], []
        loc = {}
        for q in ode.time_integration_metadata.time_integration_quantity_list:
            i = m.un.index(q.name)
            lo, hi = (cuts[i][rank], cuts[i][rank + 1]) if dist[i] else (0, glob[i].size)
            q.array_metadata = ArrayMetadata(shape=(int(hi - lo),), global_shape=(glob[i].size,), local=hi > lo or bool(r.integers(0, 2)), distributed=dist[i], start_index=pos, end_index=pos + int(hi - lo),
                                             global_start_index=int(lo), global_end_index=int(hi))
            pos += int(hi - lo)
            parts.append(glob[i][lo:hi])
            parts2.append(glob2[i][lo:hi])
        prob.comm = Comm(ring, rank)
        odes.append(ode)
        mk = lambda ps: DiscretizedODEResultState(r.normal(size=pos), np.concatenate(ps + [np.zeros(0)]), r.normal(size=2))
        states.append((mk(parts), mk(parts2)))
    M = ImprovedErrorMeasurer(c["eta"], c["eps"])
    out = [None] * R

    def work(rank):
        try:
            o = odes[rank]
            a, b = states[rank]
            before = [x.copy() for x in (a.stage_state, b.stage_state)]
            if c["warm"]:
                o.compute_state_norm(b)
            res = (o.compute_state_norm(a), o.compute_state_norm(b), SimpleErrorMeasurer().get_measure(a, b, o), M.get_measure(a, b, o), ImprovedErrorMeasurer().get_measure(a, b, o))
            same = np.array_equal(before[0], a.stage_state) and np.array_equal(before[1], b.stage_state)
            out[rank] = res + (same,)
        except BaseException as e:
            out[rank] = e
            ring.bar.abort()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(R)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for o in out:
        if isinstance(o, BaseException) and not isinstance(o, threading.BrokenBarrierError):
            raise o
    for o in out:
        if isinstance(o, BaseException):
            raise o
    keep = [i for i in range(Q) if excl is None or m.un[i] not in excl]
    n1 = norm(np.concatenate([glob[i] for i in keep] + [np.zeros(0)]), p)
    n2 = norm(np.concatenate([glob2[i] for i in keep] + [np.zeros(0)]), p)
    for rank, o in enumerate(out):
        w = f"rank {rank} of {R}: "
        close(o[0], n1, w + f"norm of order {p}")
        close(o[1], n2, w + f"norm of order {p}")
        close(o[2], n1, w + "simple measure")
        close(o[3], n1 / (n2 + c["eta"] / c["eps"]), w + "relative measure")
        close(o[4], n1 / (n2 + 1.0), w + "relative measure with default tolerances")
        need(o[5], w + "the norm changes the state")


def partial(c):
    """a quantity that two of three ranks hold in full (a component on two ranks of a ParallelGroup) and the third does not:
    the layout that extract_time_integration_metadata and add_distributivity_information produce for it"""
    m = integ.Model(c["seed"], [[1]], [[1]])
    ring, odes = Ring(3), []
    for rank in range(3):
        prob = integ.stage_problem(m)
        with integ.quiet():
            prob.setup()
            prob.final_setup()
        ode = OpenMDAOODE(prob, m.un, m.pn)
        n = 1 if rank < 2 else 0
        ode.time_integration_metadata.time_integration_quantity_list[0].array_metadata = ArrayMetadata(
            shape=(n,), global_shape=(1,), local=bool(n), distributed=True, start_index=0, end_index=n, global_start_index=0, global_end_index=n)
        prob.comm = Comm(ring, rank)
        odes.append(ode)
    out = [None] * 3

    def work(rank):
        n = 1 if rank < 2 else 0
        try:
            out[rank] = odes[rank].compute_state_norm(DiscretizedODEResultState(np.zeros(n), np.full(n, 2.0), np.zeros(1)))
        except BaseException as e:
            out[rank] = e
            ring.bar.abort()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(3)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for o in out:
        if isinstance(o, BaseException):
            raise o
        close(o, 2.0, "quantity held by two of three ranks: norm of order 2.0")


class Recorder(ErrorMeasurer):
    def __init__(self, inner):
        self.inner, self.got = inner, []

    def get_measure(self, state_error_estimate, state, ode):
        v = self.inner.get_measure(state_error_estimate, state, ode)
        self.got.append((state_error_estimate.stage_state.copy(), state.stage_state.copy(), float(v)))
        return v


def step(c, r):
    """measures of an adaptive run: reference trial steps with the step sizes observed at the controller"""
    tab, A, b, cc, e = rk.tableau(c["seed"], 1 + c["seed"] % 3, True)
    m = integ.Model(c["seed"], [[2], [1]], [[1]])
    rec = Recorder(ImprovedErrorMeasurer(1e-2, 1e-1) if c["rel"] else SimpleErrorMeasurer())
    sizes = []
    h0 = 0.25

    class Spy(ErrorController):
        def __call__(self, **k):
            st = super().__call__(**k)
            sizes.append((float(k["delta_t"]), float(k["error_measure"]), bool(st.acceptance)))
            return st

    def factory(p, config=None, name="spy", base=None):
        return Spy(alpha=1 / (1 + p), config=config or ErrorControllerConfig(), name=name)
    rki, prob = integ.integrator(m, tab, PredefinedNumberOfSteps(c["N"]), h0, True, error_measurer=rec, error_controller=[factory],
                                 error_controller_options=dict(config=ErrorControllerConfig(tol=1e-2, lower_bound=1e-2, upper_bound=0.5)))
    d = integ.Driver(m, rki, prob)
    try:
        d.compute(m.x0, m.p0, 0.25)
    except Exception as ex:
        if type(ex).__name__ not in ("InnerErrorControllerError", "OuterErrorControllerError"):
            raise
        return
    need(len(sizes) == len(rec.got), f"{len(rec.got)} measures for {len(sizes)} trial steps")
    t, x = 0.25, m.x0.copy()
    for (h, em, st), (est, state, v) in zip(sizes, rec.got):
        xn, K = m.step(tab, t, x, m.p0, h)
        close(est, h * ((b - e) @ K), "error estimate measured", 1e-8)
        close(state, xn, "state measured", 1e-8)
        n = np.linalg.norm(h * ((b - e) @ K))
        close(v, n / (np.linalg.norm(xn) + 0.1) if c["rel"] else n, "measure", 1e-8)
        close(em, v, "measure passed to the controller", 1e-12)
        if st:
            t, x = t + h, xn


if __name__ == "__main__":
    main(sys.modules[__name__])
