from common import *
import copy
import numpy as np
import rk
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    RungeKuttaDiscretizationState, EmbeddedRungeKuttaDiscretizationState)
from rkopenmdao.time_integration_state import TimeIntegrationState
from rkopenmdao.checkpoint_interface.runge_kutta_integrator_pyrevolve_classes import RungeKuttaCheckpoint

TI = ["step_size_suggestion", "step_size_history", "error_history"]
STYLES = ["normal", "zeros_source", "close", "nan", "mixed", "const"]


DIAL = {"s": 60, "n": 2000, "q": 2000}


def cases(rng, tier):
    k = 0
    while k < (500 if tier == "quick" else 5000):
        k += 1
        yield dict(kind=["set", "dict", "checkpoint", "chain"][k % 4], seed=rng.randrange(10**6), s=rng.choice([1, 2, 3, 4, 7, 11, 12]),
                   n=rng.choice([0, 1, 2, 5]), q=rng.choice([0, 1, 3]), o=rng.choice([0, 1, 2]), m=rng.choice([0, 1, 4]),
                   k1=rng.choice([0, 1, 2, 3]), k2=rng.choice([0, 1, 2, 3]), embedded=bool((k // 4) % 2), whole=bool((k // 8) % 2), style=rng.choice(STYLES))


def make(c):
    cls = EmbeddedRungeKuttaDiscretizationState if c["embedded"] else RungeKuttaDiscretizationState
    d = cls(ode_state_size=c["n"], independent_input_size=c["q"], independent_output_size=c["o"], number_of_stages=c["s"], linearization_point_size=c["m"])
    if c["whole"] or c["kind"] == "checkpoint":
        return TimeIntegrationState(d, np.zeros(1), np.zeros(c["k1"]), np.zeros(c["k2"]))
    return d


def arrays(x, emb):
    d = {}
    ds = x
    if isinstance(x, TimeIntegrationState):
        ds = x.discretization_state
        d.update({f: getattr(x, f) for f in TI})
    d.update({f: getattr(ds, f) for f in rk.FIELDS + (rk.EMB if emb else [])})
    return d


def snap(x, emb):
    return {f: np.array(a) for f, a in arrays(x, emb).items()}


def fill(x, seed, emb, style="normal"):
    r = np.random.default_rng(seed)
    for i, (f, a) in enumerate(arrays(x, emb).items()):
        a[...] = r.normal(size=a.shape)
        if style == "zeros" or (style == "mixed" and r.random() < 0.5):
            a[...] = 0.0
        if style == "const":
            a[...] = float(i)
        if style == "nan" and a.size:
            a.ravel()[r.integers(a.size)] = r.choice([np.nan, np.inf, -np.inf, 1e300, 1e-300])


def same(x, want, emb, msg):
    for f, a in arrays(x, emb).items():
        need(isinstance(a, np.ndarray) and a.shape == want[f].shape, f"{msg}: {f} is no array of shape {want[f].shape}")
        need(np.array_equal(a, want[f], equal_nan=True), f"{msg}: {f} is {a.ravel()[:5].tolist()}, expected {want[f].ravel()[:5].tolist()}")


def disjoint(x, y, emb, msg):
    ax, ay = arrays(x, emb), arrays(y, emb)
    for f, a in ax.items():
        for g, b in ay.items():
            need(not np.shares_memory(a, b), f"{msg}: {f} shares memory with {g}")


def leaves(d):
    if isinstance(d, dict):
        return [l for v in d.values() for l in leaves(v)]
    return [d]


def run(c):
    emb, style = c["embedded"], c["style"]
    a = make(c)
    fill(a, c["seed"], emb)
    if c["kind"] == "set":
        b = make(c)
        fill(b, c["seed"] + (1 if style != "close" else 0), emb, {"zeros_source": "zeros"}.get(style, style))
        if style == "close":
            for x in arrays(b, emb).values():
                x += 1e-13
        want = snap(b, emb)
        objs = {f: (x, x.ctypes.data) for f, x in arrays(a, emb).items()}
        a.set(b)
        same(a, want, emb, "set copies")
        same(b, want, emb, "set changed its source")
        disjoint(a, b, emb, "set")
        for f, x in arrays(a, emb).items():
            need(x is objs[f][0] or np.shares_memory(x, objs[f][0]) or x.size == 0, f"set replaced the array {f} instead of writing into it")
        for f, (x, _) in objs.items():
            need(np.array_equal(x, want[f], equal_nan=True), f"set did not write into the existing array {f}")
        for x in arrays(b, emb).values():
            x += 3.0
        same(a, want, emb, "target follows later changes of the source")
        a.set(a)
        same(a, want, emb, "setting a state to itself")
    elif c["kind"] == "dict":
        fill(a, c["seed"], emb, {"zeros_source": "zeros"}.get(style, style))
        want = snap(a, emb)
        d = a.to_dict()
        same(a, want, emb, "to_dict changed the state")
        b = type(a).from_dict(d)
        same(b, want, emb, "from_dict(to_dict(x))")
        need(type(b) is type(a), "from_dict yields another type")
        if isinstance(a, TimeIntegrationState):
            need(type(b.discretization_state) is type(a.discretization_state), f"from_dict yields a {type(b.discretization_state).__name__}")
        ls = leaves(d)
        keep = [np.array(x) for x in ls]
        fill(a, c["seed"] + 5, emb)
        for x, k in zip(ls, keep):
            x[...] = k
        same(a, want, emb, "writing the exported arrays back")
        # the round trip of an independent copy (e.g. after storing the dict elsewhere)
        b = type(a).from_dict(copy.deepcopy(a.to_dict()))
        same(b, want, emb, "from_dict of a copied dictionary")
    elif c["kind"] == "checkpoint":
        fill(a, c["seed"], emb, {"zeros_source": "zeros"}.get(style, style))
        want = snap(a, emb)
        cp = RungeKuttaCheckpoint(a)
        data = cp.get_data(3)
        fill(a, c["seed"] + 5, emb)
        loc = cp.get_data_location(7)
        need(len(data) == len(loc), f"{len(data)} data for {len(loc)} locations")
        for x, y in zip(loc, data):
            need(np.shape(x) == np.shape(y), "data has another shape than its location")
            need(not any(np.shares_memory(y, z) for z in arrays(a, emb).values()), "checkpoint data is not a copy")
            x[...] = y
        same(a, want, emb, "restoring a checkpoint")
        need(cp.size == sum(x.size for x in data), f"size {cp.size} for {sum(x.size for x in data)} values")
        need(np.dtype(cp.dtype) == np.float64, "dtype")
    else:
        # a history of set calls between three states
        xs = [a, make(c), make(c)]
        for i, x in enumerate(xs):
            fill(x, c["seed"] + i, emb, style if i else "normal")
        vals = [snap(x, emb) for x in xs]
        r = random.Random(c["seed"])
        for _ in range(6):
            i, j = r.sample(range(3), 2)
            xs[i].set(xs[j])
            vals[i] = vals[j]
            k = r.randrange(3)
            fill(xs[k], r.randrange(10**6), emb)
            vals[k] = snap(xs[k], emb)
            for l in range(3):
                same(xs[l], vals[l], emb, f"history of set calls, state {l}")


if __name__ == "__main__":
    main(sys.modules[__name__])
