from common import *
import warnings
import numpy as np
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau


DIAL = {"s": 40}


def cases(rng, tier):
    k = 0
    while k < (1500 if tier == "quick" else 20000):
        k += 1
        yield dict(seed=rng.randrange(10**6), s=rng.choice([1, 2, 3, 4, 5, 7, 9]), kind=rng.choice(["explicit", "diag", "one", "dense", "bad", "bad"]), emb=rng.random() < 0.5,
                   c=rng.choice(["none", "rows", "above", "below"]), w=rng.choice(["one", "above", "below"]), tiny=rng.random() < 0.3, bad=rng.choice(["matrix", "b", "c", "e"]))


def run(c):
    r = np.random.default_rng(c["seed"])
    s = c["s"]
    A = r.normal(size=(s, s))
    A = np.tril(A, -1) if c["kind"] in ("explicit", "one", "bad") else np.tril(A) * (1.0 if r.random() < 0.5 else (np.arange(s) == r.integers(0, s))[:, None] * np.eye(s) + np.tril(np.ones((s, s)), -1)) if c["kind"] == "diag" else A
    if c["kind"] == "one":
        i, j = sorted(r.integers(0, s, 2))
        A[i, j] = 1e-300 if c["tiny"] else r.choice([-1.0, 2.0, np.nan, np.inf][:2])
    b = r.random(s) + 0.1
    b = b / b.sum() * r.choice([1.0, 1.0])
    d = lambda how: 0.0 if how in ("one", "rows") else float(r.choice([-1, 1])) * (1.3e-5 if how == "above" else 0.7e-5)
    b[r.integers(0, s)] += d(c["w"])
    rows = A.sum(1)
    cc = None
    if c["c"] != "none":
        cc = rows.copy()
        cc[r.integers(0, s)] += d(c["c"])
    e = r.normal(size=s)
    p, ph = int(r.integers(1, 6)), int(r.integers(1, 6))
    kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=cc, p=p, name="N")
    cls = ButcherTableau
    if c["emb"]:
        cls = EmbeddedButcherTableau
        kw.update(butcher_adaptive_weights=e, phat=ph)
    if c["kind"] == "bad":
        other = s + int(r.integers(1, 3)) if s == 1 or r.random() < 0.5 else int(r.integers(1, s))
        if c["bad"] == "matrix":
            kw["butcher_matrix"] = r.normal(size=[(s, other), (other, s), (other, other)][r.integers(0, 3)])
        elif c["bad"] == "b":
            kw["butcher_weight_vector"] = np.ones(other) / other
        elif c["bad"] == "c" or not c["emb"]:
            kw["butcher_time_stages"] = np.zeros(other)
        else:
            kw["butcher_adaptive_weights"] = np.zeros(other)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cls(**kw)
        except Exception:
            return
        raise Violation(f"inconsistent sizes accepted: {c['bad']} of size {other} with {s} stages")
    keep = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        t = cls(**kw)
    want = int(c["w"] == "above") + int(c["c"] == "above")
    need(len(w) == want, f"{len(w)} warnings instead of {want}")
    up, di = np.any(np.triu(A, 1) != 0), np.any(np.diag(A) != 0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tabs = [(t, b, p)]
        if c["emb"]:
            tabs += [(t.main_method, b, p), (t.embedded_method, e, ph)]
            need(t.is_embedded and t.min_p_order() == min(p, ph) and t.phat == ph and t.p == p, "orders")
            exact(t.butcher_adaptive_weights, e, "embedded weights")
            base = ButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=cc, p=p)
            t2 = EmbeddedButcherTableau.from_butchertableau(base, e, ph)
            exact(t2.butcher_adaptive_weights, e, "embedded weights")
            need(t2.phat == ph and t2.p == p, "orders")
            tabs.append((t2, b, p))
        for x, wv, o in tabs:
            need(bool(x.is_explicit()) == (not up and not di), "is_explicit")
            need(bool(x.is_diagonally_implicit()) == (bool(di) and not up), "is_diagonally_implicit")
            need(bool(x.is_implicit()) == bool(up), "is_implicit")
            exact(x.butcher_matrix, A, "matrix")
            exact(x.butcher_weight_vector, wv, "weights")
            close(x.butcher_time_stages, rows if cc is None else cc, "abscissae", 1e-13)
            need(x.p == o and x.number_of_stages() == s and len(x) == s, "order and size")
            if x is not t and not getattr(x, "is_embedded"):
                need(x.min_p_order() == o, "minimal order")
    for k, v in keep.items():
        exact(kw[k], v, "arguments")


if __name__ == "__main__":
    main(sys.modules[__name__])
