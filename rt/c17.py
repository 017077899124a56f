from common import *
import ast
import numpy as np
from rkopenmdao import butcher_tableaux as B
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau


def trees(n):
    out = set()

    def parts(m, mx):
        if m == 0:
            yield ()
            return
        for k in range(min(m, mx), 0, -1):
            for t in trees(k):
                for r in parts(m - k, k):
                    yield (t,) + r
    for p in parts(n - 1, n - 1):
        out.add(tuple(sorted(p)))
    return sorted(out)


def order(t):
    return 1 + sum(map(order, t))


def gamma(t):
    r = order(t)
    for x in t:
        r *= gamma(x)
    return r


def phi(A, t):
    v = np.ones(len(A))
    for x in t:
        v = v * (A @ phi(A, x))
    return v


def cases(rng, tier):
    names = [n for n, t in vars(B).items() if isinstance(t, ButcherTableau)]
    for n in sorted(set(names) | set(B.__all__)):
        yield dict(name=n)


def run(c):
    t = getattr(B, c["name"], None)
    need(isinstance(t, ButcherTableau), f"{c['name']} is not a tableau")
    A, b, s = t.butcher_matrix, t.butcher_weight_vector, t.number_of_stages()
    need(A.shape == (s, s) and b.shape == (s,) and t.butcher_time_stages.shape == (s,), "shapes")
    need(A.dtype == np.float64 and b.dtype == np.float64, "precision of the coefficients")
    need(not np.any(np.triu(A, 1)), "neither explicit nor diagonally implicit")
    need(t.is_explicit() or t.is_diagonally_implicit(), "classified as implicit")
    need(np.max(np.abs(A.sum(1) - t.butcher_time_stages)) <= 1e-10, "row sums")
    todo = [("", b, t.p)]
    if isinstance(t, EmbeddedButcherTableau):
        e = t.butcher_adaptive_weights
        need(e.shape == (s,) and np.max(np.abs(e - b)) > 1e-8, "embedded weights")
        todo.append(("embedded ", e, t.phat))
    for what, w, p in todo:
        need(p >= 1, "order")
        for k in range(1, p + 1):
            for x in trees(k):
                r = w @ phi(A, x) - 1 / gamma(x)
                need(abs(r) <= 1e-10, f"{what}order {k}: residual {r:.2e} of the condition of tree {x}")


if __name__ == "__main__":
    main(sys.modules[__name__])
