from common import *
from fractions import Fraction as F
import numpy as np
import rk
import integ
from rkopenmdao.error_measurer import SimpleErrorMeasurer
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps
from rkopenmdao import error_controllers as ecs
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig, ErrorControllerDecorator

TABLE = {"h_211": (F(1, 4), F(-1, 4), 0, F(-1, 4), 0), "h0_211": (F(1, 2), F(-1, 2), 0, F(-1, 2), 0), "pc": (2, 1, 0, 1, 0), "h0_220": (2, 1, 0, 1, 0),
         "pid": (F(1, 18), F(-1, 9), F(1, 18), 0, 0), "h_312": (F(1, 8), F(-1, 4), F(1, 8), F(-3, 8), F(-1, 8)),
         "h0_312": (F(1, 4), F(-1, 2), F(1, 4), F(-3, 4), F(-1, 4)), "ppid": (F(6, 20), F(-1, 20), F(-5, 20), 1, 0),
         "h_321": (F(1, 3), F(-1, 18), F(-5, 18), F(5, 6), F(1, 6)), "h0_321": (F(5, 4), F(-1, 2), F(-3, 4), F(1, 4), F(3, 4)), "h0_330": (3, 3, 1, 2, -1)}
GEN = ("h_312_general", "h_321_general", "h_330_general")


def cases(rng, tier):
    for p in range(1, 13):
        for n in list(TABLE) + list(GEN) + ["integral", "h0_110", "pseudo"]:
            for m in (0, 1, 2):
                yield dict(kind="factory", name=n, p=p, depth=m, seed=rng.randrange(10**6))
        yield dict(kind="chain", n=p % 4 + 1, orders=[rng.randrange(1, 7), rng.randrange(1, 7)], embedded=p % 3 != 0, seed=rng.randrange(10**6))


def chain(case):
    """the integrator hands every listed controller the lower order, the options and the one before"""
    _, A, b, c, e = rk.tableau(case["seed"], 2, case["embedded"])
    p0, ph = case["orders"]
    kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=p0)
    tab = EmbeddedButcherTableau(butcher_adaptive_weights=e, phat=ph, **kw) if case["embedded"] else ButcherTableau(**kw)
    cfg = ErrorControllerConfig(tol=0.25)
    made = []

    def mk(k):
        def f(p, config=None, name="Controller", base=None):
            c = (ErrorControllerDecorator(alpha=0.1 * k, error_controller=base, name=f"N{k}") if base else ErrorController(alpha=0.1 * k, config=config, name=f"N{k}"))
            made.append((k, p, config, base, c))
            return c
        return f
    m = integ.Model(case["seed"], [[2]], [[1]])
    r = integ.integrator(m, tab, PredefinedNumberOfSteps(1), 0.1, False, error_controller=[mk(k) for k in range(case["n"])],
                         error_controller_options={"config": cfg}, error_measurer=SimpleErrorMeasurer())[0]
    made = made[-case["n"]:]    # a set-up may have been done more than once
    need([x[0] for x in made] == list(range(case["n"])), f"controllers built: {[x[0] for x in made]}")
    prev = None
    for k, p, config, base, c in made:
        need(p == (min(p0, ph) if case["embedded"] else p0), f"order {p} given to controller {k}")
        need(config is cfg or config == cfg, "options of a controller")
        need(base is prev, f"controller {k} is built around {base}")
        prev = c
    if hasattr(r, "_error_controller"):
        need(r._error_controller is prev, "the integrator does not use the last controller")


def run(case):
    if case["kind"] == "chain":
        return chain(case)
    n, p, m = case["name"], case["p"], case["depth"]
    r = random.Random(case["seed"])
    x, y, z = (r.uniform(-2, 2) for _ in range(3))
    args = {"h_312_general": (x, y, z), "h_321_general": (x, y, z), "h_330_general": (x, y, z)}.get(n, ())
    if n in TABLE:
        al, be, ga, a, b = TABLE[n]
    elif n == "h_312_general":
        al, be, ga, a, b = x, -2 * x, x, y, z
    elif n == "h_321_general":
        al, be, ga, a, b = x, y, -(x + y), z, 1 - z
    elif n == "h_330_general":
        al, be, ga, a, b = x, y, z, 2, -1
    elif n == "pseudo":
        al = be = ga = a = b = 0
    else:
        al, be, ga, a, b = F(p, p + 1), 0, 0, 0, 0
    cfg = ErrorControllerConfig(tol=r.uniform(0.1, 1), max_iter=r.randrange(9))
    base = None
    if m:
        base = ErrorController(alpha=r.uniform(0, 1), beta=0.3, config=cfg, name="B")
        if m == 2:
            base = ErrorControllerDecorator(alpha=0.1, error_controller=base, name="C")
    c = getattr(ecs, n)(p, *args, name="SomeName", base=base) if m else getattr(ecs, n)(p, *args, config=cfg, name="SomeName")
    need(type(c) is (ErrorControllerDecorator if m else ErrorController), f"{type(c)}")
    for k, v in (("alpha", al / p), ("beta", be / p), ("gamma", ga / p), ("a", a), ("b", b)):
        close(float(getattr(c, k)), float(v), f"{n}(p={p}).{k}", 1e-12)
    need(c.config is cfg or c.config == cfg, "configuration")
    need("SomeName" in str(c), "name")
    if m:
        need(c.error_controller is base, "wrapped controller")


if __name__ == "__main__":
    main(sys.modules[__name__])
