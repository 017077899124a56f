"""C09: controller factories have the published coefficients."""
from .integ import *

EC = PKG + ".error_controller"
ECS = PKG + ".error_controllers"
FILES = ["rkopenmdao/error_controllers.py", "rkopenmdao/error_controller.py", "rkopenmdao/runge_kutta_integrator.py"]
F = Fraction
# name -> (error exponents times p, step-ratio exponents); parameters as strings
TABLE = {
    "h_211": (F(1, 4), F(-1, 4), 0, F(-1, 4), 0),
    "h0_211": (F(1, 2), F(-1, 2), 0, F(-1, 2), 0),
    "pc": (2, 1, 0, 1, 0),
    "h0_220": (2, 1, 0, 1, 0),
    "pid": (F(1, 18), F(-1, 9), F(1, 18), 0, 0),
    "h_312": (F(1, 8), F(-1, 4), F(1, 8), F(-3, 8), F(-1, 8)),
    "h0_312": (F(1, 4), F(-1, 2), F(1, 4), F(-3, 4), F(-1, 4)),
    "ppid": (F(6, 20), F(-1, 20), F(-5, 20), 1, 0),
    "h_321": (F(1, 3), F(-1, 18), F(-5, 18), F(5, 6), F(1, 6)),
    "h0_321": (F(5, 4), F(-1, 2), F(-3, 4), F(1, 4), F(3, 4)),
    "h0_330": (3, 3, 1, 2, -1),
}
GENERAL = {
    "h_312_general": (("var_alpha", "a", "b"), lambda q: (q["var_alpha"], mul(lift(-2), q["var_alpha"]), q["var_alpha"], q["a"], q["b"])),
    "h_321_general": (("var_alpha", "var_beta", "a"), lambda q: (q["var_alpha"], q["var_beta"], sub(ZERO, add(q["var_alpha"], q["var_beta"])), q["a"], sub(ONE, q["a"]))),
    "h_330_general": (("var_alpha", "var_beta", "var_gamma"), lambda q: (q["var_alpha"], q["var_beta"], q["var_gamma"], 2, -1)),
}
FUNCS = sorted(list(TABLE) + list(GENERAL) + ["integral", "h0_110", "pseudo"]) + ["RungeKuttaIntegrator._setup_error_controller"]
NAMES = FUNCS[:-1]
ASSUMPTIONS = ["p is any real number >= 1"]
RT_NOTE = "all factories for orders 1..12, standalone and as fallback, random general parameters"
LEVEL = "factories proved for every p >= 1 and every parameter; chains of 1..3 controllers"
RT_BUDGET = 8


def expected(name, p, q):
    if name in ("integral", "h0_110"):
        return (T.div(ONE, add(ONE, p)), 0, 0, 0, 0)
    if name == "pseudo":
        return (0, 0, 0, 0, 0)
    al, be, ga, a, b = TABLE[name] if name in TABLE else GENERAL[name][1](q)
    d = lambda x: T.div(lift(x), p)
    return (d(al), d(be), d(ga), a, b)


def run_for(name, mode, positional):
    def run(I):
        p = var("p")
        I.assume(le(ONE, p))
        f = I.get(f"{ECS}:{name}")
        pars = GENERAL[name][0] if name in GENERAL else ()
        q = {k: var(k) for k in pars}
        cfgs = [I.call(I.get(EC + ":ErrorControllerConfig"), [], dict(tol=var(f"tol{k}"))) for k in range(2)]
        kw = dict(name="SomeName")
        base = None
        if mode != "standalone":
            base = I.call(I.get(EC + ":ErrorController"), [], dict(alpha=var("al0"), beta=var("be0"), gamma=var("ga0"), a=var("a0"), b=var("b0"), config=cfgs[0], name="Base"))
            if mode == "nested":
                base = I.call(I.get(EC + ":ErrorControllerDecorator"), [], dict(alpha=var("al0"), beta=var("be0"), error_controller=base))
            kw["base"] = base
        keep = dict(base.attrs) if base is not None else {}
        if mode == "standalone":
            kw["config"] = cfgs[1]
        if positional:
            c = I.call(f, [p] + [q[k] for k in pars], kw)
        else:
            c = I.call(f, [], dict(p=p, **q, **kw))
        want = "ErrorController" if base is None else "ErrorControllerDecorator"
        if not truth(I, f"a {want} is built", isinstance(c, Obj) and c.cls.name == want, repr(c)):
            return
        for n, e in zip(("alpha", "beta", "gamma", "a", "b"), expected(name, p, q)):
            I.oblige(f"{name}: {n}", eqs=(I.getattr(c, n), e))
        truth(I, "configuration", I.getattr(c, "config") is (cfgs[1] if base is None else cfgs[0]))
        truth(I, "name", "SomeName" in str(c.attrs.get("_name")), repr(c.attrs.get("_name")))
        if base is not None:
            truth(I, "wraps the given controller", I.getattr(c, "error_controller") is base)
            for n in ("alpha", "beta", "gamma", "a", "b", "config"):
                v = I.getattr(base, n)
                truth(I, f"wrapped controller keeps {n}", v is keep[n] or v == keep[n])
    return run


def units(tier):
    out = []
    for n in NAMES:
        for m in ("standalone", "wrapping", "nested"):
            out.append((f"{n} {m}", run_for(n, m, m != "nested"), {}, {}))
    return out


def run_chain(count, embedded):
    """the integrator chains the listed controllers: each gets the smaller order of the tableau, the options and the one before"""
    def run(I):
        made = []
        cfg = I.call(I.get(EC + ":ErrorControllerConfig"), [], dict(tol=var("tol")))

        def controllers(I2, H):
            H.made = made

            def mk(k):
                def f(I3, ar, kw):
                    d = argmap(I3, ["p", "config", "name", "base"], ar, dict({"config": None, "name": "Controller", "base": None}, **kw))
                    c = I3.call(I3.get(EC + ":ErrorController"), [], dict(alpha=ZERO, config=cfg, name=f"number {k}"))
                    made.append((k, d, c))
                    return c
                return Builtin(f"controller {k}", f)
            return dict(error_controller=I2.register([mk(k) for k in range(count)]), error_controller_options=I2.register({"config": cfg}))
        H = Harness(I, embedded=embedded, adaptive=embedded, controller=controllers)
        truth(I, "every listed controller is built once, in order", [k for k, _, _ in made] == list(range(count)), repr([k for k, _, _ in made]))
        p = I.getattr(H.tab, "p")
        order = T.min_(p, I.getattr(H.tab, "phat")) if embedded else p
        prev = None
        for k, d, c in made:
            I.oblige("controllers get the smaller order of the tableau", eqs=(num(I, d["p"]), order))
            truth(I, "controllers get the configured options", d["config"] is cfg, repr(d["config"]))
            truth(I, "controllers wrap the one listed before", d["base"] is prev, f"{k}: {d['base']!r}")
            prev = c
        if "_error_controller" not in H.rk.attrs:
            raise Unsupported("controller of the integrator")
        truth(I, "the last controller is the one of the integrator", H.rk.attrs["_error_controller"] is prev)
    return run


def always(tier):
    return [(f"chain of {k} controllers, {'embedded' if e else 'simple'} tableau", run_chain(k, e), {}, {}) for k in (1, 2, 3) + ((4,) if tier == "thorough" else ()) for e in (True, False)]
