"""C17: every shipped tableau satisfies all order conditions of its declared orders."""
from .common import *
from . import quad

TABS = PKG + ".butcher_tableaux"
FILES = ["rkopenmdao/butcher_tableaux.py"]
FUNCS = ["module rkopenmdao.butcher_tableaux (all tableau definitions and the functions that compute them)"]
ASSUMPTIONS = ["B-series theorem: a Runge-Kutta method has order p exactly if its elementary weights match 1/gamma for all rooted trees with up to p nodes",
               "coefficients are the real numbers denoted by the source expressions (rounding to double precision: run-time part)",
               "contract of the tableau constructors (proved under C16): attributes are the arguments, missing abscissae are the row sums"]
RT_NOTE = "the float arrays of every shipped tableau against all rooted trees"
LEVEL = "every order condition decided in exact arithmetic (|residual| <= 1e-10, the precision of the tabulated decimal coefficients; exact zeros are counted separately)"
TOL = Fraction(1, 10**10)


def trees(n, memo={}):
    """rooted trees with n nodes: sorted tuples of the subtrees of the root"""
    if n not in memo:
        out = set()

        def parts(m, mx):
            if m == 0:
                yield ()
                return
            for k in range(min(m, mx), 0, -1):
                for t in trees(k):
                    for r in parts(m - k, k):
                        yield (t,) + r
        for p in parts(n - 1, n - 1):
            out.add(tuple(sorted(p)))
        memo[n] = sorted(out)
    return memo[n]


def order(t):
    return 1 + sum(map(order, t))


def gamma(t):
    r = order(t)
    for x in t:
        r *= gamma(x)
    return r


def phi(A, t):
    """stage values of the elementary weight"""
    v = [quad.Q.of(1)] * len(A)
    for x in t:
        w = phi(A, x)
        for i, row in enumerate(A):
            d = quad.Q.of(0)
            for a, y in zip(row, w):
                if a.c and y.c:
                    d = d + a * y
            v[i] = v[i] * d
    return v


def name_of(t):
    return "[" + "".join(map(name_of, t)) + "]"


def load(I):
    """execute the module; constructors by contract"""
    built = []

    def ctor(emb):
        def h(I2, cls, ar, kw):
            keys = ["butcher_matrix", "butcher_weight_vector", "butcher_adaptive_weights", "butcher_time_stages", "p", "phat", "name"] if emb else ["butcher_matrix", "butcher_weight_vector", "butcher_time_stages", "p", "name"]
            if ar or set(kw) - set(keys) or set(keys) - set(kw) - {"name"}:
                return NotImplemented
            o = I2.register(Obj(cls, {k: v for k, v in kw.items() if k not in ("p", "phat", "name")}, "tableau"))
            o.attrs["_p"] = kw["p"]
            if emb:
                o.attrs["_phat"] = kw["phat"]
            o.attrs["name"] = kw.get("name")
            A = kw["butcher_matrix"]
            o.attrs["stages"] = cvalue(A.shape[0])
            if kw["butcher_time_stages"] is None:
                from pyvc import npmodel as NP
                o.attrs["butcher_time_stages"] = NP.total_sum(I2, A, 1)
            built.append(o)
            return o
        return h
    I.contracts = dict(I.contracts)
    I.contracts["ButcherTableau"] = ctor(False)
    I.contracts["EmbeddedButcherTableau"] = ctor(True)
    return built


def cvalue(t):
    t = lift(t)
    return int(T.cval(t))


def mat(a):
    n, m = [cvalue(x) for x in a.shape]
    return [[quad.value(lift(a.get((lift(i), lift(j))))) for j in range(m)] for i in range(n)]


def vec(a):
    return [quad.value(lift(a.get((lift(i),)))) for i in range(cvalue(a.shape[0]))]


def check(I, what, res):
    """|res| <= 1e-10; exact zeros noted"""
    how = "exact zero in a quadratic field" if res.zero() else "rigorous enclosure"
    ok = res.zero() or res.within(TOL)
    I.report.add(what, P.Result("proved" if ok else "refuted", how, "" if ok else f"residual {float(res):.3e}"), I)
    I.report.exact = getattr(I.report, "exact", 0) + int(res.zero())


WORDS = {w + "_order": k for k, w in enumerate(("first", "second", "third", "fourth", "fifth"), 1)}


def run_one(n):
    def run(I):
        load(I)
        t = I.get(f"{TABS}:{n}")
        if not truth(I, f"{n} is a tableau", isinstance(t, Obj) and t.cls.name in ("ButcherTableau", "EmbeddedButcherTableau"), repr(t)):
            return
        g = lambda k: I.getattr(t, k)
        emb = I.getattr(t, "is_embedded") is True
        try:
            A, b, c = mat(g("butcher_matrix")), vec(g("butcher_weight_vector")), vec(g("butcher_time_stages"))
            e = vec(g("butcher_adaptive_weights")) if emb else None
        except quad.NotQuad as x:
            raise Unsupported(f"coefficient outside the quadratic fields: {x}")
        p = g("p")
        s = len(A)
        if not truth(I, f"{n}: sizes and orders", all(len(r) == s for r in A) and len(b) == s and len(c) == s and (e is None or len(e) == s) and isinstance(p, int) and p >= 1, f"{s} {len(b)} {len(c)} {p}"):
            return
        for w, k in WORDS.items():
            if n.startswith(w) or n.startswith("embedded_" + w):
                truth(I, f"{n}: declares the order in its name", p >= k, f"p={p}")
        truth(I, f"{n}: explicit or diagonally implicit", all(A[i][j].zero() for i in range(s) for j in range(i + 1, s)))
        for i in range(s):
            r = quad.Q.of(0)
            for a in A[i]:
                r = r + a
            check(I, f"{n}: row sum {i}", r - c[i])
        todo = [("", b, p)]
        if emb:
            ph = g("phat")
            truth(I, f"{n}: embedded order", isinstance(ph, int) and ph >= 1, repr(ph))
            todo.append(("embedded ", e, ph))
            truth(I, f"{n}: embedded weights differ from the weights", any(not (x - y).within(TOL) for x, y in zip(b, e)))
        for what, w, o in todo:
            for k in range(1, o + 1):
                for tr in trees(k):
                    v = phi(A, tr)
                    r = quad.Q.of(0)
                    for x, y in zip(w, v):
                        r = r + x * y
                    check(I, f"{n}: {what}order {k} tree {name_of(tr)}", r - quad.Q.of(Fraction(1, gamma(tr))))
    return run


def names():
    """the shipped tableaux: every module-level tableau of the current source"""
    import ast
    import os
    src = os.environ.get("PYVC_SRC", "/repo/src") + "/rkopenmdao/butcher_tableaux.py"
    out = []
    for st in ast.parse(open(src).read()).body:
        tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
        for t in tg:
            for x in [t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else []:
                if isinstance(x, ast.Name) and x.id == "__all__":
                    try:
                        out += ast.literal_eval(st.value)
                    except ValueError:
                        pass
    return list(dict.fromkeys(out)) or SHIPPED


SHIPPED = ["explicit_euler", "implicit_euler", "implicit_midpoint", "third_order_two_stage_sdirk", "runge_kutta_four", "fifth_order_five_stage_sdirk"]


def units(tier):
    return [(n, run_one(n), {}, {}) for n in names()]
