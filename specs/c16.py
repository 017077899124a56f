"""C16: classification and validation of Butcher tableaux."""
from .common import *

FILES = ["rkopenmdao/butcher_tableau.py"]
FUNCS = ["ButcherTableau.__init__", "ButcherTableau.is_explicit", "ButcherTableau.is_diagonally_implicit", "ButcherTableau.is_implicit", "ButcherTableau.number_of_stages",
         "ButcherTableau.__len__", "ButcherTableau.p", "ButcherTableau.min_p_order", "ButcherTableau.is_embedded", "EmbeddedButcherTableau.__init__", "EmbeddedButcherTableau.phat",
         "EmbeddedButcherTableau.min_p_order", "EmbeddedButcherTableau.main_method", "EmbeddedButcherTableau.embedded_method", "EmbeddedButcherTableau.from_butchertableau", "EmbeddedButcherTableau.is_embedded"]
ASSUMPTIONS = ["weights and abscissae are one-dimensional arrays, the coefficient matrix is two-dimensional", "sums are exact (rounding of row sums is far below 1e-5)"]
RT_NOTE = "random tableaux of sizes 1..7, sparse, with entries at single places, inconsistent sums just above and below 1e-5, wrong sizes"
LEVEL = "proved for every number of stages"
TOL = Fraction(1, 100000)


def instances(I, wit):
    """what the loops that ran to their end say about the witnesses"""
    def inst(q, sb):
        kv, lo, n, alts = q
        n = T.subst(n, sb) if sb else n
        out = []
        for c in wit:
            if I.decide(and_(le(lo, c), lt(c, n))) is not True:
                continue
            s2 = dict(sb)
            s2[kv.args[0]] = c
            ds = []
            for facts, nested in alts:
                ds.append(and_(*[T.subst(f, s2) for f in facts], *[inst(x, s2) for x in nested]))
            out.append(or_(*ds) if ds else T.FALSE)
        return and_(*out)
    for q in I.qfacts:
        I.assume(P.simp(inst(q, {}), I.facts))


def matrix(I, s, case):
    """the most general matrix of the class; witness indices of a nonzero entry"""
    raw = lambda i, j: app("A", [i, j])
    z, d0, i0, j0 = ZERO, var("d0", "I"), var("i0", "I"), var("j0", "I")
    wit = []
    if case == "explicit":
        f = lambda ix: ite(le(ix[0], ix[1]), z, raw(*ix))
    elif case == "diagonal":
        f = lambda ix: ite(lt(ix[0], ix[1]), z, raw(*ix))
        I.assume(le(z, d0), lt(d0, s), not_(eq(raw(d0, d0), z)))
        wit = [(d0, d0)]
    else:
        f = lambda ix: raw(*ix)
        I.assume(le(z, i0), lt(i0, j0), lt(j0, s), not_(eq(raw(i0, j0), z)))
        wit = [(i0, j0)]
    return f, wit


def build(I, s, f, embedded):
    A, b, c = arr(I, "A", (s, s), fn=f), arr(I, "b", (s,)), arr(I, "c", (s,))
    kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=I.fresh("p", "I"))
    if embedded:
        kw.update(butcher_adaptive_weights=arr(I, "e", (s,)), phat=I.fresh("phat", "I"))
    return I.call(I.get(TABM + (":EmbeddedButcherTableau" if embedded else ":ButcherTableau")), [], kw), A, b, c


def run_class(case, embedded=False, size=None):
    def run(I):
        s = lift(size) if size else var("s", "I")
        I.assume(le(ONE, s))
        f, wit = matrix(I, s, case)
        tab, A, b, c = build(I, s, f, embedded)
        want = {"explicit": (True, False, False), "diagonal": (False, True, False), "implicit": (False, False, True)}[case]
        for n, w in zip(("is_explicit", "is_diagonally_implicit", "is_implicit"), want):
            I.qfacts = []
            r = I.call(I.getattr(tab, n), [], {})
            r = I.truth(r)
            for i, j in wit:
                near = [i, j, sub(j, i), sub(sub(j, i), ONE), sub(sub(s, ONE), i), sub(sub(s, ONE), j)]
                instances(I, near)
                I.inst_facts((i, j))
                for w1 in near:
                    I.inst_facts((w1,))
            if not P.feasible(I.facts):
                raise PathEnd("infeasible")
            truth(I, f"{n} of a matrix that is {case}", r is w, repr(r))
        same_array(I, "frame: matrix", A, f, (s, s))
    return run


def run_init(embedded, size=None):
    """consistent sizes: attributes and warnings"""
    def run(I):
        s = lift(size) if size else var("s", "I")
        I.assume(le(ONE, s))
        given = I.choose(2, "abscissae") == 0
        A, b = arr(I, "A", (s, s)), arr(I, "b", (s,))
        c = arr(I, "c", (s,)) if given else None
        p, ph = var("p", "I"), var("phat", "I")
        kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=p, name="N")
        wsum = fresh_bound()
        W = sum_(wsum, ZERO, s, app("b", [wsum]))
        v = fresh_bound()
        row = lambda i: sum_(v, ZERO, s, app("A", [i, v]))
        i0 = var("i0", "I")
        bad = lambda d: lt(lift(TOL), T.abs_(d))
        wbad = I.branch(bad(sub(W, ONE)))
        rbad = False
        if given:
            rbad = I.choose(2, "row sums") == 0
            if rbad:
                I.assume(le(ZERO, i0), lt(i0, s), bad(sub(row(i0), app("c", [i0]))))
            elif size:
                I.assume(*[not_(bad(sub(row(lift(k)), app("c", [lift(k)])))) for k in range(size)])
            else:
                k = fresh_bound()
                I.assume(T.app("forall", [T.lam([k], (s,), not_(bad(sub(row(k), app("c", [k])))))], "B"))
        if embedded:
            e = arr(I, "e", (s,))
            kw.update(butcher_adaptive_weights=e, phat=ph)
        I.qfacts = []
        tab = I.call(I.get(TABM + (":EmbeddedButcherTableau" if embedded else ":ButcherTableau")), [], kw)
        if rbad:
            I.inst_facts((i0,))
            instances(I, [i0])
            if not P.feasible(I.facts):
                raise PathEnd("infeasible")
        truth(I, "a warning exactly for inconsistent weights or row sums", len(I.warned) == int(wbad) + int(rbad), f"{len(I.warned)} warnings, weights {'in' if wbad else ''}consistent, rows {'in' if rbad else ''}consistent")
        ga = lambda n: I.getattr(tab, n)
        same_array(I, "matrix", ga("butcher_matrix"), lambda ix: app("A", list(ix)), (s, s))
        same_array(I, "weights", ga("butcher_weight_vector"), lambda ix: app("b", list(ix)), (s,))
        same_array(I, "abscissae: given or the row sums", ga("butcher_time_stages"), (lambda ix: app("c", list(ix))) if given else (lambda ix: row(ix[0])), (s,))
        I.oblige("stages", eqs=(lift(I.call(ga("number_of_stages"), [], {})), s))
        I.oblige("length", eqs=(lift(I.call(I.builtins["len"], [tab], {})), s))
        I.oblige("order", eqs=(lift(ga("p")), p))
        truth(I, "embedded or not", ga("is_embedded") is embedded)
        mp = lift(I.call(ga("min_p_order"), [], {}))
        if not embedded:
            I.oblige("minimal order", eqs=(mp, p))
            q = var("q", "I")
            I.setattr(tab, "p", q)
            I.oblige("order can be set", eqs=(lift(ga("p")), q))
            return
        same_array(I, "embedded weights", ga("butcher_adaptive_weights"), lambda ix: app("e", list(ix)), (s,))
        I.oblige("embedded order", eqs=(lift(ga("phat")), ph))
        I.oblige("minimal order is the smaller one", eqs=(mp, ite(le(p, ph), p, ph)))
        for which, w, o in (("main_method", "b", p), ("embedded_method", "e", ph)):
            m = ga(which)
            if not truth(I, f"{which}: a tableau that is not embedded", isinstance(m, Obj) and I.getattr(m, "is_embedded") is False, repr(m)):
                continue
            check_tab(I, which, m, w, o, s, given, row)
        same_array(I, "frame: weights", ga("butcher_weight_vector"), lambda ix: app("b", list(ix)), (s,))
        same_array(I, "frame: embedded weights", ga("butcher_adaptive_weights"), lambda ix: app("e", list(ix)), (s,))
    return run


def check_tab(I, what, m, w, o, s, given, row):
    same_array(I, what + ": matrix", I.getattr(m, "butcher_matrix"), lambda ix: app("A", list(ix)), (s, s))
    same_array(I, what + ": weights", I.getattr(m, "butcher_weight_vector"), lambda ix: app(w, list(ix)), (s,))
    same_array(I, what + ": abscissae", I.getattr(m, "butcher_time_stages"), (lambda ix: app("c", list(ix))) if given else (lambda ix: row(ix[0])), (s,))
    I.oblige(what + ": order", eqs=(lift(I.getattr(m, "p")), o))
    I.oblige(what + ": minimal order", eqs=(lift(I.call(I.getattr(m, "min_p_order"), [], {})), o))
    I.oblige(what + ": stages", eqs=(lift(I.call(I.getattr(m, "number_of_stages"), [], {})), s))


def run_from(I):
    s = var("s", "I")
    I.assume(le(ONE, s))
    A, b, c, e = arr(I, "A", (s, s)), arr(I, "b", (s,)), arr(I, "c", (s,)), arr(I, "e", (s,))
    p, ph = var("p", "I"), var("phat", "I")
    base = I.call(I.get(TABM + ":ButcherTableau"), [], dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=p, name="N"))
    tab = I.call(I.getattr(I.get(TABM + ":EmbeddedButcherTableau"), "from_butchertableau"), [base, e], dict(phat=ph))
    truth(I, "an embedded tableau", I.getattr(tab, "is_embedded") is True)
    check = lambda n, f, sh: same_array(I, n, I.getattr(tab, n), f, sh)
    check("butcher_matrix", lambda ix: app("A", list(ix)), (s, s))
    check("butcher_weight_vector", lambda ix: app("b", list(ix)), (s,))
    check("butcher_time_stages", lambda ix: app("c", list(ix)), (s,))
    check("butcher_adaptive_weights", lambda ix: app("e", list(ix)), (s,))
    I.oblige("order", eqs=(lift(I.getattr(tab, "p")), p))
    I.oblige("embedded order", eqs=(lift(I.getattr(tab, "phat")), ph))


def run_unknown(I):
    s = var("s", "I")
    I.assume(le(ONE, s))
    tab = I.call(I.get(TABM + ":EmbeddedButcherTableau"), [], dict(butcher_matrix=arr(I, "A", (s, s)), butcher_weight_vector=arr(I, "b", (s,)), butcher_time_stages=arr(I, "c", (s,)),
                                                                    butcher_adaptive_weights=arr(I, "e", (s,)), p=None, phat=None))
    for n in ("p", "phat"):
        try:
            I.getattr(tab, n)
            truth(I, f"unknown {n} is reported", False)
        except PyExc:
            truth(I, f"unknown {n} is reported", True)


def run_sizes(embedded):
    """inconsistent sizes are rejected"""
    def run(I):
        m1, m2, nb, nc, ne = [var(n, "I") for n in ("m1", "m2", "nb", "nc", "ne")]
        I.assume(*[le(ONE, x) for x in (m1, m2, nb, nc, ne)])
        d = {k: v for k, v in zip(("m2", "nb", "nc", "ne"), (m2, nb, nc, ne))}
        which = ["m2", "nb", "nc", "ne"][I.choose(4 if embedded else 3, "size that differs")]
        # the sizes before it agree
        for k in ("m2", "nb", "nc", "ne"):
            if k == which:
                I.assume(not_(eq(d[k], m1)))
                break
        same = [k for k in d if k != which and (embedded or k != "ne")]
        size = {k: d[k] for k in d}
        others = I.choose(2, "other sizes agree") == 0
        for k in same:
            if others:
                size[k] = m1
        given = I.choose(2, "abscissae") == 0
        if not given and which == "nc":
            raise PathEnd("no abscissae")
        kw = dict(butcher_matrix=arr(I, "A", (m1, size["m2"])), butcher_weight_vector=arr(I, "b", (size["nb"],)), butcher_time_stages=arr(I, "c", (size["nc"],)) if given else None, p=4)
        if embedded:
            kw.update(butcher_adaptive_weights=arr(I, "e", (size["ne"],)), phat=3)
        # the branches on sizes decide the shape checks inside numpy
        if I.branch(eq(size["nc"], ONE)):
            kw["butcher_time_stages"] = arr(I, "c", (ONE,)) if given else None
        else:
            I.branch(eq(m1, ONE))
        I.branch(eq(m1, size["nc"]))
        try:
            I.call(I.get(TABM + (":EmbeddedButcherTableau" if embedded else ":ButcherTableau")), [], kw)
        except PyExc:
            truth(I, "inconsistent sizes are rejected", True)
            return
        truth(I, "inconsistent sizes are rejected", False, f"{which} differs")
    return run


def units(tier):
    u = [(f"classification of matrices that are {c}", run_class(c), {}, {}) for c in ("explicit", "diagonal", "implicit")]
    u += [("classification of an embedded tableau", run_class("diagonal", True), {}, {})]
    u += [("construction", run_init(False), {}, {}), ("construction (embedded)", run_init(True), {}, {}), ("embedded from plain", run_from, {}, {}), ("unknown orders", run_unknown, {}, {}),
          ("inconsistent sizes", run_sizes(False), {}, {}), ("inconsistent sizes (embedded)", run_sizes(True), {}, {})]
    return u


def run_entries(size):
    """every sparsity pattern of one nonzero or all-zero block, concrete size, symbolic values"""
    def run(I):
        s = lift(size)
        pos = [(i, j) for i in range(size) for j in range(size)]
        sel = I.choose(len(pos) + 1, "first nonzero entry on or above the diagonal")
        up = [(i, j) for i, j in sorted(pos, key=lambda x: x[0] * size + x[1])]
        nz = up[sel] if sel < len(pos) else None
        if nz is not None:
            I.assume(not_(eq(app("A", [lift(nz[0]), lift(nz[1])]), ZERO)))

        def f(ix):
            r = app("A", list(ix))
            from pyvc.terms import is_const, cval
            if nz is None:
                return ite(le(ix[0], ix[1]), ZERO, r)
            # only nz is nonzero on or above the diagonal
            return ite(and_(le(ix[0], ix[1]), not_(and_(eq(ix[0], lift(nz[0])), eq(ix[1], lift(nz[1]))))), ZERO, r)
        tab, A, b, c = build(I, s, f, False)
        want = (True, False, False) if nz is None or nz[0] > nz[1] else (False, True, False) if nz[0] == nz[1] else (False, False, True)
        for n, w in zip(("is_explicit", "is_diagonally_implicit", "is_implicit"), want):
            r = I.call(I.getattr(tab, n), [], {})
            r = T.boolc(I.truth(r))
            I.oblige(f"{n} with the nonzero {nz}", goal=r if w else not_(r))
    return run


def bounded(tier, ints=()):
    u = [(f"classification with {n} stages", run_entries(n), {}, {"max_paths": 4000}) for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6))]
    u += [(f"construction with {n} stages{' (embedded)' if e else ''}", run_init(e, n), {}, {}) for n in (1, 2, 3) for e in (False, True)]
    return u + units(tier)[5:]
