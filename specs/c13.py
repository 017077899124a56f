"""C13: the error measure is the norm of the whole non-excluded state."""
from . import c07
from .omode import *
from .integ import Harness, RKI

FILES = ["rkopenmdao/discretized_ode/openmdao_ode.py", "rkopenmdao/error_measurer.py", "rkopenmdao/runge_kutta_integrator.py"]
FUNCS = ["OpenMDAOODE." + f for f in ("compute_state_norm", "_partial_norm_intermediate", "_add_to_intermediate", "_allreduce_own_intermediate", "_normalize")] + [
    "SimpleErrorMeasurer.get_measure", "ImprovedErrorMeasurer.get_measure", "RungeKuttaIntegrator._get_error_measure"]
ASSUMPTIONS = ["np.linalg.norm(x, p) of a non-empty vector is the p-th root of the sum of |x_i|^p (1 <= p < infinity), the maximum of |x_i| (p = infinity)",
               "(y^(1/p))^p = y for y >= 0", "allreduce combines the ranks' values with the given operation",
               "layout of the quantities as in C11; a distributed quantity is held in disjoint pieces (known finding: quantities held in full by a strict subset of the ranks)"]
RT_NOTE = "real OpenMDAOODE with random partitions, exclusions, orders and simulated rank contributions against the norm of the concatenation"
LEVEL = "proved for any number of quantities, exclusion and rank contribution; additionally executed for 0..3 quantities"
INF = float("inf")


class NComm(Native):
    """other ranks contribute O (sum or maximum over them)"""

    def __init__(self, I):
        self.calls = []
        I.register(self)
        self.O = var("others")
        I.assume(le(ZERO, self.O))

    def snap(self):
        return dict(calls=list(self.calls))

    def restore(self, s):
        self.calls = list(s["calls"])

    def py_getattr(self, I, name):
        if name in ("rank", "size"):
            return {"rank": 0, "size": 2}[name]
        if name == "allreduce":
            def f(I2, ar, kw):
                op = ar[1] if len(ar) > 1 else kw.get("op", "SUM")
                self.calls.append((op, lift(ar[0])))
                x = lift(ar[0])
                if op == "SUM":
                    return add(x, self.O)
                if op == "MAX":
                    return T.max_(x, self.O)
                raise Unsupported(f"allreduce {op}")
            return Builtin(name, f)
        raise Unsupported("comm." + name)


class Excl(Native):
    """exclusion list: contains the name of quantity k iff excl(k)"""

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_contains(self, I, x):
        if isinstance(x, Term) and x.kind == "app" and x.args[0] == "qname":
            return app("excl", list(x.args[1]), "B")
        raise Unsupported("exclusion test")


def maxabs(I, l):
    r = app("arrmax", [l])
    I.assume(le(ZERO, r))
    return r


class NormSetting:
    def __init__(self, I, p, Q=None, excl=True):
        self.I, self.p = I, p
        self.comm = NComm(I)
        self.excluded = excl
        ex = Excl() if excl else None
        if ex:
            I.register(ex)
        self.W = Wrapper(I, Q, 0, order=p, excl=ex, comm=self.comm)
        self.x = arr(I, "x", (self.W.n,))
        I.norm_model = self.norm
        st = I.get(ODEM + ":DiscretizedODEResultState")
        z = arr(I, "other", (self.W.n,))
        self.state = I.call(st, [z, self.x, arr(I, "out", (ZERO,))], {})

    def power(self, f, lo, hi):
        if self.p == INF:
            return None
        v = fresh_bound()
        return sum_(v, lo, hi, T.pow_(T.abs_(f(v)), lift(self.p)))

    def norm(self, I, a, order):
        order = 2 if order is None else order
        same = order == self.p if not isinstance(order, Term) and not isinstance(self.p, Term) else I.decide(eq(lift(order), lift(self.p))) is True if order != INF and self.p != INF else False
        if not same:
            # a norm of another order
            return app("vecnorm", [a.lam(), lift(order) if order != INF else var("inf")])
        if self.p == INF:
            I.side_condition("maximum norm of a non-empty vector", lt(ZERO, a.shape[0]))
            f = content(a)
            v = fresh_bound()
            return maxabs(I, T.lam([v], (a.shape[0],), T.abs_(f((v,)))))
        f = content(a)
        return self.root(self.power(lambda v: f((v,)), ZERO, a.shape[0]))

    def root(self, y):
        p = lift(self.p)
        if T.is_const(p) and T.cval(p) == 1:
            return y
        T.NONNEG.add(y)
        return T.pow_(y, T.inv(p))

    def included(self, k):
        return not_(app("excl", [k], "B")) if self.excluded else T.TRUE

    def part(self, k):
        """power sum (maximum) of quantity k"""
        W = self.W
        lo, hi = W.st("u", k), W.en("u", k)
        if self.p == INF:
            v = fresh_bound()
            m = maxabs(self.I, T.lam([v], (sub(hi, lo),), T.abs_(app("x", [add(lo, v)]))))
            return ite(eq(lo, hi), ZERO, m)
        v = fresh_bound()
        return sum_(v, ZERO, sub(hi, lo), T.pow_(T.abs_(app("x", [add(lo, v)])), lift(self.p)))

    def term(self, k, distributed):
        d = self.W.dist(k)
        return ite(and_(self.included(k), d if distributed else not_(d)), self.part(k), ZERO)

    def total(self, distributed, Q):
        if Q is None:
            v = fresh_bound()
            return sum_(v, ZERO, self.W.Q, self.term(v, distributed))
        return add(ZERO, *[self.term(lift(k), distributed) for k in range(Q)])


class MaxLoop:
    """running maxima over the quantities: ghosts MaxD (distributed) and MaxN (replicated), defined by
    M(0) = 0, M(k+1) = max(M(k), part k) for included quantities of their kind, M(k) otherwise"""

    def __init__(self, S, swap):
        self.S, self.swap = S, swap

    def matches_while(self, I, st, fr):
        return False

    def for_inv(self, I, st, fr, rng):
        from pyvc.interp import _assigned_names
        if getattr(rng, "list", None) is not self.S.W.qlist:
            return None
        names = [n for n in sorted(_assigned_names(st.body)) if n in fr.vars and isinstance(fr.vars[n], (int, Fraction, Term)) and not isinstance(fr.vars[n], bool)]
        if len(names) != 2:
            return None
        if self.swap:
            names.reverse()
        return _Max(self.S, names)


class _Max(ClosedForm):
    def __init__(self, S, names):
        self.S, self.names = S, names
        super().__init__("running maxima", {}, {("frame", n): (lambda k, g=g: app(g, [k])) for n, g in zip(names, ("MaxD", "MaxN"))})

    def at(self, I, k, final=False):
        super().at(I, k, final)
        for g in ("MaxD", "MaxN"):
            I.assume(le(ZERO, app(g, [k])))

    def holds(self, I, k, what):
        ok = True
        for n, g, d in zip(self.names, ("MaxD", "MaxN"), (True, False)):
            if k is ZERO:
                want = ZERO
            else:
                km = sub(k, ONE)
                old = app(g, [km])
                c = self.S.W.dist(km)
                want = ite(and_(self.S.included(km), c if d else not_(c)), T.max_(old, self.S.part(km)), old)
            try:
                r = P.prove_eq(lift(self.fr.vars.get(n)), want, I.facts, I.hyps)
            except TypeError:
                r = P.Result("unknown", "type", n)
            I.collect.append((f"{what}: {n}", r))
            ok = ok and r.status == "proved"
        return ok


def run_norm(p, Q=None, excl=True):
    def run(I):
        pp = p
        if p == "sym":
            pp = var("p")
            I.assume(le(ONE, pp))
        S = NormSetting(I, pp, Q, excl)
        if Q is None and pp == INF:
            I.loop_specs += [MaxLoop(S, False), MaxLoop(S, True)]
        xf = content(S.x)
        r = I.call(I.getattr(S.W.ode, "compute_state_norm"), [S.state], {})
        if pp == INF:
            if Q is None:
                D, N = app("MaxD", [S.W.Q]), app("MaxN", [S.W.Q])
            else:
                D = N = ZERO
                for k in range(Q):
                    kk = lift(k)
                    D = ite(and_(S.included(kk), S.W.dist(kk)), T.max_(D, S.part(kk)), D)
                    N = ite(and_(S.included(kk), not_(S.W.dist(kk))), T.max_(N, S.part(kk)), N)
            want = T.max_(T.max_(D, S.comm.O), N)
            contrib, op = D, "MAX"
        else:
            D, N = S.total(True, Q), S.total(False, Q)
            want = S.root(add(D, S.comm.O, N))
            contrib, op = D, "SUM"
        truth(I, "one reduction over the ranks", len(S.comm.calls) == 1, f"{len(S.comm.calls)}")
        if len(S.comm.calls) == 1:
            truth(I, "reduction with the operation of the norm", S.comm.calls[0][0] == op, str(S.comm.calls[0][0]))
            I.oblige("contributed to the reduction: exactly the own part of the distributed quantities", eqs=(S.comm.calls[0][1], contrib))
        I.oblige("norm of the concatenation of all non-excluded quantities", eqs=(lift(r), want))
        same_array(I, "frame: state unchanged", S.x, xf, (S.W.n,))
    return run


def run_defaults(I):
    """default order 2, nothing excluded; and the integrator builds the wrapper of its problem and quantities"""
    S = NormSetting(I, 2, 2, False)
    del S.W
    W = Wrapper(I, 2, 0, comm=S.comm)
    S.W = W
    r = I.call(I.getattr(W.ode, "compute_state_norm"), [S.state], {})
    I.oblige("Euclidean norm by default", eqs=(lift(r), S.root(add(S.total(True, 2), S.comm.O, S.total(False, 2)))))


def run_measure(kind):
    def run(I):
        n, q, o, m = sizes(I, "n", "q", "o", "m")
        ode = AbstractODE(I, n, q, o, m)
        g = lambda nm: I.get(f"{PKG}.error_measurer:{nm}")
        rs = I.get(ODEM + ":DiscretizedODEResultState")
        e, x = arr(I, "err", (n,)), arr(I, "x", (n,))
        mk = lambda a, nm: I.call(rs, [arr(I, nm + "u", (n,)), a, arr(I, nm + "o", (o,))], {})
        E, X = mk(e, "e"), mk(x, "s")
        ef, xf = content(e), content(x)
        nrm = lambda a: app("onorm", [a.lam()])
        if kind == "simple":
            M = I.call(g("SimpleErrorMeasurer"), [], {})
            want = nrm(e)
        else:
            eta, eps = var("eta"), var("eps")
            I.assume(lt(ZERO, eta), lt(ZERO, eps), le(ZERO, nrm(x)))
            M = I.call(g("ImprovedErrorMeasurer"), [], {} if kind == "default" else dict(eta=eta, eps=eps))
            want = T.div(nrm(e), add(nrm(x), T.div(eta, eps) if kind != "default" else ONE))
        r = I.call(I.getattr(M, "get_measure"), [E, X, ode.obj], {})
        I.oblige({"simple": "norm of the error estimate", "default": "relative measure, default tolerances", "relative": "relative measure"}[kind], eqs=(lift(r), want))
        same_array(I, "frame: error estimate", e, ef, (n,))
        same_array(I, "frame: state", x, xf, (n,))
    return run


def run_trial(rank):
    """the step hands the error estimate and the new state of the trial step to the measure"""
    def run(I):
        H = c07.Rec(I, rank=rank)
        got = []
        orig = H.measure

        def measure(ar, kw):
            d = argmap(I, ["state_error_estimate", "state", "ode"], ar, kw)
            t = H.trial()
            same_array(I, "the estimate measured is that of the trial step", I.getattr(d["state_error_estimate"], "stage_state"), t[("d", "error_estimate")], (H.n,))
            same_array(I, "the state measured is that of the trial step", I.getattr(d["state"], "stage_state"), t[("d", "final_state")], (H.n,))
            truth(I, "the measure gets the ODE", d["ode"] is H.ode.obj)
            got.append(1)
            return orig(ar, kw)
        H.measure = measure
        hk = c07.recursion(H)
        for nm, f in I.get(RKI + ":RungeKuttaIntegrator").ns.items():
            if isinstance(f, PyFunc) and f.name not in ("setup", "compute", "compute_jacvec_product"):
                I.contracts[f.qual] = hk
        tis, _ = H.new_state("X_")
        c07.run_step(H, tis)
        truth(I, "every trial step is measured", got, "")
    return run


def units(tier):
    u = [("norm of finite order", run_norm("sym"), {}, {}), ("maximum norm", run_norm(INF), {}, {}), ("Euclidean norm, nothing excluded", run_norm(2, None, False), {}, {}),
         ("sum norm", run_norm(1), {}, {}), ("maximum norm, nothing excluded", run_norm(INF, None, False), {}, {}), ("defaults", run_defaults, {}, {})]
    u += [(f"measure ({k})", run_measure(k), {}, {}) for k in ("simple", "relative", "default")]
    u += [(f"measured step, rank {r}", run_trial(r), {}, {}) for r in (0, 1)]
    return u


def always(tier):
    u = []
    for p, nm in (("sym", "p"), (INF, "inf"), (2, "2"), (1, "1"), (3, "3"), (Fraction(3, 2), "1.5")):
        for Q in (0, 1, 2) + ((3,) if p in ("sym", INF) else ()):
            u.append((f"norm of order {nm}, {Q} quantities", run_norm(p, Q), {}, {}))
    return u


def bounded(tier, ints=()):
    return [x for x in units(tier) if "norm" not in x[0]] + always(tier)
