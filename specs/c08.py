"""C08: the error controller accepts and bounds steps as configured."""
from .common import *

EC = PKG + ".error_controller"
FILES = ["rkopenmdao/error_controller.py"]
FUNCS = ["ErrorController.__init__", "ErrorController.__call__", "ErrorController._run", "ErrorController._estimate_next_step_function",
         "ErrorControllerDecorator.__init__", "ErrorControllerDecorator.__call__", "ErrorControllerDecorator._run"]
ASSUMPTIONS = ["the wrapped controller is any controller that returns a status or raises OuterErrorControllerError",
               "x ** y with symbolic exponent is an uninterpreted power function"]
RT_NOTE = "random configurations, histories and call sequences against a reference automaton of the documented behaviour"
LEVEL = "one call proved for all configurations and inputs; call sequences of a stack of controllers up to max_iter+2 calls"
RT_BUDGET = 8
INF = float("inf")
EXPS = ("alpha", "beta", "gamma", "a", "b")


class Setting:
    def __init__(self, I, up="sym", rem="sym", max_iter=None):
        self.I = I
        self.tol, self.lo, self.sf = var("tol"), var("lo"), var("sf")
        self.up = var("up") if up == "sym" else INF
        I.assume(lt(ZERO, self.tol), le(ZERO, self.lo), lt(ZERO, self.sf))
        if up == "sym":
            I.assume(le(self.lo, self.up))
        self.mi = var("max_iter", "I") if max_iter is None else max_iter
        if max_iter is None:
            I.assume(le(ZERO, self.mi))
        self.rem_kind = rem
        self.cfg = I.call(I.get(EC + ":ErrorControllerConfig"), [], dict(tol=self.tol, lower_bound=self.lo, upper_bound=self.up, safety_factor=self.sf, max_iter=self.mi))

    def exps(self, name):
        return {e: var(f"{name}_{e}") for e in EXPS}

    def inputs(self, k=""):
        I = self.I
        d = dict(error_measure=var("em" + k), delta_t=var("dt" + k), remaining_time=var("rem" + k) if self.rem_kind == "sym" else INF,
                 error_history=arr(I, "eh" + k, (lift(2),)), step_size_history=arr(I, "sh" + k, (lift(2),)))
        I.assume(le(ZERO, d["error_measure"]), lt(ZERO, d["delta_t"]))
        for n in ("eh", "sh"):
            for i in range(2):
                I.assume(le(ZERO, app(n + k, [lift(i)])))
                if n == "eh":
                    I.assume(lt(ZERO, app(n + k, [lift(i)])))
        return d

    def formula(self, x, d):
        """(suggestion, accepted) of the documented formula with the exponents x, as terms"""
        I = self.I
        em, dt, rem = d["error_measure"], d["delta_t"], d["remaining_time"]
        eh, sh = content(d["error_history"]), content(d["step_size_history"])
        e0, e1, h0, h1 = eh((ZERO,)), eh((ONE,)), sh((ZERO,)), sh((ONE,))
        acc = or_(lt(sub(dt, self.lo), const(Fraction("1e-10"))), le(em, self.tol))
        pw = lambda b, e: T.pow_(b, e)
        est = mul(self.sf, dt, pw(T.div(self.tol, em), x["alpha"]), pw(T.div(e0, self.tol), x["beta"]), pw(T.div(self.tol, e1), x["gamma"]))
        r1 = pw(T.div(dt, h0), x["a"])
        r2 = pw(T.div(h0, h1), x["b"])
        est = ite(eq(h0, ZERO), est, ite(eq(h1, ZERO), mul(est, r1), mul(est, r1, r2)))
        est = ite(eq(em, ZERO), dt, est)
        mn = lambda p, q: ite(lt(q, p), q, p)
        mx = lambda p, q: ite(lt(p, q), q, p)
        cl = est if self.up is INF or self.up == INF else mn(self.up, est)
        cl = mx(self.lo, cl)
        if rem != INF:
            cl = mn(add(rem, ite(acc, ZERO, dt)), cl)
        return cl, acc

    def check(self, what, st, sug, acc):
        I = self.I
        if not isinstance(st, Obj):
            truth(I, f"{what}: a status is returned", False, repr(st))
            raise PathEnd()
        a, s = I.getattr(st, "acceptance"), I.getattr(st, "step_size_suggestion")
        if a in (True, False) and not isinstance(a, Term):
            I.oblige(f"{what}: acceptance", goal=acc if a else not_(acc))
        else:
            a = a if isinstance(a, Term) and a.kind in ("le", "lt", "eq", "and", "or", "not", "true", "false") else eq(lift(a), ONE)
            I.oblige(f"{what}: acceptance", goal=or_(and_(a, acc), and_(not_(a), not_(acc))))
        if s == INF:
            truth(I, f"{what}: suggestion", False, "infinite")
            return
        I.oblige(f"{what}: suggestion", eqs=(s, sug))


def frame_hist(I, d, keep):
    for n in ("error_history", "step_size_history"):
        same_array(I, f"frame: {n} unchanged", d[n], keep[n])


def run_base(up, rem, wrapped):
    def run(I):
        S = Setting(I, up, rem)
        x = S.exps("x")
        c = I.call(I.get(EC + ":ErrorController"), [], dict(config=S.cfg, **x))
        if wrapped:
            I.call(I.get(EC + ":ErrorControllerDecorator"), [], dict(alpha=var("fb"), error_controller=c))
        d = S.inputs()
        keep = {n: content(d[n]) for n in ("error_history", "step_size_history")}
        sug, acc = S.formula(x, d)
        bad = and_(not_(acc), lt(d["delta_t"], sug))
        try:
            st = I.call(c, [], d)
        except PyExc as ex:
            truth(I, "only OuterErrorControllerError is raised", ex.obj.cls.name == "OuterErrorControllerError", ex.obj.cls.name)
            truth(I, "a wrapped controller leaves the decision to its fallback", not wrapped)
            I.oblige("raised only for a larger suggestion after a rejection", goal=bad)
            return
        S.check("controller", st, sug, acc)
        if not wrapped:
            I.oblige("a rejected step with a larger suggestion is reported", goal=not_(bad))
        frame_hist(I, d, keep)
    return run


def mk_decorator(I, S, nested=False):
    """decorator around an arbitrary controller"""
    log = []
    status = I.get(EC + ":ErrorControllerStatus")
    outer = I.get(PKG + ".errors:OuterErrorControllerError")

    def call(I2, ar, kw):
        d = argmap(I2, ["self", "error_measure", "delta_t", "remaining_time", "error_history", "step_size_history"], ar, kw)
        k = I2.choose(3, "base")
        log.append((k, d))
        if k == 2:
            I2.raise_(outer, "base")
        s = I2.fresh("bsug")
        log[-1] = (k, d, s)
        return I2.call(status, [s, k == 0], {})
    base_cls = stub_class(I, "AnyController", I.get(EC + ":ErrorController"), {"__call__": call})
    base = I.call(base_cls, [], dict(alpha=var("ba"), config=S.cfg))
    x = S.exps("f")
    dec = I.call(I.get(EC + ":ErrorControllerDecorator"), [], dict(error_controller=base, **x))
    return dec, base, x, log


class Automaton:
    """documented behaviour of the wrapped controller: mode 'wrapped' or 'fallback', number of
    consecutive rejections by the wrapped controller"""

    def __init__(self, S, x, mode, count):
        self.S, self.x, self.mode, self.count = S, x, mode, count

    def step(self, I, d, base, wrapped=False):
        """base: None if the wrapped controller was not asked. Returns ('base', s, acc) or ('own', sug, acc, raises)"""
        if self.mode == "wrapped":
            if base is None:
                truth(I, "the wrapped controller is asked first", False)
                raise PathEnd()
            k = base[0]
            if k == 0:
                self.count = ZERO
                return ("base", base[2], True)
            if k == 1:
                self.count = add(self.count, ONE)
                keep = and_(lt(base[2], d["delta_t"]), le(self.count, lift(self.S.mi)))
                if I.branch(keep):
                    return ("base", base[2], False)
            self.count = ZERO
        elif base is not None:
            truth(I, "the wrapped controller is not asked while the fallback is in charge", False)
            raise PathEnd()
        sug, acc = self.S.formula(self.x, d)
        a = I.branch(acc)
        self.mode = "wrapped" if a else "fallback"
        return ("own", sug, a, (not a) and I.branch(lt(d["delta_t"], sug)) and not wrapped)


def one_call(I, S, dec, log, auto, d, wrapped=False):
    keep = {n: content(d[n]) for n in ("error_history", "step_size_history")}
    n0 = len(log)
    try:
        st, exc = I.call(dec, [], d), None
    except PyExc as ex:
        st, exc = None, ex.obj.cls.name
    truth(I, "the wrapped controller is asked at most once", len(log) - n0 <= 1)
    base = log[n0] if len(log) > n0 else None
    if base is not None:
        b = base[1]
        for n in ("error_measure", "delta_t", "remaining_time"):
            I.oblige(f"the wrapped controller gets {n}", eqs=(b[n], d[n])) if d[n] != INF else truth(I, f"the wrapped controller gets {n}", b[n] == INF)
        for n in ("error_history", "step_size_history"):
            same_array(I, f"the wrapped controller gets {n}", b[n], keep[n], (lift(2),))
    r = auto.step(I, d, base, wrapped)
    frame_hist(I, d, keep)
    if r[0] == "own" and r[3]:
        truth(I, "a larger suggestion of the fallback after a rejection is reported", exc == "InnerErrorControllerError", repr(exc))
        if exc is None:
            raise PathEnd()
        return False
    truth(I, "no exception otherwise", exc is None, repr(exc))
    if exc is not None:
        raise PathEnd()
    S.check("wrapped controller in charge" if r[0] == "base" else "fallback in charge", st, r[1], T.TRUE if r[2] else T.FALSE)
    return True


def run_dec(up, rem, wrapped=False):
    """one call from an arbitrary internal state (mode, count)"""
    def run(I):
        S = Setting(I, up, rem)
        dec, base, x, log = mk_decorator(I, S)
        if wrapped:
            I.call(I.get(EC + ":ErrorControllerDecorator"), [], dict(alpha=var("fb"), error_controller=dec))
        if dec.attrs.get("_outer_counter") != 0 or dec.attrs.get("_is_not_inner") is not True:
            raise Unsupported("representation of the decorator changed")
        cnt = var("count", "I")
        I.assume(le(ZERO, cnt), le(cnt, S.mi))
        dec.attrs["_outer_counter"] = cnt
        mode = ("wrapped", "fallback")[I.choose(2, "mode")]
        dec.attrs["_is_not_inner"] = mode == "wrapped"
        auto = Automaton(S, x, mode, cnt)
        d = S.inputs()
        raised = not one_call(I, S, dec, log, auto, d, wrapped)
        truth(I, "post: controller in charge of the next call", dec.attrs["_is_not_inner"] is (auto.mode == "wrapped"), repr(dec.attrs["_is_not_inner"]))
        if auto.mode == "wrapped":
            I.oblige("post: number of consecutive rejections", eqs=(dec.attrs["_outer_counter"], auto.count))
    return run


def run_seq(max_iter, calls):
    """call sequences from construction (bounded in their length)"""
    def run(I):
        S = Setting(I, "inf", "inf", max_iter)
        dec, base, x, log = mk_decorator(I, S)
        auto = Automaton(S, x, "wrapped", ZERO)
        for k in range(calls):
            d = S.inputs(str(k))
            I.assume(not_(eq(d["error_measure"], ZERO)), eq(app(f"sh{k}", [ZERO]), ZERO))
            if not one_call(I, S, dec, log, auto, d):
                return
    return run


def units(tier):
    u = []
    for up in ("sym", "inf"):
        for rem in ("sym", "inf"):
            for w in (False, True):
                u.append((f"controller upper={up} remaining={rem}{' wrapped' if w else ''}", run_base(up, rem, w), {}, {}))
            u.append((f"decorator upper={up} remaining={rem}", run_dec(up, rem), {}, {}))
    u.append(("decorator inside a decorator", run_dec("inf", "sym", True), {}, {}))
    return u


def bounded(tier, ints=()):
    us = [x for x in units(tier) if x[0].startswith("controller")]
    return us


def always(tier):
    return [(f"call sequences max_iter={m} calls={k}", run_seq(m, k), {}, {"max_paths": 4000}) for m, k in ((0, 2), (1, 3), (2, 3))]
