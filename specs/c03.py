"""C03: the adjoint step is the exact transpose of the tangent step."""
from .common import *

FILES = ["rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py"]
FUNCS = ["StageOrderedRungeKuttaDiscretization.compute_step_adjoint_derivative",
         "StageOrderedRungeKuttaDiscretization.compute_step_derivative",
         "StageOrderedRungeKuttaDiscretization.time_discretization_starting_scheme_adjoint_derivative",
         "StageOrderedRungeKuttaDiscretization.time_discretization_finalization_scheme_adjoint_derivative"]
ASSUMPTIONS = ["contract of DiscretizedODE: for equal linearization point, step size and stage factor, compute_update_adjoint_derivative is the transpose of compute_update_derivative; both return fresh arrays and modify nothing"]
RT_NOTE = "random tableaux and ODEs, inner products of real tangent and adjoint steps, repeated steps on reused states"
LEVEL = "proved for every number of stages, size, tableau and ODE"


def dot(a, b, d):
    v = fresh_bound()
    return sum_(v, ZERO, d, mul(a(v), b(v)))


class Adjoint:
    """ghost definition of the reverse recursion."""

    def __init__(self, S, w, sig, lp):
        self.S, self.w, self.sig, self.lp = S, w, sig, lp
        self.memo = {}

    def targs(self, j):
        if j not in self.memo:
            S = self.S
            self.memo[j] = (lamof(lambda ix: self.U(j, ix[0]), (S.n,)), lamof(lambda ix: self.sig((j,) + ix), (S.n,)),
                            lamof(lambda ix: ZERO, (S.o,)), S.h, S.Af((j, j)), lamof(lambda ix: self.lp((j,) + ix), (S.m,)))
        return self.memo[j]

    def U(self, j, i):
        return app("U", [j, i])

    def Udef(self, j, i, frm):
        """stage-update adjoint of stage j after the stages l >= frm have been processed"""
        S = self.S
        return add(mul(S.h, S.bf((j,)), self.w((i,))),
                   S.total(frm, S.s, lambda l: mul(S.Af((l, j)), app("T_stage", list(self.targs(l)) + [i]))))

    def T(self, F, j, *ix):
        return app(F, list(self.targs(j)) + list(ix))


class RevLoop:
    """loop contract of the reversed stage loop"""

    def __init__(self, G, pert, iota, tau):
        self.G, self.pert, self.iota, self.tau = G, pert, iota, tau

    def matches_while(self, I, st, fr):
        return False

    def for_inv(self, I, st, fr, rng):
        S = self.G.S
        if rng.step != -1 or I.decide(eq(rng.start, sub(S.s, ONE))) is not True or I.decide(eq(rng.n, S.s)) is not True:
            return None
        return _RevInv(I, self)


class _RevInv(ClosedForm):
    def __init__(self, I, L):
        G, S, g = L.G, L.G.S, lambda f: I.getattr(L.pert, f).buf
        self.L, self.G, self.S = L, G, S
        first = lambda k: sub(S.s, k)
        self.ents = {b: b._fn for b in (g("start_state"), g("start_time"), g("independent_inputs"), g("stage_updates"), g("stage_times"))}
        su, st, ii, ud, tm = self.ents
        self.ud = ud
        e = self.ents

        def fud(k, ix):
            j, i = ix
            # processed rows keep the value they had when processed
            return ite(le(first(k), j), G.U(j, i), G.Udef(j, i, first(k)))
        bufs = {
            su: lambda k, ix: add(e[su](ix), S.total(first(k), S.s, lambda l: G.T("T_step", l, *ix))),
            st: lambda k, ix: add(e[st](ix), S.total(first(k), S.s, lambda l: add(e[tm]((l,)), G.T("T_time", l)))),
            ii: lambda k, ix: add(e[ii](ix), S.total(first(k), S.s, lambda l: G.T("T_ind", l, *ix))),
            tm: lambda k, ix: add(e[tm](ix), ite(le(first(k), ix[0]), G.T("T_time", ix[0]), ZERO)),
            ud: fud,
        }
        super().__init__("reverse stage loop", bufs)

    def holds(self, I, k, what):
        if k is ZERO:
            return super().holds(I, k, what)
        # ghost definition: the row processed in this iteration has its final value U
        j = sub(self.S.s, k)
        G = self.G
        iv = I.fresh("ix", "I")
        return super().holds(I, k, what)

    def at(self, I, k, final=False):
        super().at(I, k, final)
        if not final:
            # row about to be processed: U(j,.) is by definition its present value
            S, G = self.S, self.G
            j = sub(sub(S.s, k), ONE)
            base = self.ud._fn
            fk = self.bufs[self.ud]

            def fn(ix, j=j, k=k):
                return ite(eq(ix[0], j), G.U(ix[0], ix[1]), fk(k, ix))
            self.ud.setfn(fn)


def duality_run(embedded, s_conc=None):
    def run(I):
        S = RKSetting(I, s_conc, embedded)
        prim, pold = S.state("P_")
        lp = pold["linearization_points"]
        # tangent run with arbitrary input
        tang, dold = S.state("D_")
        dx0, dp, dt0 = dold["final_state"], dold["independent_inputs"], dold["final_time"]((ZERO,))
        G = Tangent(S, dx0, dp, dt0, lp)
        if s_conc is None:
            I.loop_specs.append(StageLoop(S.s, G.rows(tang)))
        tang = S.call("compute_step_derivative", [S.ode.obj, prim, tang, S.h], "compute_step_derivative")
        I.loop_specs.clear()
        tg = lambda f: content(I.getattr(tang, f))
        # adjoint run with arbitrary final adjoints
        adj, aold = S.state("W_")
        w, tau, iota, sig = aold["final_state"], aold["final_time"]((ZERO,)), aold["independent_inputs"], aold["stage_states"]
        R = Adjoint(S, w, sig, lp)
        calls = []
        S.ode.hook["adj"] = calls.append
        if s_conc is None:
            I.loop_specs.append(RevLoop(R, adj, iota, tau))
        ret = S.call("compute_step_adjoint_derivative", [S.ode.obj, prim, adj, S.h], "compute_step_adjoint_derivative")

        def hyp(wargs, j, cond=None):
            """instance of the ODE's duality contract: adjoint call `wargs` against the tangent input of stage j"""
            v = G.args(j)
            U, sg, y, h, a, l = wargs
            jargs = list(v[:4]) + [h, a, l]
            o1 = lambda L, i: T.open_lam(L, [i])
            lhs = add(dot(lambda i: app("T_step", list(wargs) + [i]), lambda i: o1(v[0], i), S.n),
                      dot(lambda i: app("T_stage", list(wargs) + [i]), lambda i: o1(v[1], i), S.n),
                      dot(lambda i: app("T_ind", list(wargs) + [i]), lambda i: o1(v[2], i), S.q),
                      mul(app("T_time", list(wargs)), v[3]))
            rhs = add(dot(lambda i: o1(U, i), lambda i: app("J_upd", jargs + [i]), S.n),
                      dot(lambda i: o1(sg, i), lambda i: app("J_st", jargs + [i]), S.n),
                      dot(lambda i: o1(y, i), lambda i: app("J_out", jargs + [i]), S.o))
            return sub(lhs, rhs)
        if s_conc is None:
            # sum over all stages of the duality contract; J_upd at stage j is dK(j,.) and the
            # processed stage-update adjoint U(j,.) is Udef(j,.,j+1)  (ghost definitions)
            lhs_rhs = []
            v = fresh_bound()
            wargs = R.targs(v)
            tv = G.args(v)
            o1 = lambda L, i: T.open_lam(L, [i])
            term = sub(add(dot(lambda i: app("T_step", list(wargs) + [i]), lambda i: o1(tv[0], i), S.n),
                           dot(lambda i: app("T_stage", list(wargs) + [i]), lambda i: o1(tv[1], i), S.n),
                           dot(lambda i: app("T_ind", list(wargs) + [i]), lambda i: o1(tv[2], i), S.q),
                           mul(app("T_time", list(wargs)), dt0)),
                       add(dot(lambda i: R.Udef(v, i, add(v, ONE)), lambda i: G.K(v, i), S.n),
                           dot(lambda i: sig((v, i)), lambda i: G.row("J_st")(v, (i,)), S.n)))
            I.hyps.append(sum_(v, ZERO, S.s, term))
        else:
            for k, c in enumerate(calls):
                for j in range(s_conc):
                    I.hyps.append(hyp(c, lift(j)))
            truth(I, "every stage is transposed once", len(calls) == s_conc, f"{len(calls)} adjoint evaluations")
        dual_lhs = add(dot(lambda i: w((i,)), lambda i: tg("final_state")((i,)), S.n),
                       mul(tau, tg("final_time")((ZERO,))),
                       S.total(ZERO, S.s, lambda l: dot(lambda i: sig((l, i)), lambda i: tg("stage_states")((l, i)), S.n)))
        whos = [("", adj)] + ([("returned ", ret)] if ret is not adj else [])
        for label, who in whos:
            if not isinstance(who, Obj):
                truth(I, "post: a perturbation state is returned", False, repr(who))
                continue
            a = lambda f: content(I.getattr(who, f))
            for x, t in (("final_state", "final_time"), ("start_state", "start_time")):
                rhs = add(dot(lambda i: a(x)((i,)), lambda i: dx0((i,)), S.n), mul(a(t)((ZERO,)), dt0),
                          dot(lambda i: sub(a("independent_inputs")((i,)), iota((i,))), lambda i: dp((i,)), S.q))
                I.oblige(f"post: {label}inner products agree ({x}, {t})", eqs=(dual_lhs, rhs))
        S.frame_state(prim, pold, "primal")
        S.frame_tableau()
        return
    return run


def start_adj_run(embedded):
    def run(I):
        S = RKSetting(I, None, embedded)
        SV = I.get(IFM + ":TimeDiscretizationStartingValues")
        FV = I.get(IFM + ":TimeDiscretizationFinalizationValues")
        x0, p0, dx, dp = arr(I, "sv_x", (S.n,)), arr(I, "sv_p", (S.q,)), arr(I, "dsv_x", (S.n,)), arr(I, "dsv_p", (S.q,))
        t0, dt0 = var("sv_t"), var("dsv_t")
        sv, dsv = I.call(SV, [t0, x0, p0], {}), I.call(SV, [dt0, dx, dp], {})
        dst = S.call("time_discretization_starting_scheme_derivative", [S.ode.obj, sv, dsv, S.h], "starting scheme derivative")
        w, wold = S.state("W_")
        c = lambda a: (lambda i: content(a)((i,)))
        asv = S.call("time_discretization_starting_scheme_adjoint_derivative", [S.ode.obj, sv, w, S.h], "starting scheme adjoint")
        g = lambda o, f: I.getattr(o, f)
        lhs = ZERO
        for f in STATE_FIELDS + (EMB_FIELDS if embedded else []):
            sh, d = S.shape(f), content(g(dst, f))
            if f in ("step_size",):
                continue
            if len(sh) == 1:
                lhs = add(lhs, S.total(ZERO, sh[0], lambda l: mul(wold[f]((l,)), d((l,)))))
            else:
                lhs = add(lhs, S.total(ZERO, sh[0], lambda l: dot(lambda i: wold[f]((l, i)), lambda i: d((l, i)), sh[1])))
        rhs = add(dot(c(g(asv, "initial_values")), c(dx), S.n), dot(c(g(asv, "independent_inputs")), c(dp), S.q), mul(num(I, g(asv, "initial_time")), dt0))
        I.oblige("starting scheme: adjoint is the transpose of the tangent", eqs=(lhs, rhs))
        # finalization
        fin, fold = S.state("F_")
        dfin, dfold = S.state("DF_")
        dv = S.call("time_discretization_finalization_scheme_derivative", [S.ode.obj, fin, dfin, S.h], "finalization derivative")
        wx, wo, wt = arr(I, "wx", (S.n,)), arr(I, "wo", (S.o,)), var("wt")
        afin = S.call("time_discretization_finalization_scheme_adjoint_derivative", [S.ode.obj, fin, I.call(FV, [wt, wx, wo], {}), S.h], "finalization adjoint")
        lhs = add(dot(c(wx), c(g(dv, "final_values")), S.n), dot(c(wo), c(g(dv, "final_independent_outputs")), S.o), mul(wt, num(I, g(dv, "final_time"))))
        rhs = ZERO
        for f in STATE_FIELDS + (EMB_FIELDS if embedded else []):
            sh, d = S.shape(f), content(g(afin, f))
            if len(sh) == 1:
                rhs = add(rhs, S.total(ZERO, sh[0], lambda l: mul(dfold[f]((l,)), d((l,)))))
            else:
                rhs = add(rhs, S.total(ZERO, sh[0], lambda l: dot(lambda i: dfold[f]((l, i)), lambda i: d((l, i)), sh[1])))
        I.oblige("finalization scheme: adjoint is the transpose of the tangent", eqs=(lhs, rhs))
    return run


def units(tier):
    return [("duality", duality_run(False), {}, {}), ("embedded duality", duality_run(True), {}, {}),
            ("starting/finalization adjoint", start_adj_run(False), {}, {}), ("embedded starting/finalization adjoint", start_adj_run(True), {}, {})]


def bounded(tier, ints=()):
    ss = stage_counts(tier, ints)
    return [(f"duality s={s}{' embedded' if e else ''}", duality_run(e, s), {}, {"unroll": 6}) for s in ss for e in (False, True)] + \
        [("starting/finalization adjoint", start_adj_run(False), {}, {}), ("embedded starting/finalization adjoint", start_adj_run(True), {}, {})]
