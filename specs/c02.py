"""C02: the tangent step is the linearisation of the step (about the stored linearization points)."""
from .common import *

FILES = ["rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py"]
FUNCS = ["StageOrderedRungeKuttaDiscretization.compute_step_derivative",
         "StageOrderedRungeKuttaDiscretization.time_discretization_starting_scheme_derivative",
         "StageOrderedRungeKuttaDiscretization.time_discretization_finalization_scheme_derivative"]
ASSUMPTIONS = ["DiscretizedODE.compute_update_derivative returns fresh arrays determined by its documented arguments and modifies nothing"]
RT_NOTE = "random tableaux and ODEs, real tangent steps about the linearization points of a real step"
LEVEL = "proved for every number of stages, size, tableau and ODE"


def tangent_run(embedded, s_conc=None):
    def run(I):
        S = RKSetting(I, s_conc, embedded)
        prim, pold = S.state("P_")
        pert, dold = S.state("D_")
        dx0, dp, dt0 = dold["final_state"], dold["independent_inputs"], dold["final_time"]((ZERO,))
        G = Tangent(S, dx0, dp, dt0, pold["linearization_points"])
        if s_conc is None:
            I.loop_specs.append(StageLoop(S.s, G.rows(pert)))
        ret = S.call("compute_step_derivative", [S.ode.obj, prim, pert, S.h], "compute_step_derivative")
        xnew = lambda ix: add(dx0(ix), mul(S.h, S.total(ZERO, S.s, lambda l: mul(S.bf((l,)), G.K(l, ix[0])))))
        post = {"final_state": xnew, "final_time": lambda ix: dt0, "start_state": dx0, "start_time": lambda ix: dt0,
                "independent_inputs": dp, "stage_times": lambda ix: dt0}
        rowp = {"stage_updates": "J_upd", "stage_states": "J_st", "stage_independent_outputs": "J_out"}
        for label, who in (("", pert),) + ((("returned ", ret),) if ret is not pert else ()):
            if not isinstance(who, Obj):
                truth(I, "post: a perturbation state is returned", False, repr(who))
                continue
            for f, fn in post.items():
                same_array(I, f"post: {label}{f}", I.getattr(who, f), fn, S.shape(f))
            for f, F in rowp.items():
                a = I.getattr(who, f)
                if s_conc is not None:
                    for j in range(s_conc):
                        same_array(I, f"post: {label}{f}", I.getitem(a, j), lambda ix, j=j, F=F: G.row(F)(lift(j), ix))
                else:
                    same_array(I, f"post: {label}{f}", a, (lambda ix: G.K(*ix)) if f == "stage_updates" else (lambda ix, F=F: G.row(F)(ix[0], ix[1:])), S.shape(f))
        S.frame_state(prim, pold, "primal")
        S.frame_tableau()
    return run


def start_run(embedded):
    """starting / finalization schemes: primal and tangent are the (linear) injection / projection."""
    def run(I):
        S = RKSetting(I, None, embedded)
        SV = I.get(IFM + ":TimeDiscretizationStartingValues")
        x0, p0 = arr(I, "sv_x", (S.n,)), arr(I, "sv_p", (S.q,))
        dx, dp = arr(I, "dsv_x", (S.n,)), arr(I, "dsv_p", (S.q,))
        t0, dt0 = var("sv_t"), var("dsv_t")
        sv = I.call(SV, [t0, x0, p0], {})
        dsv = I.call(SV, [dt0, dx, dp], {})
        st = S.call("time_discretization_starting_scheme", [S.ode.obj, sv, S.h], "starting scheme")
        for f, v in (("final_state", content(x0)), ("independent_inputs", content(p0)), ("final_time", lambda ix: t0), ("step_size", lambda ix: S.h)):
            same_array(I, f"starting scheme: {f}", I.getattr(st, f), v, S.shape(f))
        dst = S.call("time_discretization_starting_scheme_derivative", [S.ode.obj, sv, dsv, S.h], "starting scheme derivative")
        for f, v in (("final_state", content(dx)), ("independent_inputs", content(dp)), ("final_time", lambda ix: dt0)):
            same_array(I, f"starting scheme derivative: {f}", I.getattr(dst, f), v, S.shape(f))
        for a, b in ((x0, "sv_x"), (p0, "sv_p"), (dx, "dsv_x"), (dp, "dsv_p")):
            same_array(I, f"frame: {b} unchanged", a, lambda ix, b=b: app(b, list(ix)))
            for s_, f in ((st, "final_state"), (st, "independent_inputs"), (dst, "final_state"), (dst, "independent_inputs")):
                truth(I, "starting scheme copies the values", root(I.getattr(s_, f).buf) is not root(a.buf), f"{f} aliases the caller's array")
        fin, fold = S.state("F_")
        dfin, dfold = S.state("DF_")
        v = S.call("time_discretization_finalization_scheme", [S.ode.obj, fin, S.h], "finalization")
        dv = S.call("time_discretization_finalization_scheme_derivative", [S.ode.obj, fin, dfin, S.h], "finalization derivative")
        for lab, val, old in (("finalization", v, fold), ("finalization derivative", dv, dfold)):
            same_array(I, f"{lab}: final_values", I.getattr(val, "final_values"), old["final_state"], (S.n,))
            same_array(I, f"{lab}: final_independent_outputs", I.getattr(val, "final_independent_outputs"), old["final_independent_outputs"], (S.o,))
            I.oblige(f"{lab}: final_time", eqs=(num(I, I.getattr(val, "final_time")), old["final_time"]((ZERO,))))
    return run


def units(tier):
    return [("tangent step", tangent_run(False), {}, {}), ("embedded tangent step", tangent_run(True), {}, {}),
            ("starting and finalization", start_run(False), {}, {}), ("embedded starting and finalization", start_run(True), {}, {})]


def bounded(tier, ints=()):
    ss = stage_counts(tier, ints)
    return [(f"tangent step s={s}", tangent_run(e, s), {}, {"unroll": 6}) for s in ss for e in (False, True)] + \
           [("starting and finalization", start_run(False), {}, {}), ("embedded starting and finalization", start_run(True), {}, {})]
