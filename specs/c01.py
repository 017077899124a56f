"""C01: one primal step = the Runge-Kutta formula of the tableau."""
from .common import *

TITLE = "time step computes the Runge-Kutta formula"
FILES = ["rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py"]
FUNCS = ["StageOrderedRungeKuttaDiscretization.compute_step",
         "StageOrderedEmbeddedRungeKuttaDiscretization.compute_step",
         "EmbeddedRungeKuttaMixin.compute_error_estimate"]
ASSUMPTIONS = ["DiscretizedODE.compute_update returns fresh arrays determined by its documented arguments and modifies nothing"]
RT_NOTE = "random tableaux and ODEs, real discretization against the written-out formula, histories of steps"
LEVEL = "proved for every number of stages, size, tableau and ODE"


def step_run(embedded, s_conc=None):
    def run(I):
        n, q, o, m = sizes(I, "n", "q", "o", "m")
        if s_conc is None:
            s = var("s", "I")
            I.assume(le(ONE, s))
        else:
            s = lift(s_conc)
        ode = AbstractODE(I, n, q, o, m)
        tab, A, b, c, e = sym_tableau(I, s_conc if s_conc is not None else s, embedded)
        cls = I.get(SORPC + (":StageOrderedEmbeddedRungeKuttaDiscretization" if embedded else ":StageOrderedRungeKuttaDiscretization"))
        scheme = I.call(cls, [tab], {})
        st = I.call(I.getattr(scheme, "create_empty_discretization_state"), [ode.obj], {})
        old = havoc_state(I, st, "S_", embedded)
        h = var("h")
        x0 = old["final_state"]
        p0 = old["independent_inputs"]
        t0 = old["final_time"]((ZERO,))
        Af, bf, cf = content(A), content(b), content(c)
        ef = content(e) if embedded else None
        lam_x0, lam_p = lamof(x0, (n,)), lamof(p0, (q,))
        concrete = s_conc is not None
        memo = {}

        def K(j, i):
            if concrete:
                return app("F_upd", list(args(j)) + [i])
            return app("K", [j, i])

        def args(j):
            if j in memo:
                return memo[j]

            def acc(ix):
                if concrete:
                    r = ZERO
                    for l in range(int(T.cval(j))):
                        r = add(r, mul(Af((j, lift(l))), K(lift(l), ix[0])))
                    return r
                v = fresh_bound()
                return sum_(v, ZERO, j, mul(Af((j, v)), K(v, ix[0])))
            memo[j] = (lam_x0, lamof(acc, (n,)), lam_p, add(t0, mul(h, cf((j,)))), h, Af((j, j)))
            return memo[j]

        def row(F):
            return lambda j, rest: app(F, list(args(j)) + list(rest))
        g = lambda f: I.getattr(st, f)
        rows = {
            g("stage_updates").buf: (lambda j, r: K(j, r[0]), row("F_upd")),
            g("stage_states").buf: (row("F_st"), row("F_st")),
            g("stage_independent_outputs").buf: (row("F_out"), row("F_out")),
            g("linearization_points").buf: (row("F_lp"), row("F_lp")),
            g("stage_times").buf: ((lambda j, r: add(t0, mul(h, cf((j,))))),) * 2,
        }
        I.loop_specs.append(StageLoop(s, rows))
        hid = Hidden([scheme, tab, st], allow=old)
        try:
            ret = I.call(I.getattr(scheme, "compute_step"), [ode.obj, st, h], {})
        except PyExc as ex:
            truth(I, "compute_step does not raise", False, repr(ex.obj.attrs.get("args")))
            return

        def wsum(w, i):
            if concrete:
                r = ZERO
                for l in range(s_conc):
                    r = add(r, mul(w((lift(l),)), K(lift(l), i)))
                return r
            v = fresh_bound()
            return sum_(v, ZERO, s, mul(w((v,)), K(v, i)))
        xnew = lambda ix: add(x0(ix), mul(h, wsum(bf, ix[0])))
        post = {
            "final_state": xnew,
            "final_time": lambda ix: add(t0, h),
            "start_state": x0,
            "start_time": lambda ix: t0,
            "step_size": lambda ix: h,
            "independent_inputs": p0,
            "stage_times": lambda ix: add(t0, mul(h, cf(ix))),
        }
        if embedded:
            xemb = lambda ix: add(x0(ix), mul(h, wsum(ef, ix[0])))
            post["embedded_state"] = xemb
            post["error_estimate"] = lambda ix: sub(xnew(ix), xemb(ix))
        rowp = {"stage_updates": "F_upd", "stage_states": "F_st", "stage_independent_outputs": "F_out",
                "linearization_points": "F_lp"}
        for label, who in (("", st), ("returned ", ret)):
            if who is st and label:
                continue
            if not isinstance(who, Obj):
                truth(I, "post: a state is returned", False, repr(who))
                continue
            for f, fn in post.items():
                same_array(I, f"post: {label}{f}", I.getattr(who, f), fn, state_shape(f, s, n, q, o, m))
            for f, F in rowp.items():
                a = I.getattr(who, f)
                if concrete:
                    for j in range(s_conc):
                        rowv = I.getitem(a, j)
                        same_array(I, f"post: {label}{f}", rowv, lambda ix, j=j, F=F: row(F)(lift(j), ix))
                else:
                    same_array(I, f"post: {label}{f}", a,
                               (lambda ix: K(ix[0], ix[1])) if f == "stage_updates" else (lambda ix, F=F: row(F)(ix[0], ix[1:])),
                               state_shape(f, s, n, q, o, m))
        for nm, a, f in (("A", A, Af), ("b", b, bf), ("c", c, cf)) + ((("b_hat", e, ef),) if embedded else ()):
            same_array(I, f"frame: tableau {nm} unchanged", a, f)
        for nm, a in (("butcher_matrix", A), ("butcher_weight_vector", b), ("butcher_time_stages", c)):
            v = I.getattr(tab, nm)
            same_array(I, f"frame: tableau.{nm}", v, content(a), a.shape)
        hid.unchanged()
    return run


def units(tier):
    return [("step", step_run(False), {}, {}), ("embedded step", step_run(True), {}, {})]


def bounded(tier, ints=()):
    ss = stage_counts(tier, ints)
    return [(f"step s={s}", step_run(False, s), {}, {"unroll": 6}) for s in ss] + \
           [(f"embedded step s={s}", step_run(True, s), {}, {"unroll": 6}) for s in ss]
