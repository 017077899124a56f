from common import *
import numpy as np
import openmdao.api as om
from rkopenmdao.utils.utility_components import StageValueComponent, StageUpdateComponent
from rkopenmdao.odes.simple_linear_ode import SimpleLinearODE
from rkopenmdao.odes.kaps import KapsComponent1, KapsComponent2, KapsGroup
from rkopenmdao.odes.prothero_robinson_ode import ProtheroRobinson

CASE_TIMEOUT = 60


DIAL = {"n": 500}


def cases(rng, tier):
    k = 0
    while k < (300 if tier == "quick" else 6000):
        k += 1
        yield dict(kind=rng.choice(["value", "update", "linear", "prothero", "kaps1", "kaps2", "kaps2", "group", "nested"]), seed=rng.randrange(10**6), n=rng.choice([1, 2, 3, 5]), K=rng.choice([0, 1, 2, 3]),
                   h=rng.choice([0.1, 0.01, 1.0, 0.37]), a=rng.choice([0.0, 0.25, 0.5, 1.0, 0.2928]), eps=rng.choice([1.0, 0.1, 1e-3]), lam=rng.choice([-1e2, -1.0, 1.3]),
                   solver=rng.choice(["krylov", "bgs", "bj", "ro", "direct"]), mode=rng.choice(["fwd", "rev"]))


def setex(model, h, a):
    for s in model.system_iter(recurse=True, include_self=True):
        if hasattr(s, "om_data_exchange"):
            s.om_data_exchange.step_size, s.om_data_exchange.stage_factor = h, a


def build(c):
    kind = c["kind"]
    a = c["a"] or (0.3 if kind in ("update",) else 0.0)
    p = om.Problem()
    n, K = c["n"], c["K"]
    shapes = {}
    if kind == "value":
        comp = StageValueComponent()
        shapes = dict(stage_slope=n)
    elif kind == "update":
        comp = StageUpdateComponent(quantity_list=[f"q{k}" for k in range(K)])
        shapes = {f"q{k}{s}": n + k for k in range(K) for s in ("", "_old", "_acc_stages")}
    elif kind == "linear":
        comp = SimpleLinearODE()
    elif kind == "prothero":
        comp = ProtheroRobinson(lambda_=c["lam"])
    elif kind == "kaps1":
        comp = KapsComponent1(epsilon=c["eps"])
    else:
        comp = KapsComponent2()
    if shapes:
        iv = p.model.add_subsystem("iv", om.IndepVarComp())
        for s, m in shapes.items():
            iv.add_output(s, np.ones(m), distributed=kind == "update")
    p.model.add_subsystem("c", comp)
    for s in shapes:
        p.model.connect("iv." + s, "c." + s)
    p.setup(force_alloc_complex=False)
    p.final_setup()
    setex(p.model, c["h"], a)
    return p, comp, c["h"], a


def names(comp):
    rel = lambda t: [n.split(".")[-1] for n in comp._var_abs2meta[t]]
    return rel("input"), rel("output")


def get(vec, ns):
    return {n: np.array(vec[n]).ravel().copy() for n in ns}


def put(vec, vals):
    for n, v in vals.items():
        vec[n] = np.asarray(v).reshape(np.shape(vec[n]))


def equations(c, h, a, comp, x, y):
    """documented equations: list of (name, lhs, rhs)"""
    k = c["kind"]
    if k == "value":
        return [("stage value", y["stage_value"], x["old_value"] + h * (x["acc_stages"] + a * x["stage_slope"]))]
    if k == "update":
        return [(f"stage update {q}", x[q], x[q + "_old"] + h * (x[q + "_acc_stages"] + a * y[q + "_update"])) for q in comp.options["quantity_list"]]
    if k == "linear":
        return [("slope", y["y_stage"], -(x["y_old"] + h * (x["y_accumulated_stages"] + a * y["y_stage"])))]
    if k == "prothero":
        t = x["time"]
        s = y["x_stage"]
        return [("slope", s, c["lam"] * (x["x"] + h * (x["acc_stages"] + a * s) - np.sin(t + np.pi / 4)) + np.cos(t + np.pi / 4))]
    if k == "kaps1":
        return [("value", y["y_1"], x["y_1_old"] + h * (x["y_1_accumulated_stages"] + a * y["y_1_stage"])),
                ("slope", c["eps"] * y["y_1_stage"], -(1 + 2 * c["eps"]) * y["y_1"] + x["y_2"] ** 2)]
    return [("value", y["y_2"], x["y_2_old"] + h * (x["y_2_accumulated_stages"] + a * y["y_2_stage"])),
            ("slope", y["y_2_stage"], x["y_1"] - y["y_2"] - y["y_2"] ** 2)]


def pack(d, ns):
    return np.concatenate([d[n] for n in ns]) if ns else np.zeros(0)


def unpack(v, d, ns):
    out, o = {}, 0
    for n in ns:
        out[n] = v[o:o + d[n].size]
        o += d[n].size
    return out


def run(c):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "nested":
        return nested(c, rng)
    if c["kind"] == "group":
        return group(c, rng)
    p, comp, h, a = build(c)
    ins, outs = names(comp)
    sizes = get(comp._inputs, ins)
    x = {n: rng.uniform(0.3, 1.5, v.size) for n, v in sizes.items()}
    y0 = {n: rng.uniform(0.3, 1.5, np.size(comp._outputs[n])) for n in outs}
    imp = c["kind"].startswith("kaps")

    def solve(xx, yy):
        put(comp._inputs, xx)
        put(comp._outputs, yy)
        if imp:
            comp.run_solve_nonlinear()
        else:
            comp._solve_nonlinear()
        return get(comp._outputs, outs)
    def other(point=True):
        # what happens at another stage of another step must not matter
        setex(p.model, float(rng.choice([0.05, 0.2, 0.5])), float(rng.choice([0.0, 0.25, 0.6]) if c["kind"] != "update" else 0.7))
        if point:
            solve({n: rng.uniform(0.3, 1.5, v.size) for n, v in x.items()}, y0)
    if c["seed"] % 2:
        other()
        p.model.run_linearize(sub_do_ln=False)
        setex(p.model, h, a)
    y = solve(x, y0)
    for nm, l, r in equations(c, h, a, comp, x, y):
        close(l, r, f"{c['kind']}: {nm}", 1e-7 if imp else 1e-9)
    close(pack(get(comp._inputs, ins), ins), pack(x, ins), "inputs unchanged by the solve")
    if imp:
        if c["kind"] == "kaps2":
            need(1 + h * a * (1 + 2 * y["y_2"][0]) >= -1e-9, "Kaps 2: solution on the branch of the old state")
        comp.run_apply_nonlinear()
        close(pack(get(comp._residuals, outs), outs), np.zeros(len(outs)), "residuals vanish at the solution", 1e-7)
    if c["kind"] == "prothero":
        return
    # exact derivative: the functions are polynomials of degree two at most
    if imp:
        y = {n: rng.uniform(0.3, 1.5, v.size) for n, v in y.items()}       # any point

        def f(v):
            put(comp._inputs, unpack(v[:nx], x, ins))
            put(comp._outputs, unpack(v[nx:], y, outs))
            comp.run_apply_nonlinear()
            return pack(get(comp._residuals, outs), outs)
    else:
        def f(v):
            return pack(solve(unpack(v, x, ins), y), outs)
    nx = sum(v.size for v in x.values())
    z = np.concatenate([pack(x, ins), pack(y, outs)]) if imp else pack(x, ins)
    if not z.size:
        return
    J = np.array([(f(z + 0.5 * e) - f(z - 0.5 * e)) for e in np.eye(z.size)]).T.reshape(-1, z.size)
    put(comp._inputs, x)
    put(comp._outputs, y)
    p.model.run_linearize(sub_do_ln=False)
    # an earlier linearisation elsewhere must not matter
    di, do, dr = comp._dinputs, comp._doutputs, comp._dresiduals
    pre = comp.pathname + "."
    for rep in range(4):
        wi = [n for n in ins if rng.random() < 0.7]
        wo = [n for n in outs if rng.random() < (0.8 if imp else 1.0)]
        for mode in ("fwd", "rev"):
            d0 = {n: rng.standard_normal(v.size) for n, v in x.items()}
            o0 = {n: rng.standard_normal(v.size) for n, v in y.items()}
            r0 = {n: rng.standard_normal(v.size) for n, v in y.items()}
            put(di, d0), put(do, o0), put(dr, r0)
            si, so = frozenset(pre + n for n in wi), frozenset(pre + n for n in wo)
            if imp:
                with comp._matvec_context(so, si, mode) as (vi, vo, vr):
                    comp.apply_linear(comp._inputs, comp._outputs, vi, vo, vr, mode)
            else:
                with comp._matvec_context(so, si, mode) as (vi, vo, vr):
                    comp.compute_jacvec_product(comp._inputs, vi, vr, mode)
            gi, go, gr = get(di, ins), get(do, outs), get(dr, outs)
            mi = np.concatenate([np.full(v.size, n in wi) for n, v in x.items()]) if ins else np.zeros(0, bool)
            mo = np.concatenate([np.full(v.size, n in wo) for n, v in y.items()]) if outs else np.zeros(0, bool)
            Ji, Jo = J[:, :nx], (J[:, nx:] if imp else np.zeros((J.shape[0], 0)))
            # the context restricts inputs and outputs; residuals always take part
            if mode == "fwd":
                want = pack(r0, outs) * 0 + Ji @ (pack(d0, ins) * mi) + (Jo @ (pack(o0, outs) * mo) if imp else 0)
                base = pack(gr, outs)
                ok = any(np.allclose(base, b + want, atol=1e-6) for b in (pack(r0, outs), 0 * want))
                need(ok, f"{c['kind']}: forward product is the derivative ({wi}, {wo}): {base} instead of {want} (+ {pack(r0, outs)})")
                close(pack(gi, ins), pack(d0, ins), "forward product leaves the inputs alone")
            else:
                w = pack(r0, outs)
                for nm, g, s, m, JJ, ns in (("inputs", gi, d0, mi, Ji, ins),) + ((("outputs", go, o0, mo, Jo, outs),) if imp else ()):
                    inc = JJ.T @ w
                    start = pack(s, ns)
                    have = pack(g, ns)
                    ok = any(np.allclose(have[m], (b[m] + inc[m]), atol=1e-6) for b in (start, 0 * start))
                    need(ok, f"{c['kind']}: reverse product is the transpose ({nm}, {wi}, {wo}): {have} instead of {inc} (+ {start})")
                    rest = have[~m]
                    need(any(np.allclose(rest, b[~m]) for b in (start, 0 * start)), f"{c['kind']}: reverse product changes unrequested {nm}: {rest}")
    if imp:
        Jo = J[:, nx:]
        if abs(np.linalg.det(Jo)) < 1e-6:
            return
        for mode in ("fwd", "rev"):
            for rep in range(2):
                yy = {n: rng.uniform(0.3, 1.5, v.size) for n, v in y.items()} if rep == 0 else y
                if rep == 0:
                    other(False)
                put(comp._outputs, yy)
                comp.run_linearize(sub_do_ln=False)
                setex(p.model, h, a)
            rhs = {n: rng.standard_normal(v.size) for n, v in y.items()}
            src, dst = (dr, do) if mode == "fwd" else (do, dr)
            put(src, rhs)
            put(dst, {n: rng.standard_normal(v.size) for n, v in y.items()})
            comp.run_solve_linear(mode)
            M = Jo if mode == "fwd" else Jo.T
            close(M @ pack(get(dst, outs), outs), pack(rhs, outs), f"{c['kind']}: {mode} linear solve", 1e-6)
            close(pack(get(src, outs), outs), pack(rhs, outs), f"{c['kind']}: right-hand side unchanged")


class Three(om.ExplicitComponent):
    def setup(self):
        self.add_input("x", shape=self.options["n"])
        self.add_output("z", shape=self.options["n"])

    def initialize(self):
        self.options.declare("n", default=1)

    def setup_partials(self):
        self.declare_partials("*", "*", val=3 * np.eye(self.options["n"]))

    def compute(self, inputs, outputs):
        outputs["z"] = 3 * inputs["x"]


def nested(c, rng):
    """components inside a group whose solver restricts the products to the variables of the group"""
    h, a, n = c["h"], c["a"] or 0.3, c["n"]
    which = int(rng.integers(3))
    p = om.Problem()
    g = om.Group()
    if which == 0:
        m, comp, o, co = 1, SimpleLinearODE(), "y_stage", {"y_old": -1 / (1 + h * a), "y_accumulated_stages": -h / (1 + h * a)}
    elif which == 1:
        m, comp, o = n, StageValueComponent(), "stage_value"
        co = {"stage_slope": h * a, "old_value": 1.0, "acc_stages": h}
    else:
        m, comp, o = n, StageUpdateComponent(quantity_list=["q"]), "q_update"
        co = {"q": 1 / (h * a), "q_old": -1 / (h * a), "q_acc_stages": -1 / a}
    iv = p.model.add_subsystem("iv", om.IndepVarComp())
    for s in co:
        iv.add_output(s, rng.standard_normal(m))
    p.model.add_subsystem("g", g)
    g.add_subsystem("c", comp)
    g.add_subsystem("d", Three(n=m))
    g.connect("c." + o, "d.x")
    for s in co:
        p.model.connect("iv." + s, "g.c." + s)
    mk = dict(krylov=lambda: om.ScipyKrylov(atol=1e-14, rtol=1e-14, iprint=-1), bgs=lambda: om.LinearBlockGS(iprint=-1), bj=lambda: om.LinearBlockJac(iprint=-1), ro=om.LinearRunOnce, direct=om.LinearRunOnce)
    g.linear_solver = mk[c["solver"]]()
    p.model.linear_solver = om.LinearRunOnce() if rng.random() < 0.5 else om.LinearBlockGS(iprint=-1)
    p.setup(mode=c["mode"])
    p.set_solver_print(level=-1)
    p.final_setup()
    setex(p.model, h, a)
    p.run_model()
    for rep in range(2):
        t = p.compute_totals(of=["g.d.z"], wrt=["iv." + s for s in co])
        for s, v in co.items():
            close(t["g.d.z", "iv." + s], 3 * v * np.eye(m), f"total derivative of {type(comp).__name__} with respect to {s} ({c['solver']}, {c['mode']})", 1e-6)


def group(c, rng):
    h, a, eps = min(c["h"], 0.4), c["a"] or 0.3, c["eps"]
    p = om.Problem()
    p.model.add_subsystem("k", KapsGroup(epsilon=eps))
    p.setup(mode=c["mode"])
    p.set_solver_print(level=-1)
    p.final_setup()
    setex(p.model, h, a)
    ins = ["y_1_old", "y_1_accumulated_stages", "y_2_old", "y_2_accumulated_stages"]
    v = np.concatenate([rng.uniform(0.5, 1.2, 1), rng.uniform(-0.3, 0.1, 1), rng.uniform(0.5, 1.2, 1), rng.uniform(-0.3, 0.1, 1)])
    for n, u in zip(ins, v):
        p["k." + n] = u
    try:
        p.run_model()
    except om.AnalysisError:
        return
    g = lambda n: float(np.ravel(p["k." + n])[0])
    y1, y2, k1, k2 = g("y_1"), g("y_2"), g("y_1_stage"), g("y_2_stage")
    close([y1, y2, eps * k1, k2], [v[0] + h * (v[1] + a * k1), v[2] + h * (v[3] + a * k2), -(1 + 2 * eps) * y1 + y2**2, y1 - y2 - y2**2], "Kaps group: stage equations", 1e-5)
    t = p.compute_totals(of=["k.y_1_stage", "k.y_2_stage"], wrt=["k." + n for n in ins])
    # implicit function theorem
    R = np.array([[-1, 0, h * a, 0], [0, -1, 0, h * a], [-(1 + 2 * eps), 2 * y2, -eps, 0], [1, -1 - 2 * y2, 0, -1]])
    B = np.zeros((4, 4))
    B[0, 0], B[0, 1], B[1, 2], B[1, 3] = 1, h, 1, h
    D = -np.linalg.solve(R, B)[2:]
    got = np.array([[t[f"k.{o}", "k." + n][0, 0] for n in ins] for o in ("y_1_stage", "y_2_stage")])
    close(got, D, f"Kaps group: total derivatives ({c['mode']})", 1e-4 * max(1, np.abs(D).max()))


if __name__ == "__main__":
    main(sys.modules[__name__])
