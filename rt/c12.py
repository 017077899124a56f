from common import *
import numpy as np
import openmdao.api as om
import integ
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEInputState, DiscretizedODEResultState

CASE_TIMEOUT = 60
SC = 1.5


def cases(rng, tier):
    k = 0
    while k < (250 if tier == "quick" else 4000):
        k += 1
        shapes = rng.choice([[[1]], [[2]], [[2], [3]], [[2, 2], [1], [3]], [[1, 3], [2, 1, 2]]])
        yield dict(seed=rng.randrange(10**6), shapes=shapes, pshapes=rng.choice([[], [[1]], [[2], [2, 2]], [[3]]]), alg=rng.choice([[], [], [0], [len(shapes) - 1]]),
                   front=rng.random() < 0.5, ivc=rng.random() < 0.3, notime=rng.random() < 0.2, older=rng.random() < 0.2, reuse=rng.random() < 0.5,
                   ops=[rng.choice(["eval", "fwd", "rev", "poison"]) for _ in range(rng.choice([3, 5, 8]))])


class Plain(integ.Stage):
    """untagged stage behind a scaling component"""

    def setup(self):
        m = self.options["m"]
        if not m.notime:
            self.add_input("tt", shape=1, tags=["time_variable"])
        f = m.front
        for i, s in enumerate(m.shapes):
            if i not in m.alg:
                self.add_input(f"u{i}_old", shape=s, tags=None if f else [m.un[i], "step_input_var"])
                self.add_input(f"u{i}_acc", shape=s, tags=None if f else [m.un[i], "accumulated_stage_var"])
            self.add_output(f"u{i}_stage", shape=s, tags=[m.un[i], "stage_output_var"])
        for i, s in enumerate(m.pshapes):
            self.add_input(f"p{i}_in", shape=s, tags=[m.pn[i], "time_independent_input_var"])

    def gather(self, inputs):
        if self.options["m"].notime:
            class D(dict):
                pass
            m = self.options["m"]
            x, acc, p = np.zeros(m.n), np.zeros(m.n), np.zeros(m.q)
            for i in range(len(m.shapes)):
                if i not in m.alg:
                    sl = slice(m.off[i], m.off[i + 1])
                    x[sl], acc[sl] = inputs[f"u{i}_old"].ravel(), inputs[f"u{i}_acc"].ravel()
            for i in range(len(m.pshapes)):
                p[m.poff[i]:m.poff[i + 1]] = inputs[f"p{i}_in"].ravel()
            return 0.0, x, acc, p
        return super().gather(inputs)


class Front(ExplicitUnsteadyComponent):
    def initialize(self):
        self.options.declare("m")

    def setup(self):
        m = self.options["m"]
        self.names = []
        for i, s in enumerate(m.shapes):
            if i not in m.alg:
                for n, tag in (("old", "step_input_var"), ("acc", "accumulated_stage_var")):
                    self.add_input(f"v{i}_{n}", shape=s, tags=[m.un[i], tag])
                    self.add_output(f"u{i}_{n}", shape=s)
                    self.names.append(f"{i}_{n}")

    def compute(self, inputs, outputs, *_, **__):
        for n in self.names:
            outputs["u" + n] = SC * inputs["v" + n]

    def compute_jacvec_product(self, inputs, di, do, mode, *_, **__):
        for n in self.names:
            if "u" + n in do and "v" + n in di:
                if mode == "fwd":
                    do["u" + n] += SC * di["v" + n]
                else:
                    di["v" + n] += SC * do["u" + n]


def run(c):
    r = np.random.default_rng(c["seed"])
    m = integ.Model(c["seed"], c["shapes"], c["pshapes"], c["alg"])
    m.front, m.notime = c["front"], c["notime"]
    p = om.Problem(reports=None)
    if c["ivc"]:
        ivc = om.IndepVarComp()
        pre = "v" if c["front"] else "u"
        for i, s in enumerate(m.shapes):
            if i not in m.alg:
                ivc.add_output(f"{pre}{i}_old", shape=s)
        if c["pshapes"]:
            ivc.add_output("p0_in", shape=m.pshapes[0])
        if len(m.alg) < len(m.shapes) or c["pshapes"]:
            p.model.add_subsystem("ivc", ivc, promotes=["*"])
    fr = None
    if c["front"] and len(m.alg) < len(m.shapes):
        fr = p.model.add_subsystem("front", Front(m=m), promotes=["*"])
    stage = p.model.add_subsystem("stage", Plain(m=m), promotes=["*"])
    with integ.quiet():
        p.setup()
        p.final_setup()
    if c["older"]:
        orig = p.model.run_solve_linear
        got = []

        def old(mode, vec_name):
            got.append(vec_name)
            return orig(mode)
        p.model.run_solve_linear = old
    ode = OpenMDAOODE(p, list(m.un), list(m.pn))
    need(fr is None or fr.om_data_exchange is stage.om_data_exchange, "components do not share the data exchange")
    need(ode.get_state_size() == m.n and ode.get_independent_input_size() == m.q, "sizes")
    # order of the quantities in the state is the wrapper's own (C11): find it
    off = {}
    for w, lst in (("u", ode.time_integration_metadata.time_integration_quantity_list), ("p", ode.time_integration_metadata.time_independent_input_quantity_list)):
        for q in lst:
            off[q.name] = (q.array_metadata.start_index, q.array_metadata.end_index)
    perm = np.concatenate([np.arange(*off[m.un[i]]) for i in range(len(m.shapes))] + [np.zeros(0, int)]).astype(int)
    pperm = np.concatenate([np.arange(*off[m.pn[i]]) for i in range(len(m.pshapes))] + [np.zeros(0, int)]).astype(int)

    def tow(v, pm):
        o = np.zeros(v.size)
        o[pm] = v
        return o
    s = SC if c["front"] else 1.0
    pts = []
    ii = p.model.get_nonlinear_vectors()

    keepers = {}

    def share(key, cls, *v):
        """argument states: new ones, or the same objects rewritten in place"""
        if not c["reuse"] or key not in keepers:
            keepers[key] = cls(*[np.array(x) if isinstance(x, np.ndarray) else x for x in v])
            return keepers[key]
        o = keepers[key]
        for f, x in zip(o.__dataclass_fields__, v):
            if isinstance(x, np.ndarray) and getattr(o, f).shape == x.shape:
                getattr(o, f)[...] = x
            else:
                setattr(o, f, x)
        return o

    def ev():
        x, acc, q, t, h, a = m.mask * r.normal(size=m.n), m.mask * r.normal(size=m.n), r.normal(size=m.q), float(r.normal()), float(r.uniform(0.1, 1)), float(r.choice([0.0, 0.5, 1.0]))
        if pts and r.random() < .35:
            # a point next to an earlier one
            x, acc, q, t, h, a = [v * (1 + 3e-6) if n < 4 else v for n, v in enumerate(pts[int(r.integers(0, len(pts)))][:6])]
        if m.notime:
            t = 0.0
        ar = [tow(x, perm), tow(acc, perm), tow(q, pperm)]
        keep = [v.copy() for v in ar]
        arg = share("ev", DiscretizedODEInputState, *ar, t if not m.notime else 7.7)
        ar = [arg.step_input, arg.stage_input, arg.independent_input]
        res = ode.compute_update(arg, h, a)
        close(res.stage_update[perm], m.k(t, s * x, s * acc, q, h, a), "stage update", 1e-12)
        need(all(np.array_equal(u, v) for u, v in zip(ar, keep)), "the input state is changed")
        exact(res.linearization_point, np.concatenate([ii[0].asarray(), ii[1].asarray()]), "linearization point")
        need(res.linearization_point.size == ode.get_linearization_point_size(), "size of the linearization point")
        need(not np.shares_memory(res.linearization_point, ii[0].asarray()) and not np.shares_memory(res.linearization_point, ii[1].asarray()), "the linearization point is a view of the model's data")
        pts.append((x, acc, q, t, h, a, res.linearization_point, res.linearization_point.copy(), res.stage_update, res.stage_update.copy()))
    ev()
    for op in c["ops"]:
        if op == "eval":
            ev()
            continue
        if op == "poison":
            bad = r.choice([np.nan, np.inf, 1e30, -3.0])
            lv = p.model.get_linear_vectors()
            for v in lv[1:]:
                v.asarray()[:] = bad
            stage.om_data_exchange.step_size = 99.0
            stage.om_data_exchange.stage_factor = -5.0
            for v in ii[:2]:
                v.asarray()[:] = 3.3
            continue
        x, acc, q, t, h, a, lp, lp0, su, su0 = pts[int(r.integers(0, len(pts)))]
        exact(lp, lp0, "linearization point of an earlier evaluation")
        exact(su, su0, "result of an earlier evaluation")
        # other step sizes and factors than those of the evaluation are legitimate as well
        Jx, Ja, Jp, Jt = m.jac(t, s * x, s * acc, q, h, a)
        Jx, Ja = s * Jx * m.mask, s * Ja * m.mask
        if m.notime:
            Jt = 0 * Jt
        dx, da, dq, dt, w = r.normal(size=m.n), r.normal(size=m.n), r.normal(size=m.q), float(r.normal()), r.normal(size=m.n)
        if op == "fwd" or op == "rev":
            f = ode.compute_update_derivative(share("fwd", DiscretizedODEInputState, tow(dx, perm), tow(da, perm), tow(dq, pperm), dt, lp), h, a)
            y = f.stage_update[perm]
        if op == "rev":
            b = ode.compute_update_adjoint_derivative(share("rev", DiscretizedODEResultState, tow(w, perm), r.normal(size=m.n), np.zeros(0), lp), h, a)
            close(b.step_input[perm], Jx.T @ w, "adjoint: old state", 1e-9)
            close(b.stage_input[perm], Ja.T @ w, "adjoint: accumulated stages", 1e-9)
            close(b.independent_input[pperm], Jp.T @ w, "adjoint: independent inputs", 1e-9)
            close(float(b.time), float(Jt @ w), "adjoint: time", 1e-9)
            close(float(w @ y), float(b.step_input[perm] @ dx + b.stage_input[perm] @ da + b.independent_input[pperm] @ dq + b.time * dt), "transpose", 1e-9)
        close(y, Jx @ dx + Ja @ da + Jp @ dq + Jt * dt, "forward derivative", 1e-9)
        exact(lp, lp0, "linearization point after a derivative")
    if c["older"]:
        need(all(v == ["linear"] for v in got), "vector names of the linear solve")


if __name__ == "__main__":
    main(sys.modules[__name__])
