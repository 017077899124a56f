"""A small nonlinear, time- and parameter-dependent, multi-quantity stage problem with exact
derivatives, and a reference integration of it (independent of rkopenmdao)."""
import contextlib
import os
import numpy as np
import openmdao.api as om
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps, PredefinedFinalTime


UN = ["u", "U", "uu", "u_1", "u_11", "X1", "x1", "x", "xU", "y", "Y"]
PN = ["k", "K", "kk", "k_1", "k_11", "Z1", "z1"]


def qnames(seed, n, letter, special):
    """names of the quantities: numbered; alike up to case, prefix or suffix; in falling alphabetical order"""
    if seed % 4 == 2:
        return [special[i] if i < len(special) else f"{letter}{i}" for i in range(n)]
    if seed % 4 == 3:
        return [f"{letter}{n - 1 - i:03d}" for i in range(n)]
    return [f"{letter}{i}" for i in range(n)]


class Model:
    """stage map k = g(t, x + h*acc, p)/(1 + h*a*lam), quantities laid out as given shapes"""

    def __init__(self, seed, shapes, pshapes, alg=()):
        r = np.random.default_rng(seed)
        self.shapes, self.pshapes = [tuple(s) for s in shapes], [tuple(s) for s in pshapes]
        self.un, self.pn = qnames(seed, len(self.shapes), "u", UN), qnames(seed, len(self.pshapes), "p", PN)
        self.alg = set(alg)      # quantities without dependence on their own old state
        self.sz = [int(np.prod(s)) for s in self.shapes]
        self.psz = [int(np.prod(s)) for s in self.pshapes]
        self.n, self.q = sum(self.sz), sum(self.psz)
        self.off = np.concatenate([[0], np.cumsum(self.sz)]).astype(int)
        self.poff = np.concatenate([[0], np.cumsum(self.psz)]).astype(int)
        self.B = r.normal(size=(self.n, self.n)) * 0.7
        self.C = r.normal(size=(self.n, self.q)) * 0.7
        self.w = r.normal(size=self.n)
        self.x0 = r.normal(size=self.n)
        self.p0 = r.normal(size=self.q)
        self.lam = 0.4
        m = np.ones(self.n)
        for i in self.alg:
            m[self.off[i]:self.off[i + 1]] = 0
        self.mask = m            # which components of z enter

    def parts(self, t, x, acc, p, h):
        z = (x + h * acc) * self.mask
        u = self.B @ z + self.C @ p + self.w * t
        return z, u

    def k(self, t, x, acc, p, h, a):
        z, u = self.parts(t, x, acc, p, h)
        return (np.sin(u) + 0.3 * self.w * t * t) / (1 + h * a * self.lam)

    def jac(self, t, x, acc, p, h, a):
        z, u = self.parts(t, x, acc, p, h)
        D = np.cos(u)[:, None]
        den = 1 + h * a * self.lam
        Jx = D * self.B * self.mask[None, :] / den
        return Jx, h * Jx, D * self.C / den, (np.cos(u) * self.w + 0.6 * self.w * t) / den

    # ---- reference integration
    def step(self, tab, t, x, p, h):
        A, b, c = tab.butcher_matrix, tab.butcher_weight_vector, tab.butcher_time_stages
        s = len(b)
        K = np.zeros((s, self.n))
        for i in range(s):
            K[i] = self.k(t + c[i] * h, x, A[i, :i] @ K[:i], p, h, A[i, i])
        return x + h * (b @ K), K

    def tangent(self, tab, t, x, p, h, dt, dx, dp):
        A, b, c = tab.butcher_matrix, tab.butcher_weight_vector, tab.butcher_time_stages
        s = len(b)
        K, dK = np.zeros((s, self.n)), np.zeros((s, self.n))
        for i in range(s):
            acc, dacc = A[i, :i] @ K[:i], A[i, :i] @ dK[:i]
            K[i] = self.k(t + c[i] * h, x, acc, p, h, A[i, i])
            Jx, Ja, Jp, Jt = self.jac(t + c[i] * h, x, acc, p, h, A[i, i])
            dK[i] = Jx @ dx + Ja @ dacc + Jp @ dp + Jt * dt
        return x + h * (b @ K), dx + h * (b @ dK)

    def run(self, tab, t, x, p, hs):
        traj = [(t, x)]
        for h in hs:
            x, _ = self.step(tab, t, x, p, h)
            t = t + h
            traj.append((t, x))
        return traj

    def jvp(self, tab, t, x, p, hs, dt, dx, dp):
        for h in hs:
            x, dx = self.tangent(tab, t, x, p, h, dt, dx, dp)
            t = t + h
        return dx, dt

    def jacobian(self, tab, t, x, p, hs):
        """columns: x, p, t; rows: x final, t final"""
        N = self.n + self.q + 1
        J = np.zeros((self.n + 1, N))
        for j in range(N):
            e = np.zeros(N)
            e[j] = 1
            dx, dt = self.jvp(tab, t, x, p, hs, e[-1], e[:self.n], e[self.n:-1])
            J[:self.n, j], J[self.n, j] = dx, dt
        return J


class Stage(ExplicitUnsteadyComponent):
    def initialize(self):
        self.options.declare("m")

    def setup(self):
        m = self.options["m"]
        self.add_input("tt", shape=1, tags=["time_variable"])
        for i, s in enumerate(m.shapes):
            if i not in m.alg:
                self.add_input(f"u{i}_old", shape=s, tags=[m.un[i], "step_input_var"])
                self.add_input(f"u{i}_acc", shape=s, tags=[m.un[i], "accumulated_stage_var"])
            self.add_output(f"u{i}_stage", shape=s, tags=[m.un[i], "stage_output_var"])
        for i, s in enumerate(m.pshapes):
            self.add_input(f"p{i}_in", shape=s, tags=[m.pn[i], "time_independent_input_var"])

    def gather(self, inputs):
        m = self.options["m"]
        x, acc, p = np.zeros(m.n), np.zeros(m.n), np.zeros(m.q)
        for i in range(len(m.shapes)):
            if i not in m.alg:
                sl = slice(m.off[i], m.off[i + 1])
                x[sl], acc[sl] = inputs[f"u{i}_old"].ravel(), inputs[f"u{i}_acc"].ravel()
        for i in range(len(m.pshapes)):
            p[m.poff[i]:m.poff[i + 1]] = inputs[f"p{i}_in"].ravel()
        return float(np.ravel(inputs["tt"])[0]), x, acc, p

    def compute(self, inputs, outputs, *_, **__):
        m = self.options["m"]
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, x, acc, p = self.gather(inputs)
        k = m.k(t, x, acc, p, h, a)
        for i, s in enumerate(m.shapes):
            outputs[f"u{i}_stage"] = k[m.off[i]:m.off[i + 1]].reshape(s)

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode, *_, **__):
        m = self.options["m"]
        h, a = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        t, x, acc, p = self.gather(inputs)
        Jx, Ja, Jp, Jt = m.jac(t, x, acc, p, h, a)
        g = lambda v, nm: v[nm] if nm in v else None
        if mode == "fwd":
            dk = np.zeros(m.n)
            for i in range(len(m.shapes)):
                sl = slice(m.off[i], m.off[i + 1])
                if f"u{i}_old" in d_inputs:
                    dk += Jx[:, sl] @ d_inputs[f"u{i}_old"].ravel()
                if f"u{i}_acc" in d_inputs:
                    dk += Ja[:, sl] @ d_inputs[f"u{i}_acc"].ravel()
            for i in range(len(m.pshapes)):
                if f"p{i}_in" in d_inputs:
                    dk += Jp[:, m.poff[i]:m.poff[i + 1]] @ d_inputs[f"p{i}_in"].ravel()
            if "tt" in d_inputs:
                dk += Jt * d_inputs["tt"][0]
            for i, s in enumerate(m.shapes):
                if f"u{i}_stage" in d_outputs:
                    d_outputs[f"u{i}_stage"] += dk[m.off[i]:m.off[i + 1]].reshape(s)
        else:
            w = np.zeros(m.n)
            for i in range(len(m.shapes)):
                if f"u{i}_stage" in d_outputs:
                    w[m.off[i]:m.off[i + 1]] = d_outputs[f"u{i}_stage"].ravel()
            for i, s in enumerate(m.shapes):
                sl = slice(m.off[i], m.off[i + 1])
                if f"u{i}_old" in d_inputs:
                    d_inputs[f"u{i}_old"] += (Jx[:, sl].T @ w).reshape(s)
                if f"u{i}_acc" in d_inputs:
                    d_inputs[f"u{i}_acc"] += (Ja[:, sl].T @ w).reshape(s)
            for i, s in enumerate(m.pshapes):
                if f"p{i}_in" in d_inputs:
                    d_inputs[f"p{i}_in"] += (Jp[:, m.poff[i]:m.poff[i + 1]].T @ w).reshape(s)
            if "tt" in d_inputs:
                d_inputs["tt"] += Jt @ w


def stage_problem(m):
    p = om.Problem(reports=None)
    p.model.add_subsystem("stage", Stage(m=m), promotes=["*"])
    return p


@contextlib.contextmanager
def quiet():
    # pyrevolve needs a stdout with a file descriptor
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
        yield


def integrator(m, tableau, crit, h, adaptive=False, setup=True, **opts):
    rk = RungeKuttaIntegrator(
        time_stage_problem=stage_problem(m), butcher_tableau=tableau,
        integration_config=IntegrationConfig(adaptive, crit, h),
        time_integration_quantities=list(m.un),
        time_independent_input_quantities=list(m.pn), **opts)
    if not setup:
        return rk
    prob = om.Problem(reports=None)
    prob.model.add_subsystem("rk", rk, promotes=["*"])
    with quiet():
        prob.setup()
        prob.final_setup()
    return rk, prob


class Driver:
    """calls the component's compute / compute_jacvec_product on its own vectors"""

    def __init__(self, m, rk, prob):
        self.m, self.rk, self.prob = m, rk, prob

    def set_inputs(self, x, p, t):
        m = self.m
        v = self.rk._inputs
        with self.rk._unscaled_context(outputs=[self.rk._outputs]) if False else contextlib.nullcontext():
            for i, s in enumerate(m.shapes):
                v[f"{m.un[i]}_initial"] = x[m.off[i]:m.off[i + 1]].reshape(s)
            for i, s in enumerate(m.pshapes):
                v[m.pn[i]] = p[m.poff[i]:m.poff[i + 1]].reshape(s)
            v["time_initial"] = t

    def compute(self, x, p, t):
        self.set_inputs(x, p, t)
        with quiet():
            self.rk.compute(self.rk._inputs, self.rk._outputs)
        o = self.rk._outputs
        return np.concatenate([o[f"{self.m.un[i]}_final"].ravel() for i in range(len(self.m.shapes))] + [np.zeros(0)]), float(o["time_final"][0])

    def fwd(self, x, p, t, dx, dp, dt):
        m = self.m
        self.set_inputs(x, p, t)
        di, do = self.rk._dinputs, self.rk._doutputs
        di.set_val(0.0)
        do.set_val(0.0)
        for i, s in enumerate(m.shapes):
            di[f"{m.un[i]}_initial"] = dx[m.off[i]:m.off[i + 1]].reshape(s)
        for i, s in enumerate(m.pshapes):
            di[m.pn[i]] = dp[m.poff[i]:m.poff[i + 1]].reshape(s)
        di["time_initial"] = dt
        with quiet():
            self.rk.compute_jacvec_product(self.rk._inputs, di, do, "fwd")
        return np.concatenate([do[f"{m.un[i]}_final"].ravel() for i in range(len(m.shapes))]), float(do["time_final"][0])

    def rev(self, x, p, t, wx, wt):
        m = self.m
        self.set_inputs(x, p, t)
        di, do = self.rk._dinputs, self.rk._doutputs
        di.set_val(0.0)
        do.set_val(0.0)
        for i, s in enumerate(m.shapes):
            do[f"{m.un[i]}_final"] = wx[m.off[i]:m.off[i + 1]].reshape(s)
        do["time_final"] = wt
        with quiet():
            self.rk.compute_jacvec_product(self.rk._inputs, di, do, "rev")
        gx = np.concatenate([di[f"{m.un[i]}_initial"].ravel() for i in range(len(m.shapes))])
        gp = np.concatenate([di[m.pn[i]].ravel() for i in range(len(m.pshapes))] + [np.zeros(0)])
        return gx, gp, float(di["time_initial"][0])
