"""Random tableaux, a random nonlinear ODE with exact derivatives, and reference formulas."""
import numpy as np
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE, DiscretizedODEInputState, DiscretizedODEResultState)


def tableau(seed, s, embedded=False, explicit=False, pad=0):
    """random stage-ordered tableau; the seed also selects structure shared by real methods (zero
    coefficients, repeated abscissae, equal diagonal, explicit first stage, stiff accuracy, zero weights)."""
    r = np.random.default_rng(seed)
    A = np.tril(r.normal(size=(s, s)))
    b, c, e = r.normal(size=s), r.normal(size=s), r.normal(size=s)
    style = seed % 7
    if style == 1:
        A = np.tril(r.choice([0.0, 0.0, 0.5, 1.0, -0.25], size=(s, s)))
        b, c, e = (r.choice([0.0, 0.5, 1.0, -0.25], size=s) for _ in range(3))
    elif style == 2:
        A += np.diag(0.3 - np.diag(A))
    elif style == 3:
        A[0] = 0.0
        A[-1], c[-1] = b, 1.0
    elif style == 4:
        c[:] = r.choice([0.0, 0.5], size=s)
        b[r.random(s) < 0.4] = 0.0
    elif style == 5:
        c = A.sum(axis=1)
        b /= b.sum() or 1.0
    if explicit:
        A = A - np.diag(np.diag(A))
        A[-1, -1] = 0.0
    kw = dict(butcher_matrix=A.copy(), butcher_weight_vector=b.copy(), butcher_time_stages=c.copy(), p=3)
    if embedded:
        return EmbeddedButcherTableau(butcher_adaptive_weights=e.copy(), phat=2, **kw), A, b, c, e
    return ButcherTableau(**kw), A, b, c, None


class RefODE(DiscretizedODE):
    """smooth stage maps with dense random couplings; records all calls."""

    def __init__(self, seed, n, q, o):
        r = np.random.default_rng(seed + 1000)
        self.n, self.q, self.o = n, q, o
        self.nin = 2 * n + q + 1
        self.nout = 2 * n + o
        self.W = r.normal(size=(self.nout, self.nin)) * 0.7
        self.V = r.normal(size=(self.nout, self.nin)) * 0.5
        self.g = r.normal(size=self.nout)
        self.calls = []

    def _z(self, i):
        return np.concatenate([i.step_input, i.stage_input, i.independent_input, [float(np.asarray(i.time).reshape(-1)[0])]])

    def _f(self, z, h, a):
        return self.W @ z + np.sin(self.V @ z * (1 + 0.3 * a)) * (1 + h) + self.g * (h + 2 * a)

    def _J(self, z, h, a):
        return self.W + (np.cos(self.V @ z * (1 + 0.3 * a)) * (1 + h) * (1 + 0.3 * a))[:, None] * self.V

    def compute_update(self, ode_input, step_size, stage_factor):
        z = self._z(ode_input)
        step_size, stage_factor = float(step_size), float(stage_factor)
        self.calls.append((z.copy(), step_size, stage_factor))
        f = self._f(z, step_size, stage_factor)
        n = self.n
        return DiscretizedODEResultState(f[:n].copy(), f[n:2 * n].copy(), f[2 * n:].copy(), z.copy())

    def compute_update_derivative(self, p, step_size, stage_factor):
        z = np.array(p.linearization_point)
        d = self._J(z, float(step_size), float(stage_factor)) @ self._z(p)
        n = self.n
        return DiscretizedODEResultState(d[:n].copy(), d[n:2 * n].copy(), d[2 * n:].copy())

    def compute_update_adjoint_derivative(self, p, step_size, stage_factor):
        z = np.array(p.linearization_point)
        w = np.concatenate([p.stage_update, p.stage_state, p.independent_output])
        d = self._J(z, float(step_size), float(stage_factor)).T @ w
        n, q = self.n, self.q
        return DiscretizedODEInputState(d[:n].copy(), d[n:2 * n].copy(), d[2 * n:2 * n + q].copy(), d[-1])

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))

    def get_state_size(self): return self.n
    def get_independent_input_size(self): return self.q
    def get_independent_output_size(self): return self.o
    def get_linearization_point_size(self): return self.nin


FIELDS = ["start_state", "stage_states", "stage_updates", "final_state", "independent_inputs",
          "stage_independent_outputs", "final_independent_outputs", "start_time", "stage_times", "final_time",
          "step_size", "linearization_points"]
EMB = ["embedded_state", "error_estimate"]


def fill(state, seed, embedded):
    r = np.random.default_rng(seed + 77)
    for f in FIELDS + (EMB if embedded else []):
        a = getattr(state, f)
        a[...] = r.normal(size=a.shape)
    return state


def snap(state, embedded):
    return {f: np.array(getattr(state, f)) for f in FIELDS + (EMB if embedded else [])}


def ref_step(ode, A, b, c, e, x0, p, t0, h):
    s, n = len(b), len(x0)
    k = np.zeros((s, n)); xs = np.zeros((s, n)); out = np.zeros((s, ode.o)); lp = np.zeros((s, ode.nin))
    ts = t0 + h * c
    for i in range(s):
        acc = np.zeros(n)
        for j in range(i):
            acc = acc + A[i, j] * k[j]
        z = np.concatenate([x0, acc, p, [ts[i]]])
        f = ode._f(z, h, A[i, i])
        k[i], xs[i], out[i], lp[i] = f[:n], f[n:2 * n], f[2 * n:], z
    x1 = x0 + h * (b @ k)
    d = dict(stage_updates=k, stage_states=xs, stage_independent_outputs=out, linearization_points=lp, stage_times=ts,
             final_state=x1, final_time=np.array([t0 + h]), start_state=x0, start_time=np.array([t0]),
             step_size=np.array([h]), independent_inputs=p)
    if e is not None:
        d["embedded_state"] = x0 + h * (e @ k)
        d["error_estimate"] = x1 - d["embedded_state"]
    return d
