from common import *
import itertools
import subprocess
import h5py
import numpy as np
import rk
import integ
from rkopenmdao.callback import Callback
from rkopenmdao.error_controllers import integral
from rkopenmdao.file_writer import OpenMDAOHDF5Callback, read_hdf5_file, read_last_local_error
from rkopenmdao.metadata_extractor import ArrayMetadata, TimeIntegrationQuantity, TimeIntegrationTranslationMetadata
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps, PredefinedFinalTime

CASE_TIMEOUT = 100
HERE = os.path.dirname(os.path.abspath(__file__))
SHAPES = [[[2]], [[2, 2], [1]], [[3], [2, 1, 2], [1]], [[1, 4]], [[2, 3], [3, 2]], [[0], [2]], [[2], [3, 0]]]


DIAL = {"N": 300, "period": 5000}


def cases(rng, tier):
    if os.environ.get("RKV_MPI", "1") == "1":
        yield dict(kind="mpi", N=3, period=2, sizes=[2, 1], trail=2, embedded=True)
        yield dict(kind="mpi", N=2, period=1, sizes=[0, 2], trail=0, embedded=False)
    k = 0
    while k < (220 if tier == "quick" else 3000):
        k += 1
        what = ["run", "run", "block", "read", "last"][k % 5]
        if what == "run":
            yield dict(kind="run", seed=rng.randrange(10**6), shapes=rng.choice(SHAPES), N=rng.choice([1, 2, 3, 5, 7, 12]), period=rng.choice([1, 1, 2, 3, 4, 7, 12, 100]),
                       s=1 + k % 3, embedded=rng.random() < .5, adaptive=rng.random() < .4, revolve=rng.choice([None, None, {}, {"n_checkpoints": 1}]), old=rng.choice([None, "longer", "garbage"]),
                       reruns=rng.choice([1, 1, 2]))
        elif what == "block":
            yield dict(kind="block", ranks=[rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.choice([1, 2, 3, 4]))], trail=[rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 0, 1, 2, 3]))])
        elif what == "read":
            q = rng.choice([1, 1, 2, 3])
            yield dict(kind="read", seed=rng.randrange(10**6), shapes=[rng.choice([[1], [3], [2, 2], [1, 3], [2, 1, 2]]) for _ in range(q)], groups=sorted(rng.sample(range(1, 130), rng.choice([0, 1, 2, 5]))),
                       listed=rng.sample(range(q), rng.randrange(1, q + 1)))
        else:
            yield dict(kind="last", groups=rng.sample(range(0, 2000), rng.choice([1, 2, 3, 8])))
    if os.environ.get("RKV_MPI", "1") == "1" and tier != "quick":
        for k in range(12):
            yield dict(kind="mpi", N=rng.choice([1, 2, 5]), period=rng.choice([1, 2, 3]), sizes=[rng.choice([0, 1, 2, 3]), rng.choice([1, 2])], trail=rng.choice([0, 1, 2]), embedded=k % 2 == 0)


class Rec(Callback):
    def __init__(self):
        self.d = {}
        self.start = None

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        pass

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        ds = time_integration_state.discretization_state
        if iteration == 1:
            self.d = {0: (float(ds.start_time[0]), np.array(ds.start_state), 0.0)}
        eh = time_integration_state.error_history
        self.d[iteration] = (float(ds.final_time[0]), np.array(ds.final_state), float(eh[0]) if len(eh) else None)


def check_file(name, m, d, keys, embedded, what):
    with h5py.File(name, "r") as f:
        need(sorted(f.keys()) == sorted(str(k) for k in keys), f"{what}: file has steps {sorted(f.keys(), key=int)} instead of {sorted(keys)}")
        for k in keys:
            g = f[str(k)]
            names = {"time"} | set(m.un) | ({"error_measure"} if embedded else set())
            need(set(g.keys()) == names, f"{what}: step {k} holds {sorted(g.keys())} instead of {sorted(names)}")
            exact(g["time"][...], [d[k][0]], f"{what}: time of step {k}")
            if embedded:
                exact(g["error_measure"][...], [0.0 if k == 0 else d[k][2]], f"{what}: error measure of step {k}")
            for i, s in enumerate(m.shapes):
                exact(g[m.un[i]][...], d[k][1][m.off[i]:m.off[i + 1]].reshape(s), f"{what}: values of u{i} in step {k}")


def run_run(c):
    r = np.random.default_rng(c["seed"])
    m = integ.Model(c["seed"], c["shapes"], [(2,)])
    adaptive, embedded = c["adaptive"] and c["revolve"] is None, c["embedded"] or (c["adaptive"] and c["revolve"] is None)
    name = "run.h5"
    if os.path.exists(name):
        os.remove(name)
    if c["old"] == "garbage":
        with h5py.File(name, "w") as f:
            f["17/x"] = np.ones(3)
            f["0/time"] = 7.0
    rec = Rec()
    opts = dict(compute_callbacks=[OpenMDAOHDF5Callback(name, c["period"]), rec])
    if c["revolve"] is not None:
        opts.update(checkpointing_type=PyrevolveCheckpointer, checkpoint_options=dict(revolver_options=dict(c["revolve"])))
    all_cp = c["revolve"] is None and c["seed"] % 2
    if all_cp:
        opts.update(checkpointing_type=AllCheckpointer)
    tab = rk.tableau(c["seed"], c["s"], embedded)[0]
    crit = PredefinedNumberOfSteps(c["N"])
    h = 0.13
    if adaptive:
        opts.update(error_controller=[integral])
    rkc, prob = integ.integrator(m, tab, crit, h, adaptive, **opts)
    D = integ.Driver(m, rkc, prob)
    if c["old"] == "longer":
        # an earlier, longer run wrote the same file
        rk2, prob2 = integ.integrator(m, tab, PredefinedNumberOfSteps(c["N"] + 3), h, adaptive, compute_callbacks=[OpenMDAOHDF5Callback(name, 1)], **({"error_controller": [integral]} if adaptive else {}))
        integ.Driver(m, rk2, prob2).compute(m.x0, m.p0, 0.7)
    keys = [0] + [k for k in range(1, c["N"] + 1) if k % c["period"] == 0]
    for rep in range(c["reruns"]):
        x, t = m.x0 + rep, .3 + rep
        xf, tf = D.compute(x, m.p0, t)
        d = dict(rec.d)
        exact(d[0][1], x, "recorded start")
        exact(d[max(d)][1], xf, "recorded end")
        if not adaptive:
            for k, (tt, xx) in enumerate(m.run(tab, t, x, m.p0, [h] * c["N"])):
                if np.max(np.abs(xx)) < 1e3:
                    close(d[k][1], xx, f"state of step {k}", 1e-6)
                close(d[k][0], tt, f"time of step {k}")
        check_file(name, m, d, keys, embedded, "after the run")
        if c["revolve"] is not None or all_cp:
            D.rev(x, m.p0, t, np.ones(m.n), 1.0)
            check_file(name, m, d, keys, embedded, "after a reverse product")
        sol = {}

        def solution(tt, x0, t0):
            k = min(d, key=lambda k: abs(d[k][0] - tt))
            need(t0 == t, f"initial time given to the solution is {t0} instead of {t}")
            need(abs(d[k][0] - tt) == 0, "time given to the solution")
            ini = [d[0][1][m.off[i]:m.off[i + 1]].reshape(s) for i, s in enumerate(m.shapes)]
            xs = [x0] if len(m.shapes) == 1 else x0
            for a, b in zip(xs, ini):
                exact(a, b, "initial values given to the solution")
            res = [np.asarray(b) * 2 + tt + i for i, b in enumerate(ini)]
            return res[0] if len(m.shapes) == 1 else res
        T, E, X = read_hdf5_file(name, list(m.un), solution)
        need(set(T) == set(keys), "times read")
        for k in keys:
            exact(float(T[k]), d[k][0], f"time read for step {k}")
            for i, s in enumerate(m.shapes):
                v = d[k][1][m.off[i]:m.off[i + 1]].reshape(s)
                exact(X[m.un[i]][k], v, f"values of u{i} read for step {k}")
                close(E[m.un[i]][k], np.abs(d[0][1][m.off[i]:m.off[i + 1]].reshape(s) * 2 + d[k][0] + i - v), f"error of u{i} read for step {k}", 1e-12)
        if embedded:
            exact(float(read_last_local_error(name)), 0.0 if keys[-1] == 0 else d[keys[-1]][2], "last local error")


def run_block(c):
    trail = tuple(c["trail"])
    R = sum(c["ranks"])
    if R == 0:
        raise Skip()
    m = int(np.prod(trail)) if trail else 1
    out = np.full((R,) + trail, np.nan)
    want = np.arange(R * m, dtype=float).reshape((R,) + trail)
    row = 0
    for n in c["ranks"]:
        a = ArrayMetadata(shape=(n,) + trail, global_shape=(R,) + trail, local=True, distributed=len(c["ranks"]) > 1, start_index=0, end_index=n * m, global_start_index=row * m, global_end_index=(row + n) * m)
        q = TimeIntegrationQuantity(name="u", type="time_integration", array_metadata=a, translation_metadata=TimeIntegrationTranslationMetadata())
        if n:
            idx = OpenMDAOHDF5Callback.get_write_indices(q)
            before = out.copy()
            need(out[idx].shape == (n,) + trail, f"index block of shape {out[idx].shape} for local part {(n,) + trail}")
            need(np.all(np.isnan(before[idx])), "blocks of two ranks overlap")
            out[idx] = want[row:row + n]
        row += n
    exact(out, want, "global array assembled from the blocks of all ranks")


def run_read(c):
    r = np.random.default_rng(c["seed"])
    groups = [0] + c["groups"]
    names = [["b", "a", "c"][i] for i in range(len(c["shapes"]))]
    data = {k: [r.normal(size=s) for s in c["shapes"]] for k in groups}
    time = {k: r.normal() for k in groups}
    with h5py.File("read.h5", "w") as f:
        for k in groups:
            f.create_dataset(f"{k}/time", data=np.array([time[k]]))
            for n, v in zip(names, data[k]):
                f.create_dataset(f"{k}/{n}", data=v)
    listed = c["listed"]

    def solution(t, x0, t0):
        xs = [x0] if len(listed) == 1 else x0
        need(len(xs) == len(listed), "number of initial values given to the solution")
        need(t0 == time[0], "initial time given to the solution")
        for v, q in zip(xs, listed):
            exact(v, data[0][q], "initial values given to the solution")
        res = [np.full(c["shapes"][q], t * (i + 1)) + np.sum(xs[0]) for i, q in enumerate(listed)]
        return res[0] if len(listed) == 1 else res
    T, E, X = read_hdf5_file("read.h5", [names[q] for q in listed], solution)
    need(set(T) == set(groups), f"times of {sorted(T)} instead of {groups}")
    need(set(X) == {names[q] for q in listed} and set(E) == set(X), "quantities read")
    for i, q in enumerate(listed):
        need(set(X[names[q]]) == set(groups) and set(E[names[q]]) == set(groups), "steps read")
        for k in groups:
            exact(float(T[k]), time[k], f"time of step {k}")
            exact(X[names[q]][k], data[k][q], f"values of step {k}")
            close(E[names[q]][k], np.abs(time[k] * (i + 1) + np.sum(data[0][listed[0]]) - data[k][q]), f"error of step {k}", 1e-12)


def run_last(c):
    with h5py.File("last.h5", "w") as f:
        for k in c["groups"]:
            f[f"{k}/error_measure"] = np.array([k + .25])
            f[f"{k}/time"] = np.array([1.])
    exact(float(read_last_local_error("last.h5")), max(c["groups"]) + .25, "last local error")


def run_mpi(c):
    with open("mpi_case.json", "w") as f:
        json.dump(c, f)
    env = {k: v for k, v in os.environ.items() if not k.startswith("OMPI_") and not k.startswith("PMIX")}
    env.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_mpi_yield_when_idle="1")
    try:
        r = subprocess.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(len(c["sizes"])), sys.executable, os.path.join(HERE, "mpi_c15.py"), "mpi_case.json"],
                           env=env, capture_output=True, text=True, timeout=80)
    except (OSError, subprocess.TimeoutExpired):
        raise Skip()
    bad = [l for l in r.stdout.splitlines() if l.startswith("VIOLATED")]
    if bad:
        raise Violation("two ranks: " + bad[0][10:400])
    if "MPI-OK" not in r.stdout:
        raise Skip()


def run(c):
    {"run": run_run, "block": run_block, "read": run_read, "last": run_last, "mpi": run_mpi}[c["kind"]](c)


if __name__ == "__main__":
    main(sys.modules[__name__])
