from common import *
import subprocess
import numpy as np
import openmdao.api as om
import rk
import integ
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.error_controller import ErrorController, ErrorControllerConfig
from rkopenmdao.error_controllers import integral, pseudo
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer

CASE_TIMEOUT = 100
HERE = os.path.dirname(os.path.abspath(__file__))
SHAPES = [[1], [3], [2, 2], [1, 3], [2, 1, 2], [0], [5]]


def cases(rng, tier):
    yield dict(kind="options")
    if os.environ.get("RKV_MPI", "1") == "1":
        yield dict(kind="mpi", sizes=[2, 1], psizes=[1, 3], trail=2)
        yield dict(kind="mpi", sizes=[0, 2], psizes=[2, 0], trail=0)
    while True:
        q, p = rng.choice([1, 1, 2, 3, 5]), rng.choice([0, 1, 2, 4])
        shapes = [rng.choice(SHAPES) for _ in range(q)]
        yield dict(kind="io", seed=rng.randrange(10**6), shapes=shapes, pshapes=[rng.choice(SHAPES) for _ in range(p)], alg=[k for k in range(q) if rng.random() < .25],
                   split=rng.choice([1, 2]), order=rng.sample(range(q), q), porder=rng.sample(range(p), p), checkpointer=rng.choice(["all", "no", "revolve"]), explicit=rng.random() < .3, again=rng.random() < .2)


class Part(ExplicitUnsteadyComponent):
    """declares a share of the quantities with default values of its own"""

    def initialize(self):
        self.options.declare("io")

    def setup(self):
        for kind, name, shape, val, tags in self.options["io"]:
            getattr(self, "add_" + kind)(name, shape=shape, val=val, tags=tags)

    def compute(self, inputs, outputs, *_, **__):
        for n in self._outputs:
            outputs[n.split(".")[-1]] = 0.


def run_io(c):
    r = np.random.default_rng(c["seed"])
    Q, P = len(c["shapes"]), len(c["pshapes"])
    un, pn = integ.qnames(c["seed"], Q, "u", integ.UN), integ.qnames(c["seed"], P, "p", integ.PN)
    io, want = [[] for _ in range(c["split"])], {}
    want["time_initial"], want["time_final"] = ("input", (1,), np.zeros(1)), ("output", (1,), None)
    for k in range(Q):
        s = tuple(c["shapes"][k])
        part = io[k % c["split"]]
        old = r.normal(size=s)
        if k not in c["alg"]:
            part.append(("input", f"v{k}_old", s, old, [un[k], "step_input_var"]))
            part.append(("input", f"v{k}_acc", s, r.normal(size=s), [un[k], "accumulated_stage_var"]))
        part.append(("output", f"v{k}_new", s, r.normal(size=s), [un[k], "stage_output_var"]))
        want[un[k] + "_initial"] = ("input", s, old if k not in c["alg"] else np.zeros(s))
        want[un[k] + "_final"] = ("output", s, None)
    for k in range(P):
        s = tuple(c["pshapes"][k])
        v = r.normal(size=s)
        io[(k + 1) % c["split"]].append(("input", f"w{k}", s, v, [pn[k], "time_independent_input_var"]))
        want[pn[k]] = ("input", s, v)
    # variables that are tagged otherwise, or not at all, are no quantities
    io[0].append(("input", "free", (2,), np.ones(2), []))
    io[-1].append(("output", "other", (3,), np.ones(3), ["unused", "stage_output_var"]))
    stage = om.Problem(reports=None)
    for i, x in enumerate(io):
        for j in range(len(x)):
            n = int(r.integers(len(x)))
            x[j], x[n] = x[n], x[j]
        stage.model.add_subsystem(f"part{i}", Part(io=x), promotes=["*"] if c["split"] == 1 else None)
    if c["explicit"] and P and c["split"] == 1:
        # a source with a value of its own feeds the first parameter
        v = r.normal(size=tuple(c["pshapes"][0]))
        src = om.IndepVarComp()
        src.add_output("w0", shape=tuple(c["pshapes"][0]), val=v)
        stage.model.add_subsystem("source", src, promotes=["*"])
        want[pn[0]] = ("input", tuple(c["pshapes"][0]), v)
    cp = dict(all=AllCheckpointer, no=NoCheckpointer, revolve=PyrevolveCheckpointer)[c["checkpointer"]]
    opts = dict(checkpoint_options=dict(revolver_options={"n_checkpoints": 2})) if c["checkpointer"] == "revolve" else {}
    tab = rk.tableau(c["seed"], 2, False)[0]
    crit = PredefinedNumberOfSteps(3)
    outer = RungeKuttaIntegrator(time_stage_problem=stage, butcher_tableau=tab, integration_config=IntegrationConfig(False, crit, .1), time_integration_quantities=[un[k] for k in c["order"]],
                                 time_independent_input_quantities=[pn[k] for k in c["porder"]], checkpointing_type=cp, **opts)
    prob = om.Problem(reports=None)
    prob.model.add_subsystem("rk", outer, promotes=["*"])
    with integ.quiet():
        for _ in range(2 if c["again"] else 1):
            prob.setup()
            prob.final_setup()
    need(isinstance(outer._checkpointer, cp) if hasattr(outer, "_checkpointer") else True, "the checkpointer is another one than requested")
    meta = outer.get_io_metadata(metadata_keys=["shape", "val", "distributed"])
    need(set(meta) == set(want), f"variables {sorted(meta)} instead of {sorted(want)}")
    got_in = {n for n in outer.get_io_metadata(iotypes=("input",))}
    for n, (kind, s, v) in want.items():
        need((n in got_in) == (kind == "input"), f"{n} is no {kind}")
        need(tuple(meta[n]["shape"]) == s, f"shape of {n}: {meta[n]['shape']} instead of {s}")
        need(not meta[n]["distributed"], f"{n} is distributed")
        if v is not None:
            need(np.shape(meta[n]["val"]) == s or np.size(meta[n]["val"]) in (0, 1), f"shape of the default of {n}")
            exact(np.broadcast_to(meta[n]["val"], s), v, f"default value of {n}")
            exact(np.reshape(prob.get_val(n), s), v, f"value of {n}")


def run_options(c):
    class NotOne:
        pass

    def make(**kw):
        return RungeKuttaIntegrator(**kw)

    def rejected(what, **kw):
        try:
            make(**kw)
        except TypeError:
            return
        except Exception as e:
            raise Violation(f"{what}: {type(e).__name__} instead of TypeError")
        raise Violation(f"{what} is accepted")

    def other(p, config=None, name="x", base=None):
        return NotOne()

    def mine(p, config=None, name="x", base=None):
        return ErrorController(alpha=1. / p, config=ErrorControllerConfig(tol=1e-3), name=name)

    class Own(AllCheckpointer):
        pass
    for cp in (AllCheckpointer, NoCheckpointer, PyrevolveCheckpointer, Own):
        make(checkpointing_type=cp)
    for e in ([integral], [pseudo], [mine], [integral, mine], [mine, integral], []):
        make(error_controller=e)
    for x in (NotOne, int, dict):
        rejected(f"checkpointing type {x}", checkpointing_type=x)
    for e in ([other], [integral, other], [other, integral], [3], [mine, "integral"]):
        rejected(f"error controller {e}", error_controller=e)


def run_mpi(c):
    with open("mpi_case.json", "w") as f:
        json.dump(c, f)
    env = {k: v for k, v in os.environ.items() if not k.startswith("OMPI_") and not k.startswith("PMIX")}
    env.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_mpi_yield_when_idle="1")
    try:
        r = subprocess.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(len(c["sizes"])), sys.executable, os.path.join(HERE, "mpi_c19.py"), "mpi_case.json"],
                           env=env, capture_output=True, text=True, timeout=80)
    except (OSError, subprocess.TimeoutExpired):
        raise Skip()
    bad = [l for l in r.stdout.splitlines() if l.startswith("VIOLATED")]
    if bad:
        raise Violation("two ranks: " + bad[0][10:400])
    if "MPI-OK" not in r.stdout:
        raise Skip()


def run(c):
    {"io": run_io, "options": run_options, "mpi": run_mpi}[c["kind"]](c)


if __name__ == "__main__":
    main(sys.modules[__name__])
