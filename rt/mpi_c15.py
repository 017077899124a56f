"""Run under mpirun: a distributed and a replicated quantity, integrated and written by all ranks."""
from common import *
import traceback
import numpy as np
import h5py
from mpi4py import MPI
import openmdao.api as om
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.file_writer import OpenMDAOHDF5Callback
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

c = json.load(open(sys.argv[1]))
comm = MPI.COMM_WORLD
n = c["sizes"][comm.rank]
trail = (c["trail"],) if c["trail"] else ()


class Dist(ExplicitUnsteadyComponent):
    def setup(self):
        self.add_input("a_old", shape=(n,) + trail, distributed=True, tags=["a", "step_input_var"])
        self.add_input("a_acc", shape=(n,) + trail, distributed=True, tags=["a", "accumulated_stage_var"])
        self.add_output("a_k", shape=(n,) + trail, distributed=True, tags=["a", "stage_output_var"])

    def compute(self, inputs, outputs, *_, **__):
        outputs["a_k"] = -inputs["a_old"] - self.om_data_exchange.step_size * inputs["a_acc"]


class Rep(ExplicitUnsteadyComponent):
    def setup(self):
        self.add_input("b_old", shape=(2, 2), tags=["b", "step_input_var"])
        self.add_input("b_acc", shape=(2, 2), tags=["b", "accumulated_stage_var"])
        self.add_output("b_k", shape=(2, 2), tags=["b", "stage_output_var"])

    def compute(self, inputs, outputs, *_, **__):
        outputs["b_k"] = 2 * inputs["b_old"] + self.om_data_exchange.step_size * inputs["b_acc"]


try:
    p = om.Problem(reports=None)
    ivc = om.IndepVarComp()
    ivc.add_output("a_old", shape=(n,) + trail, distributed=True)
    ivc.add_output("a_acc", shape=(n,) + trail, distributed=True)
    p.model.add_subsystem("ivc", ivc, promotes=["*"])
    p.model.add_subsystem("d", Dist(), promotes=["*"])
    p.model.add_subsystem("r", Rep(), promotes=["*"])
    A, b, ts = np.array([[0., 0.], [.5, 0.]]), np.array([0., 1.]), np.array([0., .5])
    kw = dict(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=ts, p=2)
    tab = EmbeddedButcherTableau(butcher_adaptive_weights=np.array([1., 0.]), phat=1, **kw) if c["embedded"] else ButcherTableau(**kw)
    rk = RungeKuttaIntegrator(time_stage_problem=p, butcher_tableau=tab, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(c["N"]), .1),
                              time_integration_quantities=["b", "a"], compute_callbacks=[OpenMDAOHDF5Callback("mpi.h5", c["period"])])
    prob = om.Problem(reports=None)
    ivc = om.IndepVarComp()
    ivc.add_output("a_initial", shape=(n,) + trail, distributed=True)
    prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    prob.model.add_subsystem("rk", rk, promotes=["*"])
    prob.setup()
    prob.final_setup()
    start = sum(c["sizes"][:comm.rank])
    m = int(np.prod(trail)) if trail else 1
    ga = np.arange(sum(c["sizes"]) * m, dtype=float).reshape((sum(c["sizes"]),) + trail) + 1
    gb = np.array([[1., 2.], [3., 4.]])
    rk._inputs["a_initial"] = ga[start:start + n]
    rk._inputs["b_initial"] = gb
    rk._inputs["time_initial"] = .5
    rk.compute(rk._inputs, rk._outputs)
    comm.Barrier()
    bad = None
    if comm.rank == 0:
        fa = 1 + .1 * (-1 - .1 * .5 * -1)
        fb = 1 + .1 * (2 + .1 * .5 * 2)
        keys = [k for k in range(c["N"] + 1) if k % c["period"] == 0]
        with h5py.File("mpi.h5", "r") as f:
            if sorted(f) != sorted(map(str, keys)):
                bad = f"steps {sorted(f)}"
            else:
                for k in keys:
                    g = f[str(k)]
                    want = {"time", "a", "b"} | ({"error_measure"} if c["embedded"] else set())
                    if set(g) != want:
                        bad = f"step {k} holds {sorted(g)}"
                    elif abs(g["time"][0] - .5 - .1 * k) > 1e-12:
                        bad = f"time of step {k}"
                    elif g["a"].shape != ga.shape or not np.allclose(g["a"][...], ga * fa ** k, atol=1e-11):
                        bad = f"distributed values of step {k}: {g['a'][...].tolist()} instead of {(ga * fa ** k).tolist()}"
                    elif g["b"].shape != gb.shape or not np.allclose(g["b"][...], gb * fb ** k, atol=1e-11):
                        bad = f"replicated values of step {k}: {g['b'][...].tolist()}"
        print("VIOLATED: " + bad if bad else "MPI-OK", flush=True)
except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    print(f"VIOLATED: rank {comm.rank}: {type(e).__name__}: {str(e)[:200]} at {tb[-1].name}", flush=True)
    traceback.print_exc()
    comm.Abort(1)
