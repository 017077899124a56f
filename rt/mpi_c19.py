"""Run under mpirun: variables of the integrator for distributed and replicated quantities."""
from common import *
import traceback
import numpy as np
from mpi4py import MPI
import openmdao.api as om
import integ
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.butcher_tableau import ButcherTableau
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

c = json.load(open(sys.argv[1]))
comm = MPI.COMM_WORLD
me = comm.rank
trail = (c["trail"],) if c["trail"] else ()
n, q = (c["sizes"][me],) + trail, (c["psizes"][me],) + trail
val = lambda s, o: (np.arange(int(np.prod(s)), dtype=float) + 100 * me + o).reshape(s)


class Comp(ExplicitUnsteadyComponent):
    def setup(self):
        for nm, s, d in (("a", n, True), ("b", (2, 2), False)):
            v = (lambda o: val(s, o)) if d else (lambda o: np.full(s, float(o)))
            self.add_input(nm + "_old", shape=s, val=v(1), distributed=d, tags=[nm, "step_input_var"])
            self.add_input(nm + "_acc", shape=s, val=v(2), distributed=d, tags=[nm, "accumulated_stage_var"])
            self.add_output(nm + "_k", shape=s, val=v(3), distributed=d, tags=[nm, "stage_output_var"])
        self.add_input("c_in", shape=q, val=val(q, 4), distributed=True, tags=["c", "time_independent_input_var"])
        self.add_input("d_in", shape=(3,), val=np.full(3, 5.), tags=["d", "time_independent_input_var"])

    def compute(self, inputs, outputs, *_, **__):
        outputs["a_k"] = -inputs["a_old"]
        outputs["b_k"] = -inputs["b_old"]


try:
    p = om.Problem(reports=None)
    iv = om.IndepVarComp()
    iv.add_output("a_old", shape=n, val=val(n, 1), distributed=True)
    iv.add_output("a_acc", shape=n, val=val(n, 2), distributed=True)
    iv.add_output("c_in", shape=q, val=val(q, 4), distributed=True)
    p.model.add_subsystem("iv", iv, promotes=["*"])
    p.model.add_subsystem("comp", Comp(), promotes=["*"])
    tab = ButcherTableau(butcher_matrix=np.array([[0.]]), butcher_weight_vector=np.array([1.]), butcher_time_stages=np.array([0.]), p=1)
    rk = RungeKuttaIntegrator(time_stage_problem=p, butcher_tableau=tab, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(1), .1),
                              time_integration_quantities=["b", "a"], time_independent_input_quantities=["c", "d"])
    prob = om.Problem(reports=None)
    iv = om.IndepVarComp()
    iv.add_output("a_initial", shape=n, distributed=True)
    iv.add_output("c", shape=q, distributed=True)
    prob.model.add_subsystem("iv", iv, promotes=["*"])
    prob.model.add_subsystem("rk", rk, promotes=["*"])
    with integ.quiet():
        prob.setup()
        prob.final_setup()
    meta = rk.get_io_metadata(metadata_keys=["shape", "val", "distributed"])
    want = {"time_initial": ((1,), False, np.zeros(1)), "time_final": ((1,), False, None), "a_initial": (n, True, val(n, 1)), "a_final": (n, True, None), "b_initial": ((2, 2), False, np.full((2, 2), 1.)),
            "b_final": ((2, 2), False, None), "c": (q, True, val(q, 4)), "d": ((3,), False, np.full(3, 5.))}
    bad = None
    if set(meta) != set(want):
        bad = f"variables {sorted(meta)}"
    else:
        for k, (s, d, v) in want.items():
            if tuple(meta[k]["shape"]) != tuple(s):
                bad = f"rank {me}: shape of {k} is {meta[k]['shape']} instead of {s}"
            elif bool(meta[k]["distributed"]) != d:
                bad = f"rank {me}: distributed flag of {k}"
            elif v is not None and not np.array_equal(np.broadcast_to(meta[k]["val"], s), v):
                bad = f"rank {me}: default value of {k}"
    print("VIOLATED: " + bad if bad else "MPI-OK", flush=True)
except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    print(f"VIOLATED: rank {comm.rank}: {type(e).__name__}: {str(e)[:200]} at {tb[-1].name}", flush=True)
    traceback.print_exc()
    comm.Abort(1)
