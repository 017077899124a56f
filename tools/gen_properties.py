"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
S = "src/rkopenmdao/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

D = "time_discretization/stage_ordered_runge_kutta_discretization.py"
DS = "time_discretization/runge_kutta_discretization_state.py"
I = "runge_kutta_integrator.py"

prop("C01", "A time step computes exactly the Runge-Kutta formula of its tableau",
 "For every stage-ordered (explicit or diagonally implicit) tableau, every ODE, state size, start time and step size, one step sets the stage times to t0+h*c_i, evaluates the ODE at stage i with the old state, the sum over j<i of a_ij*k_j, the independent inputs, that time, h and a_ii, and stores the returned update, stage state, independent output and linearization point for stage i. The new state is x0+h*sum(b_i*k_i) at time t0+h, the recorded start values are the old final values, and for embedded tableaux the embedded state uses the embedded weights and the error estimate is the difference main minus embedded. The tableau, the independent inputs and the step size passed in are left unchanged.",
 ["inputs"], "all tableaux with s>=1 stages, all ODEs, all sizes, all real t0, x0, p, h",
 "Tests run a handful of tableaux on scalar ODEs and compare convergence rates within tolerances; a wrong index, factor or stage beyond the sampled ones survives them.",
 [D, DS], [("step, stage loop, accumulation, error estimate", D)])

prop("C02", "The tangent step is the linearisation of the time step",
 "For every stage-ordered tableau and ODE, the forward-mode derivative step applies the ODE's linearised stage map at the linearization point stored for that stage to the perturbations (old-state perturbation, sum over j<i of a_ij*dk_j, independent-input perturbation, start-time perturbation), with the same h and a_ii as the primal stage. The resulting perturbations are dx0+h*sum(b_i*dk_i) for the state and dt0 for every stage time and the final time; the primal data it linearises about is not modified.",
 ["inputs"], "all tableaux, ODEs with arbitrary linearised stage maps, sizes, perturbations, step sizes",
 "Derivative tests compare with finite differences for scalar ODEs and a few tableaux; a mistake in a coupling coefficient that vanishes for those is invisible.",
 [D, DS], [("tangent step", D)])

prop("C03", "The adjoint step is the exact transpose of the tangent step",
 "For every stage-ordered tableau and every ODE whose linearised stage maps have exact adjoints, the reverse-mode step maps final-state, final-time and stage-state adjoints to start-state, start-time and independent-input adjoints such that the inner product of the incoming adjoint with any tangent result equals the inner product of the outgoing adjoint with the corresponding tangent input. Independent-input adjoints are accumulated onto what the caller passed in, the stages use their own linearization points and diagonal coefficients, and the primal data is not modified.",
 ["inputs"], "all tableaux, all adjoint-consistent ODEs, all sizes, all perturbations and adjoints",
 "Dual-consistency must hold for every coefficient pattern (zero weights, explicit first stages, many stages) and every vector; tests sample few tableaux with one-dimensional states.",
 [D, DS], [("adjoint step", D)])

prop("C04", "Copying and serialising integration states loses and aliases nothing",
 "Copying one integration state into another transfers every numerical field of the state, including the embedded fields of embedded schemes, writes into the existing arrays of the target, leaves the source unchanged and shares no memory between the two. Exporting a state exposes every field as the live array, so that restoring the exported arrays in place restores the state, and importing an exported dictionary yields an equal state of the same kind.",
 ["inputs", "histories"], "all sizes and stage counts, embedded or not, all contents",
 "A forgotten or aliased field only shows when the stale value is read later in a particular history (rejection, checkpoint reload, callback); tests never look at all fields.",
 [DS, "time_integration_state.py", "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py"],
 [("set / to_dict / from_dict", DS), ("set / to_dict / from_dict of the integration state", "time_integration_state.py"),
  ("checkpoint data and size", "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py")])

prop("C05", "Every checkpointing strategy executes the same forward and reverse schedule",
 "Independently of the checkpointing strategy and its options, the forward iteration performs steps 1,2,...,N exactly in this order from the given initial state until the termination criterion holds, and returns the last state. The reverse iteration applies the reverse step exactly once for N,N-1,...,1, each time with the state produced by that very forward step, chained from the given final adjoint; recomputed forward steps (pyrevolve) keep their own numbers, a new forward iteration discards checkpoints of earlier ones and user-supplied option objects are not modified.",
 ["inputs", "histories"], "all numbers of steps N>=1, all step functions, all checkpoint counts and repeated forward/reverse histories (pyrevolve: its single-level revolvers)",
 "Tests use a few N and linear problems, where using the wrong state as linearization point is invisible.",
 ["checkpoint_interface/no_checkpointer.py", "checkpoint_interface/all_checkpointer.py", "checkpoint_interface/pyrevolve_checkpointer.py", "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py"],
 [("store-all forward/reverse loops", "checkpoint_interface/all_checkpointer.py"), ("no-checkpoint forward loop", "checkpoint_interface/no_checkpointer.py"),
  ("revolve forward/reverse", "checkpoint_interface/pyrevolve_checkpointer.py"), ("revolve operators", "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py")])

prop("C06", "Integrator derivatives belong to the current inputs in both modes",
 "For any history of primal, forward-mode and reverse-mode evaluations, including ones that fail midway, a forward- or reverse-mode product is taken about the trajectory that the primal evaluation produces for the inputs given with the request: initial values, independent inputs and initial time; reverse mode recomputes the forward run unless the stored one has exactly these inputs. Products start from the seeds given with the request and nothing left over from earlier requests, and derivative contributions are delivered for every integrated quantity, every independent input and the time.",
 ["histories", "inputs"], "all sequences of evaluations with arbitrary inputs and seeds",
 "Stale caches and leftover perturbations only manifest in specific multi-call histories with specific inputs changed; tests evaluate each mode once.",
 [I], [("forward/reverse product and preparation phases", I)])

prop("C07", "Adaptive stepping commits a step only when it is accepted",
 "A trial step starts from the last committed state with the currently suggested step size; if it is rejected, the committed state and both histories are unchanged and the step is retried with the step size the controller suggested. On acceptance exactly the accepted trial becomes the state, the accepted step size and its error measure are pushed to the front of their histories, and the controller's suggestion is used for the next step; with fixed step size every step is committed with the configured step size.",
 ["histories", "inputs"], "all sequences of accept/reject decisions and suggestions, all schemes and error measures",
 "The number of rejections, and what a rejected trial leaves behind, depends on the whole history; tests sample a few smooth problems with hardly any rejection.",
 [I], [("step iteration with error control", I)])

prop("C08", "The error controller accepts and bounds steps as configured",
 "For all error measures, step sizes, histories and configurations, a step is accepted exactly if its error measure is within the tolerance or the step size is at or below the configured lower bound (within 1e-10); the suggestion equals the documented product formula (the old step size if the error is zero), clipped to the configured bounds and never beyond the remaining time. A controller without fallback that rejects a step but suggests a larger one reports an error. In a stack of controllers the fallback takes over when the wrapped controller rejects without reducing the step or after more than the configured maximal number of consecutive rejections, and stays in charge until it accepts a step.",
 ["inputs", "histories"], "all error measures, step sizes, remaining times, histories, configurations, controller stacks, call sequences",
 "Acceptance boundaries, bounds and the retry counter depend on exact comparisons and call histories that sampled values do not hit.",
 ["error_controller.py"], [("acceptance, suggestion, fallback", "error_controller.py")])

prop("C09", "Each named step-size controller has the coefficients of its published family",
 "For every order p>=1 the controllers are constructed with the exponents of Kennedy/Carpenter and Soederlind: I 1/(p+1); H211 (1,-1;-1)/4 and H0211 (1,-1;-1)/2 scaled by 1/p in the error exponents; PC (2,1;1); PID (1,-2,1)/18; H312, H0312, PPID, H321, H0321, H0330 and the general H312, H321, H330 families as published, with the error exponents divided by p and the step-ratio exponents not. The same exponents, the configuration of the wrapped controller and the name are used whether the controller is built standalone or as fallback of another one. The integrator chains the listed controllers in order, each around the one before, with the smaller order of the tableau as p and the configured options.",
 ["inputs"], "all orders p, all free parameters of the general families, standalone or wrapped",
 "Tests compare suggestions for single numeric samples of a few controllers.",
 ["error_controllers.py", I], [("controller factories", "error_controllers.py"), ("chaining of controllers", I)])

prop("C10", "Integration stops exactly when its termination criterion says so",
 "With a step-count criterion the integration performs exactly the prescribed number of steps; with a final-time criterion it stops after the first step whose end time reaches or passes the final time, and the remaining time is final time minus current time. With adaptive stepping and an initial step that fits the horizon, no committed step ends after the final time.",
 ["inputs", "histories"], "all step counts, final times, step sizes and controller suggestions",
 "Off-by-one and overshoot depend on exact time values reached after arbitrary step sequences.",
 ["termination_criterion.py", I, "error_controller.py"], [("criteria", "termination_criterion.py"), ("remaining-time cap", "error_controller.py")])

prop("C11", "State-vector layout: every quantity owns its own exact slice",
 "For every stage problem and requested quantity list the local quantities get consecutive, non-overlapping index ranges that exactly cover the state (and independent-input) vector, each as long as the variable it describes, and the variables recorded for reading and writing are those tagged for that quantity. Distributed variables get the global range that the ranks before this one leave, and a quantity is marked distributed exactly if its local shape differs from its global shape on some rank; a quantity without stage output although an output carries its tag, a quantity tagged twice for the same role or with only one of old state and accumulated stages, and non-scalar or multiple time variables are rejected with a setup error.",
 ["inputs"], "all tag assignments, shapes, variable orders and rank partitions",
 "The combinations of tags, shapes and orders are unbounded; tests enumerate a few problems with one or two quantities.",
 ["metadata_extractor.py"], [("quantity extraction", "metadata_extractor.py")])

prop("C12", "The OpenMDAO wrapper moves each value to its variable and back unchanged",
 "Evaluating the wrapped ODE writes time, old state, accumulated stages and independent inputs into exactly the sources of the tagged variables (reshaped, every local quantity), sets step size and stage factor before solving, and returns exactly the tagged stage outputs with the full input/output vector as linearization point. Derivative evaluations restore the given linearization point completely before linearising, start from a right-hand side that holds nothing of earlier evaluations (not even infinities), with the sign convention of the linear solve, and the adjoint evaluation is the transpose of the forward one for the same point, step size and stage factor.",
 ["inputs", "histories"], "all metadata layouts, values, linearization points, step sizes and stage factors, evaluation histories",
 "Cross-wiring, a stale linearization point or leftover right-hand sides show only for several quantities with particular layouts and call histories.",
 ["discretized_ode/openmdao_ode.py", I], [("compute_update and derivatives, transfers", "discretized_ode/openmdao_ode.py"), ("outer vector transfer", I)])

prop("C13", "The error measure is the norm of the whole non-excluded state",
 "For every partition of the state into quantities, any exclusion list, any rank distribution and any order p (1<=p<infinity, infinity), the state norm equals the p-norm of the concatenation of all non-excluded quantities over all ranks, counting replicated quantities once. The simple measure is the norm of the error estimate, and the relative measure is that norm divided by (norm of the state + eta/eps); the estimate and state measured are those of the trial step.",
 ["inputs"], "all partitions, exclusions, distributions, orders and vectors",
 "Tests use one or two quantities and the default order; a quantity dropped, counted twice or combined with the wrong exponent survives.",
 ["discretized_ode/openmdao_ode.py", "error_measurer.py", I], [("compute_state_norm", "discretized_ode/openmdao_ode.py"), ("measures", "error_measurer.py")])

prop("C14", "Callbacks see every step once, in order, with its data",
 "For every number of steps and every list of callbacks, each executed step calls each callback, in list order, once before and once after the step with the same iteration number; forward runs number steps 1..N and reverse runs N..1, with every checkpointing strategy. Before the step a callback sees the state at the start of the step, after it the completed step (state, times, stage data, error data), and the callbacks of one mode are never invoked in another, except that forward steps recomputed during a reverse run call the forward callbacks under their own numbers.",
 ["histories", "inputs"], "all callback lists, numbers of steps, modes and checkpointing strategies",
 "The numbering and pairing depend on the checkpointing strategy, the mode and the history; tests check default callbacks only on short runs.",
 [I, "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py", "callback.py"], [("step wrappers", I)])

prop("C15", "Result files hold the initial state and every period-th step, faithfully",
 "For every period, number of steps and layout (also if steps are computed again for a reverse run, and whatever an older file held), the result file of a run contains exactly step 0 and the multiples of the period, each with its time, every quantity at its own place in its global array with the values of that step, and for embedded schemes the error measure of that step (zero for step 0). Reading the file returns, for each requested quantity and stored step, the stored time and values, and as error the distance to the given solution started from the initial values of all quantities; the last local error is that of the last stored step.",
 ["inputs"], "all periods, step counts, shapes, global partitions and quantity lists",
 "Tests write one or two tiny files; index ranges, periods and several quantities vary without bound.",
 ["file_writer.py"], [("writer callback", "file_writer.py"), ("readers", "file_writer.py")])

prop("C16", "Tableaux are classified and validated by their actual coefficients",
 "For every size and coefficient matrix a tableau is explicit exactly if all entries on and above the diagonal vanish, diagonally implicit exactly if it is not explicit and all entries above the diagonal vanish, and implicit otherwise; inconsistent sizes are rejected, and inconsistent main weights or row sums (by more than 1e-5 in any row) are warned about. Missing abscissae are filled with row sums, the minimal order of an embedded tableau is the smaller of its two orders, and the main and embedded methods expose exactly the corresponding weights and order.",
 ["inputs"], "all sizes s>=1 and all coefficient values",
 "Tests classify only the shipped tableaux.",
 ["butcher_tableau.py"], [("constructor and predicates", "butcher_tableau.py")])

prop("C17", "Every shipped tableau is a stage-ordered method of its declared order",
 "Every shipped tableau is explicit or diagonally implicit, has row sums equal to its abscissae and satisfies all order conditions (every rooted tree) up to its declared order within the accuracy of the tabulated decimals (1e-10); every embedded weight vector satisfies all order conditions up to its declared embedded order, and differs from the main weights; a tableau is not named after an order above its declared one. Consequently the global error decreases with the declared order for all smooth problems.",
 ["inputs"], "all smooth ODEs (via all rooted trees up to the declared order) for each of the shipped tableaux",
 "Convergence on sample problems does not exercise every elementary differential; existing order-condition tests omit the non-embedded tableaux and one fifth-order tree.",
 ["butcher_tableaux.py"], [("tableau data", "butcher_tableaux.py")])

prop("C18", "The shipped stage components satisfy their stage equations and derivatives",
 "For all inputs, step sizes and stage factors for which the stage equation is solvable, the shipped stage-value, stage-update, linear-model, Kaps and Prothero-Robinson components compute outputs that satisfy the stage equation they document (implicit residuals vanish at the solution they compute). The forward products equal the derivative of what is computed, the reverse products are the exact transpose for every subset of requested variables, and the linear solves invert the linearised residual in both modes.",
 ["inputs"], "all inputs, step sizes, stage factors, parameters, seeds and subsets of requested variables",
 "A wrong coefficient in a seldom used branch (reverse linear solve, zero stage factor) is not exercised by tests that solve one problem in forward mode.",
 ["utils/utility_components.py", "odes/simple_linear_ode.py", "odes/kaps.py", "odes/prothero_robinson_ode.py"], [("stage value / stage update", "utils/utility_components.py"), ("model ODEs", "odes/kaps.py")])

prop("C19", "The integrator presents exactly the stage problem's quantities",
 "For every stage problem and every list of quantities and independent inputs, setting up the integrator declares exactly the inputs time_initial (default 0), <quantity>_initial and <independent input>, and the outputs time_final and <quantity>_final, each with the rank-local shape and the distributed flag of its quantity. Inputs default to the values the stage problem holds for the old-state or parameter variable, quantities without an old state to zero, on every rank. The checkpointer is an instance of the requested class made with the given criterion and options; a checkpointing type that is no checkpointer class, or a controller factory that makes no error controller, is rejected with a TypeError.",
 ["inputs"], "all stage problems, quantity lists, shapes, rank distributions and default values",
 "Tests set initial values and parameters explicitly and use one or two quantities on one rank; a wrong default, shape or flag of one kind of variable is not seen.",
 [I], [("declarations and option checks", I)])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
