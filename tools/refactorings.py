"""Behaviour-preserving edits of the sources; the checks must stay quiet on them.

  python3-vt tools/refactorings.py [name ...]    runs the listed checks on a scratch copy with the edit
"""
import os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO = "time_discretization/stage_ordered_runge_kutta_discretization.py"
ST = "time_discretization/runge_kutta_discretization_state.py"
TI = "time_integration_state.py"
RKI = "runge_kutta_integrator.py"
AC, NC, PC, PR = ("checkpoint_interface/" + x for x in ("all_checkpointer.py", "no_checkpointer.py", "pyrevolve_checkpointer.py", "runge_kutta_integrator_pyrevolve_classes.py"))
EC, ECS, EM = "error_controller.py", "error_controllers.py", "error_measurer.py"
OO, ME, FW, BT, TC, UC, KA = ("discretized_ode/openmdao_ode.py", "metadata_extractor.py", "file_writer.py", "butcher_tableau.py", "termination_criterion.py",
                              "utils/utility_components.py", "odes/kaps.py")
R = []


def ref(name, checks, *edits):
    R.append((name, checks.split(), edits))


# ---- time step ---------------------------------------------------------------------------------
ref("acc-loop", "C01 C02 C03", (SO, '''        return (
            np.zeros(stage_field.shape[1])
            if stage == 0
            else np.einsum(
                "ij,i",
                stage_field[:stage, :],
                self.butcher_tableau.butcher_matrix[stage, :stage],
            )
        )
''', '''        accumulated = np.zeros(stage_field.shape[1])
        for j in range(stage):
            accumulated += self.butcher_tableau.butcher_matrix[stage, j] * stage_field[j, :]
        return accumulated
'''))
ref("acc-dot", "C01 C02 C03", (SO, '''            else np.einsum(
                "ij,i",
                stage_field[:stage, :],
                self.butcher_tableau.butcher_matrix[stage, :stage],
            )
''', '''            else self.butcher_tableau.butcher_matrix[stage, :stage] @ stage_field[:stage]
'''))
ref("step-dot", "C01 C02 C03", (SO, '''        return start_state + np.einsum(
            "ij,i",
            stage_field,
            step_size * self.butcher_tableau.butcher_weight_vector,
        )
''', '''        weights = self.butcher_tableau.butcher_weight_vector
        return start_state + step_size * np.dot(stage_field.T, weights)
'''))
ref("step-loop", "C01 C02 C03", (SO, '''        return start_state + np.einsum(
            "ij,i",
            stage_field,
            step_size * self.butcher_tableau.butcher_weight_vector,
        )
''', '''        result = start_state.copy()
        for weight, update in zip(
            self.butcher_tableau.butcher_weight_vector, stage_field
        ):
            result += step_size * weight * update
        return result
'''))
ref("store-helper", "C01 C02", (SO, '''        time_discretization_state.stage_updates[stage, :] = ode_result.stage_update
        time_discretization_state.stage_states[stage, :] = ode_result.stage_state
        time_discretization_state.stage_independent_outputs[stage, :] = (
            ode_result.independent_output
        )
''', '''        self._store(time_discretization_state, stage, ode_result)
'''), (SO, '''    def _compute_stage_derivative(
''', '''    @staticmethod
    def _store(state, stage, result):
        state.stage_independent_outputs[stage, :] = result.independent_output
        state.stage_states[stage, :] = result.stage_state
        state.stage_updates[stage, :] = result.stage_update

    def _compute_stage_derivative(
'''), (SO, '''        time_discretization_state_perturbation.stage_updates[stage, :] = (
            ode_result_perturbations.stage_update
        )
        time_discretization_state_perturbation.stage_states[stage, :] = (
            ode_result_perturbations.stage_state
        )
        time_discretization_state_perturbation.stage_independent_outputs[stage, :] = (
            ode_result_perturbations.independent_output
        )
        return time''', '''        self._store(
            time_discretization_state_perturbation, stage, ode_result_perturbations
        )
        return time'''))
ref("adj-outer", "C03", (SO, '''        for i in range(stage):
            time_discretization_state_perturbation.stage_updates[i, :] += (
                self.butcher_tableau.butcher_matrix[stage, i]
                * ode_input_perturbation.stage_input
            )
''', '''        time_discretization_state_perturbation.stage_updates[:stage] += np.outer(
            self.butcher_tableau.butcher_matrix[stage, :stage],
            ode_input_perturbation.stage_input,
        )
'''))
ref("adj-weights-outer", "C03", (SO, '''        for i in range(self.butcher_tableau.number_of_stages()):
            time_discretization_state_perturbation.stage_updates[i] = (
                step_size
                * self.butcher_tableau.butcher_weight_vector[i]
                * time_discretization_state_perturbation.final_state
            )
''', '''        time_discretization_state_perturbation.stage_updates[:] = np.outer(
            step_size * self.butcher_tableau.butcher_weight_vector,
            time_discretization_state_perturbation.final_state,
        )
'''))
ref("adj-range-down", "C03", (SO, '''        for i in reversed(range(self.butcher_tableau.number_of_stages())):
''', '''        for i in range(self.butcher_tableau.number_of_stages() - 1, -1, -1):
'''))
ref("adj-while", "C03", (SO, '''        for i in reversed(range(self.butcher_tableau.number_of_stages())):
            lin_pt''', '''        i = self.butcher_tableau.number_of_stages()
        while i > 0:
            i -= 1
            lin_pt'''))
ref("step-while", "C01", (SO, '''        for i in range(self.butcher_tableau.number_of_stages()):
            time_discretization_state = self._compute_stage(
                ode, time_discretization_state, step_size, i
            )
''', '''        i = 0
        while i < self.butcher_tableau.number_of_stages():
            time_discretization_state = self._compute_stage(
                ode, time_discretization_state, step_size, i
            )
            i += 1
'''))
ref("times-vector", "C01", (SO, '''        time_discretization_state.stage_times[stage] = (
            time_discretization_state.start_time[0]
            + step_size * self.butcher_tableau.butcher_time_stages[stage]
        )
''', ""), (SO, '''        time_discretization_state.step_size[0] = step_size
        for i in''', '''        time_discretization_state.step_size[0] = step_size
        time_discretization_state.stage_times[:] = (
            time_discretization_state.start_time[0]
            + step_size * self.butcher_tableau.butcher_time_stages
        )
        for i in'''))
ref("step-reorder", "C01", (SO, '''        time_discretization_state.final_time[0] = (
            time_discretization_state.start_time[0] + step_size
        )
        time_discretization_state.final_state[:] = self._accumulate_step(
            time_discretization_state.start_state,
            time_discretization_state.stage_updates,
            step_size,
        )
        time_disc''', '''        new_state = self._accumulate_step(
            time_discretization_state.start_state,
            time_discretization_state.stage_updates,
            step_size,
        )
        np.copyto(time_discretization_state.final_state, new_state)
        time_discretization_state.final_time.fill(
            step_size + time_discretization_state.start_time[0]
        )
        time_disc'''))
ref("locals", "C01 C02 C03", (SO, '''        ode_result = ode.compute_update(
            ode_input,
            step_size,
            self.butcher_tableau.butcher_matrix[stage, stage],
        )
''', '''        matrix = self.butcher_tableau.butcher_matrix
        diagonal = matrix.diagonal()[stage]
        ode_result = ode.compute_update(
            ode_input, step_size=step_size, stage_factor=diagonal
        )
'''), (SO, '''    def _shift_state(discretization_state: RungeKuttaDiscretizationState):
        discretization_state.start_time[0] = discretization_state.final_time[0]
        discretization_state.start_state[:] = discretization_state.final_state
''', '''    def _shift_state(discretization_state: RungeKuttaDiscretizationState):
        for target, source in (
            (discretization_state.start_state, discretization_state.final_state),
            (discretization_state.start_time, discretization_state.final_time),
        ):
            target[:] = source
'''))
# ---- integrator -------------------------------------------------------------------------------
ref("callbacks-helper", "C06 C07 C10 C14", (RKI, '''        for callback in self._compute_callbacks:
            callback.before_iteration(
                step,
                time_integration_state,
                self._ode,
                self._runge_kutta_discretization,
            )
        time_integration_state.set(self._iterate_on_step(time_integration_state))
        for callback in self._compute_callbacks:
            callback.after_iteration(
                step,
                time_integration_state,
                self._ode,
                self._runge_kutta_discretization,
            )
        return time_integration_state

''', '''        self._before(self._compute_callbacks, step, time_integration_state)
        time_integration_state.set(self._iterate_on_step(time_integration_state))
        self._after(self._compute_callbacks, step, time_integration_state)
        return time_integration_state

    def _before(self, callbacks, step, state):
        args = (step, state, self._ode, self._runge_kutta_discretization)
        for callback in callbacks:
            callback.before_iteration(*args)

    def _after(self, callbacks, step, state):
        args = (step, state, self._ode, self._runge_kutta_discretization)
        for callback in callbacks:
            callback.after_iteration(*args)

'''))
ref("iterate-loop", "C06 C07 C10 C14", (RKI, '''        temp_discretization_state = deepcopy(
            time_integration_state.discretization_state
        )
        temp_discretization_state = self._runge''', '''        temp_discretization_state = self._runge'''), (RKI, '''            self._ode,
            temp_discretization_state,
            time_integration_state.step_size_suggestion[0],
        )
        if self._int''', '''            self._ode,
            deepcopy(time_integration_state.discretization_state),
            time_integration_state.step_size_suggestion[0],
        )
        if self._int'''))
ref("accept-helper", "C06 C07 C10 C14", (RKI, '''                new_step_size_history = np.roll(
                    time_integration_state.step_size_history, 1
                )
                new_step_size_history[0] = time_integration_state.step_size_suggestion[
                    0
                ]
                new_error_history = np.roll(time_integration_state.error_history, 1)
                new_error_history[0] = error_measure
                time_integration_state.discretization_state.set(
                    temp_discretization_state
                )
                time_integration_state.step_size_suggestion[0] = (
                    error_controller_status.step_size_suggestion
                )
                time_integration_state.step_size_history[:] = new_step_size_history
                time_integration_state.error_history[:] = new_error_history
''', '''                self._push(
                    time_integration_state.step_size_history,
                    time_integration_state.step_size_suggestion[0],
                )
                self._push(time_integration_state.error_history, error_measure)
                time_integration_state.step_size_suggestion[0] = (
                    error_controller_status.step_size_suggestion
                )
                time_integration_state.discretization_state.set(
                    temp_discretization_state
                )
'''), (RKI, '''    def _get_error_measure(
''', '''    @staticmethod
    def _push(history: np.ndarray, value: float) -> None:
        history[1:] = history[:-1].copy()
        history[0] = value

    def _get_error_measure(
'''))
ref("push-concat", "C06 C07 C10 C14", (RKI, '''                new_error_history = np.roll(time_integration_state.error_history, 1)
                new_error_history[0] = error_measure
''', '''                new_error_history = np.concatenate(
                    ([error_measure], time_integration_state.error_history[:-1])
                )
'''))
ref("push-slice", "C06 C07 C10 C14", (RKI, '''                new_error_history = np.roll(time_integration_state.error_history, 1)
                new_error_history[0] = error_measure
''', '''                new_error_history = np.empty_like(time_integration_state.error_history)
                new_error_history[0] = error_measure
                new_error_history[1:] = time_integration_state.error_history[:-1]
'''))
ref("early-return", "C06 C07 C10 C14", (RKI, '''            else:
                time_integration_state.step_size_suggestion[0] = (
                    error_controller_status.step_size_suggestion
                )
                time_integration_state.set(
                    self._iterate_on_step(
                        time_integration_state,
                        i + 1,
                    )
                )

        else:
            time_integration_state.discretization_state.set(temp_discretization_state)
            np.roll(time_integration_state.step_size_history, 1)
            time_integration_state.step_size_history[0] = (
                time_integration_state.step_size_suggestion[0]
            )
        return time_integration_state
''', '''                return time_integration_state
            time_integration_state.step_size_suggestion[0] = (
                error_controller_status.step_size_suggestion
            )
            return self._iterate_on_step(time_integration_state, i + 1)

        time_integration_state.discretization_state.set(temp_discretization_state)
        time_integration_state.step_size_history[0] = (
            time_integration_state.step_size_suggestion[0]
        )
        return time_integration_state
'''))
ref("vector-helper", "C06 C12", (RKI, '''        for (
            quantity
        ) in self._ode.time_integration_metadata.time_integration_quantity_list:
            start = quantity.array_metadata.start_index
            end = quantity.array_metadata.end_index
            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
''', '''        metadata = self._ode.time_integration_metadata
        for quantity in metadata.time_integration_quantity_list:
            np_array[self._slice(quantity)] = om_vector[
                f"{quantity.name}{name_suffix}"
            ].ravel()

    @staticmethod
    def _slice(quantity):
        return slice(
            quantity.array_metadata.start_index, quantity.array_metadata.end_index
        )
'''))
ref("suffix-ternary", "C06 C12", (RKI, '''        if om_vector._kind == "input":
            name_suffix = "_initial"
        else:
            name_suffix = "_final"
        for (
            quantity
        ) in self._ode.time_integration_metadata.time_integration_quantity_list:
            start = quantity.array_metadata.start_index
            end = quantity.array_metadata.end_index
            om_vector[quantity.name + name_suffix] = np_array[start:end].reshape(
                quantity.array_metadata.shape
            )
''', '''        name_suffix = "_initial" if om_vector._kind == "input" else "_final"
        quantities = self._ode.time_integration_metadata.time_integration_quantity_list
        for quantity in quantities:
            data = quantity.array_metadata
            name = quantity.name + name_suffix
            om_vector[name] = np_array[data.start_index : data.end_index].reshape(data.shape)
'''))
ref("cache-helper", "C06", (RKI, '''        cached_input_is_current = self._cached_input is not None and (
            np.array_equal(
                self._cached_input.final_state,
                temporary_integration_state.discretization_state.final_state,
            )
            and np.array_equal(
                self._cached_input.independent_inputs,
                temporary_integration_state.discretization_state.independent_inputs,
            )
            and np.array_equal(
                self._cached_input.final_time,
                temporary_integration_state.discretization_state.final_time,
            )
        )
''', '''        cached_input_is_current = self._is_current(
            temporary_integration_state.discretization_state
        )
'''), (RKI, '''    def _run_step_jacvec_rev(
''', '''    def _is_current(self, state):
        if self._cached_input is None:
            return False
        return all(
            np.array_equal(getattr(self._cached_input, name), getattr(state, name))
            for name in ("final_time", "final_state", "independent_inputs")
        )

    def _run_step_jacvec_rev(
'''))
ref("fwd-while-true", "C06 C10 C14", (RKI, '''        iteration = 0
        while not self._integration_config.termination_criterion.is_iteration_finished(
            iteration, time_integration_state
        ):
            iteration += 1
            time_int''', '''        iteration = 0
        criterion = self._integration_config.termination_criterion
        while True:
            if criterion.is_iteration_finished(iteration, time_integration_state):
                break
            iteration += 1
            time_int'''))
ref("fwd-prep-reorder", "C06", (RKI, '''        integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
            "time_initial"
        ][0]
        self._reset_error_control(integration_state)
''', '''        integration_state_perturbations.discretization_state.final_time[:] = d_inputs[
            "time_initial"
        ]
        integration_state.discretization_state.final_time[:] = inputs["time_initial"]
        self._reset_error_control(integration_state)
'''), (RKI, '''        integration_state.step_size_history.fill(0.0)
        integration_state.error_history.fill(self._error_controller.config.tol)
''', '''        integration_state.error_history[:] = self._error_controller.config.tol
        integration_state.step_size_history[:] = 0.0
'''))
ref("controllers-reduce", "C09 C07", (RKI, '''        p = self.options["butcher_tableau"].min_p_order()
        self._error_controller = None
        # Sets initial delta_t to be at boundary if given wrongly by mistake
        for controller in self.options["error_controller"]:
            self._error_controller = controller(
                p=p,
                **self.options["error_controller_options"],
                base=self._error_controller,
            )
''', '''        arguments = dict(self.options["error_controller_options"])
        arguments["p"] = self.options["butcher_tableau"].min_p_order()
        current = None
        for controller in self.options["error_controller"]:
            current = controller(base=current, **arguments)
        self._error_controller = current
'''))
# ---- checkpointers -----------------------------------------------------------------------------
ref("all-for-reverse", "C05 C14", (AC, '''        iteration = len(self._storage)
        while self._storage:
            state = self._storage.pop()
            self.state_perturbation.set(
                self.run_step_jacvec_rev_func(iteration, state, self.state_perturbation)
            )
            iteration -= 1
''', '''        for iteration in range(len(self._storage), 0, -1):
            state = self._storage.pop()
            self.state_perturbation.set(
                self.run_step_jacvec_rev_func(iteration, state, self.state_perturbation)
            )
'''))
ref("all-list", "C05 C14", (AC, "self._storage = deque()", "self._storage = []"), (AC, "self._storage.clear()", "self._storage = []"))
ref("all-while-len", "C05 C10 C14", (AC, '''        while self._storage:
''', '''        while len(self._storage) > 0:
'''), (AC, '''            iteration += 1
            self.state.set(self.run_step_func(iteration, self.state))
            self._storage.append(deepcopy(self.state))
''', '''            iteration = iteration + 1
            new_state = self.run_step_func(iteration, self.state)
            self.state.set(new_state)
            checkpoint = deepcopy(self.state)
            self._storage.append(checkpoint)
'''))
ref("no-while-true", "C05 C10 C14", (NC, '''        while not self.termination_criterion.is_iteration_finished(
            iteration, self.state
        ):
            iteration += 1
            self.state.set(self.run_step_func(iteration, self.state))
''', '''        finished = self.termination_criterion.is_iteration_finished
        while not finished(iteration, self.state):
            iteration += 1
            self._advance(iteration)
'''), (NC, '''    def iterate_reverse(self''', '''    def _advance(self, iteration):
        self.state.set(self.run_step_func(iteration, self.state))

    def iterate_reverse(self'''))
ref("pr-ranges", "C05 C14", (PR, '''        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
            # TODO?: Add iteration to fwd_op
            self.time''', '''        for t in range(kwargs["t_start"], kwargs["t_end"]):
            step = t + 2
            self.time'''), (PR, '''        for step in reversed(range(kwargs["t_start"] + 2, kwargs["t_end"] + 2)):
''', '''        first, last = kwargs["t_start"] + 2, kwargs["t_end"] + 1
        for step in range(last, first - 1, -1):
'''))
ref("pr-data", "C04 C05", (PR, '''        result = []
        if isinstance(state_part, dict):
            for part in state_part.values():
                result += self._get_data_impl(part, location)
        elif isinstance(state_part, np.ndarray):
            if state_part.size > 0:
                result.append(state_part if location else state_part.copy())
        else:
            raise''', '''        if isinstance(state_part, dict):
            result = []
            for key in state_part:
                result.extend(self._get_data_impl(state_part[key], location))
        elif isinstance(state_part, np.ndarray):
            if state_part.size == 0:
                return []
            result = [state_part] if location else [np.array(state_part)]
        else:
            raise'''))
ref("pr-options", "C05", (PC, '''        if "n_checkpoints" not in self.revolver_options:
            if self.revolver_type not in ["MultiLevel", "Base"]:
                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
''', '''        needs_checkpoints = self.revolver_type not in ("MultiLevel", "Base")
        if needs_checkpoints and "n_checkpoints" not in self.revolver_options:
            if num_steps > 2:
                self.revolver_options["n_checkpoints"] = None
            else:
                self.revolver_options["n_checkpoints"] = 1
'''))
ref("pr-classes-dict", "C05", (PC, '''        if revolver_type == "SingleLevel":
            return pr.SingleLevelRevolver
        elif revolver_type == "MultiLevel":
''', '''        simple = {
            "SingleLevel": pr.SingleLevelRevolver,
            "Disk": pr.DiskRevolver,
            "Base": pr.BaseRevolver,
            "Memory": pr.MemoryRevolver,
        }
        if revolver_type in simple:
            return simple[revolver_type]
        elif revolver_type == "MultiLevel":
'''))
# ---- states ------------------------------------------------------------------------------------
ref("set-copyto", "C04", (ST, '''        self.start_time[:] = other.start_time[:]
        self.stage_times[:] = other.stage_times[:]
''', '''        np.copyto(self.start_time, other.start_time)
        self.stage_times[...] = other.stage_times
'''))
ref("set-fields", "C04", (TI, '''        self.discretization_state.set(other.discretization_state)
        self.step_size_suggestion[:] = other.step_size_suggestion[:]
        self.step_size_history[:] = other.step_size_history[:]
        self.error_history[:] = other.error_history[:]
''', '''        for name in ("step_size_suggestion", "step_size_history", "error_history"):
            getattr(self, name)[:] = getattr(other, name)
        self.discretization_state.set(other.discretization_state)
'''))
ref("to-dict-literal", "C04", (ST, '''        for i in range(number_of_stages):
            time_step_dict[f"stage_{i}"] = {
                "state": self.stage_states[i, :],
                "update": self.stage_updates[i, :],
                "independent_output": self.stage_independent_outputs[i, :],
            }
''', '''        stages = zip(
            self.stage_states, self.stage_updates, self.stage_independent_outputs
        )
        for i, (state, update, output) in enumerate(stages):
            time_step_dict[f"stage_{i}"] = {
                "state": state,
                "update": update,
                "independent_output": output,
            }
'''))
ref("to-dict-helper", "C04", (ST, '''        for i in range(number_of_stages):
            time_step_dict[f"stage_{i}"] = {
                "state": self.stage_states[i, :],
                "update": self.stage_updates[i, :],
                "independent_output": self.stage_independent_outputs[i, :],
            }
''', '''        for i in range(number_of_stages):
            time_step_dict[f"stage_{i}"] = self._stage_dict(i)
'''), (ST, '''    def to_dict(self) -> dict:
        time_step_dict = {"start_state"''', '''    def _stage_dict(self, stage):
        return dict(
            state=self.stage_states[stage],
            update=self.stage_updates[stage],
            independent_output=self.stage_independent_outputs[stage],
        )

    def to_dict(self) -> dict:
        time_step_dict = {"start_state"'''))
# ---- error control -----------------------------------------------------------------------------
ref("success-expr", "C08 C10", (EC, '''        success = False
        if (
            delta_t - self.config.lower_bound < 1e-10
            or error_measure <= self.config.tol
        ):
            success = True
''', '''        within_tolerance = error_measure <= self.config.tol
        at_lower_bound = delta_t - self.config.lower_bound < 1e-10
        success = bool(within_tolerance or at_lower_bound)
'''))
ref("clip-ifs", "C08 C10", (EC, '''        new_delta_t = max(
            self.config.lower_bound, min(self.config.upper_bound, new_delta_t)
        )
        new_delta_t = min(remaining_time + (1 - success) * delta_t, new_delta_t)
''', '''        if new_delta_t > self.config.upper_bound:
            new_delta_t = self.config.upper_bound
        if new_delta_t < self.config.lower_bound:
            new_delta_t = self.config.lower_bound
        available = remaining_time if success else remaining_time + delta_t
        if new_delta_t > available:
            new_delta_t = available
'''))
ref("zero-error-first", "C08", (EC, '''        if error_measure != 0:
            new_delta_t = self._estimate_next_step_function(
                error_measure=error_measure,
                delta_t=delta_t,
                error_history=error_history,
                step_size_history=step_size_history,
            )
        else:
            new_delta_t = delta_t
            warnings.warn("""Current error norm is 0, can't estimate new step size
                and using old one.""")
''', '''        if error_measure == 0:
            warnings.warn("""Current error norm is 0, can't estimate new step size
                and using old one.""")
            new_delta_t = delta_t
        else:
            new_delta_t = self._estimate_next_step_function(
                error_measure=error_measure,
                delta_t=delta_t,
                error_history=error_history,
                step_size_history=step_size_history,
            )
'''))
ref("estimate-expr", "C08", (EC, '''        delta_t_new = self.config.safety_factor * delta_t
        delta_t_new *= (self.config.tol / error_measure) ** self.alpha
        delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
        delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
''', '''        tol = self.config.tol
        error_factor = (
            (tol / error_measure) ** self.alpha
            * (error_history[0] / tol) ** self.beta
            * (tol / error_history[1]) ** self.gamma
        )
        delta_t_new = self.config.safety_factor * delta_t * error_factor
'''))
ref("decorator-flat", "C08", (EC, '''        if self._is_not_inner:
            try:
                status = self.error_controller(
                    error_measure=error_measure,
                    delta_t=delta_t,
                    remaining_time=remaining_time,
                    error_history=error_history,
                    step_size_history=step_size_history,
                )
                if not status.acceptance:
                    self._outer_counter += 1
                    if not (
                        status.step_size_suggestion < delta_t
                        and self._outer_counter <= self.config.max_iter
                    ):
                        raise OuterErrorControllerError(
                            f"""Suggested delta T {status.step_size_suggestion} is 
                            larger than delta t {delta_t} on failure."""
                        )
                else:
                    self._outer_counter = 0
                return status
            except OuterErrorControllerError:
                self._outer_counter = 0
                return self._run(
                    error_measure=error_measure,
                    delta_t=delta_t,
                    remaining_time=remaining_time,
                    error_history=error_history,
                    step_size_history=step_size_history,
                )
        else:
            return self._run(
                error_measure=error_measure,
                delta_t=delta_t,
                remaining_time=remaining_time,
                error_history=error_history,
                step_size_history=step_size_history,
            )
''', '''        arguments = {
            "error_measure": error_measure,
            "delta_t": delta_t,
            "remaining_time": remaining_time,
            "error_history": error_history,
            "step_size_history": step_size_history,
        }
        if not self._is_not_inner:
            return self._run(**arguments)
        try:
            status = self.error_controller(**arguments)
        except OuterErrorControllerError:
            status = None
        if status is not None:
            if status.acceptance:
                self._outer_counter = 0
                return status
            self._outer_counter += 1
            reduced = status.step_size_suggestion < delta_t
            if reduced and self._outer_counter <= self.config.max_iter:
                return status
        self._outer_counter = 0
        return self._run(**arguments)
'''))
# ---- OpenMDAO wrapper ----------------------------------------------------------------------------
ref("oo-source-helper", "C12", (OO, '''                    om_vector[
                        self._time_stage_problem.model.get_source(
                            quantity.translation_metadata.step_input_var
                        )
                    ] = factor * step_input[start:end].reshape(
                        quantity.array_metadata.shape
                    )
                    om_vector[
                        self._time_stage_problem.model.get_source(
                            quantity.translation_metadata.accumulated_stage_var
                        )
                    ] = factor * stage_input[start:end].reshape(
                        quantity.array_metadata.shape
                    )
''', '''                    shape = quantity.array_metadata.shape
                    for variable, values in (
                        (quantity.translation_metadata.step_input_var, step_input),
                        (
                            quantity.translation_metadata.accumulated_stage_var,
                            stage_input,
                        ),
                    ):
                        source = self._time_stage_problem.model.get_source(variable)
                        om_vector[source] = factor * values[start:end].reshape(shape)
'''))
ref("oo-lin-concat", "C12", (OO, '''        serialized_array = np.zeros(inputs.asarray().size + outputs.asarray().size)
        serialized_array[: inputs.asarray().size] = inputs.asarray(copy=True)
        serialized_array[inputs.asarray().size :] = outputs.asarray(copy=True)
        return serialized_array
''', '''        return np.concatenate((inputs.asarray(), outputs.asarray()))
'''), (OO, '''        inputs.asarray()[:] = linearization_state[: inputs.asarray().size]
        outputs.asarray()[:] = linearization_state[inputs.asarray().size :]
''', '''        split = inputs.asarray().size
        outputs.asarray()[:] = linearization_state[split:]
        inputs.asarray()[:] = linearization_state[:split]
'''))
ref("oo-setvec", "C12", (OO, '''        d_residuals.asarray()[:] = 0.0
''', '''        d_residuals.asarray().fill(0.0)
'''), (OO, '''        d_outputs.asarray()[:] = 0.0
''', '''        values = d_outputs.asarray()
        values[:] = np.zeros_like(values)
'''))
ref("oo-linearize-helper", "C12", (OO, '''        self._set_linearization_point(ode_input_perturbation.linearization_point)
        self._om_data_exchange.step_size = step_size
        self._om_data_exchange.stage_factor = stage_factor
        self._time_stage_problem.model.run_linearize()
''', '''        self._linearize(
            ode_input_perturbation.linearization_point, step_size, stage_factor
        )
'''), (OO, '''        self._set_linearization_point(ode_result_perturbation.linearization_point)
        self._om_data_exchange.step_size = step_size
        self._om_data_exchange.stage_factor = stage_factor
        self._time_stage_problem.model.run_linearize()
''', '''        self._linearize(
            ode_result_perturbation.linearization_point, step_size, stage_factor
        )
'''), (OO, '''    def get_state_size(self) -> int:
''', '''    def _linearize(self, point, step_size, stage_factor):
        self._om_data_exchange.stage_factor = stage_factor
        self._om_data_exchange.step_size = step_size
        self._set_linearization_point(point)
        self._time_stage_problem.model.run_linearize()

    def get_state_size(self) -> int:
'''))
ref("oo-continue", "C12", (OO, '''            if quantity.array_metadata.local:
                start = quantity.array_metadata.start_index
                end = quantity.array_metadata.end_index
                stage_update[start:end] = om_vector[
                    quantity.translation_metadata.stage_output_var
                ].flatten()
''', '''            metadata = quantity.array_metadata
            if not metadata.local:
                continue
            value = om_vector[quantity.translation_metadata.stage_output_var]
            stage_update[metadata.start_index : metadata.end_index] = value.reshape(-1)
'''))
ref("norm-continue", "C13", (OO, '''            if quantity.name not in self._norm_exclusions:
                norm_intermediate = self._partial_norm_intermediate(
                    stage_state, quantity, self._norm_order
                )
                if quantity.array_metadata.distributed:
                    distributed_intermediate = self._add_to_intermediate(
                        distributed_intermediate, norm_intermediate, self._norm_order
                    )
                else:
                    non_distributed_intermediate = self._add_to_intermediate(
                        non_distributed_intermediate,
                        norm_intermediate,
                        self._norm_order,
                    )
''', '''            if quantity.name in self._norm_exclusions:
                continue
            part = self._partial_norm_intermediate(
                stage_state, quantity, self._norm_order
            )
            if not quantity.array_metadata.distributed:
                non_distributed_intermediate = self._add_to_intermediate(
                    non_distributed_intermediate, part, self._norm_order
                )
            else:
                distributed_intermediate = self._add_to_intermediate(
                    distributed_intermediate, part, self._norm_order
                )
'''))
ref("norm-partition", "C13", (OO, '''        for quantity in self.time_integration_metadata.time_integration_quantity_list:
            if quantity.name not in self._norm_exclusions:
                norm_inter''', '''        considered = [
            quantity
            for quantity in self.time_integration_metadata.time_integration_quantity_list
            if quantity.name not in self._norm_exclusions
        ]
        for quantity in considered:
            if True:
                norm_inter'''))
ref("norm-abs-power", "C13", (OO, '''        exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
        return np.linalg.norm(state[start:end], order) ** exponent
''', '''        if order == np.inf:
            return np.max(np.abs(state[start:end]))
        if order in [-np.inf, 0.0]:
            return np.linalg.norm(state[start:end], order)
        return np.sum(np.abs(state[start:end]) ** order)
'''))
# ---- metadata ---------------------------------------------------------------------------------
ref("me-any-set", "C11", (ME, '''        if any(quantity.name == quantity_name for quantity in quantity_list):
''', '''        if quantity_name in [quantity.name for quantity in quantity_list]:
'''))
ref("me-index-helper", "C11", (ME, '''            start_index = array_size
            array_size += np.prod(detailed_data["shape"])
            end_index = array_size
            array_metadata = _create_local_array_metadata(
                stage_problem=stage_problem,
                start_index=start_index,
                end_index=end_index,
                detailed_var=detailed_var,
                detailed_data=detailed_data,
            )
''', '''            end_index = array_size + np.prod(detailed_data["shape"])
            array_metadata = _create_local_array_metadata(
                stage_problem=stage_problem,
                start_index=array_size,
                end_index=end_index,
                detailed_var=detailed_var,
                detailed_data=detailed_data,
            )
            array_size = end_index
'''))
ref("me-checks-reorder", "C11", (ME, '''    if (found_step_input_var, found_accumulated_stage_var) not in [
        (0, 0),
        (1, 1),
    ]:
''', '''    if found_step_input_var != found_accumulated_stage_var:
'''))
ref("me-distributed", "C11", (ME, '''        shape_matches_locally = (
            quantity.array_metadata.shape == quantity.array_metadata.global_shape
        )
        shapes_match_everywhere = stage_problem.comm.allreduce(
            shape_matches_locally, MPI.LAND
        )
        quantity.array_metadata.distributed = not shapes_match_everywhere
''', '''        array_metadata = quantity.array_metadata
        differs = array_metadata.shape != array_metadata.global_shape
        array_metadata.distributed = stage_problem.comm.allreduce(differs, MPI.LOR)
'''))
ref("me-lists", "C11", (ME, '''    found_stage_output_var = 0
    found_step_input_var = 0
    found_accumulated_stage_var = 0
''', '''    found_stage_output_var, found_step_input_var, found_accumulated_stage_var = 0, 0, 0
'''), (ME, '''        global_start_index = start = np.sum(sizes[: stage_problem.comm.rank])
        global_end_index = start + sizes[stage_problem.comm.rank]
''', '''        rank = stage_problem.comm.rank
        global_start_index = np.sum(sizes[:rank])
        global_end_index = np.sum(sizes[: rank + 1])
'''))
# ---- file writer -------------------------------------------------------------------------------
ref("fw-write-helper", "C15", (FW, '''            if iteration % self.write_out_period == 0:
                hf[f"{iteration}"]["time"][
                    0
                ] = time_integration_state.discretization_state.final_time
                for (
                    quantity
                ) in ode.time_integration_metadata.time_integration_quantity_list:
                    if 0 not in quantity.array_metadata.shape:
                        write_indices = self.get_write_indices(quantity)
                        start_array = quantity.array_metadata.start_index
                        end_array = quantity.array_metadata.end_index
                        hf[f"{iteration}"][quantity.name][write_indices] = (
                            time_integration_state.discretization_state.final_state[
                                start_array:end_array
                            ].reshape(quantity.array_metadata.shape)
                        )
''', '''            if not iteration % self.write_out_period:
                state = time_integration_state.discretization_state
                hf[str(iteration)]["time"][0] = state.final_time
                self._write_quantities(hf[str(iteration)], ode, state.final_state)
'''), (FW, '''    @staticmethod
    def get_write_indices(''', '''    def _write_quantities(self, group, ode, values):
        for quantity in ode.time_integration_metadata.time_integration_quantity_list:
            metadata = quantity.array_metadata
            if 0 in metadata.shape:
                continue
            group[quantity.name][self.get_write_indices(quantity)] = values[
                metadata.start_index : metadata.end_index
            ].reshape(metadata.shape)

    @staticmethod
    def get_write_indices('''))
ref("fw-indices-comp", "C15", (FW, '''        access_list = []
        for start_index, end_index in zip(start_tuple, end_tuple):
            access_list.append(slice(start_index, end_index + 1))
        return tuple(access_list)
''', '''        return tuple(
            slice(first, last + 1) for first, last in zip(start_tuple, end_tuple)
        )
'''))
ref("fw-read", "C15", (FW, '''                result[quantity][int(key)] = np.zeros(group[quantity].shape)
                for row in range(group[quantity].shape[0]):
                    result[quantity][int(key)][row] = group[quantity][row]
''', '''                result[quantity][int(key)] = group[quantity][...]
'''), (FW, '''        last_step = max(int(x) for x in f.keys())
        return f[str(last_step)]["error_measure"][0]
''', '''        steps = [int(name) for name in f]
        return f[f"{max(steps)}"]["error_measure"][0]
'''))
ref("fw-require", "C15", (FW, '''                if iter_str in hf:
                    continue
                hf.create_group(iter_str)
                hf[iter_str].create_dataset("time", shape=(1,), dtype=np.float64)
''', '''                if iter_str in hf:
                    continue
                group = hf.create_group(iter_str)
                group.create_dataset("time", shape=(1,), dtype=np.float64)
'''))
# ---- tableau -----------------------------------------------------------------------------------
ref("bt-triu", "C16", (BT, '''        if self.is_explicit():
            return False
        for i in range(self.stages):
            for j in range(i + 1, self.stages):
                if self.butcher_matrix[i, j] != 0.0:
                    return False
        return True
''', '''        if self.is_explicit():
            return False
        return not np.any(np.triu(self.butcher_matrix, 1))
'''))
ref("bt-all", "C16", (BT, '''        if self.is_explicit():
            return False
        for i in range(self.stages):
            for j in range(i + 1, self.stages):
                if self.butcher_matrix[i, j] != 0.0:
                    return False
        return True
''', '''        return not self.is_explicit() and all(
            self.butcher_matrix[i, j] == 0.0
            for i in range(self.stages)
            for j in range(i + 1, self.stages)
        )
'''), (BT, '''        if self.is_explicit() or self.is_diagonally_implicit():
            return False
        return True
''', '''        return not (self.is_explicit() or self.is_diagonally_implicit())
'''), (BT, '''        return min(self._p, self._phat)
''', '''        return self._p if self._p < self._phat else self._phat
'''))
# ---- components --------------------------------------------------------------------------------
ref("uc-factor", "C18", (UC, '''                if "old_value" in d_inputs:
                    d_inputs["old_value"] += d_outputs["stage_value"]
                if "acc_stages" in d_inputs:
                    d_inputs["acc_stages"] += delta_t * d_outputs["stage_value"]
                if "stage_slope" in d_inputs:
                    d_inputs["stage_slope"] += (
                        delta_t * butcher_diagonal_element * d_outputs["stage_value"]
                    )
''', '''                factors = {
                    "old_value": 1.0,
                    "acc_stages": delta_t,
                    "stage_slope": delta_t * butcher_diagonal_element,
                }
                for name, factor in factors.items():
                    if name in d_inputs:
                        d_inputs[name] += factor * d_outputs["stage_value"]
'''))
ref("uc-names", "C18", (UC, '''        for quantity in self.options["quantity_list"]:
            outputs[quantity + "_update"] = (
                inputs[quantity]
                - inputs[quantity + "_old"]
                - delta_t * inputs[quantity + "_acc_stages"]
            ) / (delta_t * a_ii)
''', '''        for quantity in self.options["quantity_list"]:
            difference = inputs[quantity] - inputs[f"{quantity}_old"]
            slope = difference / delta_t - inputs[f"{quantity}_acc_stages"]
            outputs[f"{quantity}_update"] = slope / a_ii
'''))


def main():
    names = sys.argv[1:]
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for name, checks, edits in R:
        if names and name not in names:
            continue
        d = tempfile.mkdtemp(prefix="rfk_")
        shutil.copytree("/repo/src", d + "/src")
        ok = True
        for f, old, new in edits:
            p = os.path.join(d, "src/rkopenmdao", f)
            s = open(p).read()
            if s.count(old) < 1:
                print(name, "NO MATCH", f, old[:60].strip())
                ok = False
            open(p, "w").write(s.replace(old, new, 1))
        if ok:
            jobs += [(name, c, d) for c in checks]

    def one(j):
        name, c, d = j
        env = dict(os.environ, PYVC_SRC=d + "/src", RKV_EVDIR=d + "/ev_" + c)
        p = subprocess.run(["python3-vt", os.path.join(H, "check.py"), c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        notes = [l for l in p.stdout.splitlines() if l.startswith(("note", "VIOL", "failing", "failed", "  "))]
        return name, c, p.returncode, p.stdout.splitlines()[0][:140] if p.stdout else "", notes
    with ThreadPoolExecutor(3) as ex:
        for name, c, rc, l, notes in ex.map(one, jobs):
            print(f"{name:20s} {'quiet' if rc == 0 else 'RC=%d' % rc} {'PROVED' if not notes else 'undecided'} {l}")
            for n in notes[:3]:
                print("      ", n[:260])
            sys.stdout.flush()
    for d in {j[2] for j in jobs}:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
