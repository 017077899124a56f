"""C05: every checkpointing strategy executes the same forward and reverse schedule."""
from .ckpt import *

CI = PKG + ".checkpoint_interface"
FILES = ["rkopenmdao/checkpoint_interface/" + f for f in ("all_checkpointer.py", "no_checkpointer.py", "pyrevolve_checkpointer.py", "runge_kutta_integrator_pyrevolve_classes.py", "checkpoint_interface.py")]
FUNCS = ["NoCheckpointer.iterate_forward", "NoCheckpointer.create_checkpointer", "AllCheckpointer.__post_init__", "AllCheckpointer.create_checkpointer",
         "AllCheckpointer.iterate_forward", "AllCheckpointer.iterate_reverse", "PyrevolveCheckpointer.__post_init__", "PyrevolveCheckpointer.create_checkpointer",
         "PyrevolveCheckpointer.iterate_forward", "PyrevolveCheckpointer.iterate_reverse", "RungeKuttaForwardOperator.apply", "RungeKuttaReverseOperator.apply",
         "RungeKuttaCheckpoint.get_data", "RungeKuttaCheckpoint.get_data_location"]
ASSUMPTIONS = ["contract of the step functions: the new state is returned; the argument may be updated in place or clobbered",
               "contract of TimeIntegrationState.set / deepcopy / to_dict: copy into existing arrays / independent copy / live arrays (proved in C04)",
               "contract of pyRevolve's revolvers for n_timesteps=T>=1: apply_forward calls fwd_operator.apply on consecutive ranges covering 0..T and saves get_data() copies; "
               "apply_reverse restores saved data through get_data_location, advances with fwd_operator.apply, and calls rev_operator.apply(t_start=j, t_end=j+1) once for j=T-1..0 "
               "with the state of time j+1 in the work space; n_checkpoints=None needs T>=2; the schedulers of single-level revolvers meet this (bounded: exercised at run time), "
               "MultiLevelRevolver does not for all settings (known finding)"]
TRUSTED = ["pyrevolve (assumed contract)"]
RT_NOTE = "all checkpointers and single-level revolver types on the real integrator, 1..30 steps, repeated histories, compared against a reference run"
LEVEL = "proved for any number of steps, any step function and any criterion, relative to the contract of pyRevolve"
RT_BUDGET = 15


def setup(I, conc=False):
    w = World(I)
    if not conc:
        I.stubs["collections"].ns["deque"] = Builtin("deque", lambda I2, ar, kw: SymSeq(I2) if not ar and not kw else (_ for _ in ()).throw(Unsupported("deque arguments")))
    state, pert = w.state("state", I.fresh("s0")), w.state("pert", I.fresh("p0"))
    crit = stub_class(I, "Criterion", I.get(PKG + ".termination_criterion:TerminationCriterion"),
                      {"is_iteration_finished": lambda I2, ar, kw: w.finished([argmap(I2, ["self", "it", "st"], ar, {})[x] for x in ("it", "st")] if not kw else list(ar[1:]) + list(kw.values()), {})})
    tc = I.register(Obj(crit, {}, "criterion"))
    kw = dict(termination_criterion=tc, run_step_func=Builtin("run_step", lambda I2, ar, k: w.step(list(ar) + list(k.values()), {})),
              run_step_jacvec_rev_func=Builtin("run_step_rev", lambda I2, ar, k: w.revstep(list(ar) + list(k.values()), {})), state=state, state_perturbation=pert)
    return w, state, pert, kw


def call(I, o, meth, args, what):
    try:
        return I.call(I.getattr(o, meth), args, {})
    except PyExc as ex:
        truth(I, f"{what} does not raise", False, f"{ex.obj.cls.name} {ex.obj.attrs.get('args')}")
        raise PathEnd()


def fwd(I, w, ck, state, first, own):
    """one forward iteration from a given initial state (possibly the checkpointer's own state object)"""
    w.pos, w.rev, w.mode = ZERO, ZERO, "forward"
    if own:
        init = state
        state.attrs["v"].write(lambda ix: Traj(ZERO))
    else:
        init = w.state("init", Traj(ZERO))
    call(I, ck, "create_checkpointer", [], "create_checkpointer")
    if not I.unroll:
        symbolic_lists(I, ck)
    res = call(I, ck, "iterate_forward", [init], "iterate_forward")
    I.oblige("the forward iteration ends when the criterion holds", goal=Done(w.pos))
    I.oblige("the forward iteration returns the last state", eqs=(w.val(res, "result of iterate_forward"), Traj(w.pos)))
    if not own:
        I.oblige("frame: the initial state is not modified", eqs=(w.val(init, "initial state"), Traj(ZERO)))
    return w.pos


def rev(I, w, ck, pert, own):
    w.mode = "reverse"
    w.total = w.pos
    if own:
        p = pert
        pert.attrs["v"].write(lambda ix: Adj(ZERO))
    else:
        p = w.state("seed", Adj(ZERO))
    res = call(I, ck, "iterate_reverse", [p], "iterate_reverse")
    I.oblige("every step is reversed", eqs=(w.rev, w.total))
    I.oblige("the reverse iteration returns the last adjoint", eqs=(w.val(res, "result of iterate_reverse"), Adj(w.total)))
    if not own:
        I.oblige("frame: the final adjoint is not modified", eqs=(w.val(p, "seed"), Adj(ZERO)))


def run_simple(which, reverse, conc=None):
    def run(I):
        w, state, pert, kw = setup(I, conc is not None)
        ck = I.call(I.get(f"{CI}.{'all' if which == 'All' else 'no'}_checkpointer:{which}Checkpointer"), [], kw)
        if conc is None:
            symbolic_lists(I, ck)
        if conc is not None:
            # bounded: the criterion holds after `conc` steps; two complete rounds and an unfinished one before
            for k in range(conc):
                I.assume(not_(Done(k)))
            I.assume(Done(conc))
        else:
            I.loop_specs.append(StepLoop(w, [state], [pert]))
        rounds = 1
        if conc is None:
            # arbitrary history: any number of left-over checkpoints
            for o in list(I.heap):
                if isinstance(o, SymSeq):
                    o.n, o.fn = I.fresh("old_n", "I"), (lambda j: app("Old", [j]))
                    I.assume(le(ZERO, o.n))
        else:
            rounds = 2
        for r in range(rounds):
            junk = I.fresh("junk")
            state.attrs["v"].write(lambda ix: junk)
            own = I.choose(2, "own state") == 0
            fwd(I, w, ck, state, r == 0, own)
            if reverse and (conc is None or r == 1 or I.choose(2, "reverse") == 0):
                rev(I, w, ck, pert, I.choose(2, "own seed") == 0)
    return run


class Revolver(Native):
    """assumed contract of pyrevolve's revolvers"""

    def __init__(self, I, name, ar, kw, w, conc):
        self.I, self.w, self.conc = I, w, conc
        I.register(self)
        g = dict(kw)
        truth(I, f"{name} gets its arguments by keyword", not ar)
        for k in ("checkpoint", "fwd_operator", "rev_operator", "n_timesteps"):
            if k not in g:
                truth(I, f"{name} gets {k}", False)
                raise PathEnd()
        self.cp, self.f, self.r, self.T = g["checkpoint"], g["fwd_operator"], g["rev_operator"], lift(g["n_timesteps"])
        I.oblige("the revolver has at least one step", goal=le(ONE, self.T))
        if name in ("SingleLevelRevolver", "MemoryRevolver", "DiskRevolver"):
            truth(I, "the revolver gets n_checkpoints", "n_checkpoints" in g)
            if g.get("n_checkpoints") is None:
                I.oblige("default number of checkpoints needs two steps", goal=le(lift(2), self.T))
        self.user = {k: v for k, v in g.items() if k not in ("checkpoint", "fwd_operator", "rev_operator", "n_timesteps")}
        I.last_revolver = self

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_getattr(self, I, name):
        if name in ("apply_forward", "apply_reverse"):
            return Builtin("revolver." + name, lambda I2, ar, kw: getattr(self, name)())
        raise Unsupported("revolver." + name)

    def op(self, o, a, b):
        self.I.call(self.I.getattr(o, "apply"), [], dict(t_start=a, t_end=b))

    def getdata(self, t):
        I = self.I
        d = I.call(I.getattr(self.cp, "get_data"), [t], {})
        if not isinstance(d, list) or len(d) != 1:
            truth(I, "a checkpoint holds the state", False, repr(d))
            raise PathEnd()
        I.oblige("a checkpoint holds the state of its time", eqs=(d[0].get((ZERO,)), Traj(add(t, ONE))))
        return content(d[0])

    def workspace(self):
        return self.I.getattr(self.f, "time_integration_state")

    def apply_forward(self):
        I, w = self.I, self.w
        I.oblige("pyrevolve starts from the state of the first step", eqs=(w.val(self.workspace(), "work space"), Traj(ONE)))
        if self.conc:
            a = 0
            T = int(T_(self.T))
            while a < T:
                b = a + 1 + I.choose(T - a)
                self.getdata(lift(a))
                self.op(self.f, a, b)
                a = b
            return None
        a = I.fresh("a", "I")
        I.assume(le(ZERO, a), le(a, self.T))
        self.workspace().attrs["v"].write(lambda ix: Traj(add(a, ONE)))
        w.pos = add(a, ONE)
        if I.choose(2, "more"):
            b = I.fresh("b", "I")
            I.assume(lt(a, b), le(b, self.T))
            self.getdata(a)
            self.op(self.f, a, b)
            I.oblige("fwd_operator.apply advances to t_end", eqs=(w.val(self.workspace(), "work space"), Traj(add(b, ONE))))
            I.oblige("fwd_operator.apply makes t_end-t_start steps", eqs=(w.pos, add(b, ONE)))
            self.getdata(b)
            raise PathEnd()
        I.assume(eq(a, self.T))
        self.workspace().attrs["v"].write(lambda ix: Traj(add(self.T, ONE)))
        w.pos = add(self.T, ONE)
        return None

    def restore_at(self, i):
        I = self.I
        loc = I.call(I.getattr(self.cp, "get_data_location"), [i], {})
        if not isinstance(loc, list) or len(loc) != 1:
            truth(I, "a checkpoint location is the state", False, repr(loc))
            raise PathEnd()
        loc[0].write(lambda ix: Traj(add(lift(i), ONE)))
        self.w.pos = add(lift(i), ONE)
        self.w.mode = "recompute"

    def pertv(self):
        return self.I.getattr(self.r, "time_integration_state_perturbations")

    def apply_reverse(self):
        I, w = self.I, self.w
        I.oblige("pyrevolve reverses from the given adjoint", eqs=(w.val(self.pertv(), "adjoint"), Adj(ZERO)))
        if self.conc:
            T = int(T_(self.T))
            for j in range(T - 1, -1, -1):
                if j < T - 1 or I.choose(2):
                    i = I.choose(j + 1)
                    self.restore_at(lift(i))
                    if i < j and I.choose(2):
                        self.op(self.f, i, j)
                        self.op(self.f, j, j + 1)
                    else:
                        self.op(self.f, i, j + 1)
                w.mode = "reverse"
                self.op(self.r, j, j + 1)
            return None
        j = I.fresh("j", "I")
        if I.choose(2, "more"):
            I.assume(le(ZERO, j), lt(j, self.T))
            self.pertv().attrs["v"].write(lambda ix: Adj(sub(sub(self.T, ONE), j)))
            w.rev = sub(sub(self.T, ONE), j)
            if I.choose(2, "restore"):
                i = I.fresh("i", "I")
                I.assume(le(ZERO, i), le(i, j))
                self.restore_at(i)
                a = I.fresh("a", "I")
                I.assume(le(i, a), le(a, j))
                self.workspace().attrs["v"].write(lambda ix: Traj(add(a, ONE)))
                w.pos = add(a, ONE)
                self.op(self.f, a, add(j, ONE))
                I.oblige("recomputation reaches the state of the step", eqs=(w.val(self.workspace(), "work space"), Traj(add(j, lift(2)))))
                b = I.fresh("b", "I")
            else:
                I.assume(eq(j, sub(self.T, ONE)))
            w.mode = "reverse"
            self.op(self.r, j, add(j, ONE))
            I.oblige("rev_operator.apply makes one step", eqs=(w.rev, sub(self.T, j)))
            I.oblige("rev_operator.apply continues the chain", eqs=(w.val(self.pertv(), "adjoint"), Adj(sub(self.T, j))))
            raise PathEnd()
        junk = I.fresh("junk")
        self.workspace().attrs["v"].write(lambda ix: junk)
        self.pertv().attrs["v"].write(lambda ix: Adj(self.T))
        w.rev = self.T
        return None


def T_(t):
    if not T.is_const(t):
        raise Unsupported("symbolic number of steps")
    return T.cval(t)


def run_pyrevolve(rtype, opts, conc=None, reverse=True):
    def run(I):
        w, state, pert, kw = setup(I, conc is not None)
        N = lift(conc) if conc is not None else var("N", "I")
        if conc is None:
            I.assume(le(ONE, N))
        v = var(fresh_name(), "I")
        crit = I.get(PKG + ".termination_criterion:PredefinedNumberOfSteps")
        kw["termination_criterion"] = I.call(crit, [], dict(number_of_steps=conc if conc is not None else N))
        for nm in ("SingleLevelRevolver", "MemoryRevolver", "DiskRevolver", "BaseRevolver", "MultiLevelRevolver"):
            I.stubs["pyrevolve"].ns[nm] = Builtin(nm, lambda I2, ar, k, nm=nm: Revolver(I2, nm, ar, k, w, conc is not None))
        user = I.register(dict(opts)) if opts is not None else None
        if rtype is not None:
            kw["revolver_type"] = rtype
        if user is not None:
            kw["revolver_options"] = user
        w.done_at = N
        if conc is None:
            I.loop_specs.append(StepLoop(w, [state], [pert]))
        try:
            ck = I.call(I.get(CI + ".pyrevolve_checkpointer:PyrevolveCheckpointer"), [], kw)
        except PyExc as ex:
            truth(I, "the constructor does not raise", False, f"{ex.obj.cls.name} {ex.obj.attrs.get('args')}")
            return
        for r in range(2):
            junk = I.fresh("junk")
            state.attrs["v"].write(lambda ix: junk)
            w.pos, w.rev, w.mode, w.total = ZERO, ZERO, "forward", None
            own = I.choose(2, "own state") == 0
            init = state if own else w.state("init", Traj(ZERO))
            init.attrs["v"].write(lambda ix: Traj(ZERO))
            I.last_revolver = None
            call(I, ck, "create_checkpointer", [], "create_checkpointer")
            res = call(I, ck, "iterate_forward", [init], "iterate_forward")
            if I.branch(le(lift(2), N)):
                truth(I, "every run gets a revolver of its own", I.last_revolver is not None)
                if I.last_revolver is None:
                    return
                I.oblige("the revolver handles all steps but the first", eqs=(I.last_revolver.T, sub(N, ONE)))
                for k, x in (opts or {}).items():
                    truth(I, "the options of the user reach the revolver", k in I.last_revolver.user and I.last_revolver.user[k] == x, k)
            I.oblige("the forward iteration makes N steps", eqs=(w.pos, N))
            I.oblige("the forward iteration returns the last state", eqs=(w.val(res, "result of iterate_forward"), Traj(N)))
            if not reverse or (r == 0 and I.choose(2, "skip reverse")):
                continue
            rev(I, w, ck, pert, I.choose(2, "own seed") == 0)
            if r == 0 and conc is None:
                break
        if user is not None:
            truth(I, "the options of the user are not modified", user == dict(opts), repr(user))
    return run


def fresh_name():
    return "N_"


class _PW(World):
    pass


_step = World.step


def step(self, ar, kw):
    if getattr(self, "done_at", None) is not None and self.mode == "forward":
        # with a step-count criterion: not more than N steps
        self.I.oblige("not more steps than prescribed", goal=lt(self.pos, self.done_at))
        m, self.mode = self.mode, "recompute"
        try:
            return _step(self, ar, kw)
        finally:
            self.mode = m
    return _step(self, ar, kw)


World.step = step


def units(tier):
    u = [("NoCheckpointer", run_simple("No", False), {}, {}), ("AllCheckpointer", run_simple("All", True), {}, {})]
    for rt, op in ((None, None), ("Memory", {"n_checkpoints": 3}), ("Disk", None), ("SingleLevel", {"n_checkpoints": 2, "filedir": "x"})):
        u.append((f"Pyrevolve {rt} {op}", run_pyrevolve(rt, op), {}, {"max_paths": 3000}))
    return u


def bounded(tier, ints=()):
    u = []
    for n in (0, 1, 2, 3):
        u += [(f"NoCheckpointer N={n}", run_simple("No", False, n), {}, {"unroll": 6}), (f"AllCheckpointer N={n}", run_simple("All", True, n), {}, {"unroll": 6})]
    for rt, op in ((None, None), ("Memory", {"n_checkpoints": 3}), ("Disk", None), ("SingleLevel", {"n_checkpoints": 2})):
        for n in (1, 2, 3):
            u.append((f"Pyrevolve {rt} {op} N={n}", run_pyrevolve(rt, op, n), {}, {"unroll": 6, "max_paths": 500}))
    return u
