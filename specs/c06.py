"""C06: integrator derivatives belong to the current inputs in both modes."""
from .traj import *

FILES = ["rkopenmdao/runge_kutta_integrator.py", "rkopenmdao/time_integration_state.py"]
FUNCS = ["RungeKuttaIntegrator." + f for f in ("compute", "compute_jacvec_product", "_compute_preparation_phase", "_compute_jacvec_product_fwd", "_compute_jacvec_fwd_preparation_phase",
         "_compute_jacvec_fwd_run_steps", "_run_step_jacvec_fwd", "_compute_jacvec_product_rev", "_compute_jacvec_rev_preparation_phase", "_run_step_jacvec_rev",
         "_reset_error_control", "_to_numpy_array_time_integration", "_to_numpy_array_independent_inputs", "_from_numpy_array_time_integration", "_from_numpy_array_independent_input", "setup")]
ASSUMPTIONS = ["contracts of the step functions (C01-C03), of the adaptive step iteration (C07) and of the checkpointers (C05)",
               "an ordinary evaluation either completes or raises; OpenMDAO passes vectors with the component's own variables",
               "two integrated quantities and two independent inputs of arbitrary size"]
RT_NOTE = "random histories of primal, forward and reverse evaluations on the real integrator against an independent reference"
LEVEL = "one request from any reachable state proved for arbitrary sizes (two quantities, two independent inputs); histories of up to three requests"


def local(I, ix, off, t):
    return [add(off, ix[0])]


class D(Traj):
    """histories; the checkpointer runs the forward iteration as a whole"""

    def __init__(self, I, simple=False, **kw):
        self.simple = simple
        kw.setdefault("nq", 2)
        kw.setdefault("np_", 2)
        self.stored = None       # inputs of the stored forward run, None: no usable one
        self.inputs_now = None
        self.runs = 0
        self.revs = 0
        self.fail = None
        super().__init__(I, **kw)

    def vec(self, name, what="in"):
        v = self.in_vec(name) if what == "in" else self.out_vec(name)
        return v

    def key(self, v):
        """inputs of a request as functions on the flat arrays"""
        def cat(items, suf):
            cs = [(off, t, content(v.v[n + suf])) for n, off, t in items]

            def f(ix):
                r = ZERO
                for off, t, c in reversed(cs):
                    r = ite(lt(ix[0], add(off, t)), c((sub(ix[0], off),)), r) if r is not ZERO else c((sub(ix[0], off),))
                return r
            return f
        suf = "_initial" if v.kind == "input" else "_final"
        d = {"final_state": cat(self.qs, suf)}
        tt = content(v.v["time" + suf])
        d["final_time"] = lambda ix: tt((ZERO,))
        if v.kind == "input":
            d["independent_inputs"] = cat(self.ps, "")
        return d

    def cp_create(self):
        self.created = True

    def cp_forward(self, state):
        I = self.I
        truth(I, "old checkpoints are discarded first", getattr(self, "created", False))
        self.created = False
        self.stored = None
        self.own = [self.cp.attrs["state"]]
        want = {("d", f): fn for f, fn in self.key(self.inputs_now).items()}
        want[("t", "step_size_suggestion")] = lambda ix: self.h0
        want[("t", "step_size_history")] = lambda ix: ZERO
        want[("t", "error_history")] = lambda ix: self.tol
        self.check_state("the forward run starts from the current inputs", state, want)
        self.runs += 1
        if self.fail == "forward":
            I.raise_("RuntimeError", "the evaluation fails")
        self.stored = self.key(self.inputs_now)
        res = state
        if not self.simple and I.choose(2, "in place") == 1:
            # the checkpointer works on the states it was given and returns its own
            res = self.cp.attrs["state"]
        self.final = {}
        for kf in self.fields():
            a = self.get(res, kf)
            fn = lambda ix, f=kf[1], r=self.runs: app(f"Fin{r}_" + f, list(ix))
            a.write(fn)
            self.final[kf] = fn
        self.kept = self.snap(self.cp.attrs["state"])
        return res

    def cp_reverse(self, pert):
        I = self.I
        if self.stored is None:
            truth(I, "the reverse run has a forward run to reverse", False)
            raise PathEnd()
        cur = self.key(self.inputs_now)
        for f, dim in (("final_state", self.n), ("independent_inputs", self.q), ("final_time", ONE)):
            self.same_fn(f"the reversed run belongs to the current inputs: {f}", self.stored[f], cur[f], dim)
        if getattr(self, "kept", None):
            st = self.cp.attrs["state"]
            for kf in self.fields():
                same_array(I, f"the state of the checkpointer is as the forward run left it: {kf[1]}", self.get(st, kf), self.kept[kf])
        seeds = self.key(self.seeds_now)
        want = {("d", f): fn for f, fn in seeds.items()}
        want[("d", "independent_inputs")] = lambda ix: ZERO
        self.check_state("the reverse run starts from the given seeds", pert, want, hist=0)
        self.stored = None
        self.kept = None
        self.revs += 1
        if self.fail == "reverse":
            I.raise_("RuntimeError", "the evaluation fails")
        res = pert
        if not self.simple and I.choose(2, "in place rev") == 1:
            res = self.cp.attrs["state_perturbation"]
            if res is not pert:
                for f in STATE_FIELDS + (EMB_FIELDS if self.embedded else []):
                    havoc(I.getattr(I.getattr(pert, "discretization_state"), f), I.fresh_name("junk_" + f))
        self.grad = {}
        for kf in self.fields():
            if kf[0] == "d":
                fn = lambda ix, f=kf[1], r=self.revs: app(f"Grad{r}_" + f, list(ix))
                self.get(res, kf).write(fn)
                self.grad[kf[1]] = fn
        return res

    def same_fn(self, nm, a, b, dim):
        I = self.I
        x = arr(I, "lhs", (dim,), fn=a)
        same_array(I, nm, x, b, (dim,))

    # ---------------------------------------------------------------- requests
    def primal(self, x, out):
        I = self.I
        self.inputs_now = x
        n0 = self.runs
        I.call(I.getattr(self.rk, "compute"), [x, out], {})
        truth(I, "one forward run per evaluation", self.runs == n0 + 1)
        for n, off, t in self.qs:
            same_array(I, f"the final state is delivered: {n}", out.v[n + "_final"], lambda ix, off=off: self.final[("d", "final_state")]([add(off, ix[0])]))
        I.oblige("the final time is delivered", eqs=(out.v["time_final"].get((ZERO,)), self.final[("d", "final_time")]((ZERO,))))

    def unchanged(self, what, v, before):
        for nm, a in v.v.items():
            same_array(self.I, f"frame: {what} {nm}", a, before[nm])

    def contents(self, v):
        return {nm: content(a) for nm, a in v.v.items()}

    def reverse(self, x, dx, dout):
        I = self.I
        self.inputs_now, self.seeds_now = x, dout
        r0, before, bo, bx = self.revs, self.contents(dx), self.contents(dout), self.contents(x)
        I.call(I.getattr(self.rk, "compute_jacvec_product"), [x, dx, dout, "rev"], {})
        truth(I, "one reverse run per request", self.revs == r0 + 1)
        if self.revs != r0 + 1:
            raise PathEnd()
        for n, off, t in self.qs:
            same_array(I, f"the derivative is delivered: {n}", dx.v[n + "_initial"], lambda ix, off=off: self.grad["final_state"]([add(off, ix[0])]))
        for n, off, t in self.ps:
            same_array(I, f"the derivative is delivered: {n}", dx.v[n], lambda ix, off=off: self.grad["independent_inputs"]([add(off, ix[0])]))
        I.oblige("the derivative is delivered: time", eqs=(dx.v["time_initial"].get((ZERO,)), self.grad["final_time"]((ZERO,))))
        self.unchanged("seeds", dout, bo)
        self.unchanged("inputs", x, bx)

    def forward(self, named=True):
        """a forward product; the trajectory of these inputs is X(0), X(1), ..."""
        I, g = self.I, self.g
        x, dx, do = self.run_inputs(), self.run_dinputs(), self.out_vec("jv" + str(self.runs), 0)
        self.begin("fwd")
        before, bd = self.contents(x), self.contents(dx)
        I.call(I.getattr(self.rk, "compute_jacvec_product"), [x, dx, do, "fwd"], {})
        I.oblige("the forward product runs until the criterion holds", goal=Done(g.pos))
        I.oblige("every step has its derivative step", eqs=(g.dpos, g.pos))
        for n, off, t in self.qs:
            same_array(I, f"the product is delivered: {n}", do.v[n + "_final"], lambda ix, off=off: DX("final_state", g.pos, [add(off, ix[0])]))
        I.oblige("the product is delivered: time", eqs=(do.v["time_final"].get((ZERO,)), DX("final_time", g.pos, (ZERO,))))
        self.unchanged("inputs", x, before)
        self.unchanged("tangent", dx, bd)


def guard(I, f, *a):
    try:
        return f(*a)
    except PyExc as ex:
        truth(I, "the evaluation does not raise", False, f"{ex.obj.cls.name}{ex.obj.attrs.get('args')}")
        raise PathEnd()


def arbitrary(H):
    """arbitrary left-overs in the integrator's states"""
    I = H.I
    H.havoc(H.cp.attrs["state"], "left_")
    H.havoc(H.cp.attrs["state_perturbation"], "leftp_")


def cached(H):
    """the invariant of the cache: None, or the inputs of the stored forward run"""
    I = H.I
    if "_cached_input" not in H.rk.attrs:
        raise Unsupported("the integrator has no _cached_input")
    return H.rk.attrs["_cached_input"]


def inv_check(H, what):
    I = H.I
    c = cached(H)
    if c is None:
        truth(I, f"{what}: cache empty", True)
        return
    if H.stored is None:
        truth(I, f"{what}: inputs are only cached with a stored forward run", False)
        return
    for f, dim in (("final_state", H.n), ("independent_inputs", H.q), ("final_time", ONE)):
        same_array(I, f"{what}: cached inputs are those of the stored forward run: {f}", I.getattr(c, f), H.stored[f], (dim,))
    st = H.cp.attrs["state"]
    for kf in H.fields():
        same_array(I, f"{what}: the state of the checkpointer is as the forward run left it: {kf[1]}", H.get(st, kf), H.kept[kf])


def inv_assume(H):
    I = H.I
    arbitrary(H)
    if I.choose(2, "cached"):
        H.rk.attrs["_cached_input"] = None
        return
    c = H.new_state("cache_")[0]
    c = I.getattr(c, "discretization_state")
    H.rk.attrs["_cached_input"] = c
    H.stored = {f: content(I.getattr(c, f)) for f in KEY}
    H.kept = H.snap(H.cp.attrs["state"])


def run_ind(op, adaptive, embedded, rank, fail=None):
    def run(I):
        H = D(I, adaptive=adaptive, embedded=embedded, rank=rank)
        cached(H)
        inv_check(H, "after setup")
        inv_assume(H)
        H.fail = fail
        if op == "primal":
            body = lambda: H.primal(H.in_vec("cur"), H.out_vec("out"))
        elif op == "rev":
            body = lambda: H.reverse(H.in_vec("cur"), H.in_vec("grad", 0), H.out_vec("seed"))
        else:
            I.loop_specs.append(StepsLoop(H))
            H.install_retry()
            body = lambda: H.forward()
        if fail:
            try:
                body()
            except PyExc as ex:
                pass
        else:
            guard(I, body)
        inv_check(H, "afterwards")
    return run


def run_revstep(embedded, rank):
    """the reverse step handed to the checkpointer"""
    def run(I):
        H = D(I, adaptive=embedded, embedded=embedded, rank=rank)
        tis, _ = H.new_state("S_")
        p = H.cp.attrs["state_perturbation"]
        if I.choose(2, "own"):
            p = I.call(I.get("copy:deepcopy"), [p], {})
        for kf in H.fields():
            if kf[0] == "d":
                havoc(H.get(p, kf), "P_" + kf[1])
        sb, pb = H.snap(tis), {kf: content(H.get(p, kf)) for kf in H.fields() if kf[0] == "d"}
        del H.log[:]
        H.compute_step_adjoint_derivative = lambda ar, kw: Harness.compute_step_adjoint_derivative(H, ar, kw)
        ret = guard(I, lambda: I.call(H.cp.attrs["run_step_jacvec_rev_func"], [var("step", "I"), tis, p], {}))
        truth(I, "one adjoint step per reverse step", [x[0] for x in H.log] == ["adjoint"], str([x[0] for x in H.log]))
        h = sb[("t", "step_size_history")]((ZERO,))
        want = H.adj_spec(sb, pb, h)
        only = ["final_state", "final_time", "independent_inputs"]
        for nm, x in (("state", p), ("returned state", ret)):
            H.check_state(f"{nm} after a reverse step", x, want, hist=0, only=only)
        H.check_state("frame: state of the step", tis, sb)
    return run


OPS = [("primal", None), ("rev", None), ("fwd", None), ("primal", "forward"), ("rev", "forward"), ("rev", "reverse")]


def units(tier):
    us = []
    for op, fail in OPS:
        for ad, emb, rank in ((False, False, 0), (True, True, 1)):
            us.append((f"{op}{', failing ' + fail if fail else ''}, {'adaptive' if ad else 'fixed'}", run_ind(op, ad, emb, rank, fail), {}, {}))
    us += [("reverse step", run_revstep(False, 0), {}, {}), ("reverse step, embedded", run_revstep(True, 1), {}, {})]
    return us


def run_hist(ops, adaptive, rank):
    """concrete histories; everything through the public interface"""
    def run(I):
        H = D(I, adaptive=adaptive, embedded=adaptive, rank=rank, simple=len(ops) > 1)
        H.max_rej = 1
        if len(ops) > 1:
            I.assume(eq(H.comm.others, ZERO))
        vecs = [H.in_vec(f"in{k}") for k in range(2)]
        for k, op in enumerate(ops):
            op, _, fail = op.partition("!")
            H.fail = fail or None
            which = vecs[I.choose(2, "inputs")] if op != "fwd" and k else vecs[0]
            if op == "primal":
                f = lambda: H.primal(which, H.out_vec(f"out{k}"))
            elif op == "rev":
                f = lambda: H.reverse(which, H.in_vec(f"grad{k}", 0), H.out_vec(f"seed{k}"))
            else:
                f = lambda: H.forward()
            if fail:
                try:
                    f()
                except PyExc:
                    pass
            else:
                guard(I, f)
    return run


HISTS = [("primal", "rev"), ("rev", "rev"), ("primal", "rev", "rev"), ("primal", "primal", "rev"), ("primal", "rev!reverse", "rev"), ("primal", "primal!forward", "rev")]
HISTF = [("primal", "fwd", "rev"), ("fwd", "rev"), ("rev", "fwd"), ("fwd", "fwd")]


def always(tier):
    hs = [("primal", "rev"), ("rev", "rev"), ("fwd", "rev"), ("rev", "fwd")] + (HISTS + HISTF if tier != "quick" else [])
    us = [(" ".join(h), run_hist(h, False, 0), {}, {"unroll": 2, "max_paths": 3000}) for h in dict.fromkeys(hs)]
    us.append(("fwd adaptive", run_hist(("fwd",), True, 0), {}, {"unroll": 2, "max_paths": 3000}))
    return us


def bounded(tier, ints=()):
    us = [("reverse step", run_revstep(False, 0), {}, {}), ("reverse step, embedded", run_revstep(True, 1), {}, {}),
          ("primal", run_hist(("primal",), True, 0), {}, {}), ("rev", run_hist(("rev",), True, 1), {}, {})]
    if tier == "quick":
        us += [(" ".join(h), run_hist(h, False, 0), {}, {"unroll": 2, "max_paths": 3000}) for h in HISTS[2:] + HISTF[:1] + HISTF[3:]]
    return us
