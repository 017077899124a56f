"""C12: the OpenMDAO wrapper moves each value to its variable and back unchanged."""
from .omode import *

FILES = ["rkopenmdao/discretized_ode/openmdao_ode.py", "rkopenmdao/om_data_exchange.py", "rkopenmdao/discretized_ode/discretized_ode.py"]
FUNCS = ["OpenMDAOODE." + f for f in ("__init__", "compute_update", "compute_update_derivative", "compute_update_adjoint_derivative", "get_state_size",
         "get_independent_input_size", "get_linearization_point_size", "_get_linearization_point", "_set_linearization_point", "_input_state_to_om_vector",
         "_output_state_to_om_vector", "_om_vector_to_input_state", "_om_vector_to_output_state")]
ASSUMPTIONS = ["contract of OpenMDAO: get_*_vectors return the live vectors, asarray() the live data; the named sources are disjoint parts of the vector",
               "the sources of different tagged inputs are different variables",
               "run_solve_nonlinear / run_linearize / run_solve_linear depend on (and change) nothing but vectors and data exchange; rev is the transpose of fwd for the same linearisation",
               "layout of the quantities as in C11 (local slices partition the state and parameter vectors)"]
RT_NOTE = "real OpenMDAO problems: values seen by the components, linearization points, derivatives against exact ones, transposes, poisoned vectors"
LEVEL = "proved for any number of quantities and sizes; every history of two calls and the constructor for up to two quantities"


class Solve(Wrapper):
    def __init__(self, I, Q=None, Pn=None, **kw):
        self.want = {}
        super().__init__(I, Q, Pn, **kw)
        I.owners.append(self.owner)
        I.index_facts.append(self.facts_at)
        truth(I, "setup: quantities are extracted from this problem", [(c, [x for x in a]) for c, a in self.asked] == [("q", [self.problem, self.qn]), ("p", [self.problem, self.pn, self.meta]), ("d", [self.problem, self.meta])] or
              [c for c, _ in self.asked] == ["q", "p", "d"], repr(self.asked))
        self.exchange = self.unsteady[0].attrs["om_data_exchange"]
        truth(I, "setup: all unsteady components share one data exchange", self.exchange is not None and all(u.attrs["om_data_exchange"] is self.exchange for u in self.unsteady))
        self.gen = 0

    # ghost owner of a state / parameter index
    def own(self, w, j):
        return app("own_" + w, [j], "I")

    def owner(self, buf, rng):
        for w, l, n in (("u", self.qlist, self.n), ("p", self.plist, self.q)):
            if getattr(rng, "list", None) is l and len(buf.shape) == 1 and buf.shape[0] is n:
                return lambda ix, w=w: self.own(w, ix[0])
        return None

    def own_facts(self, w, j, k=None):
        K = self.Q if w == "u" else self.Pn
        o = self.own(w, j)
        fs = [le(ZERO, o), lt(o, K), le(self.st(w, o), j), lt(j, self.en(w, o)), self.local(w, o)]
        if k is not None:
            inside = and_(le(self.st(w, k), j), lt(j, self.en(w, k)))
            fs += [T.or_(not_(inside), eq(o, k)), T.or_(inside, not_(eq(o, k)))]
        return fs

    def facts_at(self, b, vs, k):
        fs = []
        if len(vs) == 1:
            for w, n in (("u", self.n), ("p", self.q)):
                if b.shape[0] is n:
                    fs += self.own_facts(w, vs[0], sub(k, ONE) if k is not ZERO else None)
        elif len(vs) == 2:
            for w, K in (("u", self.Q), ("p", self.Pn)):
                if b.shape[0] is K:
                    fs += self.layout(w, vs[0])
        return fs

    # ---------------------------------------------------------------- checks of vectors
    def check(self, what, vec, spec, base):
        """spec: role -> fn(k, i); base: fn(j) of the untouched data"""
        I = self.I
        saved = I.facts
        j = I.fresh("j", "I")
        I.assume(le(ZERO, j), lt(j, vec.size))
        I.oblige(f"{what}: everything else as required", eqs=(vec.base(j), base(j)))
        I.facts = saved
        for r in self.roles:
            if r == "time" and not self.time:
                continue
            K = self.roles[r]
            ks = [I.fresh("k", "I")] if not T.is_const(K) else [lift(q) for q in range(int(T.cval(K)))]
            for k in ks:
                i = I.fresh("i", "I")
                I.assume(le(ZERO, k), lt(k, K), le(ZERO, i), lt(i, self.length(r, k)))
                if r != "time":
                    I.assume(*self.layout("p" if r == "ind" else "u", k))
                I.oblige(f"{what}: {dict(time='time', old='old state', acc='accumulated stages', out='stage output', ind='independent input')[r]}", eqs=(vec.roles[r].read((k, i)), spec(r, k, i)))
                I.facts = saved

    def solve_point(self, what):
        I = self.I
        ex = self.exchange
        for a, w in (("step_size", self.h), ("stage_factor", self.a)):
            v = ex.attrs.get(a)
            I.oblige(f"{what}: {a.replace('_', ' ')}", eqs=(num(I, v) if v is not None else var("unset"), w))

    def fresh_vec(self, vec, nm):
        self.gen += 1
        g = f"{nm}{self.gen}"
        vec.reset(lambda j: app(g, [j]))
        return g

    # ---------------------------------------------------------------- model
    def run_solve_nonlinear(self, ar, kw):
        self.log.append("solve")
        self.solve_point("at the solve")
        f = self.want["nonlinear"]
        f()
        self.out1 = self.fresh_vec(self.vec["outputs"], "out_solved")
        self.in1 = self.fresh_vec(self.vec["inputs"], "in_solved")
        self.fresh_vec(self.vec["residuals"], "res_solved")

    def run_linearize(self, ar, kw):
        self.log.append("linearize")
        self.solve_point("at the linearisation")
        I = self.I
        for nm, off, size in (("inputs", ZERO, self.NI), ("outputs", self.NI, self.NO)):
            v = self.vec[nm]
            saved = I.facts
            j = I.fresh("j", "I")
            I.assume(le(ZERO, j), lt(j, size))
            f = v.flat()
            I.oblige(f"linearised at the given point ({nm})", eqs=(f(j), app(self.lpname, [add(off, j)])))
            I.facts = saved

    def run_solve_linear(self, ar, kw):
        I = self.I
        kw = dict(kw)
        mode = ar[0] if ar else kw.pop("mode", None)
        if self.linear_args == 1:
            truth(I, "linear solve is called with the mode only", len(ar) <= 1 and not kw, repr((ar, kw)))
        else:
            truth(I, "linear solve gets the vector names", (kw.get("vec_name") or kw.get("vec_names") or (ar + [None, None])[1]) == ["linear"], repr((ar, kw)))
        truth(I, "linearised before the linear solve", self.log[-1:] == ["linearize"], repr(self.log))
        self.solve_point("at the linear solve")
        self.log.append(mode)
        self.want["linear"](mode)
        self.dout1 = self.fresh_vec(self.vec["d_outputs" if mode == "fwd" else "d_residuals"], "lin_solved")

    # ---------------------------------------------------------------- data
    def state_value(self, x, r):
        """spec of the data written: value of role r at (k, i)"""
        t, xs, acc, p = x

        def f(k, i, old):
            if r == "time":
                return t
            if r == "ind":
                return ite(self.local("p", k), p((add(self.st("p", k), i),)), old)
            src = {"old": xs, "acc": acc}.get(r)
            if src is None:
                return old
            return ite(and_(self.local("u", k), self.hasold(k)), src((add(self.st("u", k), i),)), old)
        return f

    def read_back(self, what, a, size, w, roles_val):
        """array a equals the data at the owner of each index"""
        I = self.I
        if not isinstance(a, Arr) or len(a.shape) != 1:
            truth(I, f"{what} is a vector", False, repr(a))
            return
        I.oblige(f"{what}: size", eqs=(a.shape[0], size))
        saved = I.facts
        j = I.fresh("j", "I")
        I.assume(le(ZERO, j), lt(j, size))
        K = self.Q if w == "u" else self.Pn
        if T.is_const(K):
            for q in range(int(T.cval(K))):
                s2 = I.facts
                I.assume(le(self.st(w, lift(q)), j), lt(j, self.en(w, lift(q))))
                I.oblige(what, eqs=(a.get((j,)), roles_val(lift(q), sub(j, self.st(w, lift(q))))))
                I.facts = s2
        else:
            I.assume(*self.own_facts(w, j))
            o = self.own(w, j)
            I.assume(*self.layout(w, o))
            I.oblige(what, eqs=(a.get((j,)), roles_val(o, sub(j, self.st(w, o)))))
        I.facts = saved


def cover(S):
    """with a given number of quantities, C11's partition is stated explicitly"""
    I = S.I
    for w, K, n in (("u", S.Q, S.n), ("p", S.Pn, S.q)):
        if T.is_const(K):
            pos = ZERO
            for k in range(int(T.cval(K))):
                k = lift(k)
                loc = S.local(w, k)
                I.assume(T.or_(not_(loc), eq(S.st(w, k), pos)))
                I.assume(*S.layout(w, k))
                pos = ite(loc, S.en(w, k), pos)
            I.assume(eq(pos, n))


def make(I, Q, Pn, **kw):
    S = Solve(I, Q, Pn, **kw)
    cover(S)
    S.h, S.a = var("h"), var("a")
    return S


class Args:
    """argument state of an operation; used again (rewritten in place) by later operations of the same kind"""

    def __init__(self, S):
        self.S, self.have = S, {}

    def array(self, nm, size, tag):
        I = self.S.I
        if nm in self.have:
            self.have[nm].write(lambda ix, g=nm + tag: app(g, list(ix)))
        else:
            self.have[nm] = arr(I, nm + tag, (size,))
        return self.have[nm]

    def state(self, cls, kw, extra):
        I = self.S.I
        st = self.have.get("state:" + cls)
        if st is None:
            st = self.have["state:" + cls] = I.call(I.get(ODEM + ":" + cls), [], dict(kw, **extra))
        for n, v in extra.items():
            I.setattr(st, n, v)
        return st


def inp(S, tag, A, lp=False):
    x, acc, p = (A.array(nm, size, tag) for nm, size in (("x", S.n), ("acc", S.n), ("p", S.q)))
    t = var("t" + tag)
    kw = dict(step_input=x, stage_input=acc, independent_input=p)
    ex = dict(time=t)
    if lp:
        kw["linearization_point"] = A.array("LP", add(S.NI, S.NO), tag)
        S.lpname = "LP" + tag
    st = A.state("DiscretizedODEInputState", kw, ex) if not lp else A.state("DiscretizedODEInputState", kw, ex)
    if lp:
        S.I.setattr(st, "linearization_point", kw["linearization_point"])
    return st, (t, content(x), content(acc), content(p)), (x, acc, p)


def frames(S, arrs, tag):
    for nm, a in arrs.items():
        same_array(S.I, f"frame: {nm}", a, lambda ix, nm=nm: app(nm + tag, list(ix)), a.shape)


def op_update(S, tag, A, kwargs=False):
    I = S.I
    st, x, arrs = inp(S, tag, A)
    out0 = S.vec["outputs"].base
    fns = {r: b._fn for r, b in S.vec["outputs"].roles.items()}

    def want():
        S.check("before the solve", S.vec["outputs"], lambda r, k, i: S.state_value(x, r)(k, i, fns[r]((k, i))), out0)
        truth(I, "inputs are not touched", not S.vec["inputs"].touched())
    S.want["nonlinear"] = want
    del S.log[:]
    r = I.call(I.getattr(S.ode, "compute_update"), [st, S.h, S.a] if not kwargs else [], {} if not kwargs else dict(ode_input=st, step_size=S.h, stage_factor=S.a))
    truth(I, "exactly one nonlinear solve", S.log == ["solve"], repr(S.log))
    S.read_back("stage update is the stage output", I.getattr(r, "stage_update"), S.n, "u", lambda k, i: app(S.out1, [S.vec["outputs"].pos("out", k, i)]))
    same_array(I, "linearization point: all inputs, then all outputs", I.getattr(r, "linearization_point"),
               lambda ix: ite(lt(ix[0], S.NI), app(S.in1, [ix[0]]), app(S.out1, [sub(ix[0], S.NI)])), (add(S.NI, S.NO),))
    I.oblige("size of the stage state", eqs=(I.getattr(r, "stage_state").shape[0], S.n))
    I.oblige("no independent outputs", eqs=(I.getattr(r, "independent_output").shape[0], I.call(I.getattr(S.ode, "get_independent_output_size"), [], {})))
    frames(S, dict(x=arrs[0], acc=arrs[1], p=arrs[2]), tag)
    for nm, w in (("get_state_size", S.n), ("get_independent_input_size", S.q), ("get_linearization_point_size", add(S.NI, S.NO))):
        I.oblige(nm, eqs=(lift(I.call(I.getattr(S.ode, nm), [], {})), w))


def dirty(S, tag=""):
    """vectors may hold anything from earlier solves"""
    for v in S.vec.values():
        v.reset(lambda j, nm=v.name: app("dirty_" + nm + tag, [j]))


def op_fwd(S, tag, A):
    I = S.I
    st, x, arrs = inp(S, tag, A, True)

    def want(mode):
        truth(I, "forward solve", mode == "fwd", repr(mode))
        neg = lambda r: (lambda k, i: S.state_value(tuple([T.neg(x[0])] + [(lambda ix, f=f: T.neg(f(ix))) for f in x[1:]]), r)(k, i, ZERO))
        S.check("right-hand side", S.vec["d_residuals"], lambda r, k, i: neg(r)(k, i), lambda j: ZERO)
    S.want["linear"] = want
    del S.log[:]
    r = I.call(I.getattr(S.ode, "compute_update_derivative"), [st, S.h, S.a], {})
    truth(I, "linearise, then solve forward", S.log == ["linearize", "fwd"], repr(S.log))
    S.read_back("derivative of the stage update", I.getattr(r, "stage_update"), S.n, "u", lambda k, i: app(S.dout1, [S.vec["d_outputs"].pos("out", k, i)]))
    I.oblige("size of the stage state", eqs=(I.getattr(r, "stage_state").shape[0], S.n))
    frames(S, dict(x=arrs[0], acc=arrs[1], p=arrs[2], LP=I.getattr(st, "linearization_point")), tag)


def op_rev(S, tag, A):
    I = S.I
    w, ws = A.array("w", S.n, tag), A.array("ws", S.n, tag)
    wo = arr(I, "wo", (ZERO,))
    wf = content(w)
    lp = A.array("LP", add(S.NI, S.NO), tag)
    S.lpname = "LP" + tag
    st = A.state("DiscretizedODEResultState", dict(stage_update=w, stage_state=ws, independent_output=wo, linearization_point=lp), {})

    def want(mode):
        truth(I, "reverse solve", mode == "rev", repr(mode))
        S.check("right-hand side", S.vec["d_outputs"], lambda r, k, i: ite(S.local("u", k), T.neg(wf((add(S.st("u", k), i),))), ZERO) if r == "out" else ZERO, lambda j: ZERO)
    S.want["linear"] = want
    del S.log[:]
    r = I.call(I.getattr(S.ode, "compute_update_adjoint_derivative"), [st, S.h, S.a], {})
    truth(I, "linearise, then solve in reverse", S.log == ["linearize", "rev"], repr(S.log))
    val = lambda role: (lambda k, i: app(S.dout1, [S.vec["d_residuals"].pos(role, k, i)]))
    S.read_back("derivative with respect to the old state", I.getattr(r, "step_input"), S.n, "u", lambda k, i: ite(S.hasold(k), val("old")(k, i), ZERO))
    S.read_back("derivative with respect to the accumulated stages", I.getattr(r, "stage_input"), S.n, "u", lambda k, i: ite(S.hasold(k), val("acc")(k, i), ZERO))
    S.read_back("derivative with respect to the independent inputs", I.getattr(r, "independent_input"), S.q, "p", val("ind"))
    I.oblige("derivative with respect to time", eqs=(num(I, I.getattr(r, "time")), val("time")(ZERO, ZERO) if S.time else ZERO))
    frames(S, dict(w=w, ws=ws, LP=I.getattr(st, "linearization_point")), tag)


OPS = {"evaluation": op_update, "forward derivative": op_fwd, "adjoint derivative": op_rev}


def run_ops(Q, Pn, ops, time=True, args=1, reuse=False, kwargs=False):
    """a sequence of operations on arbitrary vectors; reuse: with the same argument objects, rewritten in place"""
    def run(I):
        S = make(I, Q, Pn, time=time, linear_args=args)
        A = Args(S)
        for n, op in enumerate(ops):
            tag = "" if n == 0 else f"_{n}"
            S.h, S.a = var("h" + tag), var("a" + tag)
            dirty(S, tag)
            if not reuse:
                A = Args(S)
            hid = Hidden([S.ode])
            OPS[op](S, tag, A, **({"kwargs": True} if kwargs and op == "evaluation" else {}))
            hid.unchanged()
    return run


def units(tier):
    u = []
    for time in (True, False):
        s = "" if time else " (no time variable)"
        u += [(op + s, run_ops(None, None, [op], time), {}, {}) for op in OPS]
    u += [(op + ", older solve interface", run_ops(None, None, [op], True, 2), {}, {}) for op in list(OPS)[1:]]
    u += [("evaluation, keyword arguments", run_ops(None, None, ["evaluation"], kwargs=True), {}, {})]
    return u


def always(tier):
    u = []
    for Q, Pn in ((0, 0), (1, 0), (1, 1), (2, 1), (1, 2)) + (((3, 2),) if tier == "thorough" else ()):
        s = f", {Q} quantities, {Pn} parameters"
        u += [(op + s, run_ops(Q, Pn, [op]), {}, {}) for op in OPS]
    for reuse in (True, False):
        for a in OPS:
            for b in OPS:
                u.append((f"{a}, then {b}, {'same' if reuse else 'new'} argument objects", run_ops(1, 1, [a, b], reuse=reuse), {}, {}))
    return u


def bounded(tier, ints=()):
    u = []
    for a in OPS:
        for b in OPS:
            for c in OPS if tier == "thorough" else ["evaluation"]:
                u.append((f"{a}, {b}, {c}", run_ops(1, 1, [a, b, c], reuse=True), {}, {}))
    return u
