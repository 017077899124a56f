"""Ghost model of a checkpointed integration: abstract states with one value each, the trajectory
Traj(0), Traj(1), ... of the primal run and the adjoint chain Adj(0), Adj(1), ... of the reverse run."""
import ast
from .common import *
from pyvc.interp import BreakEx, ContinueEx, ReturnEx, _assigned_names
from pyvc.values import Module, POISON

Traj = lambda k: app("Traj", [lift(k)])
Adj = lambda k: app("Adj", [lift(k)])
Done = lambda k: le(ONE, app("Done", [lift(k)]))


class World(Native):
    """ghost: number of primal steps behind the current state, number of reverse steps made"""

    def __init__(self, I):
        self.pos = self.rev = ZERO
        self.inplace = None
        self.total = None         # number of steps of the primal run (reverse mode)
        self.mode = "forward"
        I.register(self)
        self.I = I
        I.world = self
        set_ = Builtin("set", lambda I2, ar, kw: self.set_(ar[0], ar[1]))
        dic = Builtin("to_dict", lambda I2, ar, kw: I2.register({"v": I2.getattr(ar[0], "v")}))
        self.cls = PyClass("State", [I.object_cls], {"set": set_, "to_dict": dic})

    def snap(self):
        return dict(pos=self.pos, rev=self.rev, total=self.total, mode=self.mode)

    def restore(self, s):
        self.__dict__.update(s)

    def set_(self, a, b):
        I = self.I
        if not isinstance(b, Obj) or "v" not in b.attrs:
            I.raise_("AttributeError", "set of something that is no state")
        a.attrs["v"].write(content(b.attrs["v"]))
        return None

    def state(self, name, val):
        I = self.I
        return I.register(Obj(self.cls, {"v": arr(I, name, (ONE,), fn=lambda ix: val)}, name))

    def val(self, s, what):
        I = self.I
        if not isinstance(s, Obj) or "v" not in s.attrs:
            truth(I, f"{what} is a state", False, repr(s))
            raise PathEnd()
        return s.attrs["v"].get((ZERO,))

    def result(self, arg, val, name):
        """contract of a step function: the new value is in the returned state; the argument may
        have been updated in place (and be the returned object) or have arbitrary content."""
        I = self.I
        if self.inplace is None or not I.unroll:
            inplace = I.choose(2, "in place") == 0
            if I.unroll:
                self.inplace = inplace
        else:
            inplace = self.inplace
        if inplace:
            arg.attrs["v"].write(lambda ix: val)
            return arg
        junk = I.fresh("junk")
        arg.attrs["v"].write(lambda ix: junk)
        return self.state(name, val)

    def step(self, ar, kw):
        I = self.I
        i, s = ar
        I.oblige("a forward step has the next number", eqs=(num(I, i), add(self.pos, ONE)))
        I.oblige("a forward step starts from the state of the previous one", eqs=(self.val(s, "argument of the step"), Traj(self.pos)))
        if self.mode == "forward":
            I.oblige("a forward step is only made while the criterion does not hold", goal=not_(Done(self.pos)))
        else:
            truth(I, "recomputation only while the run is reversed", self.mode == "recompute")
        self.pos = add(self.pos, ONE)
        return self.result(s, Traj(self.pos), "stepped")

    def revstep(self, ar, kw):
        I = self.I
        i, s, p = ar
        truth(I, "reverse steps only in reverse mode", self.mode in ("reverse", "recompute"))
        if self.total is None:
            raise PathEnd()
        want = sub(self.total, self.rev)
        I.oblige("a reverse step has the number of the step it reverses", eqs=(num(I, i), want))
        I.oblige("a reverse step is made at most once per step", goal=lt(self.rev, self.total))
        I.oblige("a reverse step gets the state of its forward step", eqs=(self.val(s, "state of the reverse step"), Traj(want)))
        I.oblige("a reverse step continues the adjoint chain", eqs=(self.val(p, "perturbation of the reverse step"), Adj(self.rev)))
        self.rev = add(self.rev, ONE)
        # the linearization state may be used as work space
        return self.result(p, Adj(self.rev), "reversed")

    def finished(self, ar, kw):
        I = self.I
        i, s = ar
        I.oblige("the criterion is asked about the number of performed steps", eqs=(num(I, i), self.pos))
        I.oblige("the criterion is asked about the current state", eqs=(self.val(s, "state of the criterion"), Traj(self.pos)))
        return Done(self.pos)


class SymSeq(Native):
    """collections.deque of states with symbolic length; owns copies of the values"""

    def __init__(self, I, n=ZERO, fn=None):
        self.n, self.fn = n, fn or (lambda j: ZERO)
        self.base = None
        I.register(self)
        self.I = I

    def snap(self):
        return dict(n=self.n, fn=self.fn, base=self.base)

    def restore(self, s):
        self.__dict__.update(s)

    def py_truth(self, I):
        return lt(ZERO, self.n)

    def py_len(self, I):
        return self.n

    def py_getattr(self, I, name):
        return Builtin("deque." + name, lambda I2, ar, kw: self.meth(name, ar))

    def mk(self, j):
        return self.I.world.state("stored", self.fn(j))

    def meth(self, name, ar):
        I = self.I
        if name == "clear":
            self.n = ZERO
            return None
        if name == "append":
            x = ar[0]
            if not isinstance(x, Obj) or "v" not in x.attrs:
                raise Unsupported("stored object is no state")
            if self.base is not None and x.attrs["v"].buf.serial < self.base:
                raise Unsupported("an existing state object is stored")
            n, old, v = self.n, self.fn, content(x.attrs["v"])((ZERO,))
            self.fn = lambda j: ite(eq(j, n), v, old(j))
            self.n = add(n, ONE)
            return None
        if name == "pop" and not ar:
            if I.branch(le(self.n, ZERO)):
                I.raise_("IndexError", "pop from an empty deque")
            self.n = sub(self.n, ONE)
            return self.mk(self.n)
        raise Unsupported("deque." + name)

    def py_getitem(self, I, k):
        I = self.I
        if isinstance(k, slice) or not isinstance(k, (int, Term)) or isinstance(k, bool):
            raise Unsupported("deque index")
        k = lift(k)
        if I.branch(lt(k, ZERO)):
            k = add(k, self.n)
        if not I.branch(and_(le(ZERO, k), lt(k, self.n))):
            I.raise_("IndexError", "deque index out of range")
        return self.mk(k)

    def py_symitems(self, I):
        return self.n, self.mk


def symbolic_lists(I, o):
    """empty lists held by an object become sequences of symbolic length (before anything is stored in them)"""
    for k, v in list(o.attrs.items()):
        if isinstance(v, list) and not v and not isinstance(v, tuple):
            q = SymSeq(I)
            for k2, v2 in o.attrs.items():
                if v2 is v:
                    o.attrs[k2] = q


class StepLoop:
    """candidate invariants of loops that make forward or reverse steps"""

    def __init__(self, w, states, perts):
        self.w, self.states, self.perts = w, states, perts

    # a loop of this kind is only given an invariant if it makes steps
    def cands(self, I):
        return [_Inv(I, self, "forward"), _Inv(I, self, "reverse")]

    def for_inv(self, I, st, fr, rng):
        if isinstance(fr.vars.get("self"), Obj):
            symbolic_lists(I, fr.vars["self"])
        # `for`: try the forward candidate first, then the reverse one
        f, r = self.cands(I)
        return _Either(I, f, r)

    def matches_while(self, I, st, fr):
        return not I.unroll

    def run_while(self, I, st, fr):
        if isinstance(fr.vars.get("self"), Obj):
            symbolic_lists(I, fr.vars["self"])
        entry = I.snapshot()
        tried = []
        for inv in self.cands(I):
            ok, obl, exits = self.try_while(I, inv, st, fr, entry)
            I.restore(entry)
            if ok:
                for nm, r in obl:
                    (I.collect.append((nm, r)) if I.collect is not None else I.report.add(f"loop invariant {inv.name}: {nm}", r, I, "loop"))
                k = I.fresh("k", "I")
                I.assume(le(ZERO, k))
                inv.setup(I, fr)
                inv.at(I, k)
                I.poison_targets_named(_assigned_names(st.body), fr, inv.vars)
                if not P.feasible(I.facts):
                    raise PathEnd()
                if I.truth(I.eval(st.test, fr)):
                    raise PathEnd("iteration")
                I.exec_block(st.orelse, fr)
                return
            tried.append((inv.name, [(n, r.status, (r.detail or "")[:120]) for n, r in obl if r.status != "proved"][:3]))
        raise Unsupported(f"no inductive invariant for the loop at line {st.lineno}: {tried}")

    def try_while(self, I, inv, st, fr, entry):
        obl = []
        saved = I.collect
        I.collect = obl
        try:
            I.restore(entry)
            ints = {n: fr.vars[n] for n in _assigned_names(st.body) if n in fr.vars and isinstance(fr.vars[n], (int, Term)) and not isinstance(fr.vars[n], bool)}
            deltas = {}

            def dry():
                inv.setup(I, fr)
                inv.at(I, ZERO)
                if not I.truth(I.eval(st.test, fr)):
                    raise PathEnd()
                I.exec_block(st.body, fr)
                for n in ints:
                    d = sub(lift(fr.vars[n]), lift(ints[n]))
                    if deltas.setdefault(n, d) is not d:
                        raise Unsupported(f"loop variable {n}")
            save2, I.collect = I.collect, []
            try:
                I.explore_body(dry)
            except Unsupported as e:
                obl.append(("body", P.Result("unknown", "unsupported", str(e))))
                return False, obl, []
            finally:
                I.collect = save2
            I.restore(entry)
            for n, v in ints.items():
                d = deltas.get(n)
                if d is None:
                    continue
                inv.scal[("frame", n)] = lambda k, v=v, d=d: add(lift(v), mul(d, k))
            inv.vars = {n for (o, n) in inv.scal if o == "frame"}
            inv.setup(I, fr)
            if not inv.holds(I, ZERO, "entry"):
                return False, obl, []
            I.restore(entry)
            k = var(I.fresh_name("k"), "I")
            exits = []

            def run():
                I.assume(le(ZERO, k))
                inv.setup(I, fr)
                inv.at(I, k)
                I.poison_targets_named(_assigned_names(st.body), fr, inv.vars)
                if not I.truth(I.eval(st.test, fr)):
                    raise PathEnd()
                before = I.heap_state()
                held = {nm: fr.vars[nm] for nm in _assigned_names(st.body) if isinstance(fr.vars.get(nm), (Obj, Arr)) or type(fr.vars.get(nm)).__name__ == "_MaybeSame"}
                try:
                    I.exec_block(st.body, fr)
                except ContinueEx:
                    pass
                I.check_same(held, fr)
                inv.holds(I, add(k, ONE), "preserved")
                I.check_frame(before, inv)
            try:
                outs = I.explore_body(run)
            except Unsupported as e:
                obl.append(("body", P.Result("unknown", "unsupported", str(e))))
                return False, obl, []
            if any(o[0][0] != "normal" for o in outs):
                obl.append(("body", P.Result("unknown", "unsupported", "exit from the loop body")))
                return False, obl, []
            return all(r.status == "proved" for _, r in obl), obl, exits
        finally:
            I.collect = saved
            I.restore(entry)


class _Inv(ClosedForm):
    def __init__(self, I, L, kind):
        w = L.w
        self.L, self.w, self.kind = L, w, kind
        held = {id(v) for o in I.heap if isinstance(o, Obj) for v in o.attrs.values()}
        self.seqs = [o for o in I.heap if isinstance(o, SymSeq) and id(o) in held]
        self.seq0 = {q: (q.n, q.fn) for q in self.seqs}
        p0, r0, self.m0 = w.pos, w.rev, w.mode
        bufs, scal = {}, {}
        if kind == "forward":
            for s in L.states:
                b = s.attrs["v"].buf
                bufs[b] = lambda k, ix: Traj(add(p0, k))
            scal[(w, "pos")] = lambda k: add(p0, k)
        else:
            for s in L.perts:
                b = s.attrs["v"].buf
                bufs[b] = lambda k, ix: Adj(add(r0, k))
            scal[(w, "rev")] = lambda k: add(r0, k)
        super().__init__(f"{kind} steps", bufs, scal)
        for q in self.seqs:
            self.locs |= {(q, "n"), (q, "fn"), (q, "base")}
        self.p0 = p0

    def seqat(self, q, k):
        n0, f0 = self.seq0[q]
        if self.kind == "forward":
            return add(n0, k), (lambda j: ite(lt(j, n0), f0(j), Traj(add(self.p0, sub(j, n0), ONE))))
        return sub(n0, k), f0

    def at(self, I, k, final=False):
        super().at(I, k, final)
        I.assume(le(ZERO, k))
        base = next(I.serial)
        for q in self.seqs:
            q.n, q.fn = self.seqat(q, k)
            q.base = base
            I.assume(le(ZERO, q.n))
        if self.kind == "reverse" and self.w.total is not None:
            I.assume(le(self.w.rev, self.w.total))

    def holds(self, I, k, what):
        ok = super().holds(I, k, what)
        for q in self.seqs:
            n, f = self.seqat(q, k)
            j = I.fresh("j", "I")
            r1 = P.prove_eq(q.n, n, I.facts, I.hyps)
            r2 = P.prove_eq(q.fn(j), f(j), frozenset(set(I.facts) | {le(ZERO, j), lt(j, n)}), I.hyps)
            r3 = P.prove(le(ZERO, n), I.facts, I.hyps)
            for nm, r in (("number of checkpoints", r1), ("checkpoints", r2), ("length", r3)):
                I.collect.append((f"{what}: {nm}", r))
                ok = ok and r.status == "proved"
        if self.kind == "reverse" and self.w.total is not None:
            r = P.prove(le(self.w.rev, self.w.total), I.facts, I.hyps)
            I.collect.append((f"{what}: number of reverse steps", r))
            ok = ok and r.status == "proved"
        return ok


class _Either(ClosedForm):
    """for loops: picks the candidate by the ghost mode"""

    def __new__(cls, I, f, r):
        return r if I.world.mode == "reverse" else f
