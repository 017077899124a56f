"""Loop invariants: closed forms of heap locations as a function of the iteration count."""
from . import terms as T
from . import prover as P
from .terms import ZERO, ONE, add, sub, le, lt, ite, and_, subst, fresh_bound, var, lift, Term
from .values import Buf, Obj, Native, POISON, Unsupported, Arr
from fractions import Fraction
import ast
import itertools


class ClosedForm:
    """bufs: {Buf: fn(k, idx)->Term}; scal: {(obj or frame, name): fn(k)->Term}"""
    def __init__(self, name, bufs=None, scal=None, frame=None):
        self.name = name
        self.bufs = bufs or {}
        self.scal = scal or {}
        self.locs = set(k for k in self.scal)
        self.vars = {n for (o, n) in self.scal if o == "frame"}
        self.fr = frame

    def setup(self, I, fr):
        self.fr = fr

    def at(self, I, k, final=False):
        for b, f in self.bufs.items():
            b.setfn(lambda idx, f=f, k=k: f(k, idx))
        for (o, n), f in self.scal.items():
            v = f(k)
            if o == "frame":
                self.fr.vars[n] = v
            elif isinstance(o, Obj):
                o.attrs[n] = v
            else:
                o.__dict__[n] = v

    def holds(self, I, k, what):
        ok = True
        for b, f in self.bufs.items():
            vs = [I.fresh("ix", "I") for _ in b.shape]
            fs = set(I.facts)
            for v, d in zip(vs, b.shape):
                fs |= {le(ZERO, v), lt(v, d)}
            for g in I.index_facts:
                fs |= set(g(b, vs, k))
            r = P.prove_eq(b.read(tuple(vs)), f(k, tuple(vs)), frozenset(fs), I.hyps)
            I.collect.append((f"{what}: {b.name}", r))
            ok = ok and r.status == "proved"
        for (o, n), f in self.scal.items():
            cur = self.fr.vars.get(n) if o == "frame" else (o.attrs.get(n) if isinstance(o, Obj) else o.__dict__.get(n))
            try:
                r = P.prove_eq(lift(cur), lift(f(k)), I.facts, I.hyps)
            except TypeError:
                r = P.Result("unknown", "type", f"{n} is {cur!r}")
            I.collect.append((f"{what}: {n}", r))
            ok = ok and r.status == "proved"
        return ok


def infer_invariants(I, st, fr, rng, idx):
    from .interp import _assigned_names, ContinueEx
    k = var(I.fresh_name("kd"), "I")
    entry_vars = dict(fr.vars)
    n = rng.n
    captured = []

    def run():
        del I.pc[:]
        I.assume(le(ZERO, k), lt(k, n))
        from .npmodel import unlift
        I.assign(st.target, unlift(idx(k)), fr)
        bf = I.heap_state()
        try:
            I.exec_block(st.body, fr)
        except ContinueEx:
            pass
        af = {}
        for o, s in bf:
            if isinstance(o, Buf):
                if o._fn is not s[0]:
                    af[o] = (s[0], o._fn, o.shape)
            elif isinstance(o, Obj):
                for a, v in o.attrs.items():
                    old = s.get(a)
                    if v is not old and (isinstance(v, (int, Fraction, Term)) and isinstance(old, (int, Fraction, Term))):
                        af[(o, a)] = (old, v)
        fv = {}
        for nm in _assigned_names(st.body):
            if nm in entry_vars and isinstance(entry_vars[nm], (int, Fraction, Term)) and isinstance(fr.vars.get(nm), (int, Fraction, Term)) and not isinstance(fr.vars[nm], bool):
                if fr.vars[nm] is not entry_vars[nm]:
                    fv[("frame", nm)] = (entry_vars[nm], fr.vars[nm])
        captured.append((af, fv, list(I.pc)))
    saved, saved_pc = I.collect, I.pc
    I.collect, I.pc = [], []
    try:
        I.explore_body(run)
    finally:
        I.collect, I.pc = saved, saved_pc
    if not captured:
        # no normally completing path: loop body always exits
        yield ClosedForm("no effect", frame=fr)
        return
    if not any(a or f for a, f, _ in captured):
        yield ClosedForm("no effect", frame=fr)
        return
    # one iteration, all paths: location -> (old, new), new chosen by the path conditions
    keys = {}
    for a, f, _ in captured:
        for key, ch in list(a.items()) + list(f.items()):
            keys.setdefault(key, ch)
    changes = {}
    for key, ch in keys.items():
        vals = [(and_(*pc), (a.get(key) or f.get(key) or (ch[0], ch[0]))[1]) for a, f, pc in captured]
        if isinstance(key, Buf):
            def new(ix, vals=vals):
                r = vals[-1][1](ix)
                for c, v in reversed(vals[:-1]):
                    r = ite(c, v(ix), r)
                return r
            changes[key] = (ch[0], new, key.shape)
        else:
            r = lift(vals[-1][1])
            for c, v in reversed(vals[:-1]):
                r = ite(c, lift(v), r)
            changes[key] = (ch[0], r)
    options = []
    for key, ch in changes.items():
        opts = []
        if isinstance(key, Buf):
            old, new, shape = ch
            for ax in range(len(shape)):
                def mapf(kk, ix, ax=ax, old=old, new=new):
                    # iteration that wrote row ix[ax]
                    it = sub(ix[ax], rng.start) if rng.step == 1 else sub(rng.start, ix[ax])
                    v = subst(new(ix), {k.args[0]: it})
                    return ite(and_(le(ZERO, it), lt(it, kk)), v, old(ix))
                opts.append((key, mapf))
            for own in I.owners:
                o = own(key, rng)
                if o is not None:
                    def ownf(kk, ix, o=o, old=old, new=new):
                        # iteration that owns index ix
                        it = o(ix)
                        v = subst(new(ix), {k.args[0]: it})
                        return ite(and_(le(ZERO, it), lt(it, kk)), v, old(ix))
                    opts.insert(0, (key, ownf))

            def accf(kk, ix, old=old, new=new):
                d = sub(new(ix), old(ix))
                v = fresh_bound()
                return add(old(ix), T.sum_(v, ZERO, kk, subst(d, {k.args[0]: v})))
            opts.append((key, accf))
        else:
            old, new = lift(ch[0]), lift(ch[1])
            if k.args[0] in old.fv:
                continue

            def acc(kk, old=old, new=new):
                d = sub(new, old)
                v = fresh_bound()
                return add(old, T.sum_(v, ZERO, kk, subst(d, {k.args[0]: v})))
            opts.append((key, acc))

            def lastv(kk, old=old, new=new):
                return ite(lt(ZERO, kk), subst(new, {k.args[0]: sub(kk, ONE)}), old)
            opts.append((key, lastv))
        options.append(opts)
    for combo in itertools.islice(itertools.product(*options), 24):
        bufs = {k_: f for k_, f in combo if isinstance(k_, Buf)}
        scal = {k_: f for k_, f in combo if not isinstance(k_, Buf)}
        yield ClosedForm("inferred", bufs, scal, fr)
