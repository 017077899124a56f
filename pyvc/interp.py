"""Symbolic executor for the Python subset used in rkopenmdao.

The program text is read from /repo on every run; every path is executed with symbolic
inputs; branches are explored by re-execution with decision prefixes.
"""
import ast
import itertools
import os
from fractions import Fraction
from . import terms as T
from . import prover as P
from . import npmodel as NP
from .terms import (Term, TRUE, FALSE, ZERO, ONE, const, add, sub, mul, div, neg, le, lt, eq, and_, or_, not_, ite,
                    lift, is_const, cval, var, fresh_bound)
from .values import (Unsupported, PyExc, POISON, Buf, Arr, PyClass, Obj, Native, PyFunc, Bound, Builtin, Prop, Static,
                     ClsM, Module, SymRange, SliceV)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """this path needs no further exploration (infeasible or cut)."""


class NeedFork(Exception):
    pass


class Frame:
    def __init__(self, func, module, parent=None):
        self.vars = {}
        self.func, self.module, self.parent = func, module, parent
        self.cls = None
        self.self_ = None
        self.globals_, self.nonlocals = set(), set()

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars.clear()
        self.vars.update(s)


SRC = os.environ.get("PYVC_SRC", "/repo/src")
_ast_cache = {}


def load_ast(modname):
    p = os.path.join(SRC, *modname.split("."))
    for f in (p + ".py", os.path.join(p, "__init__.py")):
        if os.path.exists(f):
            if f not in _ast_cache:
                _ast_cache[f] = ast.parse(open(f).read(), f)
            return _ast_cache[f], f
    return None, None


class Path:
    """one execution path"""
    def __init__(self, prefix):
        self.prefix, self.decisions = prefix, []
        self.alts = []


class Interp:
    def __init__(self, prefix=(), contracts=None, report=None, opts=None):
        self.prefix = list(prefix)
        self.trace = []           # decisions made: (index, n_alternatives)
        self.facts = frozenset()
        self.hyps = []            # equational hypotheses (terms == 0)
        self.qfacts = []          # quantified facts
        self.heap = []
        self.modules = {}
        self.contracts = contracts or {}
        self.report = report
        self.opts = opts or {}
        self.pc, self.owners, self.norm_model, self.index_facts = [], [], None, []
        self.loop_specs = []
        self.names = {}
        self.frames = []
        self.steps = 0
        self.serial = itertools.count()
        self.body_of = None
        self.depth = 0
        self.inlined = set()
        self.warned = []
        self.printed = 0
        self.divisors = []
        self.collect = None       # obligations redirected while trying loop invariants
        self.unroll = self.opts.get("unroll", 0)
        self.builtins = {}
        self.object_cls = PyClass("object", [], {})
        self.ndarray_cls = PyClass("ndarray", [self.object_cls], {})
        self._mk_builtins()
        self.stubs = {}
        self._mk_stubs()

    # ------------------------------------------------------------ infrastructure
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f"{base}${n}"

    def fresh(self, base, sort="R"):
        return var(self.fresh_name(base), sort)

    def register(self, x):
        self.heap.append(x)
        if isinstance(x, (Obj, Buf)):
            x.serial = next(self.serial)
        return x

    def assume(self, *conds):
        fs = set(self.facts)
        for c in conds:
            for a in (c.args if c.kind == "and" else (c,)):
                if a is FALSE:
                    raise PathEnd("infeasible")
                if a is not TRUE:
                    fs.add(a)
        self.facts = frozenset(fs)

    def inst_facts(self, ix):
        """assume the instances at `ix` of the universally quantified facts with that many indices"""
        ix = tuple(ix)
        new = []
        for f in self.facts:
            if f.kind == "app" and f.args[0] == "forall":
                names, dims, body = f.args[1][0].args
                if len(names) == len(ix):
                    rng = [and_(le(ZERO, i), lt(i, d)) for i, d in zip(ix, dims)]
                    new.append(T.or_(*[not_(r) for r in rng], T.open_lam(f.args[1][0], ix)))
        for c in new:
            self.assume(P.simp(c, self.facts))

    def decide(self, c):
        return P.decide(c, self.facts)

    def choose(self, n, tag=""):
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
        self.trace.append((d, n))
        return d

    def branch(self, cond):
        """python truth of a symbolic condition; forks if undecided."""
        if isinstance(cond, bool):
            return cond
        cond = P.simp(cond, self.facts)
        d = self.decide(cond)
        if d is not None:
            return d
        k = self.choose(2, "branch")
        c = cond if k == 0 else not_(cond)
        self.assume(c)
        self.pc.append(c)
        if not P.feasible(self.facts):
            raise PathEnd("infeasible")
        return k == 0

    def snapshot(self):
        return ([(o, o.snap() if hasattr(o, "snap") else (list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else set(o))) for o in self.heap],
                [(f, f.snap()) for f in self.frames], self.facts, list(self.hyps), list(self.qfacts), dict(self.names), len(self.trace), len(self.warned))

    def restore(self, s):
        objs, frames, facts, hyps, qf, names, ntrace, nw = s
        del self.heap[len(objs):]
        for o, st in objs:
            if hasattr(o, "restore"):
                o.restore(st)
            elif isinstance(o, list):
                o[:] = st
            elif isinstance(o, dict):
                o.clear()
                o.update(st)
            else:
                o.clear()
                o.update(st)
        for f, st in frames:
            f.restore(st)
        del self.frames[len(frames):]
        self.facts, self.hyps, self.qfacts, self.names = facts, list(hyps), list(qf), dict(names)
        del self.warned[nw:]

    def oblige(self, name, goal=None, eqs=None, kind="post"):
        """prove goal (bool term) or equality eqs=(a,b) under the current facts."""
        if eqs is not None:
            r = P.prove_eq(lift(eqs[0]), lift(eqs[1]), self.facts, self.hyps)
        else:
            r = P.prove(goal, self.facts, self.hyps)
        if self.collect is not None:
            self.collect.append((name, r))
        else:
            self.report.add(name, r, self, kind)
        return r.status == "proved"

    def side_condition(self, what, cond):
        """safety condition: must be provable, assumed afterwards."""
        r = P.prove(cond, self.facts, self.hyps)
        if self.collect is not None:
            self.collect.append(("safety: " + what, r))
        else:
            self.report.add("safety: " + what, r, self, "safety")
        self.assume(cond)

    def raise_(self, cls, msg=""):
        c = self.builtins.get(cls) if isinstance(cls, str) else cls
        raise PyExc(self.register(Obj(c, {"args": (msg,)})))

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            return self.stubs[name]
        tree, f = load_ast(name)
        if tree is None:
            m = Module(name, {})
            self.modules[name] = m
            return m
        m = Module(name, {"__name__": name})
        m.file = f
        self.modules[name] = m
        fr = Frame(None, m)
        fr.vars = m.ns
        self.frames.append(fr)
        try:
            for st in tree.body:
                try:
                    self.exec(st, fr)
                except Unsupported as e:
                    for n in _targets(st):
                        m.ns.setdefault(n, Opaque(f"{name}.{n}: {e}"))
        finally:
            self.frames.pop()
        return m

    def get(self, path):
        """'pkg.mod:Class.attr'"""
        mod, _, rest = path.partition(":")
        m = self.import_module(mod)
        o = m
        for a in rest.split("."):
            o = self.getattr(o, a)
        return o

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > self.opts.get("max_steps", 200000):
            raise Unsupported("step limit")
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if isinstance(st.target, ast.Name) and fr.func == "class":
            fr.vars.setdefault("__annotations__", {})[st.target.id] = ast.unparse(st.annotation)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(id=t.id, ctx=ast.Load()), fr)
            nv = self.aug(op, cur, self.eval(st.value, fr))
            self.assign(t, nv, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            nv = self.aug(op, cur, self.eval(st.value, fr))
            self.setattr(o, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            nv = self.aug(op, cur, self.eval(st.value, fr))
            self.setitem(o, k, nv)
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            if isinstance(r, Arr) and len(r.shape) > len(cur.shape):
                self.raise_("ValueError", "non-broadcastable output operand")
            NP.assign(self, cur, r)
            return cur
        if isinstance(cur, list) and op == "Add":
            cur.extend(self.iter_list(v))
            return cur
        if isinstance(cur, (set, dict)) and op == "BitOr" and not isinstance(cur, frozenset):
            cur.update(v)
            return cur
        return self.binop(op, cur, v)

    def x_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_Raise(self, st, fr):
        if st.exc is None:
            raise PyExc(self.cur_exc)
        e = self.eval(st.exc, fr)
        if isinstance(e, PyClass):
            e = self.call(e, [], {})
        raise PyExc(e)

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyExc as ex:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        cl = self.eval(h.type, fr)
                        cl = cl if isinstance(cl, tuple) else (cl,)
                        ok = any(isinstance(c, PyClass) and ex.obj.cls.subclass_of(c) for c in cl)
                    if ok:
                        prev = getattr(self, "cur_exc", None)
                        self.cur_exc = ex.obj
                        if h.name:
                            fr.vars[h.name] = ex.obj
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.cur_exc = prev
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        finally:
            import sys as _s
            et = _s.exc_info()[0]
            if st.finalbody and et not in (PathEnd, Unsupported):
                self.exec_block(st.finalbody, fr)

    def x_With(self, st, fr):
        mgrs = []
        for it in st.items:
            m = self.eval(it.context_expr, fr)
            v = self.call(self.getattr(m, "__enter__"), [], {})
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        def leave(args, todo):
            while todo:
                m = todo.pop()
                if self.truth(self.call(self.getattr(m, "__exit__"), args, {})) and args[0] is not None:
                    args = [None, None, None]
            return args[0] is None
        try:
            self.exec_block(st.body, fr)
        except (PathEnd, Unsupported):
            raise
        except PyExc as ex:
            if not leave([ex.obj.cls, ex.obj, None], mgrs):
                raise
        except BaseException:
            leave([None, None, None], mgrs)
            raise
        else:
            leave([None, None, None], mgrs)

    def x_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            self.raise_("AssertionError")

    def x_Break(self, st, fr):
        raise BreakEx()

    def x_Continue(self, st, fr):
        raise ContinueEx()

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                if isinstance(o, (dict, list)):
                    try:
                        del o[k]
                    except (KeyError, IndexError):
                        self.raise_("KeyError", k)
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                o.attrs.pop(t.attr, None)

    def x_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def x_Import(self, st, fr):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                fr.vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                fr.vars[top] = self.import_module(top) if top != a.name else m

    def x_ImportFrom(self, st, fr):
        name = st.module or ""
        if st.level:
            base = fr.module.name.split(".")
            isdir = fr.module.file.endswith("__init__.py")
            cut = st.level - (1 if isdir else 0)
            base = base[:len(base) - cut]
            name = ".".join(base + ([name] if name else []))
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in st.names:
            if a.name in m.ns:
                v = m.ns[a.name]
            else:
                tree, _ = load_ast(name + "." + a.name)
                v = self.import_module(name + "." + a.name) if tree is not None else Opaque(f"{name}.{a.name}")
            fr.vars[a.asname or a.name] = v

    def x_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        v = f
        for dec in reversed(st.decorator_list):
            v = self.decorate(dec, v, fr, st.name)
        fr.vars[st.name] = v

    def make_func(self, st, fr):
        a = st.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {arg.arg: self.eval(d, fr) for arg, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        prefix = getattr(fr, "qual", "")
        name = getattr(st, "name", "<lambda>")
        clos = fr if fr.func != "class" else fr.parent
        return PyFunc(st, clos, fr.module, f"{prefix}{name}", None, defaults, kwd)

    def decorate(self, dec, v, fr, name):
        if isinstance(dec, ast.Name) and dec.id == "property":
            return Prop(v)
        if isinstance(dec, ast.Name) and dec.id == "staticmethod":
            return Static(v)
        if isinstance(dec, ast.Name) and dec.id == "classmethod":
            return ClsM(v)
        if isinstance(dec, ast.Attribute) and dec.attr == "setter":
            p = self.eval(dec.value, fr)
            return Prop(p.fget, v)
        d = self.eval(dec, fr)
        return self.call(d, [v], {})

    def x_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            bv = self.eval(b, fr)
            if isinstance(bv, PyClass):
                bases.append(bv)
            elif isinstance(bv, Opaque):
                bases.append(PyClass(bv.why, [self.object_cls], {"__opaque__": True}))
            else:
                raise Unsupported(f"base class {bv!r}")
        cf = Frame("class", fr.module, fr)
        cf.qual = st.name + "."
        self.frames.append(cf)
        try:
            for s in st.body:
                try:
                    self.exec(s, cf)
                except Unsupported as e:
                    for n in _targets(s):
                        cf.vars.setdefault(n, Opaque(f"{st.name}.{n}: {e}"))
        finally:
            self.frames.pop()
        c = PyClass(st.name, bases or [self.object_cls], cf.vars, fr.module)
        for v in cf.vars.values():
            for g in (v, getattr(v, "fn", None), getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(g, PyFunc) and g.cls is None:
                    g.cls = c
        v = c
        for dec in reversed(st.decorator_list):
            v = self.call(self.eval(dec, fr), [v], {})
        fr.vars[st.name] = v

    # ---- loops
    def x__Recheck(self, st, fr):
        if self.decide(eq(lift(self.eval(st.expr, fr)), st.value)) is not True:
            raise Unsupported("the bound of a counting loop may change in the loop")

    def x__SetVar(self, st, fr):
        fr.vars[st.name] = NP.unlift(st.value)

    def x_While(self, st, fr):
        st = _while_true(st)
        key = ("while", st.lineno)
        count = 0
        while True:
            # a spec may take over
            if count == 0:
                for spec in self.loop_specs:
                    if spec.matches_while(self, st, fr):
                        return self.spec_while(spec, st, fr)
                if not self.unroll:
                    r = self.counting_while(st, fr)
                    if r is not None:
                        return self.sym_for(r[0], fr, r[1])
            c = self.eval(st.test, fr)
            if not isinstance(c, (bool,)) and isinstance(c, Term):
                lim = self.unroll
                if count >= lim and self.decide(c) is None:
                    if lim:
                        # bounded mode: cut
                        self.assume(not_(c))
                        if not P.feasible(self.facts):
                            raise PathEnd("unroll bound")
                        self.report.bounded_cut = True
                        break
                    raise Unsupported("while loop without invariant")
            if not self.truth(c):
                self.exec_block(st.orelse, fr)
                return
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            count += 1
            if count > self.opts.get("max_loop", 200):
                if self.unroll:
                    self.report.bounded_cut = True
                    raise PathEnd("loop bound")
                raise Unsupported("loop bound")

    def counting_while(self, st, fr):
        """`while i < E: ...; i += 1` and `while i > E: i -= 1; ...` as a loop over a range"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and len(st.body) > 1):
            return None
        i, op, e = t.left.id, type(t.ops[0]), t.comparators[0]

        def moves(x, sign):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i:
                v, o = x.value, x.op
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == i and isinstance(x.value, ast.BinOp) \
                    and isinstance(x.value.left, ast.Name) and x.value.left.id == i:
                v, o = x.value.right, x.value.op
            else:
                return False
            return isinstance(v, ast.Constant) and v.value == 1 and type(v.value) is int and isinstance(o, ast.Add if sign > 0 else ast.Sub)
        if op in (ast.Lt, ast.LtE) and moves(st.body[-1], 1):
            body, sign, late = st.body[:-1], 1, True
        elif op in (ast.Gt, ast.GtE) and moves(st.body[0], -1):
            body, sign, late = st.body[1:], -1, False
        elif op in (ast.Gt, ast.GtE) and moves(st.body[-1], -1):
            body, sign, late = st.body[:-1], -1, True
        else:
            return None
        if i in _assigned_names(body) or (late and any(isinstance(n, ast.Continue) for b in body for n in ast.walk(b))):
            return None
        i0, ev = fr.vars.get(i), self.eval(e, fr)
        if not isinstance(i0, (int, Term)) or isinstance(i0, bool) or not isinstance(ev, (int, Term)) or isinstance(ev, bool):
            return None
        i0, ev = lift(i0), lift(ev)
        if is_const(i0) and is_const(ev):
            return None
        if sign > 0:
            n = sub(ev, i0) if op is ast.Lt else add(sub(ev, i0), ONE)
            start = i0
        else:
            n = sub(i0, ev) if op is ast.Gt else add(sub(i0, ev), ONE)
            start = i0 if late else sub(i0, ONE)
        if self.decide(le(ZERO, n)) is not True:
            n = ite(le(ZERO, n), n, ZERO)
        end = add(i0, n) if sign > 0 else sub(i0, n)
        r = ast.For(target=ast.Name(i, ast.Store()), iter=e, body=body + [_Recheck(e, ev)], orelse=[_SetVar(i, end)] + st.orelse, type_comment=None)
        return ast.copy_location(r, st), SymRange(start, n, sign)

    def symbolic_items(self, it):
        """(length, item function) of an iterable of symbolic length, else None"""
        if isinstance(it, SymRange):
            f = getattr(it, "item", None)
            return it.n, f or (lambda k: NP.unlift(add(it.start, k) if it.step == 1 else sub(it.start, k)))
        if isinstance(it, Arr) and it.shape and not is_const(P.simp(it.shape[0], self.facts)):
            return it.shape[0], lambda k: self.getitem(it, k)
        hook = getattr(it, "py_symitems", None)
        return hook(self) if hook is not None else None

    def item_range(self, n, item):
        r = SymRange(ZERO, n)
        r.item = item
        return r

    def x_For(self, st, fr):
        it = self.eval(st.iter, fr)
        if isinstance(it, Arr) or (hasattr(it, "py_symitems") and not hasattr(it, "py_symiter")):
            s = self.symbolic_items(it)
            if s is not None:
                it = self.item_range(*s)
        if isinstance(it, SymRange):
            return self.sym_for(st, fr, it)
        hook = getattr(it, "py_symiter", None)
        if hook is not None:
            return hook(self, st, fr)
        for v in self.iterate(it):
            self.assign(st.target, v, fr)
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_block(st.orelse, fr)

    def explore_body(self, run):
        """run `run()` over all nested paths from the current state; yields outcome list.
        State is restored after each path."""
        base = self.snapshot()
        basetrace, baseprefix = list(self.trace), list(self.prefix)
        outs = []
        work = [[]]
        while work:
            pre = work.pop()
            self.restore(base)
            self.trace = []
            self.prefix = list(pre)
            out = None
            try:
                run()
                out = ("normal", None)
            except ContinueEx:
                out = ("normal", None)
            except BreakEx:
                out = ("break", None)
            except ReturnEx as e:
                out = ("return", e.v)
            except PyExc as e:
                out = ("raise", e.obj)
            except PathEnd:
                out = None
            tr = self.trace
            for i in range(len(pre), len(tr)):
                d, n = tr[i]
                for alt in range(d + 1, n):
                    work.append([x for x, _ in tr[:i]] + [alt])
            if out is not None:
                outs.append((out, [x for x, _ in tr], self.facts - base[2], list(self.qfacts[len(base[4]):])))
            if len(outs) > 64:
                self.restore(base)
                self.trace, self.prefix = basetrace, baseprefix
                raise Unsupported("too many paths in loop body")
        self.restore(base)
        self.trace, self.prefix = basetrace, baseprefix
        return outs

    def sym_for(self, st, fr, rng):
        """for target in SymRange: contracts for the loop: spec invariants, else inferred."""
        n = P.simp(rng.n, self.facts)
        if self.decide(le(n, ZERO)) is True:
            self.exec_block(st.orelse, fr)
            return
        idx = getattr(rng, "item", None) or (lambda k: add(rng.start, k) if rng.step == 1 else sub(rng.start, k))
        cands = []
        for spec in self.loop_specs:
            inv = spec.for_inv(self, st, fr, rng)
            if inv is not None:
                cands.append(inv)
        chosen = None
        tried = []
        entry = self.snapshot()
        for inv in cands if any(getattr(c, "exclusive", False) for c in cands) else itertools.chain(cands, self.infer(st, fr, rng, idx)):
            ok, obl, outs, kv, entryk = self.try_inv(inv, st, fr, idx, n, entry)
            tried.append((inv, ok, obl))
            if ok:
                chosen = (inv, obl, outs, kv)
                break
        if chosen is None:
            detail = "; ".join(f"{i.name}: {[ (nm, r.status, r.detail[:160]) for nm, r in o if r.status != 'proved'][:2]}" for i, k, o in tried)
            raise Unsupported(f"no inductive loop invariant for the loop at line {st.lineno}: {detail[:600]}")
        inv, obl, outs, kv = chosen
        for nm, r in obl:
            if self.collect is not None:
                self.collect.append((nm, r))
            else:
                self.report.add(f"loop invariant {inv.name}: {nm}", r, self, "loop")
        exits = [o for o in outs if o[0][0] != "normal"]
        normals = [o for o in outs if o[0][0] == "normal"]
        ch = self.choose(1 + len(exits), "loop exit") if exits else 0
        if ch == 0:
            if exits and not normals:
                # loop can only complete normally if it has no iteration
                self.assume(le(n, ZERO))
                if not P.feasible(self.facts):
                    raise PathEnd()
            if exits:
                self.qfacts.append((kv, ZERO, n, [(o[2], o[3]) for o in normals]))
            inv.at(self, n, final=True)
            last = sub(n, ONE)
            self.poison_targets(st, fr, inv.vars)
            if isinstance(st.target, ast.Name):
                fr.vars[st.target.id] = idx(last)
            elif hasattr(rng, "item"):
                for nm in _assigned_names([ast.copy_location(ast.Assign(targets=[st.target], value=ast.Constant(0)), st)]):
                    fr.vars[nm] = POISON
            self.exec_block(st.orelse, fr)
            return
        out, decs, _, _ = exits[ch - 1]
        k = kv
        self.assume(le(ZERO, k), lt(k, n))
        inv.at(self, k, final=False)
        self.poison_targets(st, fr, inv.vars)
        self.assign(st.target, NP.unlift(idx(k)), fr)
        # replay the nested decisions
        saved_trace, saved_prefix = list(self.trace), list(self.prefix)
        self.trace, self.prefix = [], list(decs)
        try:
            self.exec_block(st.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        finally:
            self.trace, self.prefix = saved_trace, saved_prefix
        raise Unsupported("loop exit replay diverged")

    def poison_targets(self, st, fr, keep=()):
        for nm in _assigned_names(st.body):
            if nm in fr.vars:
                pass
        # temporaries of the body are unknown at the loop head
        for nm in _assigned_names(st.body):
            if nm in keep or nm in getattr(self, "_inv_vars", ()):
                continue
            v = fr.vars.get(nm)
            if v is None or not isinstance(v, (Obj, Arr, PyFunc)):
                fr.vars[nm] = POISON
            else:
                fr.vars[nm] = _MaybeSame(v)

    def check_same(self, held, fr):
        """loop-carried object variables refer to the same object after the iteration"""
        for nm, v in held.items():
            v = v.v if isinstance(v, _MaybeSame) else v
            w = fr.vars.get(nm)
            w = w.v if isinstance(w, _MaybeSame) else w
            same = w is v or (isinstance(v, Arr) and isinstance(w, Arr) and v.buf is w.buf and v.axes == w.axes)
            if not same:
                self.collect.append((f"loop variable {nm}", P.Result("unknown", "frame", "refers to another object after the iteration")))

    def poison_targets_named(self, names, fr, keep):
        for nm in names:
            if nm in keep:
                continue
            v = fr.vars.get(nm)
            if v is None or not isinstance(v, (Obj, Arr, PyFunc)):
                fr.vars[nm] = POISON
            else:
                fr.vars[nm] = _MaybeSame(v)

    def try_inv(self, inv, st, fr, idx, n, entry):
        """check that inv is established on entry and preserved by the body."""
        obl = []
        saved_collect = self.collect
        try:
            self.collect = obl
            self.restore(entry)
            inv.setup(self, fr)
            ok = inv.holds(self, ZERO, "entry")
            if not ok:
                return False, obl, [], None, None
            self.restore(entry)
            k = var(self.fresh_name("k"), "I")
            self._inv_vars = inv.vars
            names0 = dict(self.names)

            def run():
                self.assume(le(ZERO, k), lt(k, n))
                inv.at(self, k, final=False)
                held = {nm: fr.vars[nm] for nm in _assigned_names(st.body) if isinstance(fr.vars.get(nm), (Obj, Arr, PyFunc, _MaybeSame)) and nm not in inv.vars}
                self.poison_targets(st, fr)
                self.assign(st.target, NP.unlift(idx(k)), fr)
                before = self.heap_state()
                try:
                    self.exec_block(st.body, fr)
                except ContinueEx:
                    pass
                self.check_same(held, fr)
                inv.holds(self, add(k, ONE), "preserved")
                self.check_frame(before, inv)
            try:
                outs = self.explore_body(run)
            except Unsupported as e:
                obl.append(("body", P.Result("unknown", "unsupported", str(e))))
                return False, obl, [], None, None
            self.restore(entry)
            self.names = names0
            return all(r.status == "proved" for _, r in obl), obl, outs, k, None
        finally:
            self.collect = saved_collect
            self.restore(entry)
            self._inv_vars = ()

    def heap_state(self):
        return [(o, o.snap() if hasattr(o, "snap") else (list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else set(o))) for o in self.heap]

    def check_frame(self, before, inv):
        """every pre-existing location not described by the invariant must be unchanged."""
        for o, s in before:
            if isinstance(o, Buf):
                if o in inv.bufs:
                    continue
                if o._fn is s[0]:
                    continue
                vs = [T.fresh_bound() for _ in o.shape]
                fs = set(self.facts)
                for v, d in zip(vs, o.shape):
                    fs |= {le(ZERO, v), lt(v, d)}
                r = P.prove_eq(o.read(tuple(vs)), s[0](tuple(vs)), frozenset(fs))
                self.collect.append((f"frame: {o.name} unchanged", r))
            elif isinstance(o, Obj):
                for a, v in o.attrs.items():
                    if (o, a) in inv.locs:
                        continue
                    old = s.get(a, POISON)
                    if v is not old and not (isinstance(v, (int, str, bool, Fraction)) and v == old):
                        self.collect.append((f"frame: {o}.{a}", P.Result("unknown", "frame", "attribute changed by the loop")))
            elif isinstance(o, Native):
                d = o.snap()
                for a in d:
                    if (o, a) in inv.locs:
                        continue
                    old = s.get(a, POISON) if isinstance(s, dict) else POISON
                    if isinstance(s, dict) and d[a] is not old and d[a] != old:
                        self.collect.append((f"frame: {o}.{a}", P.Result("unknown", "frame", "changed by the loop")))
            elif isinstance(o, (list, dict, set)):
                if o in [x for x in inv.locs if isinstance(x, type(o))]:
                    continue
                if len(o) != len(s) or any(a is not b for a, b in zip(o, s)):
                    self.collect.append(("frame: container", P.Result("unknown", "frame", "container changed by the loop")))

    def infer(self, st, fr, rng, idx):
        """guess closed-form invariants (maps over one axis, accumulations); each guess is then checked."""
        from .loops import infer_invariants
        try:
            yield from infer_invariants(self, st, fr, rng, idx)
        except Unsupported:
            return

    def spec_while(self, spec, st, fr):
        return spec.run_while(self, st, fr)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                fr.module.ns[t.id] = v
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
                (f or fr).vars[t.id] = v
                return
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iter_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.register(list(vals[i:len(vals) - after])), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
            else:
                if len(vals) != len(t.elts):
                    self.raise_("ValueError", "unpack")
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.register(self.iter_list(v)), fr)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ attributes / items
    def getattr(self, o, name):
        if o is POISON:
            raise Unsupported(f"value unknown at loop head used (.{name})")
        if isinstance(o, _MaybeSame):
            return self.getattr(o.v, name)
        if isinstance(o, Obj):
            c = o.cls
            v, owner = c.lookup(name)
            if isinstance(v, Prop):
                return self.call(Bound(v.fget, o), [], {})
            if name in o.attrs:
                r = o.attrs[name]
                if r is POISON:
                    raise Unsupported(f"unknown attribute value {name}")
                return r
            if name == "__class__":
                return c
            if name == "__dict__":
                return o.attrs
            if v is None:
                g, _ = c.lookup("__getattr__")
                if g is not None:
                    return self.call(Bound(g, o), [name], {})
                if any("__opaque__" in k.ns for k in c.mro):
                    raise Unsupported(f"attribute {name} of external base of {c.name}")
                self.raise_("AttributeError", f"{c.name}.{name}")
            return self.bind(v, o, c)
        if isinstance(o, Arr):
            return NP.arr_getattr(self, o, name)
        if isinstance(o, PyClass):
            v, owner = o.lookup(name)
            if v is None:
                if name == "__name__":
                    return o.name
                self.raise_("AttributeError", f"{o.name}.{name}")
            if isinstance(v, Static):
                return v.fn
            if isinstance(v, ClsM):
                return Bound(v.fn, o)
            return v
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            if o.name.startswith("rkopenmdao"):
                tree, _ = load_ast(o.name + "." + name)
                if tree is not None:
                    return self.import_module(o.name + "." + name)
                self.raise_("AttributeError", f"{o.name}.{name}")
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, Super):
            return o.get(self, name)
        if isinstance(o, Native):
            h = getattr(o, "py_getattr", None)
            if h is not None:
                return h(self, name)
            m = getattr(o, "m_" + name, None)
            if m is not None:
                return Builtin(name, lambda I, ar, kw: m(I, *ar, **kw))
            if name in o.__dict__:
                return o.__dict__[name]
            raise Unsupported(f"{type(o).__name__}.{name}")
        if isinstance(o, Opaque):
            return Opaque(f"{o.why}.{name}")
        return self.native_attr(o, name)

    def bind(self, v, o, c):
        if isinstance(v, Static):
            return v.fn
        if isinstance(v, ClsM):
            return Bound(v.fn, c)
        if isinstance(v, (PyFunc, Builtin)) and not getattr(v, "nobind", False):
            return Bound(v, o)
        return v

    def native_attr(self, o, name):
        if isinstance(o, str):
            def f(I, ar, kw):
                if any(isinstance(a, Term) for a in ar):
                    raise Unsupported("string op on symbolic")
                try:
                    r = getattr(o, name)(*ar, **kw)
                except (IndexError, KeyError) as e:
                    self.raise_(type(e).__name__, str(e))
                return r
            return Builtin("str." + name, f)
        if isinstance(o, (list, dict, set, tuple, frozenset)):
            return Builtin(type(o).__name__ + "." + name, lambda I, ar, kw: self.container_method(o, name, ar, kw))
        if isinstance(o, (PyFunc, Bound)):
            if name in ("__name__", "__qualname__"):
                return (o.fn if isinstance(o, Bound) else o).name
            if name == "__doc__":
                return None
            if name == "__self__":
                return o.self_
        if isinstance(o, (Term, int, Fraction, float)) and not isinstance(o, bool):
            if name in ("real",):
                return o
            if name == "item":
                return Builtin("item", lambda I, ar, kw: o)
            if name == "copy":
                return Builtin("copy", lambda I, ar, kw: o)
            if name == "size":
                return 1
            if name == "shape":
                return ()
            if name == "is_integer":
                raise Unsupported("is_integer")
        if o is None:
            self.raise_("AttributeError", f"NoneType.{name}")
        if isinstance(o, Term) and hasattr(str, name):
            raise Unsupported(f"method {name} of a symbolic string")
        if isinstance(o, (int, Fraction, float, Term)):
            self.raise_("AttributeError", f"number.{name}")
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def container_method(self, o, name, ar, kw):
        if name in ("keys", "values", "items"):
            return list(getattr(o, name)())
        if name in ("popleft", "appendleft", "extendleft") and isinstance(o, list):
            # a deque
            if name == "popleft":
                name, ar = "pop", [0]
            elif name == "appendleft":
                name, ar = "insert", [0, ar[0]]
            else:
                for x in self.iter_list(ar[0]):
                    o.insert(0, x)
                return None
        if name in ("remove", "index", "count") and any(isinstance(x, Term) and not is_const(x) for x in list(o) + list(ar)):
            raise Unsupported(f"{name} of a symbolic value")
        if name in ("pop", "remove", "index", "popitem"):
            ar = [int(cval(x)) if isinstance(x, Term) and is_const(x) and name == "pop" and isinstance(o, list) else x for x in ar]
            if any(isinstance(x, Term) for x in ar):
                raise Unsupported("symbolic key")
            try:
                return getattr(o, name)(*ar)
            except (KeyError, IndexError, ValueError) as e:
                self.raise_(type(e).__name__, str(e))
        if name in ("copy",):
            return self.register(type(o)(o))
        if name == "sort":
            o[:] = self.call(self.builtins["sorted"], [list(o)], kw)
            return None
        if name in ("append", "extend", "insert", "clear", "update", "get", "setdefault", "add", "discard", "reverse", "count",
                    "intersection", "union", "difference", "issubset", "issuperset", "isdisjoint"):
            for a in ar:
                if isinstance(a, Term) and name in ("get", "setdefault", "add", "discard", "count"):
                    raise Unsupported("symbolic key")
            if name == "extend":
                ar = [self.iter_list(ar[0])]
            r = getattr(o, name)(*ar, **kw)
            if isinstance(r, (list, dict, set)) and name in ("intersection", "union", "difference"):
                self.register(r)
            return r
        raise Unsupported(f"{type(o).__name__}.{name}")

    def setattr(self, o, name, v):
        if isinstance(o, _MaybeSame):
            o = o.v
        if isinstance(o, Obj):
            d, _ = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fset is None:
                    self.raise_("AttributeError", "can't set attribute")
                self.call(Bound(d.fset, o), [v], {})
                return
            h, _ = o.cls.lookup("__setattr__")
            o.attrs[name] = v
        elif isinstance(o, PyClass):
            o.ns[name] = v
        elif isinstance(o, Native):
            h = getattr(o, "py_setattr", None)
            if h is None:
                raise Unsupported(f"set {name} on {type(o).__name__}")
            h(self, name, v)
        elif isinstance(o, Module):
            o.ns[name] = v
        elif isinstance(o, Arr) and name == "shape":
            raise Unsupported("set shape")
        else:
            raise Unsupported(f"setattr on {type(o).__name__}")

    def key(self, k):
        if isinstance(k, Term):
            if is_const(k):
                return NP.unlift(k)
            raise Unsupported(f"symbolic key {k}")
        return k

    def getitem(self, o, k):
        if isinstance(o, _MaybeSame):
            o = o.v
        if isinstance(o, Arr):
            return NP.unlift(NP.getitem(self, o, k))
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, SliceV):
                f = lambda x: None if x is None else int(self.key(x))
                r = o[slice(f(k.lo), f(k.hi), f(k.step))]
                return self.register(r) if isinstance(r, list) else r
            if isinstance(k, Term) and not is_const(k):
                # symbolic index into a concrete sequence of scalars
                if all(isinstance(x, (int, Fraction, Term)) for x in o):
                    return NP.pick(k, [lift(x) for x in o])
                for i in range(len(o)):
                    if self.branch(eq(k, const(i))):
                        return o[i]
                raise Unsupported("symbolic sequence index")
            try:
                return o[int(self.key(k))]
            except IndexError:
                self.raise_("IndexError", "list index out of range")
        if isinstance(o, dict):
            kk = self.key(k)
            try:
                if kk in o:
                    return o[kk]
            except TypeError:
                raise Unsupported("unhashable key")
            self.raise_("KeyError", kk)
        if isinstance(o, Native):
            h = getattr(o, "py_getitem", None)
            if h:
                return h(self, k)
        if isinstance(o, Obj):
            m, _ = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [k], {})
        if isinstance(o, (PyClass, Opaque)) or (isinstance(o, Builtin)):
            return o   # typing subscripts
        if isinstance(o, (int, Fraction, float, Term)) or o is None:
            self.raise_("TypeError", "not subscriptable")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, k, v):
        if isinstance(o, _MaybeSame):
            o = o.v
        if isinstance(o, Arr):
            if o.readonly:
                raise Unsupported("write through transposed view")
            return NP.setitem(self, o, k, v)
        if isinstance(o, list):
            if isinstance(k, SliceV):
                f = lambda x: None if x is None else int(self.key(x))
                o[slice(f(k.lo), f(k.hi), f(k.step))] = self.iter_list(v)
                return
            try:
                o[int(self.key(k))] = v
            except IndexError:
                self.raise_("IndexError", "list assignment index out of range")
            return
        if isinstance(o, dict):
            o[self.key(k)] = v
            return
        if isinstance(o, Native):
            h = getattr(o, "py_setitem", None)
            if h:
                return h(self, k, v)
        if isinstance(o, Obj):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                return self.call(Bound(m, o), [k, v], {})
        raise Unsupported(f"item assignment on {type(o).__name__}")

    # ------------------------------------------------------------ iteration / truth
    def iterate(self, it):
        if isinstance(it, _MaybeSame):
            it = it.v
        if isinstance(it, (list, tuple, str, range)):
            i = 0
            while i < len(it):
                yield it[i]
                i += 1
            return
        if isinstance(it, dict):
            yield from list(it.keys())
            return
        if isinstance(it, (set, frozenset)):
            yield from sorted(it, key=repr)
            return
        if isinstance(it, Arr):
            n = it.shape[0]
            if not is_const(n):
                raise Unsupported("iteration over symbolic array")
            for i in range(int(cval(n))):
                yield self.getitem(it, i)
            return
        if isinstance(it, SymComp):
            raise Unsupported("iteration over a symbolic comprehension")
        if isinstance(it, Native):
            h = getattr(it, "py_iter", None) or getattr(it, "py_iterlist", None)
            if h:
                yield from h(self)
                return
        if isinstance(it, SymRange):
            n = P.simp(it.n, self.facts)
            if is_const(n):
                for i in range(int(cval(n))):
                    yield NP.unlift(add(it.start, const(it.step * i)))
                return
            raise Unsupported("iteration over symbolic range")
        if isinstance(it, Obj):
            m, _ = it.cls.lookup("__iter__")
            if m is not None:
                yield from self.iterate(self.call(Bound(m, it), [], {}))
                return
        if hasattr(it, "__next__"):
            yield from it
            return
        raise Unsupported(f"iteration over {type(it).__name__}")

    def iter_list(self, it):
        return list(self.iterate(it))

    def truth(self, v):
        if isinstance(v, _MaybeSame):
            v = v.v
        if v is POISON:
            raise Unsupported("value unknown at loop head used")
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, (str, list, tuple, dict, set, frozenset)):
            return len(v) > 0
        if isinstance(v, Term):
            if v.sort == "B":
                return self.branch(v)
            if v.sort in ("I", "R"):
                return self.branch(not_(eq(v, ZERO)))
            raise Unsupported("truth of opaque value")
        if isinstance(v, Arr):
            n = NP.size(self, v)
            if n == 1:
                return self.truth(v.get(tuple(ZERO for _ in v.shape)))
            if n == 0:
                return False
            d = self.decide(eq(lift(n), ONE))
            if d is True:
                return self.truth(v.get(tuple(ZERO for _ in v.shape)))
            self.raise_("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Native):
            h = getattr(v, "py_truth", None)
            if h:
                return self.truth(h(self))
            h = getattr(v, "py_len", None)
            if h:
                return self.truth(h(self))
            return True
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, (PyFunc, Bound, Builtin, PyClass, Module)):
            return True
        raise Unsupported(f"truth of {type(v).__name__}")

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v in (float("inf"), float("-inf")) or v != v:
                return v
            return Fraction(repr(v)) if Fraction(repr(v)).denominator != 1 else Fraction(repr(v))
        if isinstance(v, (int, str, bool, type(None))) or v is Ellipsis:
            return v
        if isinstance(v, bytes):
            return v
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.vars and not (f.func == "class" and f is not fr):
                v = f.vars[e.id]
                if v is POISON:
                    raise Unsupported(f"variable {e.id} unknown at loop head")
                if isinstance(v, _MaybeSame):
                    return v.v
                return v
            f = f.parent
        ns = fr.module.ns
        if e.id in ns:
            return ns[e.id]
        if e.id in self.builtins:
            return self.builtins[e.id]
        self.raise_("NameError", e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.register(self._elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.register(set(self._elts(e.elts, fr)))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_list(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.key(self.eval(k, fr))] = self.eval(v, fr)
        return self.register(d)

    def e_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.eval(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Term) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, Term) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Term) and v.sort == "B":
                return _ub(not_(v))
            return not self.truth(v)
        if op == "USub":
            if isinstance(v, Arr):
                return NP.elementwise(self, neg, v)
            if isinstance(v, (int, Fraction, float)):
                return -v
            return NP.unlift(neg(lift(v)))
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Arr) and v.dtype == "B":
                return NP.elementwise(self, not_, v, dtype="B")
        raise Unsupported(f"unary {op}")

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, _MaybeSame):
            a = a.v
        if isinstance(b, _MaybeSame):
            b = b.v
        if a is POISON or b is POISON:
            raise Unsupported("value unknown at loop head used")
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == "MatMult":
                return NP.dot(self, a, b)
            f = _ARITH.get(op)
            if f is None:
                raise Unsupported(f"array operator {op}")
            if isinstance(a, float) or isinstance(b, float):
                raise Unsupported("inf arithmetic on arrays")
            if op == "Div":
                self.note_div(b)
            if op in ("BitAnd", "BitOr"):
                return NP.elementwise(self, f, a, b, dtype="B")
            return NP.elementwise(self, f, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, Native) and getattr(a, "py_binop", None):
                return a.py_binop(self, op, b)
            if op == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == "Mult" and isinstance(a, (int, str)) and isinstance(b, (int, str)):
                return a * b
            if op == "Mult":
                return ""
            if op == "Mod":
                bs = b if isinstance(b, tuple) else (b,)
                if isinstance(a, str) and all(isinstance(x, (str, int)) for x in bs):
                    return a % b
                return self.fresh("str", "S")
            if op == "Add" and (isinstance(a, Term) or isinstance(b, Term)):
                return _sconcat([a, b])
            self.raise_("TypeError", "str operand")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "Add":
            if type(a) is not type(b):
                self.raise_("TypeError", "concatenate")
            r = a + b
            return self.register(r) if isinstance(r, list) else r
        if isinstance(a, (list, tuple)) and op == "Mult":
            r = a * int(self.key(b))
            return self.register(r) if isinstance(r, list) else r
        if isinstance(b, (list, tuple)) and op == "Mult":
            return self.binop(op, b, a)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            f = {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "Sub": lambda: a - b, "BitXor": lambda: a ^ b}.get(op)
            if f:
                return self.register(set(f()))
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            return self.register({**a, **b})
        if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, PyClass) or isinstance(b, PyClass):
            if op == "BitOr":
                return a   # typing unions
            raise Unsupported(f"opaque operand {a!r} {b!r}")
        if isinstance(a, Obj) or isinstance(a, Native):
            h = getattr(a, "py_binop", None)
            if h:
                return h(self, op, b)
        if isinstance(b, Native) and getattr(b, "py_rbinop", None):
            return b.py_rbinop(self, op, a)
        if a is None or b is None:
            self.raise_("TypeError", "unsupported operand None")
        if isinstance(a, (bool,)):
            a = int(a)
        if isinstance(b, (bool,)):
            b = int(b)
        if isinstance(a, Term) and a.sort == "B" and op not in ("BitAnd", "BitOr"):
            a = ite(a, ONE, ZERO)
        if isinstance(b, Term) and b.sort == "B" and op not in ("BitAnd", "BitOr"):
            b = ite(b, ONE, ZERO)
        if isinstance(a, float) or isinstance(b, float):
            return self.inf_arith(op, a, b)
        if not isinstance(a, (int, Fraction, Term)) or not isinstance(b, (int, Fraction, Term)):
            raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")
        f = _ARITH.get(op)
        if f is None:
            raise Unsupported(f"operator {op}")
        if op in ("Div", "FloorDiv", "Mod"):
            if not isinstance(b, Term):
                if b == 0:
                    self.raise_("ZeroDivisionError", "division by zero")
            else:
                self.note_div(b)
        if not isinstance(a, Term) and not isinstance(b, Term):
            if op == "Pow":
                if isinstance(b, int) or b.denominator == 1:
                    r = Fraction(a) ** int(b)
                else:
                    return NP.unlift(T.pow_(lift(a), lift(b)))
            elif op == "Div":
                r = Fraction(a) / b
                return r
            elif op == "FloorDiv":
                r = Fraction(a) // b
                return int(r) if isinstance(a, int) and isinstance(b, int) else Fraction(r)
            elif op == "Mod":
                r = Fraction(a) % b
            elif op == "Add":
                r = a + b
            elif op == "Sub":
                r = a - b
            elif op == "Mult":
                r = a * b
            else:
                raise Unsupported(op)
            return int(r) if isinstance(a, int) and isinstance(b, int) and r.denominator == 1 else r
        return NP.unlift(f(lift(a), lift(b)))

    def note_div(self, b):
        if not isinstance(b, Arr):
            self.divisors.append(b)
        elif getattr(self, "note_array_divs", False):
            self.divisors.append(b.get(tuple(self.fresh("e", "I") for _ in b.shape)) if not all(T.is_const(d) and T.cval(d) == 1 for d in b.shape) else b.get(tuple(ZERO for _ in b.shape)))

    def inf_arith(self, op, a, b):
        if not isinstance(a, Term) and not isinstance(b, Term):
            a, b = float(a), float(b)
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b if b else float("inf")}[op]()
        inf = a if isinstance(a, float) else b
        oth = b if isinstance(a, float) else a
        if op == "Add" or (op == "Sub" and inf is a):
            return inf
        if op == "Sub":
            return -inf
        if op in ("Div", "Mult", "Pow"):
            # keep symbolic: 'inf' as an atom
            return NP.unlift(_ARITH[op](lift(a), lift(b)))
        raise Unsupported("inf arithmetic")

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if res is None:
                res = v
            else:
                if isinstance(v, bool) and isinstance(res, bool):
                    res = res and v
                else:
                    res = _ub(and_(lift(res), lift(v)))
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, _MaybeSame):
            a = a.v
        if isinstance(b, _MaybeSame):
            b = b.v
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, Term):
                return _ub(r if op == "In" else not_(r))
            return r if op == "In" else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            f = _CMP[op]
            if isinstance(a, (float,)) or isinstance(b, float):
                raise Unsupported("compare array with inf")
            if a is None or b is None:
                return op == "NotEq"
            return NP.elementwise(self, f, a, b, dtype="B")
        num = lambda x: isinstance(x, (int, Fraction, float, bool)) or (isinstance(x, Term) and x.sort in "IRB")
        if num(a) and num(b):
            if isinstance(a, float) or isinstance(b, float):
                return self.inf_cmp(op, a, b)
            if not isinstance(a, Term) and not isinstance(b, Term):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
            if isinstance(a, bool) and isinstance(b, Term) and b.sort != "B":
                a = int(a)
            if isinstance(b, bool) and isinstance(a, Term) and a.sort != "B":
                b = int(b)
            return _ub(_CMP[op](lift(a), lift(b)))
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort:
            r = eq(a, b)
            return _ub(r if op == "Eq" else not_(r))
        if op in ("Eq", "NotEq"):
            if isinstance(a, Native) and hasattr(a, "py_eq"):
                r = a.py_eq(self, b)
            elif isinstance(b, Native) and hasattr(b, "py_eq"):
                r = b.py_eq(self, a)
            elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is not type(b):
                r = False
            elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                if len(a) != len(b):
                    r = False
                else:
                    r = True
                    for x, y in zip(a, b):
                        q = self.compare("Eq", x, y)
                        if q is False:
                            r = False
                            break
                        if q is not True:
                            r = _ub(and_(lift(r), lift(q)))
            elif isinstance(a, Obj) or isinstance(b, Obj):
                r = a is b
                m = next((x.cls.lookup("__eq__")[0] for x in (a, b) if isinstance(x, Obj) and x.cls.lookup("__eq__")[0] is not None), None)
                if m is not None and not r:
                    raise Unsupported("user-defined equality")
                if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls.dataclass is not None and not r and a.cls.dataclass.get("eq", True):
                    fs = [f[0] if isinstance(f, tuple) else getattr(f, "name", f) for f in all_fields(a.cls)]
                    if not all(isinstance(f, str) and f in a.attrs and f in b.attrs for f in fs):
                        raise Unsupported("dataclass equality")
                    r = self.compare("Eq", tuple(a.attrs[f] for f in fs), tuple(b.attrs[f] for f in fs))
            elif isinstance(a, (str, type(None), dict, set, frozenset, PyClass, PyFunc)) or isinstance(b, (str, type(None))):
                if isinstance(a, Term) or isinstance(b, Term):
                    if a is None or b is None:
                        r = False
                    else:
                        r = _ub(eq(_sterm(a), _sterm(b)))
                else:
                    if isinstance(a, dict) and isinstance(b, dict) and not (_plain(a) and _plain(b)):
                        raise Unsupported("equality of dictionaries of symbolic values")
                    r = a == b
            else:
                raise Unsupported(f"== on {type(a).__name__}, {type(b).__name__}")
            if isinstance(r, Term):
                return _ub(r if op == "Eq" else not_(r))
            return bool(r) if op == "Eq" else not r
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (str, tuple)) and isinstance(b, type(a)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if a is None or b is None:
            self.raise_("TypeError", "comparison with None")
        raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")

    def inf_cmp(self, op, a, b):
        if not isinstance(a, Term) and not isinstance(b, Term):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        x = -1.0 if isinstance(a, Term) else None
        # finite symbolic versus +-inf
        if isinstance(a, Term):
            fa, fb = 0.0, float(b)
        else:
            fa, fb = float(a), 0.0
        return {"Eq": fa == fb, "NotEq": fa != fb, "Lt": fa < fb, "LtE": fa <= fb, "Gt": fa > fb, "GtE": fa >= fb}[op]

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Term) or isinstance(b, Term):
                raise Unsupported("identity of symbolic bool")
            return a is b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a is b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    def contains(self, c, x):
        if isinstance(c, Native):
            h = getattr(c, "py_contains", None)
            if h:
                return h(self, x)
        if isinstance(c, (list, tuple)):
            res = False
            for y in c:
                r = True if x is y else self.compare("Eq", x, y)
                if r is True:
                    return True
                if r is not False:
                    res = or_(lift(res), lift(r))
            return _ub(res) if isinstance(res, Term) else res
        if isinstance(c, (dict, set, frozenset)):
            if isinstance(x, Term) and not is_const(x):
                res = FALSE
                for y in c:
                    if isinstance(y, str) and x.sort != "S":
                        continue
                    res = or_(res, lift(self.compare("Eq", x, y)))
                return _ub(res)
            return self.key(x) in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Arr):
            return NP.allany(self, NP.elementwise(self, eq, c, x, dtype="B"), "any")
        if isinstance(c, Obj):
            m, _ = c.cls.lookup("__contains__")
            if m is not None:
                return self.call(Bound(m, c), [x], {})
        if isinstance(c, SymRange) and c.step in (1, -1):
            x = lift(x)
            if x.sort == "I":
                lo, hi = (c.start, c.stop) if c.step == 1 else (add(c.stop, ONE), add(c.start, ONE))
                return _ub(and_(le(lift(lo), x), lt(x, lift(hi))))
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        if isinstance(c, NP.ShapeV):
            return _ub(T.app("zero_in_shape", [lift(c.total)], "B"))
        raise Unsupported(f"in on {type(c).__name__}")

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        parts, sym = [], False
        for n, p in enumerate(e.values):
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            v = self.eval(p.value, fr)
            if hasattr(v, "py_format") and not p.format_spec and p.conversion == -1:
                if n == 0 and all(isinstance(q, ast.Constant) for q in e.values[1:]):
                    v = v.py_format(self)
                    return v.py_binop(self, "Add", "".join(q.value for q in e.values[1:])) if e.values[1:] else v
                raise Unsupported("formatted name")
            if isinstance(v, Term) and is_const(v):
                v = NP.unlift(v)
            if isinstance(v, (str, int, bool)) and not p.format_spec:
                parts.append(str(v))
            elif isinstance(v, Fraction):
                parts.append(str(float(v)))
            elif isinstance(v, Term):
                sym = True
                parts.append(v)
            else:
                sym = True
                parts.append(self.fresh("str", "S"))
        if not sym:
            return "".join(parts)
        return _sconcat(parts)

    def e_FormattedValue(self, e, fr):
        return self.eval(e.value, fr)

    def comp(self, gens, fr, emit):
        cf = Frame(fr.func if fr.func != "class" else None, fr.module, fr)
        self.frames.append(cf)

        def rec(i):
            if i == len(gens):
                emit(cf)
                return
            g = gens[i]
            it = self.eval(g.iter, cf if i else fr)
            for v in self.iterate(it):
                self.assign(g.target, v, cf)
                if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                    rec(i + 1)
        try:
            rec(0)
        finally:
            if self.frames and self.frames[-1] is cf:
                self.frames.pop()

    def e_ListComp(self, e, fr):
        sym = self.sym_comp(e, fr)
        if sym is not None:
            return sym
        out = []
        self.comp(e.generators, fr, lambda cf: out.append(self.eval(e.elt, cf)))
        return self.register(out)

    def sym_comp(self, e, fr):
        """[f(i) for i in <symbolic range>] -> symbolic vector"""
        it0 = self.eval(e.generators[0].iter, fr)
        if isinstance(it0, SymRange) and not is_const(P.simp(it0.n, self.facts)):
            return self.register(SymQuant(self, e, fr, it0))
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        it = it0
        if getattr(it, "py_symcomp", None) is not None:
            def body(x):
                out = []
                g = ast.comprehension(target=e.generators[0].target, iter=ast.Constant(0), ifs=[], is_async=0)
                cf = Frame(fr.func if fr.func != "class" else None, fr.module, fr)
                self.frames.append(cf)
                try:
                    self.assign(g.target, x, cf)
                    return self.eval(e.elt, cf)
                finally:
                    if self.frames and self.frames[-1] is cf:
                        self.frames.pop()
            return self.register(SymComp(it.py_symcomp(self, body)))
        return None

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        out = set()
        self.comp(e.generators, fr, lambda cf: out.add(self.eval(e.elt, cf)))
        return self.register(out)

    def e_DictComp(self, e, fr):
        out = {}

        def emit(cf):
            out[self.key(self.eval(e.key, cf))] = self.eval(e.value, cf)
        self.comp(e.generators, fr, emit)
        return self.register(out)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.vars:
            if e.args:
                c, s = [self.eval(a, fr) for a in e.args]
                return Super(c, s)
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            return Super(f.cls, f.self_)
        f = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_list(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, dict):
                    raise Unsupported("** of non-dict")
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.lineno = e.lineno
        return self.call(f, args, kw)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, PyFunc):
            q = f.qual
            c = self.contracts.get(q)
            if c is not None:
                r = c(self, f, list(args), dict(kw))
                if r is not NotImplemented:
                    return r
            self.inlined.add(f"{f.module.name}:{q}")
            return self.run(f, args, kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Native):
            h = getattr(f, "py_call", None)
            if h:
                return h(self, args, kw)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            self.raise_("TypeError", "not callable")
        if isinstance(f, Opaque):
            raise Unsupported(f"call of external {f.why}")
        if f is None:
            self.raise_("TypeError", "NoneType not callable")
        if isinstance(f, _MaybeSame):
            return self.call(f.v, args, kw)
        raise Unsupported(f"call of {f!r}")

    def bind_args(self, f, args, kw, vars_):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        n = len(pos)
        for nm, v in zip(pos, args):
            vars_[nm] = v
        if len(args) > n:
            if a.vararg is None:
                self.raise_("TypeError", f"{f.qual} takes {n} positional arguments")
            vars_[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for i, nm in enumerate(pos):
            if nm in vars_:
                if nm in kw:
                    self.raise_("TypeError", f"multiple values for {nm}")
                continue
            if nm in kw:
                vars_[nm] = kw.pop(nm)
            else:
                j = i - (n - len(f.defaults))
                if j >= 0:
                    vars_[nm] = f.defaults[j]
                else:
                    self.raise_("TypeError", f"{f.qual} missing argument {nm}")
        for x in a.kwonlyargs:
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vars_[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_("TypeError", f"{f.qual} missing keyword {x.arg}")
        if kw:
            if a.kwarg is None:
                self.raise_("TypeError", f"{f.qual} unexpected keyword {sorted(kw)}")
            vars_[a.kwarg.arg] = self.register(kw)
        elif a.kwarg is not None:
            vars_[a.kwarg.arg] = self.register({})

    def run(self, f, args, kw):
        self.depth += 1
        if self.depth > self.opts.get("max_depth", 60):
            self.depth -= 1
            if self.unroll:
                self.report.bounded_cut = True
                raise PathEnd("recursion bound")
            raise Unsupported("recursion depth")
        fr = Frame(f, f.module, f.closure)
        self.bind_args(f, args, kw, fr.vars)
        if f.cls is not None:
            fr.cls = f.cls
            fr.self_ = args[0] if args else None
        nframes = len(self.frames)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported("generator function")
            self.exec_block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
            del self.frames[nframes:]

    def instantiate(self, c, args, kw):
        con = self.contracts.get(c.name)
        if con is not None:
            r = con(self, c, list(args), dict(kw))
            if r is not NotImplemented:
                return r
        o = self.register(Obj(c, {}))
        init, owner = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif any(k.dataclass for k in c.mro):
            pass
        elif c.subclass_of(self.builtins["BaseException"]):
            o.attrs["args"] = tuple(args)
        elif args or kw:
            if any("__opaque__" in k.ns for k in c.mro):
                raise Unsupported(f"construction of {c.name} with external base")
            self.raise_("TypeError", f"{c.name}() takes no arguments")
        return o

    # ------------------------------------------------------------ builtins
    def _mk_builtins(self):
        B = self.builtins
        oc = self.object_cls
        B["object"] = oc
        exc = {"BaseException": [], "Exception": ["BaseException"]}
        B["BaseException"] = PyClass("BaseException", [oc], {})
        B["Exception"] = PyClass("Exception", [B["BaseException"]], {})
        for n, b in (("ArithmeticError", "Exception"), ("ValueError", "Exception"), ("TypeError", "Exception"), ("LookupError", "Exception"),
                     ("AttributeError", "Exception"), ("RuntimeError", "Exception"), ("AssertionError", "Exception"), ("NameError", "Exception"),
                     ("StopIteration", "Exception"), ("OSError", "Exception"), ("Warning", "Exception"), ("ImportError", "Exception")):
            B[n] = PyClass(n, [B[b]], {})
        for n, b in (("KeyError", "LookupError"), ("IndexError", "LookupError"), ("ZeroDivisionError", "ArithmeticError"), ("NotImplementedError", "RuntimeError"),
                     ("UserWarning", "Warning"), ("DeprecationWarning", "Warning"), ("RecursionError", "RuntimeError"), ("OverflowError", "ArithmeticError"), ("FileNotFoundError", "OSError")):
            B[n] = PyClass(n, [B[b]], {})

        def d(n):
            def deco(f):
                B[n] = Builtin(n, f)
                return f
            return deco

        @d("print")
        def _(I, ar, kw):
            I.printed += 1

        @d("range")
        def _(I, ar, kw):
            if any(isinstance(a, (float, Fraction)) and not isinstance(a, int) and Fraction(a).denominator != 1 for a in ar):
                I.raise_("TypeError", "float in range")
            ar = [lift(a) for a in ar]
            lo, hi, st = (ZERO, ar[0], ONE) if len(ar) == 1 else (ar[0], ar[1], ONE) if len(ar) == 2 else ar
            if not is_const(st):
                raise Unsupported("symbolic range step")
            s = int(cval(st))
            if is_const(lo) and is_const(hi):
                return range(int(cval(lo)), int(cval(hi)), s)
            if is_const(sub(hi, lo)):
                n = int(cval(sub(hi, lo)))
                return [NP.unlift(add(lo, const(i))) for i in range(0, n, s)]
            if s == 1:
                n = sub(hi, lo)
            elif s == -1:
                n = sub(lo, hi)
            else:
                raise Unsupported("range step")
            if I.decide(le(ZERO, n)) is not True:
                n = ite(le(ZERO, n), n, ZERO)
            return SymRange(lo, n, s)

        @d("reversed")
        def _(I, ar, kw):
            x = ar[0]
            if hasattr(x, "py_symitems") or (isinstance(x, Arr) and not isinstance(I.symbolic_items(x), type(None))):
                x = I.item_range(*I.symbolic_items(x))
            if isinstance(x, SymRange) and hasattr(x, "item"):
                return I.item_range(x.n, lambda k: x.item(sub(sub(x.n, ONE), k)))
            if isinstance(x, SymRange):
                last = add(x.start, sub(x.n, ONE)) if x.step == 1 else sub(x.start, sub(x.n, ONE))
                return SymRange(last, x.n, -x.step)
            return list(I.iter_list(x))[::-1]

        @d("len")
        def _(I, ar, kw):
            x = ar[0]
            if isinstance(x, _MaybeSame):
                x = x.v
            if isinstance(x, (list, tuple, dict, set, frozenset, str, range)):
                return len(x)
            if isinstance(x, Arr):
                return NP.unlift(x.shape[0])
            if isinstance(x, SymRange):
                return NP.unlift(x.n)
            if isinstance(x, Native) and hasattr(x, "py_len"):
                return x.py_len(I)
            if isinstance(x, Obj):
                m, _ = x.cls.lookup("__len__")
                if m is not None:
                    return I.call(Bound(m, x), [], {})
            raise Unsupported("len")

        @d("enumerate")
        def _(I, ar, kw):
            st = ar[1] if len(ar) > 1 else kw.get("start", 0)
            s = I.symbolic_items(ar[0])
            if s is not None:
                return I.item_range(s[0], lambda k: (NP.unlift(add(lift(st), k)), s[1](k)))
            return [(NP.unlift(add(lift(st), const(i))), v) for i, v in enumerate(I.iter_list(ar[0]))]

        @d("zip")
        def _(I, ar, kw):
            ss = [I.symbolic_items(a) for a in ar]
            if any(s is not None for s in ss):
                if any(s is None for s in ss) or any(I.decide(eq(s[0], ss[0][0])) is not True for s in ss):
                    raise Unsupported("zip of sequences of different or unknown length")
                return I.item_range(ss[0][0], lambda k: tuple(s[1](k) for s in ss))
            return list(zip(*[I.iter_list(a) for a in ar]))

        @d("map")
        def _(I, ar, kw):
            return [I.call(ar[0], list(xs), {}) for xs in zip(*[I.iter_list(a) for a in ar[1:]])]

        @d("filter")
        def _(I, ar, kw):
            return [x for x in I.iter_list(ar[1]) if I.truth(I.call(ar[0], [x], {}) if ar[0] is not None else x)]

        def mm(nm, op):
            def f(I, ar, kw):
                xs = I.iter_list(ar[0]) if len(ar) == 1 else ar
                if not xs:
                    if "default" in kw:
                        return kw["default"]
                    I.raise_("ValueError", "empty sequence")
                if kw.get("key"):
                    raise Unsupported("min/max key")
                r = xs[0]
                for y in xs[1:]:
                    if isinstance(r, str):
                        r = (max if nm == "max" else min)(r, y)
                        continue
                    # python semantics: max keeps first unless later strictly greater
                    c = I.compare("Gt" if nm == "max" else "Lt", y, r)
                    if c is True:
                        r = y
                    elif c is False:
                        pass
                    else:
                        if isinstance(c, Arr):
                            r = y if I.truth(c) else r
                        else:
                            r = ite(c, lift(y), lift(r))
                return r
            return f
        B["max"] = Builtin("max", mm("max", None))
        B["min"] = Builtin("min", mm("min", None))

        @d("abs")
        def _(I, ar, kw):
            if isinstance(ar[0], Arr):
                return NP.elementwise(I, T.abs_, ar[0])
            if isinstance(ar[0], (int, Fraction, float)):
                return abs(ar[0])
            return NP.unlift(T.abs_(lift(ar[0])))

        @d("sum")
        def _(I, ar, kw):
            x = ar[0]
            if isinstance(x, Arr):
                return NP.total_sum(I, x, 0) if x.ndim > 1 else NP.unlift(NP.total_sum(I, x))
            r = ar[1] if len(ar) > 1 else kw.get("start", 0)
            for y in I.iter_list(x):
                r = I.binop("Add", r, y)
            return r

        @d("isinstance")
        def _(I, ar, kw):
            return I.isinstance(ar[0], ar[1])

        @d("issubclass")
        def _(I, ar, kw):
            if isinstance(ar[0], PyClass) and isinstance(ar[1], PyClass):
                return ar[0].subclass_of(ar[1])
            I.raise_("TypeError", "issubclass() arg 1 must be a class")

        @d("hasattr")
        def _(I, ar, kw):
            try:
                I.getattr(ar[0], ar[1])
                return True
            except PyExc as e:
                if e.obj.cls.subclass_of(I.builtins["AttributeError"]):
                    return False
                raise

        @d("getattr")
        def _(I, ar, kw):
            try:
                return I.getattr(ar[0], ar[1])
            except PyExc as e:
                if len(ar) > 2 and e.obj.cls.subclass_of(I.builtins["AttributeError"]):
                    return ar[2]
                raise

        @d("setattr")
        def _(I, ar, kw):
            I.setattr(ar[0], ar[1], ar[2])

        @d("vars")
        def _(I, ar, kw):
            return ar[0].attrs

        @d("callable")
        def _(I, ar, kw):
            x = ar[0]
            return isinstance(x, (PyFunc, Bound, Builtin, PyClass)) or (isinstance(x, Native) and hasattr(x, "py_call"))

        @d("id")
        def _(I, ar, kw):
            return id(ar[0])

        @d("sorted")
        def _(I, ar, kw):
            xs = I.iter_list(ar[0])
            if kw.get("key") is not None:
                ks = [I.call(kw["key"], [x], {}) for x in xs]
                if not all(_ordered(k) for k in ks):
                    raise Unsupported("sorted")
                o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
                return I.register([xs[i] for i in o])
            if all(_ordered(x) for x in xs):
                return I.register(sorted(xs, reverse=bool(kw.get("reverse", False))))
            if len(xs) <= 5 and all(isinstance(x, (int, Fraction)) or (isinstance(x, Term) and x.sort in "IR") for x in xs) and not kw.get("key"):
                out = []
                for x in xs:
                    p = len(out)
                    while p and I.branch(lift(I.compare("Lt", x, out[p - 1]))):
                        p -= 1
                    out.insert(p, x)
                return I.register(out[::-1] if I.truth(kw.get("reverse", False)) else out)
            raise Unsupported("sorted")

        @d("any")
        def _(I, ar, kw):
            if isinstance(ar[0], Arr):
                return NP.allany(I, ar[0], "any")
            if isinstance(ar[0], SymComp):
                return ar[0].none(I, lambda v: v)
            for x in I.iter_list(ar[0]):
                if I.truth(x):
                    return True
            return False

        @d("all")
        def _(I, ar, kw):
            if isinstance(ar[0], Arr):
                return NP.allany(I, ar[0], "all")
            if isinstance(ar[0], SymQuant):
                return ar[0].quantify(I, "all")
            for x in I.iter_list(ar[0]):
                if not I.truth(x):
                    return False
            return True

        @d("iter")
        def _(I, ar, kw):
            return iter(I.iter_list(ar[0]))

        @d("next")
        def _(I, ar, kw):
            try:
                return next(ar[0])
            except StopIteration:
                if len(ar) > 1:
                    return ar[1]
                I.raise_("StopIteration")

        @d("round")
        def _(I, ar, kw):
            raise Unsupported("round")

        @d("divmod")
        def _(I, ar, kw):
            return (I.binop("FloorDiv", ar[0], ar[1]), I.binop("Mod", ar[0], ar[1]))

        @d("pow")
        def _(I, ar, kw):
            return I.binop("Pow", ar[0], ar[1])

        @d("repr")
        def _(I, ar, kw):
            return "<repr>"

        def ty(nm, ctor, pred):
            c = PyClass(nm, [oc], {})
            c.pred = pred
            c.ctor = ctor
            B[nm] = TypeObj(c, nm, ctor, pred)
        num = lambda x: isinstance(x, (int, Fraction, float)) and not isinstance(x, bool)
        ty("int", lambda I, ar, kw: I.to_int(ar[0]) if ar else 0, lambda x: (isinstance(x, int)) or (isinstance(x, Term) and x.sort == "I"))
        ty("float", lambda I, ar, kw: I.to_float(ar[0]) if ar else Fraction(0), lambda x: isinstance(x, (Fraction, float)) or (isinstance(x, Term) and x.sort == "R"))
        ty("bool", lambda I, ar, kw: I.truth(ar[0]) if ar else False, lambda x: isinstance(x, bool) or (isinstance(x, Term) and x.sort == "B"))
        ty("str", lambda I, ar, kw: (ar[0] if isinstance(ar[0], (str, Term)) and not (isinstance(ar[0], Term) and ar[0].sort != "S") else
                                     str(ar[0]) if isinstance(ar[0], int) else str(float(ar[0])) if isinstance(ar[0], Fraction) else T.app("fstr", [_sterm(ar[0])], "S") if isinstance(ar[0], Term)
                                     else _str_of(I, ar[0])) if ar else "",
           lambda x: isinstance(x, str) or (isinstance(x, Term) and x.sort == "S"))
        ty("list", lambda I, ar, kw: I.register(I.iter_list(ar[0]) if ar else []), lambda x: isinstance(x, list))
        ty("tuple", lambda I, ar, kw: (tuple(I.iter_list(ar[0])) if not isinstance(ar[0], NP.ShapeV) else ar[0]) if ar else (), lambda x: isinstance(x, tuple))
        ty("dict", lambda I, ar, kw: I.register(dict(ar[0] if ar and isinstance(ar[0], dict) else (I.iter_list(ar[0]) if ar else []), **kw)), lambda x: isinstance(x, dict))
        ty("set", lambda I, ar, kw: ar[0].py_set(I) if ar and hasattr(ar[0], "py_set") else I.register(set(I.iter_list(ar[0]) if ar else [])), lambda x: isinstance(x, set))
        ty("frozenset", lambda I, ar, kw: ar[0].py_set(I) if ar and hasattr(ar[0], "py_set") else frozenset(I.iter_list(ar[0]) if ar else []), lambda x: isinstance(x, frozenset))
        ty("slice", lambda I, ar, kw: SliceV(*( [None, ar[0], None] if len(ar) == 1 else list(ar) + [None] * (3 - len(ar)))), lambda x: isinstance(x, SliceV))
        ty("complex", lambda I, ar, kw: ar[0], lambda x: False)
        B["type"] = TypeObj(PyClass("type", [oc], {}), "type", lambda I, ar, kw: I.type_of(ar[0]), lambda x: isinstance(x, PyClass))
        B["Ellipsis"] = Ellipsis
        B["NotImplemented"] = Opaque("NotImplemented")
        B["property"] = Builtin("property", lambda I, ar, kw: Prop(ar[0]))
        B["staticmethod"] = Builtin("staticmethod", lambda I, ar, kw: Static(ar[0]))
        B["classmethod"] = Builtin("classmethod", lambda I, ar, kw: ClsM(ar[0]))
        B["super"] = Builtin("super", None)
        B["open"] = Opaque("open")
        B["__name__"] = "verif"
        B["True"], B["False"], B["None"] = True, False, None

    def to_int(self, x):
        if isinstance(x, (int, Fraction)):
            return int(x)
        if isinstance(x, Term) and x.sort == "I":
            return x
        if isinstance(x, Term) and x.sort == "B":
            return 1 if self.truth(x) else 0
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError as e:
                self.raise_("ValueError", str(e))
        if isinstance(x, Term) and x.kind == "app" and x.args[0] == "fstr" and len(x.args[1]) == 1 and x.args[1][0].sort == "I":
            return x.args[1][0]     # decimal representation of an integer
        raise Unsupported("int()")

    def to_float(self, x):
        if isinstance(x, Arr):
            if all(NP.same_dim(self, d, ONE) for d in x.shape):
                return x.get(tuple(ZERO for _ in x.shape))
            raise Unsupported("float(array)")
        if isinstance(x, int):
            return Fraction(x)
        if isinstance(x, str):
            return float(x) if x in ("inf", "-inf", "nan") else Fraction(x)
        return x

    def type_of(self, x):
        if isinstance(x, Obj):
            return x.cls
        if isinstance(x, Arr):
            return self.ndarray_cls
        for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set"):
            if self.builtins[n].pred(x):
                return self.builtins[n]
        if x is None:
            return PyClass("NoneType", [self.object_cls], {})
        raise Unsupported("type()")

    def isinstance(self, x, c):
        if isinstance(x, _MaybeSame):
            x = x.v
        if isinstance(c, tuple):
            return any(self.isinstance(x, k) for k in c)
        if isinstance(c, TypeObj):
            return bool(c.pred(x))
        if c is self.ndarray_cls:
            return isinstance(x, Arr)
        if isinstance(c, PyClass):
            if isinstance(x, Obj):
                return x.cls.subclass_of(c)
            if isinstance(x, Native) and hasattr(x, "py_class"):
                return x.py_class(self).subclass_of(c)
            return False
        raise Unsupported(f"isinstance with {c!r}")

    # ------------------------------------------------------------ stub modules
    def _mk_stubs(self):
        S = self.stubs
        np_ = NP.make_numpy(self)
        S["numpy"] = np_
        S["numpy.linalg"] = np_.ns["linalg"]
        ident = Builtin("identity", lambda I, ar, kw: ar[0])
        S["abc"] = Module("abc", {"ABC": PyClass("ABC", [self.object_cls], {}), "abstractmethod": ident, "ABCMeta": PyClass("ABCMeta", [self.object_cls], {})})
        S["dataclasses"] = Module("dataclasses", {"dataclass": Builtin("dataclass", _dataclass), "field": Builtin("field", _field), "replace": Opaque("replace"), "fields": Builtin("fields", _fields), "asdict": Opaque("asdict")})
        S["copy"] = Module("copy", {"deepcopy": Builtin("deepcopy", lambda I, ar, kw: deepcopy_(I, ar[0], {})), "copy": Builtin("copy", lambda I, ar, kw: shallow(I, ar[0]))})
        S["warnings"] = Module("warnings", {"warn": Builtin("warn", lambda I, ar, kw: I.warned.append(ar[0] if ar else None))})
        S["typing"] = Module("typing", {n: Opaque(n) for n in ("Union", "Callable", "Optional", "Tuple", "List", "Dict", "Any", "Iterable", "Sequence")})
        S["collections.abc"] = Module("collections.abc", {n: Opaque(n) for n in ("Callable", "Iterable", "Sequence", "Mapping")})
        S["time"] = Module("time", {"perf_counter": Builtin("perf_counter", lambda I, ar, kw: I.fresh("clock")), "time": Builtin("time", lambda I, ar, kw: I.fresh("clock"))})
        S["itertools"] = Module("itertools", {"chain": Builtin("chain", lambda I, ar, kw: I.register(SymChain(ar)) if any(hasattr(a, "py_symiter") for a in ar) else [x for a in ar for x in I.iter_list(a)]),
                                             "product": Builtin("product", lambda I, ar, kw: list(itertools.product(*[I.iter_list(a) for a in ar]))),
                                             "accumulate": Opaque("accumulate")})
        S["functools"] = Module("functools", {"partial": Builtin("partial", _partial), "reduce": Builtin("reduce", _reduce), "wraps": Builtin("wraps", lambda I, ar, kw: ident)})
        S["math"] = Module("math", {"inf": float("inf"), "sqrt": np_.ns["sqrt"], "exp": np_.ns["exp"], "prod": np_.ns["prod"], "isclose": Opaque("isclose"), "pi": np_.ns["pi"], "fabs": np_.ns["abs"], "isinf": np_.ns["isinf"]})
        S["operator"] = Module("operator", {"mul": Builtin("mul", lambda I, ar, kw: I.binop("Mult", *ar)), "add": Builtin("add", lambda I, ar, kw: I.binop("Add", *ar))})
        for f in STUB_EXT:
            f(self, S)


STUB_EXT = []


class Opaque:
    """something outside the model; any use is unsupported"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<opaque {self.why}>"


class _MaybeSame:
    """loop-carried object variable (same object assumed; checked by the frame rule of the loop)"""
    def __init__(self, v):
        self.v = v


class TypeObj(Native):
    def __init__(self, cls, name, ctor, pred):
        self.cls, self.name, self.ctor, self.pred = cls, name, ctor, pred

    def py_call(self, I, args, kw):
        return self.ctor(I, args, kw)

    def py_getattr(self, I, name):
        if name == "__name__":
            return self.name
        if name == "fromkeys":
            return Builtin("fromkeys", lambda I, ar, kw: I.register(dict.fromkeys(I.iter_list(ar[0]), ar[1] if len(ar) > 1 else None)))
        raise Unsupported(f"{self.name}.{name}")

    def py_getitem(self, I, k):
        return self

    def py_binop(self, I, op, b):
        return self

    def py_rbinop(self, I, op, a):
        return self

    def __repr__(self):
        return f"<type {self.name}>"


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def get(self, I, name):
        c = self.self_.cls if isinstance(self.self_, Obj) else self.self_
        if isinstance(c, PyClass):
            mro = c.mro
            i = mro.index(self.cls)
            for k in mro[i + 1:]:
                if name in k.ns:
                    v = k.ns[name]
                    if isinstance(v, Prop):
                        return I.call(Bound(v.fget, self.self_), [], {})
                    if isinstance(v, Static):
                        return v.fn
                    if isinstance(v, ClsM):
                        return Bound(v.fn, c)
                    if isinstance(v, (PyFunc, Builtin)):
                        return Bound(v, self.self_)
                    return v
            if name == "__init__":
                return Builtin("object.__init__", lambda I, ar, kw: None)
            if any("__opaque__" in k.ns for k in mro[i + 1:]):
                raise Unsupported(f"super().{name} of external base")
            I.raise_("AttributeError", f"super.{name}")
        raise Unsupported("super")


class FieldV:
    def __init__(self, kw):
        self.kw = kw


def _field(I, ar, kw):
    return FieldV(kw)


def _fields(I, ar, kw):
    c = ar[0].cls if isinstance(ar[0], Obj) else ar[0]
    out = []
    for n, dflt in all_fields(c):
        out.append(I.register(Obj(PyClass("Field", [I.object_cls], {}), {"name": n})))
    return out


def all_fields(c):
    fs = {}
    for k in reversed(c.mro):
        if k.dataclass is not None:
            for n, dflt in k.fields:
                fs[n] = dflt
    return list(fs.items())


class SymComp(Native):
    """comprehension over a symbolic sequence: value at an arbitrary element"""

    def __init__(self, v):
        self.v = v

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def none(self, I, f):
        """False when f fails for the arbitrary element"""
        v = f(self.v)
        if v is False or (isinstance(v, Term) and I.decide(v) is False):
            return False
        raise Unsupported("existence in a symbolic sequence")

    def py_contains(self, I, x):
        return self.none(I, lambda v: I.compare("Eq", v, x))


class SymQuant(SymComp):
    """comprehension over symbolic ranges, to be quantified by any()/all()"""

    def __init__(self, I, e, fr, it):
        self.e, self.fr, self.it = e, fr, it

    def quantify(self, I, which, f=lambda v: v):
        e, fr = self.e, self.fr
        cf = Frame(fr.func if fr.func != "class" else None, fr.module, fr)
        I.frames.append(cf)
        saved, ntr = I.facts, len(I.trace)
        vs, dims, guard = [], [], []
        try:
            for i, g in enumerate(e.generators):
                it = self.it if i == 0 else I.eval(g.iter, cf)
                if isinstance(it, range):
                    if it.step != 1:
                        raise Unsupported("step in a symbolic comprehension")
                    it = SymRange(lift(it.start), lift(len(it)))
                if not isinstance(it, SymRange):
                    raise Unsupported("symbolic comprehension over other sequences")
                lo = it.start if it.step == 1 else add(sub(it.start, it.n), ONE)
                hi = add(lo, it.n)
                v = fresh_bound()
                own = {x.args[0] for x in vs}
                d = hi
                if set(hi.fv) & own:
                    d = next((x for x in dims if I.decide(le(hi, x)) is True), None)
                if d is None or I.decide(le(ZERO, lo)) is not True:
                    raise Unsupported("bounds of a symbolic comprehension")
                vs.append(v)
                dims.append(d)
                c = and_(le(lo, v), lt(v, hi))
                guard.append(c)
                I.assume(c)
                I.assign(g.target, v, cf)
                for cond in g.ifs:
                    c = self.bool(I, I.eval(cond, cf))
                    guard.append(c)
                    I.assume(c)
            body = P.simp(self.bool(I, f(I.eval(e.elt, cf))), I.facts)
            if len(I.trace) != ntr:
                raise Unsupported("branching comprehension body")
        finally:
            I.facts = saved
            if I.frames and I.frames[-1] is cf:
                I.frames.pop()
        if which == "any":
            body = not_(body)
        body = or_(*[not_(c) for c in guard], body)
        r = T.app("forall", [T.lam(vs, dims, body)], "B")
        return not_(r) if which == "any" else r

    def bool(self, I, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, Term):
            return v if v.sort == "B" else not_(eq(v, ZERO))
        raise Unsupported("truth in a symbolic comprehension")

    def none(self, I, f):
        return self.quantify(I, "any", f)


class SymChain(Native):
    def __init__(self, parts):
        self.parts = parts

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_symiter(self, I, st, fr):
        st2 = copy_for(st)
        for p in self.parts:
            h = getattr(p, "py_symiter", None)
            if any(isinstance(n, (ast.Break,)) for n in ast.walk(st)):
                raise Unsupported("break in a loop over a chain")
            if h is not None:
                h(I, st2, fr)
            else:
                for v in I.iter_list(p):
                    I.assign(st.target, v, fr)
                    try:
                        I.exec_block(st.body, fr)
                    except ContinueEx:
                        pass
        I.exec_block(st.orelse, fr)


class _Recheck(ast.stmt):
    _fields = ()

    def __init__(self, expr=None, value=None):
        self.expr, self.value, self.lineno, self.col_offset = expr, value, getattr(expr, "lineno", 0), 0


class _SetVar(ast.stmt):
    _fields = ()

    def __init__(self, name=None, value=None):
        self.name, self.value, self.lineno, self.col_offset = name, value, 0, 0


def _while_true(st):
    """`while True: if c: break; rest` is `while not c: rest`"""
    f = st.body[0]
    if isinstance(st.test, ast.Constant) and st.test.value is True and not st.orelse and len(st.body) > 1 and isinstance(f, ast.If) and not f.orelse \
            and len(f.body) == 1 and isinstance(f.body[0], ast.Break):
        t = f.test.operand if isinstance(f.test, ast.UnaryOp) and isinstance(f.test.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), f.test), f.test)
        r = _DESUGARED.get(id(st))
        if r is None or r[0] is not st:
            r = _DESUGARED[id(st)] = (st, ast.copy_location(ast.While(test=t, body=st.body[1:], orelse=[]), st))
        return r[1]
    return st


_DESUGARED = {}


def copy_for(st):
    r = ast.For(target=st.target, iter=st.iter, body=st.body, orelse=[], type_comment=None)
    return ast.copy_location(r, st)


def _ordered(x):
    """value that Python compares as the program would"""
    if isinstance(x, tuple):
        return all(_ordered(y) for y in x)
    return isinstance(x, (int, str, Fraction, float))


def _plain(x):
    if isinstance(x, (dict, list, tuple)):
        return all(_plain(y) for y in (list(x.values()) if isinstance(x, dict) else x))
    return isinstance(x, (str, int, Fraction, float, type(None), PyClass))


def _str_of(I, x):
    """str(x): texts of exceptions; anything else is some text"""
    a = x.attrs.get("args") if isinstance(x, Obj) else None
    if isinstance(a, tuple) and len(a) == 1 and x.cls.lookup("__str__")[0] is None and isinstance(a[0], (str, Term)) and x.cls.name != "KeyError":
        return a[0]
    return I.fresh("str", "S")


def _dataclass(I, ar, kw):
    def deco(I, ar2, kw2):
        c = ar2[0]
        c.dataclass = kw
        ann = c.ns.get("__annotations__", {})
        c.fields = [(n, c.ns.get(n, FieldV({"_none": True}))) for n, t in ann.items() if not t.startswith("ClassVar")]
        for n, dflt in list(c.fields):
            if isinstance(dflt, FieldV) and n in c.ns:
                if "default" in dflt.kw:
                    c.ns[n] = dflt.kw["default"]
                else:
                    del c.ns[n]
        if kw.get("init", True) and "__init__" not in c.ns:
            flds = all_fields(c)

            def init(I, ar, kws, flds=flds, c=c):
                self_, ar = ar[0], list(ar[1:])
                names = [n for n, d in flds if not (isinstance(d, FieldV) and "init" in d.kw and not d.kw["init"]) and not (isinstance(d, FieldV) and d.kw.get("kw_only"))]
                kwonly = [n for n, d in flds if isinstance(d, FieldV) and d.kw.get("kw_only")]
                if len(ar) > len(names):
                    I.raise_("TypeError", f"{c.name} takes {len(names)} arguments")
                given = dict(zip(names, ar))
                for k, v in kws.items():
                    if k in given or k not in names + kwonly:
                        I.raise_("TypeError", f"{c.name} unexpected argument {k}")
                    given[k] = v
                for n, d in flds:
                    if n in given:
                        I.setattr(self_, n, given[n])
                    elif isinstance(d, FieldV):
                        if "default" in d.kw:
                            I.setattr(self_, n, d.kw["default"])
                        elif "default_factory" in d.kw:
                            I.setattr(self_, n, I.call(d.kw["default_factory"], [], {}))
                        elif n in names + kwonly:
                            I.raise_("TypeError", f"{c.name} missing argument {n}")
                    else:
                        I.setattr(self_, n, d)
                pi, _ = self_.cls.lookup("__post_init__")
                if pi is not None:
                    I.call(Bound(pi, self_), [], {})
            c.ns["__init__"] = Builtin(f"{c.name}.__init__", init)
        return c
    if ar:
        return deco(I, ar, {})
    return Builtin("dataclass", deco)


def _partial(I, ar, kw):
    f, a0 = ar[0], ar[1:]
    return Builtin("partial", lambda I, ar2, kw2: I.call(f, a0 + ar2, {**kw, **kw2}))


def _reduce(I, ar, kw):
    xs = I.iter_list(ar[1])
    r = ar[2] if len(ar) > 2 else xs.pop(0)
    for x in xs:
        r = I.call(ar[0], [r, x], {})
    return r


def deepcopy_(I, x, memo):
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, _MaybeSame):
        x = x.v
    if isinstance(x, Arr):
        r = NP.copy(I, x)
        memo[id(x)] = r
        return r
    if isinstance(x, Obj):
        m, _ = x.cls.lookup("__deepcopy__")
        if m is not None:
            return I.call(Bound(m, x), [I.register({})], {})
        r = I.register(Obj(x.cls, {}, x.label + "'"))
        memo[id(x)] = r
        for k, v in x.attrs.items():
            r.attrs[k] = deepcopy_(I, v, memo)
        return r
    if isinstance(x, list):
        r = I.register([])
        memo[id(x)] = r
        r.extend(deepcopy_(I, v, memo) for v in x)
        return r
    if isinstance(x, tuple):
        return tuple(deepcopy_(I, v, memo) for v in x)
    if isinstance(x, dict):
        r = I.register({})
        memo[id(x)] = r
        for k, v in x.items():
            r[k] = deepcopy_(I, v, memo)
        return r
    if isinstance(x, set):
        return I.register(set(x))
    if isinstance(x, Native):
        h = getattr(x, "py_deepcopy", None)
        if h is None:
            raise Unsupported(f"deepcopy of {type(x).__name__}")
        r = h(I, memo)
        memo[id(x)] = r
        return r
    return x


def shallow(I, x):
    if isinstance(x, Arr):
        return NP.copy(I, x)
    if isinstance(x, Obj):
        return I.register(Obj(x.cls, dict(x.attrs), x.label + "'"))
    if isinstance(x, (list, dict, set)):
        return I.register(type(x)(x))
    return x


def _ub(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return t


def _sconcat(parts):
    """concatenation of strings and of the decimal representations of integers"""
    out = []
    for p in parts:
        if isinstance(p, Term) and p.kind == "app" and p.args[0] == "fstr":
            ps = [x.args[0][4:] if x.kind == "var" and x.sort == "S" and x.args[0].startswith("str:") else x for x in p.args[1]]
        else:
            ps = [p]
        for x in ps:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "" or not isinstance(x, str):
                out.append(x)
    if len(out) == 1 and isinstance(out[0], Term) and out[0].sort == "S":
        return out[0]
    return T.app("fstr", [_sterm(x) for x in out], "S")


def _sterm(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, str):
        return var("str:" + x, "S")
    return lift(x)


def _floordiv(a, b):
    if a.sort == "I" and b.sort == "I":
        return T.app("idiv", [a, b], "I")
    raise Unsupported("real floor division")


def _mod(a, b):
    if a.sort == "I" and b.sort == "I":
        return T.app("imod", [a, b], "I")
    raise Unsupported("real mod")


_ARITH = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": T.pow_, "FloorDiv": _floordiv, "Mod": _mod,
          "BitAnd": and_, "BitOr": or_}
_CMP = {"Eq": eq, "NotEq": lambda a, b: not_(eq(a, b)), "Lt": lt, "LtE": le, "Gt": lambda a, b: lt(b, a), "GtE": lambda a, b: le(b, a)}


def _targets(st):
    out = []
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Assign):
        for t in st.targets:
            out += [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        out.append(st.target.id)
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        out += [(a.asname or a.name).split(".")[0] for a in st.names]
    return out


_an_cache = {}


def _assigned_names(body):
    key = id(body)
    if key in _an_cache and _an_cache[key][0] is body:
        return _an_cache[key][1]
    out = []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    _an_cache[key] = (body, out)  # keeps the list alive: its id is the key
    return out


# ------------------------------------------------------------ exploration of all paths
class Report:
    """obligation results of one verification unit"""
    def __init__(self, unit):
        self.unit = unit
        self.results = {}       # name -> [Result...]
        self.unsupported = []
        self.paths = 0
        self.bounded_cut = False
        self.inlined = set()
        self.divisors = 0
        self.assumed = []

    def add(self, name, r, I, kind="post"):
        self.results.setdefault(name, []).append((r, kind, list(x for x, _ in I.trace), I.facts))

    def counts(self):
        tot = ok = 0
        for rs in self.results.values():
            for r, *_ in rs:
                tot += 1
                ok += r.status == "proved"
        return tot, ok

    def failures(self):
        out = []
        for n, rs in self.results.items():
            for r, kind, tr, facts in rs:
                if r.status != "proved":
                    out.append((n, r, kind, tr, facts))
        return out


def explore(unit, run, contracts=None, opts=None, max_paths=400, setup=None):
    rep = Report(unit)
    work = [[]]
    live = False
    while work:
        pre = work.pop()
        if rep.paths >= max_paths:
            rep.unsupported.append("path limit reached")
            break
        rep.paths += 1
        I = Interp(pre, contracts, rep, opts)
        try:
            run(I)
        except PathEnd:
            pass
        except Unsupported as e:
            rep.unsupported.append(f"{e} (line {getattr(I, 'lineno', '?')})")
        except RecursionError:
            rep.unsupported.append("recursion limit")
        except (ReturnEx, BreakEx, ContinueEx) as e:
            rep.unsupported.append(f"stray control flow {type(e).__name__}")
        if not live and I.facts is not None:
            # vacuity: the assumptions of at least one path must not be contradictory
            live = P.feasible(frozenset(I.facts))
        rep.inlined |= I.inlined
        rep.divisors += len(I.divisors)
        for i in range(len(pre), len(I.trace)):
            d, n = I.trace[i]
            for alt in range(d + 1, n):
                work.append([x for x, _ in I.trace[:i]] + [alt])
    if not live and rep.results:
        rep.unsupported.append("vacuous: the assumptions of every path are contradictory")
    return rep
