"""C18: the shipped stage components satisfy their stage equations; products are the derivatives of
what the code computes (symbolic differentiation of the executed terms), reverse products their
transpose, linear solves the inverse."""
from .common import *
from pyvc import npmodel as NP

UT, SL, KP, PR = PKG + ".utils.utility_components", PKG + ".odes.simple_linear_ode", PKG + ".odes.kaps", PKG + ".odes.prothero_robinson_ode"
FILES = ["rkopenmdao/utils/utility_components.py", "rkopenmdao/odes/simple_linear_ode.py", "rkopenmdao/odes/kaps.py", "rkopenmdao/odes/prothero_robinson_ode.py",
         "rkopenmdao/components.py", "rkopenmdao/om_data_exchange.py"]
FUNCS = ["StageValueComponent.*", "StageUpdateComponent.*", "SimpleLinearODE.setup/compute/compute_jacvec_product", "KapsComponent1.*", "KapsComponent2.*", "KapsGroup.initialize/setup",
         "ProtheroRobinson.initialize/setup/compute/phi/d_phi"]
ASSUMPTIONS = ["contract of OpenMDAO vectors: v[name] is the live data of the variable, assignment broadcasts into it, `name in v` tells whether the variable takes part in the product",
               "OpenMDAO calls linearize at the point before products and linear solves at that point",
               "the stage equation is solvable: step_size*stage_factor != 0 for the stage update, the linearised stage equation is regular, the discriminant of the Kaps stage equation is non-negative",
               "exact derivatives of sin, cos, sqrt; machine floats as reals"]
RT_NOTE = "real OpenMDAO problems: stage equations, products against exact derivatives, transposes, linear solves, restricted sets of variables, nested solvers"
LEVEL = "proved for arbitrary data, sizes, step sizes, stage factors and subsets of variables"


class QN(Native):
    """name of the k-th quantity, with a suffix"""

    def __init__(self, k, suf=""):
        self.k, self.suf = k, suf

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def __repr__(self):
        return f"quantity[{self.k}]{self.suf}"

    def py_binop(self, I, op, o):
        if op == "Add" and isinstance(o, str):
            return QN(self.k, self.suf + o)
        raise Unsupported("quantity name " + op)

    def py_format(self, I):
        return self


class Vec(Native):
    """an OpenMDAO vector restricted to a component"""

    def __init__(self, I, name, roles, K, length, masked):
        self.I, self.name, self.K, self.length, self.masked = I, name, K, length, masked
        self.roles = {}
        for r in roles:
            b = Buf((K, length(None)), lambda ix, r=r: app(f"{name}:{r}", list(ix)), "R", f"{name}.{r}")
            I.register(b)
            self.roles[r] = b
        self.start = {r: b._fn for r, b in self.roles.items()}
        I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def reset(self, gen):
        for r, b in self.roles.items():
            b.setfn(lambda ix, r=r: app(f"{gen}:{r}", list(ix)))
            self.start[r] = b._fn

    def resolve(self, n):
        if isinstance(n, QN) and n.suf in self.roles:
            return n.suf, lift(n.k)
        if isinstance(n, str) and n in self.roles:
            return n, ZERO
        self.I.raise_("KeyError", str(n))

    def has(self, r, k):
        return app(f"wanted:{self.name}:{r}", [k], "B") if self.masked else T.TRUE

    def view(self, n):
        r, k = self.resolve(n)
        return Arr(self.roles[r], [("f", k), ("r", ZERO, 1, self.length(k))])

    def py_getitem(self, I, n):
        return self.view(n)

    def py_setitem(self, I, n, val):
        a = self.view(n)
        if isinstance(val, Arr) and val.ndim:
            if val.buf is a.buf and val.axes == a.axes:
                return
            f = content(val)
            I.oblige("size of data written to a variable", eqs=(val.shape[0], a.shape[0]))
            a.write(lambda ix: f(ix))
        else:
            x = num(I, val)
            a.write(lambda ix: x)

    def py_contains(self, I, n):
        if isinstance(n, str) and n not in self.roles:
            return False
        h = self.has(*self.resolve(n))
        return True if h is T.TRUE else h

    def py_iterlist(self, I):
        if not all(isinstance(r, str) for r in self.roles) or not T.is_const(self.K):
            raise Unsupported("iteration over a vector")
        return [r for r in self.roles if not self.masked or I.branch(self.has(r, ZERO))]

    def py_getattr(self, I, name):
        if name == "keys":
            return Builtin(name, lambda I2, ar, kw: I2.register(self.py_iterlist(I2)))
        raise Unsupported("vector." + name)

    def at(self, r, k, i):
        return self.roles[r].read((k, i))


# ------------------------------------------------------------------ differentiation of executed terms
def derive(t, leaf, memo=None):
    """derivative of t in the direction given by leaf(app) -> Term or None"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    k = t.kind
    if k == "var":
        r = ZERO
    elif k == "poly":
        out = []
        for mono, c in t.args:
            for p, (a, e) in enumerate(mono):
                da = derive(a, leaf, memo)
                if da is ZERO:
                    continue
                f = mul(const(c * e), T.powi(a, e - 1), da)
                for q, (b, g) in enumerate(mono):
                    if q != p:
                        f = mul(f, T.powi(b, g))
                out.append(f)
        r = add(*out) if out else ZERO
    elif k == "app":
        f, ar = t.args
        d = leaf(t)
        if d is not None:
            r = d
        elif f == "inv":
            r = mul(T.neg(T.powi(t, 2)), derive(ar[0], leaf, memo))
        elif f == "sqrt":
            r = mul(const(Fraction(1, 2)), T.inv(t), derive(ar[0], leaf, memo))
        elif f == "sin":
            r = mul(app("cos", ar), derive(ar[0], leaf, memo))
        elif f == "cos":
            r = mul(T.neg(app("sin", ar)), derive(ar[0], leaf, memo))
        elif f == "exp":
            r = mul(t, derive(ar[0], leaf, memo))
        elif all(derive(a, leaf, memo) is ZERO for a in ar if a.sort != "B" and a.kind != "lam") and not any(a.kind == "lam" for a in ar):
            r = ZERO
        else:
            raise Unsupported(f"derivative of {f}")
    elif k == "ite":
        r = ite(t.args[0], derive(t.args[1], leaf, memo), derive(t.args[2], leaf, memo))
    elif k == "sum":
        binders, body = t.args
        r = derive(body, leaf, {})
        for n, lo, hi in reversed(binders):
            r = sum_(var(n, "I"), lo, hi, r) if not isinstance(n, Term) else sum_(n, lo, hi, r)
    else:
        raise Unsupported("derivative of " + k)
    memo[t] = r
    return r


def divisors_of(t, out, memo):
    if t in memo:
        return
    memo.add(t)
    if t.kind == "poly":
        for mono, c in t.args:
            for a, e in mono:
                if e < 0:
                    out.add(a)
                divisors_of(a, out, memo)
    elif t.kind == "app":
        if t.args[0] == "inv":
            out.add(t.args[1][0])
        for a in t.args[1]:
            divisors_of(a, out, memo)
    elif t.kind == "ite":
        for a in t.args[1:]:
            divisors_of(a, out, memo)


class Comp:
    """one shipped component, its vectors and its data exchange"""

    def __init__(self, I, cls, ins, outs, implicit=False, K=None, n=None, length=None, opts=None):
        self.I, self.implicit = I, implicit
        self.h, self.a = var("h"), var("a")
        self.K = ONE if K is None else K
        self.n = n if n is not None else ONE
        self.length = length or (lambda k: self.n)
        self.comp = I.call(I.get(cls), [], opts or {})
        ex = I.getattr(self.comp, "om_data_exchange")
        I.setattr(ex, "step_size", self.h)
        I.setattr(ex, "stage_factor", self.a)
        self.ins, self.outs = list(ins), list(outs)
        mk = lambda nm, roles, m: Vec(I, nm, roles, self.K, self.length, m)
        self.x, self.y = mk("x", self.ins, False), mk("y", self.outs, False)
        self.res = mk("res", self.outs, False)
        self.dx, self.dy, self.dr = mk("dx", self.ins, True), mk("dy", self.outs, True), mk("dr", self.outs, True)
        I.note_array_divs = True

    def call(self, name, *args, **kw):
        return self.I.call(self.I.getattr(self.comp, name), list(args), kw)

    def has_method(self, name):
        return self.comp.cls.lookup(name)[0] is not None

    def generic(self, fn):
        """run fn(k, i) for an arbitrary entry"""
        I = self.I
        saved = I.facts
        k = ZERO if self.K is ONE else I.fresh("k", "I")
        I.assume(le(ZERO, k), lt(k, self.K))
        if self.length(k) is ONE:
            i = ZERO
        else:
            i = I.fresh("i", "I")
            I.assume(le(ZERO, i), lt(i, self.length(k)))
        fn(k, i)
        I.facts = saved

    def total(self, fn):
        """sum of fn(k, i) over all entries"""
        if self.K is ONE:
            k = ZERO
            v = fresh_bound()
            return fn(k, ZERO) if self.length(k) is ONE else sum_(v, ZERO, self.length(k), fn(k, v))
        k, v = fresh_bound(), fresh_bound()
        return sum_(k, ZERO, self.K, sum_(v, ZERO, self.length(k), fn(k, v)))

    def untouched(self, what, *vecs):
        for v in vecs:
            for r in v.roles:
                f = v.start[r]
                self.generic(lambda k, i: self.I.oblige(f"{what}: {v.name}[{r}] is not modified", eqs=(v.at(r, k, i), f((k, i)))))

    def defined(self, what, *terms):
        """no division by zero anywhere in the computation"""
        I = self.I
        out = set(lift(d) for d in I.divisors if not isinstance(d, float))
        memo = set()
        for t in terms:
            divisors_of(t, out, memo)
        todo = set()
        for d in out:
            for mono, c in (T._as_dict(d).items() if len(T._as_dict(d)) == 1 else ()):
                todo |= {a for a, e in mono}
            if len(T._as_dict(d)) != 1:
                todo.add(d)
        ok = True
        for d in sorted(todo, key=lambda t: t.id):
            if d.kind == "app" and d.args[0] == "inv":
                continue
            ok = I.oblige(f"{what}: no division by zero", goal=not_(eq(d, ZERO))) and ok

    # derivative of the entry (r, k, i) of f in direction dx (and dy)
    def deriv(self, t, xdir, ydir=None, xname="x", yname="y"):
        def leaf(a):
            f, ar = a.args
            if f.startswith(xname + ":"):
                return xdir(f.split(":", 1)[1], ar[0], ar[1]) if xdir else ZERO
            if f.startswith(yname + ":"):
                return ydir(f.split(":", 1)[1], ar[0], ar[1]) if ydir else ZERO
            return None
        return derive(t, leaf)

    def masked(self, v, nm=None):
        return lambda r, k, i: ite(v.has(r, k), app(f"{nm or v.name}:{r}", [k, i]), ZERO)


def flow_products(S, what, f, out_vec, call):
    """check both products against the derivative of f(r)(k, i).
    out_vec: vector of the results (d_outputs of explicit, d_residuals of implicit components)"""
    I = S.I
    ydir = S.masked(S.dy) if S.implicit else None
    J = lambda r, k, i: S.deriv(f[r]((k, i)), S.masked(S.dx), ydir)
    vecs_in = [S.dx] + ([S.dy] if S.implicit else [])
    saved = I.facts

    def fwd():
        I.divisors = type(I.divisors)()
        call("fwd")
        for r in S.outs:
            def one(k, i):
                got = out_vec.at(r, k, i)
                want = ite(out_vec.has(r, k), add(out_vec.start[r]((k, i)), J(r, k, i)), out_vec.start[r]((k, i)))
                I.oblige(f"{what}: forward product of {r} is the derivative", eqs=(got, want))
                S.defined(what + ": forward product", got)
            S.generic(one)
        S.untouched(what + ": forward product", S.x, S.y, *vecs_in)

    def rev():
        I.divisors = type(I.divisors)()
        call("rev")
        w = lambda r, k, i: ite(out_vec.has(r, k), out_vec.start[r]((k, i)), ZERO)
        # <w, J v> = <J^T w, v> for the directions v (fresh symbols)
        vdir = lambda v: (lambda r, k, i: ite(v.has(r, k), app(f"v_{v.name}:{r}", [k, i]), ZERO))
        Jv = lambda r, k, i: S.deriv(f[r]((k, i)), vdir(S.dx), vdir(S.dy) if S.implicit else None)
        got, want = [], []
        for r in S.outs:
            want.append(S.total(lambda k, i: mul(w(r, k, i), Jv(r, k, i))))
        for v in vecs_in:
            for r in v.roles:
                got.append(S.total(lambda k, i: mul(sub(v.at(r, k, i), v.start[r]((k, i))), app(f"v_{v.name}:{r}", [k, i]))))
        I.oblige(f"{what}: reverse product is the transpose", eqs=(add(*got), add(*want)))
        for v in vecs_in:
            for r in v.roles:
                S.generic(lambda k, i: I.oblige(f"{what}: reverse product leaves {r} alone unless asked for", eqs=(ite(v.has(r, k), ZERO, v.at(r, k, i)), ite(v.has(r, k), ZERO, v.start[r]((k, i))))))
                S.generic(lambda k, i: S.defined(what + ": reverse product", v.at(r, k, i)))
        S.untouched(what + ": reverse product", S.x, S.y, out_vec)
    (fwd if I.choose(2) == 0 else rev)()
    I.facts = saved


def explicit(what, mk, equation, deriv=True):
    """equation(S, y, x) -> list of (name, lhs, rhs) holding for outputs y(r, k, i) and inputs x(r, k, i)"""
    def run(I):
        S = mk(I)
        S.call("compute", S.x, S.y)
        f = {r: S.y.roles[r]._fn for r in S.outs}
        f = {r: (lambda ix, g=content_of(S.y.roles[r]): g(ix)) for r in S.outs}

        def one(k, i):
            for nm, l, r in equation(S, lambda r: f[r]((k, i)), lambda r: app(f"x:{r}", [k, i]), k, i):
                I.oblige(f"{what}: {nm}", eqs=(l, r))
            S.defined(what, *[f[r]((k, i)) for r in S.outs])
        S.generic(one)
        S.untouched(what + ": compute", S.x)
        if deriv:
            def call(mode):
                S.y.reset("y")
                S.call("compute_jacvec_product", S.x, S.dx, S.dy, mode)
            flow_products(S, what, f, S.dy, call)
    return run


def content_of(b):
    f = b._fn
    return lambda ix: f(tuple(ix))


def implicit(what, mk, equation, branch=None):
    def run(I):
        S = mk(I)
        part = I.choose(4)
        if part == 0:
            # the computed solution satisfies the stage equation and has vanishing residuals
            S.call("solve_nonlinear", S.x, S.y)
            y = {r: content_of(S.y.roles[r]) for r in S.outs}
            S.defined(what, *[y[r]((ZERO, ZERO)) for r in S.outs])
            for nm, l, r in equation(S, lambda r: y[r]((ZERO, ZERO)), lambda r: app(f"x:{r}", [ZERO, ZERO]), ZERO, ZERO):
                I.oblige(f"{what}: solution satisfies {nm}", eqs=(l, r))
            if branch:
                g = branch(S, lambda r: y[r]((ZERO, ZERO)))
                I.assume(*[le(ZERO, s) for s in P.apps_in(g) if s.args[0] == "sqrt"])      # square roots are non-negative
                I.oblige(f"{what}: solution on the branch of the old state", goal=g)
            S.call("apply_nonlinear", S.x, S.y, S.res)
            for r in S.outs:
                I.oblige(f"{what}: residual {r} vanishes at the solution", eqs=(S.res.at(r, ZERO, ZERO), ZERO))
            S.untouched(what + ": nonlinear solve", S.x)
            for r in S.outs:
                I.oblige(f"{what}: residuals leave {r} alone", eqs=(S.y.at(r, ZERO, ZERO), y[r]((ZERO, ZERO))))
            return
        S.call("apply_nonlinear", S.x, S.y, S.res)
        f = {r: content_of(S.res.roles[r]) for r in S.outs}
        S.untouched(what + ": residual", S.x, S.y)
        S.res.reset("res")
        if part == 1:
            # vanishing residuals imply the documented equations
            I.hyps = tuple(I.hyps) + tuple(f[r]((ZERO, ZERO)) for r in S.outs)
            for nm, l, r in equation(S, lambda r: app(f"y:{r}", [ZERO, ZERO]), lambda r: app(f"x:{r}", [ZERO, ZERO]), ZERO, ZERO):
                I.oblige(f"{what}: vanishing residuals imply {nm}", eqs=(l, r))
            return
        lin = lambda: S.call("linearize", S.x, S.y, None) if S.has_method("linearize") else None
        if part == 2:
            lin()

            def call(mode):
                S.call("apply_linear", S.x, S.y, S.dx, S.dy, S.dr, mode)
            flow_products(S, what, f, S.dr, call)
            return
        # linear solves, after two linearisations at different points
        mode = "fwd" if I.choose(2) == 0 else "rev"
        pts = ["y", "z"]
        for p in pts:
            S.y.reset(p)
            S.x.reset("x")
            lin()
        S.dy.masked = S.dr.masked = False
        I.divisors = type(I.divisors)()
        det = S.det("z") if hasattr(S, "det") else None
        S.call("solve_linear", S.dy, S.dr, mode)
        # residuals at the last point
        g = {r: S.deriv(T.subst(f[r]((ZERO, ZERO)), {}), None, lambda q, k, i: (S.dy.at(q, ZERO, ZERO) if mode == "fwd" else app(f"v:{q}", [ZERO, ZERO]))) for r in S.outs}
        g = {r: rename(t, "y:", "z:") for r, t in g.items()}
        if mode == "fwd":
            for r in S.outs:
                I.oblige(f"{what}: forward solve inverts the linearised residual ({r})", eqs=(g[r], S.dr.start[r]((ZERO, ZERO))))
            S.untouched(what + ": forward solve", S.dr, S.x, S.y)
        else:
            I.oblige(f"{what}: reverse solve inverts the transposed linearised residual",
                     eqs=(add(*[mul(S.dr.at(r, ZERO, ZERO), g[r]) for r in S.outs]), add(*[mul(S.dy.start[r]((ZERO, ZERO)), app(f"v:{r}", [ZERO, ZERO])) for r in S.outs])))
            S.untouched(what + ": reverse solve", S.dy, S.x, S.y)
        v = S.dy if mode == "fwd" else S.dr
        S.defined(what + ": linear solve", *[v.at(r, ZERO, ZERO) for r in S.outs])
    return run


def rename(t, a, b, memo=None):
    """rename applications whose symbol starts with a"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.kind == "app":
        ar = [rename(x, a, b, memo) for x in t.args[1]]
        f = t.args[0]
        r = T.app(b + f[len(a):], ar, t.sort) if f.startswith(a) else T.rebuild_app(t, ar)
    elif t.kind == "poly":
        out = []
        for mono, c in t.args:
            f = const(c)
            for x, e in mono:
                f = mul(f, T.powi(rename(x, a, b, memo), e))
            out.append(f)
        r = add(*out) if out else ZERO
    elif t.kind == "ite":
        r = ite(*[rename(x, a, b, memo) for x in t.args])
    elif t.kind in ("le", "lt", "eq"):
        r = T.rebuild(t, [rename(x, a, b, memo) for x in t.args])
    else:
        r = t
    memo[t] = r
    return r


# ------------------------------------------------------------------ the components
def roles_of(I, S, q):
    """names of the variables of quantity q by their tags"""
    out = {}
    for n, d in S.comp.attrs["io"].items():
        t = list(d.get("tags") or [])
        for r in ("step_input_var", "accumulated_stage_var", "stage_output_var"):
            if r in t and q in t:
                truth(I, f"{r} of {q} is tagged once", r not in out and len(t) == 2, repr(n))
                truth(I, f"{r} of {q} is an {'output' if r[-10:] == 'output_var' else 'input'}", d["kind"] == ("output" if r == "stage_output_var" else "input"))
                out[r] = n
    truth(I, f"tags of {q} are complete", len(out) == 3, repr(out))
    if len(out) != 3:
        raise PathEnd()
    return out["step_input_var"], out["accumulated_stage_var"], out["stage_output_var"]


def stage_value(tag, n=None):
    def mk(I):
        nn = I.fresh("n", "I") if n is None else lift(n)
        I.assume(le(ZERO, nn))
        S = Comp(I, UT + ":StageValueComponent", ["stage_slope", "old_value", "acc_stages"], ["stage_value"], n=nn, opts=dict(tag="q") if tag else {})
        S.call("setup")
        io = S.comp.attrs["io"]
        truth(I, "variables", set(io) == {"stage_slope", "old_value", "acc_stages", "stage_value"} and io["stage_value"]["kind"] == "output" and
              all(io[x]["kind"] == "input" for x in ("stage_slope", "old_value", "acc_stages")), repr(list(io)))
        want = {"old_value": ["q", "step_input_var"], "acc_stages": ["q", "accumulated_stage_var"]} if tag else {}
        for x in io:
            truth(I, f"tags of {x}", sorted(io[x].get("tags") or []) == sorted(want.get(x, [])), repr(io[x].get("tags")))
        return S
    return mk


def eq_value(S, y, x, k, i):
    yield "stage value = old + h (accumulated + a slope)", y("stage_value"), add(x("old_value"), mul(S.h, add(x("acc_stages"), mul(S.a, x("stage_slope")))))


def stage_update(K=None, n=None):
    def mk(I):
        if K is None:
            KK, w = I.fresh("K", "I"), I.fresh("width", "I")
            I.assume(le(ZERO, KK), le(ZERO, w))

            def length(k):
                if k is None:
                    return w
                l = app("len", [k], "I")
                I.assume(le(ZERO, l), le(l, w))
                return l
            ql = SymList(I, KK, lambda k: QN(k))
        else:
            KK, w = lift(K), lift(n)
            length = lambda k: w
            ql = I.register([QN(k) for k in range(K)])
        S = Comp(I, UT + ":StageUpdateComponent", ["", "_old", "_acc_stages"], ["_update"], K=KK, length=length, opts=dict(quantity_list=ql))
        I.assume(not_(eq(S.h, ZERO)), not_(eq(S.a, ZERO)))
        return S
    return mk


def eq_update(S, y, x, k, i):
    yield "value = old + h (accumulated + a update)", x(""), add(x("_old"), mul(S.h, add(x("_acc_stages"), mul(S.a, y("_update")))))


def update_setup(I):
    """names and tags of the stage update component, for 0 to 3 quantities"""
    names = ["u", "v", "w"][:I.choose(4)]
    c = I.call(I.get(UT + ":StageUpdateComponent"), [], dict(quantity_list=I.register(list(names))))
    I.call(I.getattr(c, "setup"), [], {})
    io = c.attrs["io"]
    want = {}
    for n in names:
        want.update({n: ("input", [], n), n + "_old": ("input", [n, "step_input_var"], n), n + "_acc_stages": ("input", [n, "accumulated_stage_var"], n), n + "_update": ("output", [n, "stage_output_var"], n)})
    truth(I, "variables of the stage update", {n: (d["kind"], sorted(d.get("tags") or [])) for n, d in io.items()} == {n: (k, sorted(t)) for n, (k, t, _) in want.items()}, repr(io))
    truth(I, "every variable has the shape of its quantity", all(d.get("shape_by_conn") or want[d.get("copy_shape", n)][2] == want[n][2] for n, d in io.items() if n in want), repr(io))


def simple(I):
    S0 = Comp(I, SL + ":SimpleLinearODE", [], [])
    S0.call("setup")
    old, acc, out = roles_of(I, S0, "y")
    S = Comp(I, SL + ":SimpleLinearODE", [old, acc], [out])
    S.names = old, acc, out
    truth(I, "no further variables", set(S0.comp.attrs["io"]) == {old, acc, out})
    I.assume(not_(eq(add(ONE, mul(S.h, S.a)), ZERO)))
    return S


def eq_simple(S, y, x, k, i):
    old, acc, out = S.names
    yield "slope = -(old + h (accumulated + a slope))", y(out), T.neg(add(x(old), mul(S.h, add(x(acc), mul(S.a, y(out))))))


def prothero(I):
    lam = var("lambda")
    S0 = Comp(I, PR + ":ProtheroRobinson", [], [], opts=dict(lambda_=lam))
    S0.call("setup")
    old, acc, out = roles_of(I, S0, "x")
    io = S0.comp.attrs["io"]
    ts = [n for n in io if n not in (old, acc, out)]
    truth(I, "one time variable besides", len(ts) == 1 and io[ts[0]]["tags"] == ["time_variable"] and io[ts[0]]["kind"] == "input", repr(io))
    S = Comp(I, PR + ":ProtheroRobinson", [old, acc, ts[0]], [out], opts=dict(lambda_=lam))
    S.names, S.lam = (old, acc, out, ts[0]), lam
    I.assume(not_(eq(sub(ONE, mul(lam, S.h, S.a)), ZERO)))
    # the forcing is consistent: d_phi is the derivative of phi = sin(t + pi/4)
    t = app("x:" + ts[0], [ZERO, ZERO])
    S.phi = num(I, I.call(I.getattr(S.comp, "phi"), [t], {}))
    S.dphi = num(I, I.call(I.getattr(S.comp, "d_phi"), [t], {}))
    I.oblige("phi(t) = sin(t + pi/4)", eqs=(S.phi, app("sin", [add(t, mul(app("pi", []), const(Fraction(1, 4))))])))
    I.oblige("d_phi is the derivative of phi", eqs=(S.dphi, derive(S.phi, lambda a: ONE if a is t else None)))
    iv = I.call(I.getattr(S.comp, "get_initial_values"), [], {})
    I.oblige("the initial value is phi(0)", eqs=(num(I, iv), num(I, I.call(I.getattr(S.comp, "phi"), [0], {}))))
    return S


def eq_prothero(S, y, x, k, i):
    old, acc, out, _ = S.names
    yield "slope = lambda (value - phi(t)) + phi'(t)", y(out), add(mul(S.lam, sub(add(x(old), mul(S.h, add(x(acc), mul(S.a, y(out))))), S.phi)), S.dphi)


def kaps(c):
    def mk(I):
        eps = var("eps")
        o = dict(epsilon=eps) if c == 1 else {}
        cls = f"{KP}:KapsComponent{c}"
        S0 = Comp(I, cls, [], [], opts=o)
        S0.call("setup")
        me, other = f"y_{c}", f"y_{3 - c}"
        old, acc, out = roles_of(I, S0, me)
        io = S0.comp.attrs["io"]
        truth(I, "coupling variables", set(io) == {old, acc, out, me, other} and io[me]["kind"] == "output" and io[other]["kind"] == "input", repr(list(io)))
        S = Comp(I, cls, [old, acc, other], [me, out], implicit=True, opts=o)
        S.names, S.eps = (old, acc, other, me, out), eps
        ha, x = mul(S.h, S.a), lambda r: app("x:" + r, [ZERO, ZERO])
        if c == 1:
            I.assume(lt(ZERO, eps), not_(eq(add(eps, mul(ha, add(ONE, mul(lift(2), eps)))), ZERO)))
        else:
            I.assume(not_(eq(S.h, ZERO)))
            # discriminant of y2 + h a y2^2 ... = 0
            z = add(x(old), mul(S.h, x(acc)))
            I.assume(le(ZERO, add(T.powi(add(ONE, ha), 2), mul(lift(4), ha, add(z, mul(ha, x(other)))))))
            for p in ("y", "z"):
                I.assume(not_(eq(add(ONE, ha, mul(lift(2), ha, app(p + ":" + me, [ZERO, ZERO]))), ZERO)))
        return S
    return mk


def eq_kaps(c):
    def f(S, y, x, k, i):
        old, acc, other, me, out = S.names
        yield "value = old + h (accumulated + a slope)", y(me), add(x(old), mul(S.h, add(x(acc), mul(S.a, y(out)))))
        if c == 1:
            yield "epsilon slope = -(1 + 2 epsilon) y_1 + y_2^2", mul(S.eps, y(out)), sub(T.powi(x(other), 2), mul(add(ONE, mul(lift(2), S.eps)), y(me)))
        else:
            yield "slope = y_1 - y_2 - y_2^2", y(out), sub(sub(x(other), y(me)), T.powi(y(me), 2))
    return f


def root(S, y):
    me = S.names[3]
    return le(ZERO, add(ONE, mul(S.h, S.a, add(ONE, mul(lift(2), y(me))))))


def units(tier):
    u = [("stage value (tagged)", explicit("stage value", stage_value(True), eq_value), {}, {}),
         ("stage value (untagged)", explicit("stage value", stage_value(False), eq_value), {}, {}),
         ("stage update", explicit("stage update", stage_update(), eq_update), {}, {}),
         ("linear model", explicit("linear model", simple, eq_simple), {}, {}),
         ("Prothero-Robinson", explicit("Prothero-Robinson", prothero, eq_prothero, deriv=False), {}, {}),
         ("Kaps 1", implicit("Kaps 1", kaps(1), eq_kaps(1)), {}, {}),
         ("Kaps 2", implicit("Kaps 2", kaps(2), eq_kaps(2), root), {}, {}),
         ("Kaps group", group, {}, {})]
    return u


def group(I):
    """both components share their variables and see the given epsilon"""
    eps = var("eps")
    added = I.register([])
    def add_subsystem(I2, ar, kw):
        d = argmap(I2, ["self", "name", "subsys", "promotes_inputs", "promotes_outputs", "promotes"], ar, {k: v for k, v in kw.items()}) if len(ar) + len(kw) == 6 else dict(zip(["self", "name", "subsys"], ar), **kw)
        added.append((d["name"], d["subsys"], d.get("promotes"), d.get("promotes_inputs"), d.get("promotes_outputs")))
        return d["subsys"]
    g = I.call(I.get(KP + ":KapsGroup"), [], dict(epsilon=eps))
    g.attrs["add_subsystem"] = Builtin("add_subsystem", lambda I2, ar, kw: add_subsystem(I2, [g] + list(ar), kw))
    I.call(I.getattr(g, "setup"), [], {})
    by = {s.cls.name: (s, p) for _, s, p, _, _ in added}
    truth(I, "both components, all variables promoted", len(added) == 2 and len({n for n, *_ in added}) == 2 and set(by) == {"KapsComponent1", "KapsComponent2"} and all(list(p or []) == ["*"] for _, p in by.values()), repr(added))
    if "KapsComponent1" in by:
        I.oblige("epsilon of the group is that of the component", eqs=(lift(I.getitem(I.getattr(by["KapsComponent1"][0], "options"), "epsilon")), eps))
    iv = I.call(I.getattr(g, "get_initial_values"), [], {})
    for k in range(2):
        I.oblige("initial values of Kaps' problem", eqs=(iv.get((lift(k),)), ONE))


def always(tier):
    u = [("setup of the stage update", update_setup, {}, {})]
    return u


def bounded(tier, ints=()):
    u = [("stage value, n=2", explicit("stage value", stage_value(True, 2), eq_value), {}, {})]
    u += [(f"stage update, {K} quantities of length {n}", explicit("stage update", stage_update(K, n), eq_update), {}, {}) for K, n in ((1, 1), (1, 2), (2, 1))]
    return u + [x for x in units(tier) if x[0] not in ("stage update",)]
