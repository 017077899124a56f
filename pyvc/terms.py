"""Hash-consed term language of the verifier.

Scalars are kept in polynomial normal form over atoms (variables, uninterpreted
applications, conditionals, symbolic sums, powers); equality of two polynomials over the
same atoms is therefore identity.  Machine floats are modelled as mathematical reals.
"""
from fractions import Fraction
import itertools

_table = {}
_counter = itertools.count()


class Term:
    __slots__ = ("kind", "args", "sort", "id", "depth", "fv", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # operator sugar (used by specs)
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)


def _mk(kind, args, sort):
    key = (kind, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term.__new__(Term)
    t.kind, t.args, t.sort = kind, args, sort
    t.id = next(_counter)
    t._h = hash(t.id)
    t.depth, t.fv = _meta(kind, args)
    _table[key] = t
    return t


def _meta(kind, args):
    d, fv = 0, frozenset()
    if kind == "var":
        return 0, frozenset([args[0]])
    if kind == "poly":
        for mono, _ in args:
            for a, _e in mono:
                d = max(d, a.depth)
                fv |= a.fv
        return d, fv
    if kind == "app":
        for a in args[1]:
            d = max(d, a.depth)
            fv |= a.fv
        return d, fv
    if kind == "sum":
        binders, body = args
        d, fv = body.depth, body.fv
        names = set()
        for n, lo, hi in binders:
            d = max(d, lo.depth, hi.depth)
            fv |= lo.fv | hi.fv
            names.add(n)
        return d + len(binders), fv - names
    if kind == "lam":
        names, dims, body = args
        d, fv = body.depth, body.fv
        fv = fv - set(names)
        for m in dims:
            d = max(d, m.depth)
            fv |= m.fv
        return d + 1, fv
    if kind in ("true", "false"):
        return 0, frozenset()
    for a in args:
        d = max(d, a.depth)
        fv |= a.fv
    return d, fv


# ---------------------------------------------------------------- constructors
TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def var(name, sort="R"):
    return _mk("var", (name,), sort)


def const(c):
    c = Fraction(c)
    if c == 0:
        return _mk("poly", (), "I")
    return _mk("poly", (((), c),), "I" if c.denominator == 1 else "R")


ZERO, ONE = const(0), const(1)


def boolc(b):
    return TRUE if b else FALSE


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return boolc(x)
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return var("$inf" if x > 0 else "$-inf", "R")
        return const(Fraction(repr(x)))
    raise TypeError(f"cannot lift {type(x).__name__} {x!r}")


def is_const(t):
    return t.kind == "poly" and (t.args == () or (len(t.args) == 1 and t.args[0][0] == ()))


def cval(t):
    return t.args[0][1] if t.args else Fraction(0)


def _as_dict(t):
    if t.kind == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    sort = "I"
    for m, c in items:
        if c.denominator != 1 or any(a.sort != "I" or e < 0 for a, e in m):
            sort = "R"
            break
    return _mk("poly", tuple(items), sort)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _as_dict(t).items():
            d[m] = d.get(m, 0) + c
    return _from_dict(d)


def neg(t):
    return scale(t, -1)


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return _from_dict({m: k * c for m, k in _as_dict(t).items()})


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        td = _as_dict(t)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in td.items():
                m = _mono_mul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        r = {m: c for m, c in n.items() if c != 0}
    return _from_dict(r)


def powi(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(t, -n))
    d = _as_dict(t)
    if len(d) == 1:
        (m, c), = d.items()
        return _from_dict({tuple((a, e * n) for a, e in m): c ** n})
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def inv(t):
    d = _as_dict(t)
    if not d:
        return app("inv", [ZERO], "R")
    if len(d) == 1:
        (m, c), = d.items()
        return _from_dict({tuple((a, -e) for a, e in m): 1 / c})
    # primitive part: leading coefficient 1
    items = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    lead = items[-1][1]
    p = scale(t, 1 / lead)
    return scale(_mk("app", ("inv", (p,)), "R"), 1 / lead)


def div(a, b):
    return mul(a, inv(b))


def app(f, args, sort="R"):
    if f == "forall" and args[0].args[2] is TRUE:
        return TRUE
    return _mk("app", (f, tuple(args)), sort)


NONNEG = set()      # terms known to be non-negative


def pow_(a, b):
    if a.kind == "app" and a.args[0] == "pow" and a.args[1][0] in NONNEG and mul(a.args[1][1], b) is ONE:
        # the b-th power of the b-th root of a non-negative number
        return a.args[1][0]
    if a.kind == "app" and a.args[0] == "sqrt" and a.args[1][0] in NONNEG and is_const(b) and cval(b) == 2:
        return a.args[1][0]
    if is_const(b):
        c = cval(b)
        if c.denominator == 1:
            return powi(a, int(c))
        if c == Fraction(1, 2):
            return sqrt(a)
    if is_const(a) and cval(a) == 1:
        return ONE
    if b is ZERO:
        return ONE
    return app("pow", [a, b])


def sqrt(a):
    if is_const(a):
        c = cval(a)
        import math
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    return app("sqrt", [a])


# ---- booleans
def le0(p):
    if is_const(p):
        return boolc(cval(p) <= 0)
    return _mk("le", (_norm_ineq(p),), "B")


def lt0(p):
    if is_const(p):
        return boolc(cval(p) < 0)
    if p.sort == "I":  # integer strictness
        return le0(add(p, ONE))
    return _mk("lt", (_norm_ineq(p),), "B")


def _norm_ineq(p):
    d = _as_dict(p)
    lead = abs(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[-1][1])
    if p.sort == "I":
        from math import gcd
        g = 0
        for c in d.values():
            g = gcd(g, int(abs(c)))
        return scale(p, Fraction(1, g)) if g > 1 and all(int(c) % g == 0 for c in d.values()) else p
    return scale(p, 1 / lead)


def eq0(p):
    if is_const(p):
        return boolc(cval(p) == 0)
    d = _as_dict(p)
    items = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return _mk("eq", (scale(p, 1 / items[-1][1]) if p.sort != "I" else (p if items[-1][1] > 0 else neg(p)),), "B")


def le(a, b): return le0(sub(a, b))
def lt(a, b): return lt0(sub(a, b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        if a.sort == "B" and b.sort == "B":
            return and_(or_(not_(a), b), or_(a, not_(b)))
        raise TypeError("eq of bool and non-bool")
    if a.sort in ("O", "S") or b.sort in ("O", "S"):
        if a.sort == "S" and b.sort == "S" and a.kind == "var" and b.kind == "var":
            pass
        x, y = (a, b) if a.id < b.id else (b, a)
        return _mk("oeq", (x, y), "B")
    return eq0(sub(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.kind == "not":
        return a.args[0]
    if a.kind == "le":
        return lt0(neg(a.args[0]))
    if a.kind == "lt":
        return le0(neg(a.args[0]))
    return _mk("not", (a,), "B")


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for u in (t.args if t.kind == "and" else (t,)):
            if u not in out:
                out.append(u)
    for u in out:
        if not_(u) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "B")


def or_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for u in (t.args if t.kind == "or" else (t,)):
            if u not in out:
                out.append(u)
    for u in out:
        if not_(u) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == "B" and b.sort == "B":
        return and_(or_(not_(c), a), or_(c, b))
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    if b.kind == "ite" and b.args[0] is c:
        b = b.args[2]
    if a.kind == "ite" and a.args[0] is c:
        a = a.args[1]
    if a is b:
        return a
    sort = a.sort if a.sort == b.sort else "R"
    if a.sort in ("O", "S") or b.sort in ("O", "S"):
        sort = a.sort if a.sort in ("O", "S") else b.sort
    return _mk("ite", (c, a, b), sort)


def min_(a, b): return ite(le(a, b), a, b)
def max_(a, b): return ite(ge(a, b), a, b)
def abs_(a):
    if is_const(a):
        return const(abs(cval(a)))
    return ite(ge(a, ZERO), a, neg(a))


# ---- binders
_fresh = itertools.count()


def fresh_bound(sort="I"):
    return var(f"!b{next(_fresh)}", sort)


def lam(vars_, dims, body):
    """vars_: fresh vars; dims: sizes of each index; body: Term"""
    dims = tuple(dims)
    d = 1 + max([body.depth] + [m.depth for m in dims])
    names = tuple(f"#{d}.{i}" for i in range(len(vars_)))
    body = subst(body, {v.args[0]: var(n, "I") for v, n in zip(vars_, names)})
    return _mk("lam", (names, dims, body), "L")


def open_lam(l, idx):
    names, dims, body = l.args
    return subst(body, dict(zip(names, idx)))


def sum_(v, lo, hi, body):
    """sum of body for lo <= v < hi; v a fresh var term; normalises by linearity."""
    if is_const(sub(hi, lo)):
        n = int(cval(sub(hi, lo)))
        if n <= 0:
            return ZERO
        if n <= 64:
            name = v.args[0]
            return add(*[subst(body, {name: add(lo, const(i))}) for i in range(n)])
    name = v.args[0]
    d = _as_dict(body)
    out = []
    for m, c in d.items():
        outside, inside = [], []
        for a, e in m:
            (inside if name in a.fv else outside).append((a, e))
        co = _from_dict({tuple(outside): c})
        if not inside:
            # assumes hi >= lo (ranges of loops / arrays)
            out.append(mul(co, sub(hi, lo)) if _nonneg_len(lo, hi) else mul(co, _ranlen(lo, hi)))
        else:
            out.append(mul(co, _mono_sum(v, lo, hi, tuple(inside))))
    return add(*out)


def _nonneg_len(lo, hi):
    return lo is ZERO and hi.kind == "var"


def _ranlen(lo, hi):
    return ite(ge(hi, lo), sub(hi, lo), ZERO)


def _mono_sum(v, lo, hi, inside):
    # flatten inner sums: pull a single inner sum (exponent 1) out, merging binders
    binders = [(v, lo, hi)]
    factors = []
    for a, e in inside:
        if a.kind == "sum" and e == 1:
            bs, bd = a.args
            sub_map = {}
            newb = []
            for n, l, h in bs:
                nv = fresh_bound()
                newb.append((nv, subst(l, sub_map), subst(h, sub_map)))
                sub_map[n] = nv
            binders += newb
            factors.append(subst(bd, sub_map))
        else:
            factors.append(_from_dict({((a, e),): Fraction(1)}))
    body = mul(*factors)
    return _close_sum(binders, body)


def _close_sum(binders, body):
    """binders: list of (var, lo, hi) in dependency order; body: single-monomial term."""
    d = _as_dict(body)
    if len(d) != 1 or (len(binders) > 1):
        # constants / split of independent factors
        pass
    if len(d) != 1:
        out = []
        for m, c in d.items():
            out.append(scale(_close_sum(binders, _from_dict({m: Fraction(1)})), c))
        return add(*out)
    (m, c), = d.items()
    if c != 1:
        return scale(_close_sum(binders, _from_dict({m: Fraction(1)})), c)
    # try to split off factors that do not depend on some binder (innermost first)
    names = [b[0].args[0] for b in binders]
    if len(binders) > 1:
        # connected components of binders through factors / bounds
        comp = {n: n for n in names}

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        for a, e in m:
            ns = [n for n in names if n in a.fv]
            for n in ns[1:]:
                comp[find(n)] = find(ns[0])
        for b in binders:
            for n in names:
                if n in b[1].fv or n in b[2].fv:
                    comp[find(n)] = find(b[0].args[0])
        roots = {}
        for b in binders:
            roots.setdefault(find(b[0].args[0]), []).append(b)
        if len(roots) > 1:
            prod = []
            used = set()
            for r, bs in roots.items():
                ns = {b[0].args[0] for b in bs}
                fac = tuple((a, e) for a, e in m if a.fv & ns)
                used.update(fac)
                prod.append(_close_sum(bs, _from_dict({fac: Fraction(1)})) if fac else
                            mul(*[_ranlen(b[1], b[2]) for b in bs]))
            rest = tuple(x for x in m if x not in used)
            return mul(_from_dict({rest: Fraction(1)}), *prod)
        outside = tuple(x for x in m if not (x[0].fv & set(names)))
        if outside:
            ins = tuple(x for x in m if x not in outside)
            return mul(_from_dict({outside: Fraction(1)}), _close_sum(binders, _from_dict({ins: Fraction(1)})))
        best = None
        binders = _tighten(binders)
        for perm in _orders(binders):
            ok, seen = True, set()
            for b in perm:
                deps = {n for n in names if n in b[1].fv or n in b[2].fv}
                if not deps <= seen:
                    ok = False
                    break
                seen.add(b[0].args[0])
            if ok:
                t = _build_sum(perm, body)
                if best is None or t.id < best.id:
                    best = t
        return best
    return _build_sum(binders, body)


def _const_diff(a, b):
    d = sub(a, b)
    return cval(d) if is_const(d) else None


def _dep(b, names):
    """(kind, other, c): lower bound = other + c ('lo') or upper bound = other + c ('hi')."""
    _, lo, hi = b
    for kind, x, y in (("lo", lo, hi), ("hi", hi, lo)):
        for n in names:
            if n in x.fv and n not in y.fv and not any(m in y.fv for m in names):
                c = _const_diff(x, var(n, "I"))
                if c is not None:
                    return kind, n, c
    return None


def _tighten(binders):
    """drop rows with an empty inner range from the outer range."""
    bs = list(binders)
    names = [b[0].args[0] for b in bs]
    for b in list(bs):
        d = _dep(b, names)
        if d is None:
            continue
        kind, n, c = d
        k = names.index(n)
        v, lo, hi = bs[k]
        if kind == "hi":
            t = add(b[1], const(1 - c))
            x = _const_diff(t, lo)
            if x is not None and x > 0:
                bs[k] = (v, t, hi)
        else:
            t = sub(b[2], const(c))
            x = _const_diff(hi, t)
            if x is not None and x > 0:
                bs[k] = (v, lo, t)
    return bs


def _orders(binders):
    """permutations, also of the equivalent exchanged forms of triangular double sums."""
    todo, seen = [list(binders)], []
    while todo and len(seen) < 8:
        bs = todo.pop()
        key = {(b[0].args[0], b[1], b[2]) for b in bs}
        if key in seen:
            continue
        seen.append(key)
        yield from itertools.permutations(bs)
        names = [b[0].args[0] for b in bs]
        for i, b in enumerate(bs):
            d = _dep(b, names)
            if d is None:
                continue
            kind, n, c = d
            k = names.index(n)
            u, lo, hi = bs[k]
            v, L, H = b
            if any(m in lo.fv or m in hi.fv for m in names):
                continue
            nb = list(bs)
            if kind == "lo":        # u in [lo,hi), v in [u+c,H)
                x = _const_diff(sub(H, const(c)), hi)
                if x is None or x > 0:
                    continue
                nb[i] = (v, add(lo, const(c)), H)
                nb[k] = (u, lo, add(v, const(1 - c)))
            else:                   # u in [lo,hi), v in [L,u+c)
                x = _const_diff(add(L, const(1 - c)), lo)
                if x is None or x < 0:
                    continue
                nb[i] = (v, L, add(hi, const(c - 1)))
                nb[k] = (u, add(v, const(1 - c)), hi)
            todo.append(_tighten(nb))


def _build_sum(binders, body):
    d = 1 + max([body.depth] + [max(b[1].depth, b[2].depth) for b in binders])
    ren, out = {}, []
    for i, (v, lo, hi) in enumerate(binders):
        n = f"#{d}.{i}"
        out.append((n, subst(lo, ren), subst(hi, ren)))
        ren[v.args[0]] = var(n, "I")
    return _mk("sum", (tuple(out), subst(body, ren)), "R" if body.sort != "I" else "I")


# ---- substitution
def subst(t, m):
    if not m:
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    if not any(k in t.fv for k in m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    k = t.kind
    if k == "var":
        r = m.get(t.args[0], t)
    elif k == "poly":
        out = []
        for mono, c in t.args:
            f = const(c)
            for a, e in mono:
                f = mul(f, powi(_subst(a, m, memo), e))
            out.append(f)
        r = add(*out)
    elif k == "app":
        r = rebuild_app(t, [_subst(a, m, memo) for a in t.args[1]])
    elif k == "sum":
        binders, body = t.args
        ren, nb = {}, []
        for n, lo, hi in binders:
            nv = fresh_bound()
            nb.append((nv, subst(subst(lo, ren), m), subst(subst(hi, ren), m)))
            ren[n] = nv
        nbody = subst(subst(body, ren), m)
        r = nbody
        for nv, lo, hi in reversed(nb):
            r = sum_(nv, lo, hi, r)
    elif k == "lam":
        names, dims, body = t.args
        vs = [fresh_bound() for _ in names]
        body = subst(body, dict(zip(names, vs)))
        r = lam(vs, [subst(x, m) for x in dims], subst(body, m))
    else:
        r = rebuild(t, [_subst(a, m, memo) for a in t.args])
    memo[t] = r
    return r


def rebuild_app(t, args):
    f = t.args[0]
    if f == "inv":
        return inv(args[0])
    if f == "pow":
        return pow_(args[0], args[1])
    if f == "sqrt":
        return sqrt(args[0])
    return app(f, args, t.sort)


def rebuild(t, args):
    k = t.kind
    if k == "ite":
        return ite(*args)
    if k == "le":
        return le0(args[0])
    if k == "lt":
        return lt0(args[0])
    if k == "eq":
        return eq0(args[0])
    if k == "oeq":
        return eq(*args)
    if k == "not":
        return not_(args[0])
    if k == "and":
        return and_(*args)
    if k == "or":
        return or_(*args)
    raise AssertionError(k)


def show(t, d=0):
    if d > 8:
        return "..."
    k = t.kind
    if k == "var":
        return t.args[0]
    if k in ("true", "false"):
        return k
    if k == "poly":
        if not t.args:
            return "0"
        s = []
        for m, c in t.args:
            f = [show(a, d + 1) + (f"^{e}" if e != 1 else "") for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            s.append("*".join(f))
        return "(" + " + ".join(s) + ")" if len(s) > 1 else s[0]
    if k == "app":
        return f"{t.args[0]}({', '.join(show(a, d + 1) for a in t.args[1])})"
    if k == "sum":
        return "Sum[" + ",".join(f"{n}:{show(l, d+1)}..{show(h, d+1)}" for n, l, h in t.args[0]) + "](" + show(t.args[1], d + 1) + ")"
    if k == "lam":
        return "\\" + ",".join(t.args[0]) + "." + show(t.args[2], d + 1)
    if k == "ite":
        return f"if({show(t.args[0], d+1)}; {show(t.args[1], d+1)}; {show(t.args[2], d+1)})"
    sym = {"le": "<=0", "lt": "<0", "eq": "==0"}
    if k in sym:
        return f"[{show(t.args[0], d + 1)} {sym[k]}]"
    return f"{k}({', '.join(show(a, d + 1) for a in t.args)})"
