"""Obligation discharge: term simplification under facts, case splits, z3 / cvc5."""
import time
import z3
from . import terms as T
from .terms import (Term, TRUE, FALSE, ZERO, ONE, add, sub, mul, neg, scale, const, is_const, cval,
                    ite, and_, or_, not_, le, lt, eq, subst, var, fresh_bound)

STATS = {"z3_queries": 0, "z3_time": 0.0, "cvc5_queries": 0, "cvc5_time": 0.0, "nf_discharged": 0, "z3_discharged": 0, "cvc5_discharged": 0}
Z3_TIMEOUT = 8000

# ------------------------------------------------------------------ lowering
_z = {}
_fdecl = {}
_O = z3.DeclareSort("Obj")


def _zsort(s):
    return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}.get(s, _O)


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def lower(t):
    r = _z.get(t)
    if r is not None:
        return r
    k = t.kind
    if k == "var":
        r = z3.Const(t.args[0], _zsort(t.sort))
    elif k == "true":
        r = z3.BoolVal(True)
    elif k == "false":
        r = z3.BoolVal(False)
    elif k == "poly":
        isint = t.sort == "I"
        parts = []
        for m, c in t.args:
            f = []
            if c != 1 or not m:
                f.append(z3.IntVal(int(c)) if isint else z3.RealVal(str(c)))
            for a, e in m:
                z = lower(a)
                if not isint:
                    z = _real(z)
                if e < 0:
                    z = 1 / z
                for _ in range(abs(e)):
                    f.append(z)
            p = f[0]
            for x in f[1:]:
                p = p * x
            parts.append(p)
        if not parts:
            r = z3.IntVal(0)
        else:
            r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    elif k == "app":
        f, args = t.args
        if f == "inv":
            r = 1 / _real(lower(args[0]))
        elif f == "idiv":
            r = lower(args[0]) / lower(args[1])
        elif f == "imod":
            r = lower(args[0]) % lower(args[1])
        elif any(a.kind == "lam" for a in args) or not args:
            r = z3.Const(f"@{f}@{t.id}", _zsort(t.sort))
        else:
            zs = [lower(a) for a in args]
            zs = [_real(z) if (a.sort == "R" or (f in ("pow", "sqrt"))) else z for z, a in zip(zs, args)]
            key = (f, tuple(str(z.sort()) for z in zs), t.sort)
            d = _fdecl.get(key)
            if d is None:
                d = z3.Function(f"{f}/{len(_fdecl)}", *[z.sort() for z in zs], _zsort(t.sort))
                _fdecl[key] = d
            r = d(*zs)
    elif k == "sum":
        r = z3.Const(f"@sum@{t.id}", _zsort(t.sort))
    elif k == "lam":
        r = z3.Const(f"@lam@{t.id}", _O)
    elif k == "ite":
        a, b = lower(t.args[1]), lower(t.args[2])
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        r = z3.If(lower(t.args[0]), a, b)
    elif k == "le":
        r = lower(t.args[0]) <= 0
    elif k == "lt":
        r = lower(t.args[0]) < 0
    elif k == "eq":
        r = lower(t.args[0]) == 0
    elif k == "oeq":
        r = lower(t.args[0]) == lower(t.args[1])
    elif k == "not":
        r = z3.Not(lower(t.args[0]))
    elif k == "and":
        r = z3.And([lower(a) for a in t.args])
    elif k == "or":
        r = z3.Or([lower(a) for a in t.args])
    else:
        raise AssertionError(k)
    _z[t] = r
    return r


_sat_cache = {}


def relevant(facts, goal_fv):
    """cone of influence over free variables (sound: dropping facts only weakens)."""
    fv = set(goal_fv)
    todo = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f in todo:
            if f.fv & fv or not f.fv:
                out.append(f)
                fv |= f.fv
                changed = True
            else:
                rest.append(f)
        todo = rest
    return out


def z3_check(facts, timeout=None, want_model=False):
    facts = frozenset(facts)
    key = (facts, want_model)
    if key in _sat_cache:
        return _sat_cache[key]
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout or Z3_TIMEOUT)
    for f in sorted(facts, key=lambda f: f.id):
        s.add(lower(f))
    r = str(s.check())
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t0
    res = r
    if want_model:
        res = (r, s.model() if r == "sat" else None)
    _sat_cache[key] = res
    return res


def cvc5_check(facts, timeout=8):
    """Second back end: same query through SMT-LIB to the cvc5 binary."""
    import subprocess
    t0 = time.time()
    s = z3.Solver()
    for f in sorted(facts, key=lambda f: f.id):
        s.add(lower(f))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(timeout*1000)}", "-"], input=txt, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        r = out[0] if out else "unknown"
    except Exception:
        r = "unknown"
    STATS["cvc5_queries"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return r if r in ("sat", "unsat") else "unknown"


_dec_cache = {}


def decide(cond, facts):
    """True / False / None: is cond decided by facts?  facts: frozenset"""
    if cond is TRUE:
        return True
    if cond is FALSE:
        return False
    if cond in facts:
        return True
    if not_(cond) in facts:
        return False
    rel = frozenset(relevant(facts, cond.fv))
    key = (cond, rel)
    if key in _dec_cache:
        return _dec_cache[key]
    r = None
    if z3_check(rel | {not_(cond)}, 2000) == "unsat":
        r = True
    elif z3_check(rel | {cond}, 2000) == "unsat":
        r = False
    _dec_cache[key] = r
    return r


def feasible(facts):
    return z3_check(facts, 3000) != "unsat"


# ------------------------------------------------------------------ simplification
_simp_cache = {}


def simp(t, facts):
    if t.kind in ("var", "true", "false"):
        if t.kind == "var" and t.sort == "B":
            if t in facts:
                return TRUE
            if not_(t) in facts:
                return FALSE
        return t
    key = (t, facts)
    r = _simp_cache.get(key)
    if r is None:
        r = _simp(t, facts)
        _simp_cache[key] = r
    return r


def _has_special(t, memo={}):
    """does t contain ite / sum / lam?"""
    r = memo.get(t)
    if r is not None:
        return r
    k = t.kind
    if k in ("ite", "sum", "lam", "and", "or", "not"):
        r = True
    elif k in ("var", "true", "false"):
        r = False
    elif k == "poly":
        r = any(_has_special(a) for m, _ in t.args for a, _e in m)
    elif k == "app":
        r = any(_has_special(a) for a in t.args[1])
    else:
        r = any(_has_special(a) for a in t.args)
    memo[t] = r
    return r


def _simp(t, facts):
    k = t.kind
    if k == "poly":
        if not _has_special(t):
            return t
        out = []
        for m, c in t.args:
            f = const(c)
            for a, e in m:
                f = mul(f, T.powi(simp(a, facts), e))
            out.append(f)
        return add(*out)
    if k == "ite":
        c = simp(t.args[0], facts)
        d = decide(c, facts)
        if d is True:
            return simp(t.args[1], facts)
        if d is False:
            return simp(t.args[2], facts)
        return ite(c, simp(t.args[1], facts | {c}), simp(t.args[2], facts | {not_(c)}))
    if k == "sum":
        return _simp_sum(t, facts)
    if k == "lam":
        names, dims, body = t.args
        vs = [fresh_bound() for _ in names]
        f2 = set(facts)
        for v, d in zip(vs, dims):
            f2.add(le(ZERO, v))
            f2.add(lt(v, d))
        b = simp(subst(body, dict(zip(names, vs))), frozenset(f2))
        return T.lam(vs, [simp(d, facts) for d in dims], b)
    if k == "app":
        if t.sort == "B":
            if t in facts:
                return TRUE
            if not_(t) in facts:
                return FALSE
        if not _has_special(t):
            return t
        return T.rebuild_app(t, [simp(a, facts) for a in t.args[1]])
    # booleans
    if t in facts:
        return TRUE
    if not_(t) in facts:
        return FALSE
    args = [simp(a, facts) for a in t.args]
    return T.rebuild(t, args)


def _simp_sum(t, facts):
    binders, body = t.args
    # open outermost binder only
    n, lo, hi = binders[0]
    v = fresh_bound()
    rest = [(m, subst(l, {n: v}), subst(h, {n: v})) for m, l, h in binders[1:]]
    body = subst(body, {n: v})
    if rest:
        bs, ren = [], {}
        for m, l, h in rest:
            nv = fresh_bound()
            bs.append((nv, subst(l, ren), subst(h, ren)))
            ren[m] = nv
        body = T._close_sum(bs, subst(body, ren))
    lo, hi = simp(lo, facts), simp(hi, facts)
    return sum_simplified(v, lo, hi, body, facts)


def sum_simplified(v, lo, hi, body, facts, peel=True):
    if decide(le(hi, lo), facts) is True:
        return ZERO
    inner = frozenset(facts | {le(lo, v), lt(v, hi)})
    body = simp(body, inner)
    # conditionals depending on v
    c = _find_ite(body, v.args[0])
    if c is not None:
        bt, bf = _assume_cond(body, c, True), _assume_cond(body, c, False)
        k = c.kind
        parts = _split_range(c, v, lo, hi, bt, bf, facts)
        if parts is not None:
            return simp(add(*[p for p in parts]), facts)
        # unknown shape: keep as is
    # peel constant offsets at the top so that k+1 and k align
    if peel:
        off = _const_off(hi)
        if off > 0 and off <= 8 and not is_const(hi):
            nh = sub(hi, const(off))
            if decide(le(lo, nh), facts) is True:
                terms = [sum_simplified(v, lo, nh, body, facts, False)]
                for i in range(off):
                    terms.append(simp(subst(body, {v.args[0]: add(nh, const(i))}), facts))
                return add(*terms)
        off = _const_off(lo)
        if -8 <= off < 0 and not is_const(lo):
            nl = sub(lo, const(off))
            if decide(le(nl, hi), facts) is True:
                terms = [sum_simplified(v, nl, hi, body, facts, True)]
                for i in range(-off):
                    terms.append(simp(subst(body, {v.args[0]: add(lo, const(i))}), facts))
                return add(*terms)
    return T.sum_(v, lo, hi, body)


def _const_off(p):
    if p.kind != "poly":
        return 0
    for m, c in p.args:
        if m == () and c.denominator == 1:
            return int(c)
    return 0


def _find_ite(t, name, memo=None):
    """condition of some ite inside t (not under other binders) that depends on bound name."""
    if name not in t.fv or not _has_special(t):
        return None
    k = t.kind
    if k == "ite":
        c = t.args[0]
        if name in c.fv:
            for a in _atoms_of(c):
                if name in a.fv:
                    return a
        return _find_ite(t.args[1], name) or _find_ite(t.args[2], name)
    if k == "poly":
        for m, _ in t.args:
            for a, _e in m:
                r = _find_ite(a, name)
                if r is not None:
                    return r
    if k == "app":
        for a in t.args[1]:
            if a.kind != "lam":
                r = _find_ite(a, name)
                if r is not None:
                    return r
    if k == "sum":
        return _find_ite(t.args[1], name) if all(b[0] not in c0 for b in t.args[0] for c0 in [set()]) and _safe_cond(t, name) else None
    return None


def _safe_cond(t, name):
    c = _find_ite(t.args[1], name)
    return c is not None and not any(b[0] in c.fv for b in t.args[0])


def _atoms_of(c):
    if c.kind in ("and", "or", "not"):
        for a in c.args:
            yield from _atoms_of(a)
    else:
        yield c


def _assume_cond(t, c, val):
    """replace condition atom c by a truth value everywhere in t."""
    return _rep(t, {c: T.boolc(val), not_(c): T.boolc(not val)}, {})


def _rep(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    if t in memo:
        return memo[t]
    k = t.kind
    if k in ("var", "true", "false"):
        return t
    if k == "poly":
        out = []
        for mono, c in t.args:
            f = const(c)
            for a, e in mono:
                f = mul(f, T.powi(_rep(a, m, memo), e))
            out.append(f)
        r = add(*out)
    elif k == "app":
        r = T.rebuild_app(t, [_rep(a, m, memo) for a in t.args[1]])
    elif k == "sum":
        binders, body = t.args
        nb = _rep(body, m, memo)
        nbs = [(n, _rep(l, m, memo), _rep(h, m, memo)) for n, l, h in binders]
        if nb is body and all(a[1] is b[1] and a[2] is b[2] for a, b in zip(nbs, binders)):
            r = t
        else:
            ren, bs = {}, []
            for n, l, h in nbs:
                nv = fresh_bound()
                bs.append((nv, subst(l, ren), subst(h, ren)))
                ren[n] = nv
            r = subst(nb, ren)
            for nv, l, h in reversed(bs):
                r = T.sum_(nv, l, h, r)
    elif k == "lam":
        names, dims, body = t.args
        nb = _rep(body, m, memo)
        nd = [_rep(d, m, memo) for d in dims]
        if nb is body and all(a is b for a, b in zip(nd, dims)):
            r = t
        else:
            vs = [fresh_bound() for _ in names]
            r = T.lam(vs, nd, subst(nb, dict(zip(names, vs))))
    else:
        r = T.rebuild(t, [_rep(a, m, memo) for a in t.args])
    memo[t] = r
    return r


def replace(t, m):
    return _rep(t, m, {})


def _linear_in(p, v):
    """p = c*v + rest with constant c; returns (c, rest) or None"""
    c, rest = 0, {}
    for m, k in T._as_dict(p).items():
        if any(v in a.fv for a, _ in m):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
                c = k
            else:
                return None
        else:
            rest[m] = k
    return c, T._from_dict(rest)


def _clamp(m, lo, hi):
    return ite(le(m, lo), lo, ite(le(hi, m), hi, m))


def _split_range(c, v, lo, hi, bt, bf, facts):
    name = v.args[0]
    if c.kind == "eq":
        lr = _linear_in(c.args[0], name)
        if lr is None or abs(lr[0]) != 1:
            return None
        e = scale(lr[1], -1 / lr[0])
        if e.sort != "I":
            return None
        inr = and_(le(lo, e), lt(e, hi))
        v2 = fresh_bound()
        delta = sub(subst(bt, {name: e}), subst(bf, {name: e}))
        return [sum_simplified(v, lo, hi, bf, facts), ite(inr, delta, ZERO)]
    if c.kind == "le":
        lr = _linear_in(c.args[0], name)
        if lr is None or abs(lr[0]) != 1 or lr[1].sort != "I":
            return None
        if lr[0] == 1:     # v + r <= 0  <=> v < 1 - r
            m = sub(ONE, lr[1])
            first, second = bt, bf
        else:              # -v + r <= 0 <=> v >= r
            m = lr[1]
            first, second = bf, bt
        m = simp(_clamp(m, lo, hi), facts)
        v1, v2 = fresh_bound(), fresh_bound()
        return [T.sum_(v1, lo, m, subst(first, {name: v1})), T.sum_(v2, m, hi, subst(second, {name: v2}))]
    return None


# ------------------------------------------------------------------ proving
class Result:
    __slots__ = ("status", "how", "detail", "model", "facts", "goal")

    def __init__(self, status, how="", detail="", model=None, facts=None, goal=None):
        self.status, self.how, self.detail, self.model = status, how, detail, model
        self.facts, self.goal = facts, goal

    def __repr__(self):
        return f"<{self.status} {self.how} {self.detail[:300]}>"


_ctxs = {}


def clear_denoms(d):
    """multiply a difference by all its denominators (all assumed nonzero) and reduce sqrt^2."""
    for _ in range(12):
        changed = False
        dd = T._as_dict(d)
        # negative powers
        mins = {}
        for m in dd:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
                if a.kind == "app" and a.args[0] == "inv" and e > 0:
                    mins[a] = max(mins.get(a, 0), e)
        if mins:
            changed = True
            out = []
            for m, c in dd.items():
                f = const(c)
                exps = dict(m)
                for a, e in mins.items():
                    cur = exps.pop(a, 0)
                    if a.kind == "app" and a.args[0] == "inv":
                        f = mul(f, T.powi(a.args[1][0], e - cur))
                    else:
                        f = mul(f, T.powi(a, cur - e))
                for a, e in exps.items():
                    f = mul(f, T.powi(a, e))
                out.append(f)
            d = add(*out)
            dd = T._as_dict(d)
        out = []
        for m, c in dd.items():
            f = const(c)
            for a, e in m:
                if a.kind == "app" and a.args[0] == "sqrt" and e >= 2:
                    changed = True
                    f = mul(f, T.powi(a.args[1][0], e // 2), T.powi(a, e % 2))
                else:
                    f = mul(f, T.powi(a, e))
            out.append(f)
        d = add(*out)
        if not changed:
            break
    return d


def find_split(t, memo=None):
    """an undecided ite condition without bound variables, anywhere in t"""
    if memo is None:
        memo = set()
    if t in memo or not _has_special(t):
        return None
    memo.add(t)
    k = t.kind
    if k == "ite":
        for a in _atoms_of(t.args[0]):
            if not any(n.startswith("#") for n in a.fv):
                return a
        return find_split(t.args[0], memo) or find_split(t.args[1], memo) or find_split(t.args[2], memo)
    kids = []
    if k == "poly":
        kids = [a for m, _ in t.args for a, _e in m]
    elif k == "app":
        kids = t.args[1]
    elif k == "sum":
        kids = [t.args[1]] + [x for b in t.args[0] for x in b[1:]]
    elif k == "lam":
        kids = [t.args[2]]
    elif k not in ("var", "true", "false"):
        kids = t.args
    for a in kids:
        r = find_split(a, memo)
        if r is not None:
            return r
    return None


def apps_in(t, out=None, memo=None):
    if out is None:
        out, memo = [], set()
    if t in memo:
        return out
    memo.add(t)
    k = t.kind
    if k == "app":
        if t.args[0] != "inv" and t not in out:
            out.append(t)
    kids = []
    if k == "poly":
        kids = [a for m, _ in t.args for a, _e in m]
    elif k == "app":
        kids = t.args[1]
    elif k == "sum":
        kids = [t.args[1]]
    elif k == "lam":
        kids = [t.args[2]]
    elif k not in ("var", "true", "false"):
        kids = t.args
    for a in kids:
        apps_in(a, out, memo)
    return out


MAXSPLIT = 12


def prove_eq(a, b, facts, hyps=(), depth=0):
    """facts: frozenset of boolean terms; hyps: terms known to be 0 (equational hypotheses)."""
    if a is b:
        STATS["nf_discharged"] += 1
        return Result("proved", "normal-form")
    if a.sort in ("O", "S") or b.sort in ("O", "S"):
        return prove_oeq(a, b, facts, depth)
    d = sub(a, b)
    r = prove_zero(d, facts, hyps, depth)
    if r.status == "refuted":
        want = set(_soft(simp(b, facts))) | set(_soft(b))
        if any(x not in want for x in _soft(simp(a, facts))):
            # functions the solver knows nothing about, applied to other arguments: no counterexample
            return Result("unknown", "z3", r.detail, None, facts, d)
    return r


SOFT = {"arrmax", "arrmin", "vecnorm"}


def _soft(t):
    return [x for x in apps_in(t) if x.args[0] in SOFT]


def prove_oeq(a, b, facts, depth=0):
    a, b = simp(a, facts), simp(b, facts)
    if a is b:
        STATS["nf_discharged"] += 1
        return Result("proved", "normal-form")
    c = find_split(a) or find_split(b)
    if c is not None and depth < MAXSPLIT:
        for f in (c, not_(c)):
            f2 = frozenset(facts | {f})
            if not feasible(f2):
                continue
            r = prove_oeq(a, b, f2, depth + 1)
            if r.status != "proved":
                return r
        return Result("proved", "case split")
    if a.kind == "app" and b.kind == "app" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        if all(prove_arg(x, y, facts, depth).status == "proved" for x, y in zip(a.args[1], b.args[1])):
            return Result("proved", "congruence")
    r = z3_check(frozenset(relevant(facts, a.fv | b.fv)) | {not_(eq(a, b))})
    if r == "unsat":
        STATS["z3_discharged"] += 1
        return Result("proved", "z3")
    return Result("refuted" if r == "sat" else "unknown", "z3", f"{a} != {b}", facts=facts, goal=(a, b))


def prove_arg(x, y, facts, depth):
    if x is y:
        return Result("proved", "same")
    if x.kind == "lam" and y.kind == "lam" and len(x.args[0]) == len(y.args[0]):
        vs = [fresh_bound() for _ in x.args[0]]
        f2 = set(facts)
        for v, d in zip(vs, x.args[1]):
            f2 |= {le(ZERO, v), lt(v, d)}
        for d1, d2 in zip(x.args[1], y.args[1]):
            if prove_eq(d1, d2, facts, (), depth + 1).status != "proved":
                return Result("unknown")
        return prove_eq(T.open_lam(x, vs), T.open_lam(y, vs), frozenset(f2), (), depth + 1)
    if x.kind == "lam" or y.kind == "lam":
        return Result("unknown")
    if x.sort == "B" or y.sort == "B":
        return prove(eq(x, y), facts, depth=depth + 1)
    return prove_eq(x, y, facts, (), depth + 1)


def eq_substs(facts, fv):
    """integer variables determined by equality facts: [(name, term)]"""
    out = []
    for f in facts:
        if f.kind != "eq" or f.args[0].sort != "I":
            continue
        p = f.args[0]
        dd = T._as_dict(p)
        for m, c in dd.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and c in (1, -1):
                v = m[0][0]
                n = v.args[0]
                if n not in fv:
                    continue
                rest = {mm: -cc / c for mm, cc in dd.items() if mm != m}
                r = T._from_dict(rest)
                if n in r.fv:
                    continue
                out.append((n, r))
                break
    return out


def prove_zero(d, facts, hyps=(), depth=0):
    d = simp(d, facts)
    if d is not ZERO and depth < MAXSPLIT + 6:
        fvs = set(d.fv)
        for h in hyps:
            fvs |= h.fv
        es = eq_substs(facts, fvs)
        if es:
            n, r = es[0]
            m = {n: r}
            f2 = frozenset(T.subst(f, m) for f in facts) - {TRUE}
            return prove_zero(T.subst(d, m), f2, tuple(T.subst(h, m) for h in hyps), depth + 1)
    if d is ZERO:
        STATS["nf_discharged"] += 1
        return Result("proved", "normal-form")
    hyps = tuple(simp(h, facts) for h in hyps)
    c = find_split(d)
    if c is None:
        for h in hyps:
            c = find_split(h)
            if c is not None:
                break
    if c is not None and depth < MAXSPLIT:
        for f in (c, not_(c)):
            f2 = frozenset(facts | {f})
            if not feasible(f2):
                continue
            r = prove_zero(d, f2, hyps, depth + 1)
            if r.status != "proved":
                return r
        return Result("proved", "case split")
    # semantic congruence of uninterpreted applications
    if depth < MAXSPLIT + 4:
        groups = {}
        for t in [d] + list(hyps):
            for ap in apps_in(t):
                if not any(n.startswith("#") for n in ap.fv):
                    g = groups.setdefault((ap.args[0], len(ap.args[1])), [])
                    if ap not in g:
                        g.append(ap)
        rep = {}
        for (f, n), g in groups.items():
            if not n or len(g) > 12:
                continue
            for i in range(len(g)):
                if g[i] in rep:
                    continue
                for j in range(i + 1, len(g)):
                    if g[j] in rep:
                        continue
                    if all(prove_arg(x, y, facts, depth + 2).status == "proved" for x, y in zip(g[i].args[1], g[j].args[1])):
                        rep[g[j]] = g[i]
        if rep:
            d = simp(replace(d, rep), facts)
            hyps = tuple(simp(replace(h, rep), facts) for h in hyps)
            if d is ZERO:
                STATS["nf_discharged"] += 1
                return Result("proved", "congruence")
    if depth < MAXSPLIT + 4:
        d = pointwise_sums(d, facts, depth)
        if d is ZERO:
            STATS["nf_discharged"] += 1
            return Result("proved", "pointwise sum")
        d2 = align_sums(d, facts)
        if d2 is not d:
            return prove_zero(d2, facts, hyps, depth + 1)
    d2 = clear_denoms(d)
    if d2 is ZERO:
        STATS["nf_discharged"] += 1
        return Result("proved", "normal-form/denominators")
    # linear elimination with hypotheses
    if hyps:
        d3 = lin_elim(d, hyps)
        if d3 is ZERO:
            STATS["nf_discharged"] += 1
            return Result("proved", "linear combination of contracts")
    goal = not_(eq(d, ZERO))
    hy = {eq(h, ZERO) for h in hyps}
    fs = frozenset(relevant(facts | hy, d.fv)) | {goal}
    r, m = z3_check(fs, want_model=True)
    if r == "unsat":
        STATS["z3_discharged"] += 1
        return Result("proved", "z3")
    if r == "unknown":
        if cvc5_check(fs) == "unsat":
            STATS["cvc5_discharged"] += 1
            return Result("proved", "cvc5")
        # z3 gave up: the difference is a nonzero polynomial over distinct atoms
        return Result("unknown", "z3", f"difference {d}", None, facts, d)
    return Result("refuted", "z3", f"difference {d} != 0", m, facts, d)


def align_sums(d, facts):
    """sums of the same summand over ranges whose ends differ by a small constant: reduce the longer one"""
    ss = []
    for m, c in T._as_dict(d).items():
        for a, e in m:
            if a.kind == "sum" and e == 1 and len(a.args[0]) == 1 and a not in ss:
                ss.append(a)
    if not 2 <= len(ss) <= 8:
        return d
    for i, a in enumerate(ss):
        (na, la, ha), ba = a.args[0][0], a.args[1]
        for b in ss[i + 1:]:
            (nb, lb, hb), bb = b.args[0][0], b.args[1]
            if T.subst(bb, {nb: T.var(na, "I")}) is not ba:
                continue
            for x, y, lo, hi, ly, hy, bd, n in ((a, b, la, ha, lb, hb, ba, na), (b, a, lb, hb, la, ha, bb, nb)):
                kl, kh = T._const_diff(ly, lo), T._const_diff(hi, hy)       # x starts kl earlier, ends kh later
                if kl is None or kh is None or not (0 <= kl <= 8 and 0 <= kh <= 8 and kl + kh):
                    continue
                if decide(le(ly, hy), facts) is not True:
                    continue
                at = lambda k: T.subst(bd, {n: k})
                r = add(y, *[at(add(lo, const(k))) for k in range(int(kl))], *[at(add(hy, const(k))) for k in range(int(kh))])
                return simp(replace(d, {x: r}), facts)
    return d


def pointwise_sums(d, facts, depth):
    """remove groups of sums over the same range whose summands cancel at every index"""
    groups = {}
    for m, c in T._as_dict(d).items():
        ss = [a for a, e in m if a.kind == "sum" and e == 1]
        if len(ss) != 1 or any(a.kind == "sum" and e != 1 for a, e in m):
            continue
        a = ss[0]
        n, lo, hi = a.args[0][0]
        rest = tuple(x for x in m if x[0] is not a)
        groups.setdefault((lo, hi), []).append((m, c, a, rest))
    for (lo, hi), g in groups.items():
        v = fresh_var_index()
        body = []
        for m, c, a, rest in g:
            n = a.args[0][0][0]
            bs = [(b[0], T.subst(b[1], {n: v}), T.subst(b[2], {n: v})) for b in a.args[0][1:]]
            inner = T.subst(a.args[1], {n: v})
            for bn, bl, bh in reversed(bs):
                w = fresh_bound()
                inner = T.sum_(w, T.subst(bl, {}), T.subst(bh, {}), T.subst(inner, {bn: w}))
            body.append(mul(const(c), inner, T._from_dict({rest: 1})))
        f2 = frozenset(facts | {le(lo, v), lt(v, hi)})
        r = prove_zero(add(*body), f2, (), depth + 2) if feasible(f2) else Result("proved")
        if r.status == "proved":
            gone = {m for m, _, _, _ in g}
            d = T._from_dict({m: c for m, c in T._as_dict(d).items() if m not in gone})
    return d


_pw = __import__("itertools").count()


def fresh_var_index():
    return T.var(f"pw{next(_pw)}", "I")


def lin_elim(d, hyps):
    """Gaussian elimination of d by hyps over the monomials (rational coefficients)."""
    rows = [dict(T._as_dict(h)) for h in hyps if h is not ZERO]
    cur = dict(T._as_dict(d))
    red = []
    for r in rows:
        for piv, rr in red:
            if piv in r:
                k = r[piv]
                for m, c in rr.items():
                    r[m] = r.get(m, 0) - k * c
        r = {m: c for m, c in r.items() if c}
        if not r:
            continue
        piv = max(r, key=lambda m: tuple((a.id, e) for a, e in m))
        k = r[piv]
        rr = {m: c / k for m, c in r.items()}
        for i, (p2, r2) in enumerate(red):
            if piv in r2:
                k2 = r2[piv]
                for m, c in rr.items():
                    r2[m] = r2.get(m, 0) - k2 * c
                red[i] = (p2, {m: c for m, c in r2.items() if c})
        red.append((piv, rr))
    for piv, rr in red:
        if piv in cur:
            k = cur[piv]
            for m, c in rr.items():
                cur[m] = cur.get(m, 0) - k * c
            cur = {m: c for m, c in cur.items() if c}
    return T._from_dict(cur)


def prove(goal, facts, hyps=(), depth=0):
    facts = frozenset(facts)
    goal = simp(goal, facts)
    if goal is TRUE:
        STATS["nf_discharged"] += 1
        return Result("proved", "normal-form")
    if goal.kind == "and":
        for g in goal.args:
            r = prove(g, facts, hyps, depth)
            if r.status != "proved":
                return r
        return Result("proved", "conjunction")
    if goal.kind == "eq":
        return prove_zero(goal.args[0], facts, hyps, depth)
    if goal.kind == "oeq":
        return prove_oeq(goal.args[0], goal.args[1], facts, depth)
    hy = {eq(h, ZERO) for h in hyps}
    fs = frozenset(relevant(facts | hy, goal.fv)) | {not_(goal)}
    r, m = z3_check(fs, want_model=True)
    if r == "unsat":
        STATS["z3_discharged"] += 1
        return Result("proved", "z3")
    if r == "unknown":
        if cvc5_check(fs) == "unsat":
            STATS["cvc5_discharged"] += 1
            return Result("proved", "cvc5")
        return Result("unknown", "z3", f"goal {goal}", None, facts, goal)
    return Result("refuted", "z3", f"goal {goal}", m, facts, goal)
