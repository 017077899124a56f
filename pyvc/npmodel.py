"""Model of the numpy operations used by rkopenmdao (arrays of reals)."""
from fractions import Fraction
from . import terms as T
from . import prover as P
from .terms import (Term, ZERO, ONE, const, add, sub, mul, div, neg, le, lt, eq, and_, or_, not_, ite,
                    fresh_bound, lift, is_const, cval)
from .values import Arr, Buf, ABuf, Unsupported, Native, Builtin, Module, SliceV, POISON

INF = float("inf")


def is_num(x):
    return isinstance(x, (int, Fraction, float)) and not isinstance(x, bool) or (isinstance(x, Term) and x.sort in "IR")


def new_arr(I, shape, fn, dtype="R", name="tmp"):
    b = Buf(shape, fn, dtype, name)
    I.register(b)
    return Arr(b)


def shape_of(I, shp):
    if isinstance(shp, (tuple, list)):
        return tuple(lift(s) for s in shp)
    if not isinstance(shp, (int, Fraction, Term)):
        raise Unsupported(f"shape {shp!r}")
    return (lift(shp),)


def filled(I, shp, fn, name, dtype="R"):
    if isinstance(shp, ShapeV):
        r = new_arr(I, (shp.total,), fn, dtype, name)
        r.tag = shp
        return r
    return new_arr(I, shape_of(I, shp), fn, dtype, name)


def dtype_of(I, x, default="R"):
    """sort of a dtype argument"""
    if x is None:
        return default
    if isinstance(x, DType):
        return x.n
    n = x if isinstance(x, str) else getattr(x, "name", "")
    n = n.replace("np.", "")
    if n in ("float", "float64", "double", "f8", "d"):
        return "R"
    if n in ("int", "int64", "intp", "i8"):
        return "I"
    if n in ("bool", "bool_"):
        return "B"
    raise Unsupported(f"dtype {n or x!r}")


def stored(view, v):
    """value assigned into an array: integer arrays truncate"""
    if view.dtype == "I" and v.sort != "I" or view.dtype == "B" and v.sort != "B":
        raise Unsupported("real value assigned into an array of integers")
    return v


def to_arr(I, x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, Native) and hasattr(x, "py_arr"):
        return x.py_arr(I)
    if isinstance(x, (list, tuple)):
        return np_array(I, x)
    if isinstance(x, (bool, int, Fraction, float, Term)):
        v = lift(x)
        return new_arr(I, (), lambda idx: v, v.sort if v.sort != "I" else "I")
    raise Unsupported(f"array conversion of {type(x).__name__}")


def np_array(I, x):
    if isinstance(x, Native) and hasattr(x, "py_arr"):
        x = x.py_arr(I)
    if isinstance(x, Arr):
        return copy(I, x)
    if isinstance(x, (list, tuple)):
        if len(x) and isinstance(x[0], (list, tuple, Arr)):
            rows = [np_array(I, r) for r in x]
            shp = rows[0].shape
            fns = [r.frozen() for r in rows]

            def fn(idx):
                return pick(idx[0], [f(idx[1:]) for f in fns])
            return new_arr(I, (const(len(rows)),) + shp, fn)
        if any(not isinstance(e, (int, Fraction, float, Term, bool)) for e in x):
            raise Unsupported("np.array of non-numeric")
        vals = [lift(e) for e in x]
        dt = "I" if vals and all(v.sort == "I" for v in vals) else ("B" if vals and all(v.sort == "B" for v in vals) else "R")
        return new_arr(I, (const(len(vals)),), lambda idx: pick(idx[0], vals), dt)
    return to_arr(I, x)


def pick(i, vals):
    if is_const(i):
        k = int(cval(i))
        if 0 <= k < len(vals):
            return vals[k]
        return ZERO
    r = vals[-1] if vals else ZERO
    for k in range(len(vals) - 2, -1, -1):
        r = ite(eq(i, const(k)), vals[k], r)
    return r


def copy(I, a):
    f = a.frozen()
    r = new_arr(I, a.shape, lambda idx: f(idx), a.dtype, a.buf.name + "'")
    r.tag = a.tag
    return r


def same_dim(I, a, b):
    if a is b:
        return True
    d = sub(a, b)
    if is_const(d):
        return cval(d) == 0
    return I.decide(eq(a, b)) is True


def broadcast(I, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        dim = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            if same_dim(I, s[j], ONE):
                continue
            if dim is ONE:
                dim = s[j]
            elif not same_dim(I, dim, s[j]):
                d = I.decide(eq(dim, s[j]))
                if d is False:
                    I.raise_("ValueError", "operands could not be broadcast")
                # unknown: shape-safety obligation, then assume
                I.side_condition("shapes broadcast", eq(dim, s[j]))
        out.append(dim)
    return tuple(out)


def bidx(I, arr, idx, shape):
    """index into arr for broadcast index idx of shape"""
    off = len(idx) - len(arr.shape)
    out = []
    for j, d in enumerate(arr.shape):
        if d is ONE or (is_const(d) and cval(d) == 1):
            out.append(ZERO)
        else:
            out.append(idx[off + j])
    return tuple(out)


def elementwise(I, f, *args, dtype=None):
    arrs = [to_arr(I, a) for a in args]
    shape = broadcast(I, [a.shape for a in arrs])
    fs = [(a, a.frozen()) for a in arrs]
    r = new_arr(I, shape, lambda idx: f(*[g(bidx(I, a, idx, shape)) for a, g in fs]),
                dtype or ("I" if all(a.dtype == "I" for a in arrs) else "R"))
    for a in arrs:
        if a.tag is not None:
            r.tag = a.tag
    if shape == ():
        return r.get(())
    return r


def assign(I, view, val):
    """view[...] = val with broadcasting"""
    if isinstance(val, Native) and hasattr(val, "py_arr"):
        val = val.py_arr(I)
    if isinstance(val, Arr):
        f = val.frozen()
        # numpy allows leading 1-dims on the right
        vs = val.shape
        off = len(view.shape) - len(vs)
        if off < 0:
            for d in vs[:-off]:
                if not same_dim(I, d, ONE):
                    raise Unsupported("assignment with more dimensions")
        for j, d in enumerate(vs):
            k = off + j
            if k < 0:
                continue
            if same_dim(I, d, ONE) and not same_dim(I, view.shape[k], ONE):
                continue
            if not same_dim(I, d, view.shape[k]):
                dec = I.decide(eq(d, view.shape[k]))
                if dec is False:
                    I.raise_("ValueError", "could not broadcast input array")
                I.side_condition("assignment shapes match", eq(d, view.shape[k]))

        if view.dtype == "I" and val.dtype != "I" or view.dtype == "B" and val.dtype != "B":
            raise Unsupported("real values assigned into an array of integers")

        def valfn(idx):
            out = []
            for j, d in enumerate(vs):
                k = off + j
                out.append(ZERO if (k < 0 or (d is ONE and not same_dim(I, view.shape[k], ONE)) or d is ONE) else idx[k])
            return f(tuple(out))
        view.write(valfn)
        return
    if isinstance(val, (list, tuple)):
        return assign(I, view, np_array(I, val))
    v = stored(view, lift(val))
    view.write(lambda idx: v)


def norm_index(I, i, n):
    """normalise a scalar index"""
    i = lift(i)
    if is_const(i) and cval(i) < 0:
        i = add(i, n)
    elif not is_const(i):
        d = I.decide(lt(i, ZERO))
        if d is True:
            i = add(i, n)
    if is_const(i) and is_const(n) and not (0 <= cval(i) < cval(n)):
        I.raise_("IndexError", "index out of bounds")
    if not I.decide(and_(le(ZERO, i), lt(i, n))) is True:
        if I.decide(or_(lt(i, ZERO), le(n, i))) is True:
            I.raise_("IndexError", "index out of bounds")
        I.side_condition("index in bounds", and_(le(ZERO, i), lt(i, n)))
    return i


def clampi(I, i, n, default):
    if i is None:
        return default
    i = lift(i)
    if is_const(i) and cval(i) < 0:
        i = add(i, n)
    elif I.decide(lt(i, ZERO)) is True:
        i = add(i, n)
    # clamp into [0,n]
    if I.decide(and_(le(ZERO, i), le(i, n))) is True:
        return i
    return ite(lt(i, ZERO), ZERO, ite(lt(n, i), n, i))


def index(I, a, key):
    """a[key] as a view (Arr) or scalar Term"""
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, Arr) for k in key):
        return fancy(I, a, key)
    if Ellipsis in key:
        p = key.index(Ellipsis)
        key = key[:p] + (SliceV(None, None, None),) * (a.ndim - (len(key) - 1)) + key[p + 1:]
    if any(k is None for k in key):
        raise Unsupported("np.newaxis")
    axes, vi, k = [], 0, 0
    nview = a.ndim
    key = list(key) + [SliceV(None, None, None)] * (nview - len(key))
    if len(key) > nview:
        if a.tag is not None:
            raise Unsupported("index of opaque-shaped array")
        I.raise_("IndexError", "too many indices for array")
    for ax in a.axes:
        if ax[0] == "f":
            axes.append(ax)
            continue
        _, start, step, n = ax
        kk = key[k]
        k += 1
        if isinstance(kk, SliceV):
            st = 1 if kk.step is None else kk.step
            if isinstance(st, Term) and is_const(st):
                st = int(cval(st))
            if st == 1:
                lo = clampi(I, kk.lo, n, ZERO)
                hi = clampi(I, kk.hi, n, n)
                ln = sub(hi, lo)
                if I.decide(le(ZERO, ln)) is not True:
                    ln = ite(le(ZERO, ln), ln, ZERO)
                axes.append(("r", add(start, lo) if step == 1 else sub(start, lo), step, ln))
            elif st == -1 and kk.lo is None and kk.hi is None:
                last = sub(n, ONE)
                axes.append(("r", add(start, last) if step == 1 else sub(start, last), -step, n))
            else:
                raise Unsupported("strided slice")
        elif isinstance(kk, bool) or not (isinstance(kk, (int, Fraction)) or isinstance(kk, Term)):
            raise Unsupported(f"array index {kk!r}")
        else:
            i = norm_index(I, kk, n)
            axes.append(("f", add(start, i) if step == 1 else sub(start, i)))
    r = Arr(a.buf, axes, None)
    if r.ndim == 0:
        return r
    if all(isinstance(kk, SliceV) and kk.lo is None and kk.hi is None for kk in key):
        r.tag = a.tag
    return r


def fancy(I, a, key):
    if len(key) == 1 and key[0].dtype == "I" and key[0].ndim == 1:
        ix = key[0].frozen()
        f = a.frozen()
        return new_arr(I, key[0].shape + a.shape[1:], lambda idx: f((ix((idx[0],)),) + idx[1:]), a.dtype)
    raise Unsupported("fancy indexing")


def getitem(I, a, key):
    r = index(I, a, key)
    if r.ndim == 0 and isinstance(r, Arr):
        return r.get(())
    return r


def setitem(I, a, key, val):
    r = index(I, a, key)
    if r.ndim == 0:
        if isinstance(val, Arr):
            if val.ndim and not all(same_dim(I, d, ONE) for d in val.shape):
                I.raise_("ValueError", "setting an array element with a sequence.")
            val = val.get(tuple(ZERO for _ in val.shape))
        v = stored(r, lift(val))
        r.write(lambda idx: v)
    else:
        assign(I, r, val)


def total_sum(I, a, axis=None):
    f = a.frozen()
    shp = a.shape
    if axis is None:
        def rec(k, idx):
            if k == len(shp):
                return f(tuple(idx))
            v = fresh_bound()
            return T.sum_(v, ZERO, shp[k], rec(k + 1, idx + [v]))
        return rec(0, [])
    axis = axis % len(shp)

    def fn(idx):
        v = fresh_bound()
        return T.sum_(v, ZERO, shp[axis], f(idx[:axis] + (v,) + idx[axis:]))
    r = new_arr(I, shp[:axis] + shp[axis + 1:], fn)
    return r if r.ndim else r.get(())


def einsum(I, spec, *ops):
    ops = [to_arr(I, o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise Unsupported("einsum arity")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            I.raise_("ValueError", "einstein sum subscripts string contains wrong number of subscripts")
        for c, d in zip(s, o.shape):
            if c in dims and not same_dim(I, dims[c], d):
                if I.decide(eq(dims[c], d)) is False:
                    I.raise_("ValueError", "einsum dimension mismatch")
                I.side_condition("einsum dims match", eq(dims[c], d))
            dims.setdefault(c, d)
    summed = [c for c in dims if c not in out]
    fs = [o.frozen() for o in ops]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(k):
            if k == len(summed):
                return mul(*[f(tuple(env[c] for c in s)) for s, f in zip(ins, fs)])
            v = fresh_bound()
            env[summed[k]] = v
            body = rec(k + 1)
            return T.sum_(v, ZERO, dims[summed[k]], body)
        return rec(0)
    if not out:
        return fn(())
    return new_arr(I, tuple(dims[c] for c in out), fn)


def dot(I, a, b):
    a, b = to_arr(I, a), to_arr(I, b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(I, mul, a, b)
    L = "abcdefgh"
    sa = L[:a.ndim]
    if b.ndim == 1:
        sb = sa[-1]
        out = sa[:-1]
    else:
        sb = "".join(["x"] * 0) + L[a.ndim:a.ndim + b.ndim - 2] + sa[-1] + "z"
        out = sa[:-1] + sb.replace(sa[-1], "")
    return einsum(I, f"{sa},{sb}->{out}", a, b)


def allany(I, x, which):
    if not isinstance(x, Arr):
        return x
    f = x.frozen()
    if all(is_const(d) for d in x.shape):
        import itertools
        vals = [f(tuple(const(i) for i in ix)) for ix in itertools.product(*[range(int(cval(d))) for d in x.shape])]
        vals = [v if v.sort == "B" else not_(eq(v, ZERO)) for v in vals]
        return (and_ if which == "all" else or_)(*vals)
    vs = [fresh_bound() for _ in x.shape]
    body = f(tuple(vs))
    if body.sort != "B":
        body = not_(eq(body, ZERO))
    fs = set(I.facts)
    for v, d in zip(vs, x.shape):
        fs |= {T.le(ZERO, v), T.lt(v, d)}
    body = P.simp(body, frozenset(fs))
    if body is T.TRUE and which == "all":
        return T.TRUE
    if which == "any":
        return not_(T.app("forall", [T.lam(vs, x.shape, not_(body))], "B"))
    return T.app("forall", [T.lam(vs, x.shape, body)], "B")


def size(I, a):
    r = ONE
    for d in a.shape:
        r = mul(r, d)
    return unlift(r)


def unlift(t):
    if isinstance(t, Term) and is_const(t):
        c = cval(t)
        return int(c) if c.denominator == 1 else c
    return t


def norm(I, a, order=None):
    a = to_arr(I, a)
    if getattr(I, "norm_model", None):
        return I.norm_model(I, a, order)
    return T.app("vecnorm", [a.lam(), lift(2 if order is None else order)])


def roll(I, a, shift):
    f, n = a.frozen(), a.shape[0]
    sh = lift(shift)

    def fn(idx):
        i = sub(idx[0], sh)
        if is_const(n) and is_const(i):
            return f((const(int(cval(i)) % int(cval(n))),) + idx[1:])
        w = ite(lt(i, ZERO), add(i, n), ite(le(n, i), sub(i, n), i))
        return f((w,) + idx[1:])
    return new_arr(I, a.shape, fn, a.dtype)


class ShapeV(Native):
    """opaque multi-dimensional shape with total size"""
    def __init__(self, name, total):
        self.name, self.total = name, total

    def __repr__(self):
        return f"shape:{self.name}"


def reshape(I, a, shp):
    if isinstance(shp, tuple) and len(shp) == 1 and isinstance(shp[0], (tuple, ShapeV)):
        shp = shp[0]
    if isinstance(shp, ShapeV):
        if a.ndim != 1:
            raise Unsupported("reshape of nd to opaque shape")
        if not same_dim(I, a.shape[0], shp.total):
            if I.decide(eq(a.shape[0], shp.total)) is False:
                I.raise_("ValueError", "cannot reshape array")
            I.side_condition("reshape size", eq(a.shape[0], shp.total))
        r = Arr(a.buf, list(a.axes), shp)
        return r
    shp = shape_of(I, shp)
    if a.tag is not None and len(shp) == 1:
        return Arr(a.buf, list(a.axes), None)
    if len(shp) == 1 and a.ndim == 1:
        if is_const(shp[0]) and cval(shp[0]) == -1:
            return Arr(a.buf, list(a.axes))
        return Arr(a.buf, list(a.axes))
    if len(shp) == a.ndim and all(same_dim(I, x, y) for x, y in zip(shp, a.shape)):
        return Arr(a.buf, list(a.axes))
    if all(is_const(d) for d in a.shape) and 1 <= a.ndim <= 2 and len(shp) <= 2 and all(is_const(d) for d in shp):
        n = 1
        for d in a.shape:
            n *= int(cval(d))
        new = [int(cval(d)) for d in shp]
        if new.count(-1) == 1:
            r = 1
            for d in new:
                r *= d if d != -1 else 1
            if r and n % r == 0:
                new[new.index(-1)] = n // r
        m = 1
        for d in new:
            m *= d
        if m != n or min(new) < 0:
            I.raise_("ValueError", "cannot reshape array")
        fl = a if a.ndim == 1 else (flat_view(a) if contiguous(a) else flatten(I, a))
        if len(new) == 1:
            return fl
        c = new[1]
        if c == 0:
            raise Unsupported("general reshape")
        # row-major: (i, j) <-> i*c + j
        return Arr(ABuf(fl, (const(new[0]), const(c)), lambda ix: (add(mul(ix[0], const(c)), ix[1]),),
                        lambda bi: unflat(bi[0], new[0], c)))
    if len(shp) == 1:
        if contiguous(a):
            return flat_view(a)
        return flatten(I, a)
    raise Unsupported("general reshape")


def unflat(k, n, c):
    """(i, j) with i*c + j = k for constant n rows of c"""
    if is_const(k):
        return const(int(cval(k)) // c), const(int(cval(k)) % c)
    i = pick(k, [const(q // c) for q in range(n * c)]) if n * c else ZERO
    return i, sub(k, mul(i, const(c)))


def contiguous(a):
    """row-major contiguous (numpy returns views when reshaping)"""
    if isinstance(a.buf, ABuf):
        return False if a.ndim > 1 else raise_unsupported("reshape of a view")
    seen = False
    for k, x in enumerate(a.axes):
        if x[0] == "f":
            if seen:
                return False
            continue
        if seen and not (x[1] is ZERO and x[2] == 1 and x[3] is a.buf.shape[k]):
            return False
        if not seen and x[2] != 1:
            return False
        seen = True
    return True


def raise_unsupported(m):
    raise Unsupported(m)


def flat_view(a):
    """contiguous array as one-dimensional view"""
    if a.ndim <= 1 and not isinstance(a.buf, ABuf) and a.ndim == 1:
        return Arr(a.buf, list(a.axes))
    if a.ndim == 2 and is_const(a.shape[1]) and is_const(a.shape[0]):
        n, m = int(cval(a.shape[0])), int(cval(a.shape[1]))
        if n * m == 0:
            return new_arr(None, (ZERO,), lambda idx: ZERO, a.dtype) if False else raise_unsupported("flatten of an empty nd array")

        def rd(f, idx):
            return pick(idx[0], [f((const(i), const(j))) for i in range(n) for j in range(m)]) if not is_const(idx[0]) else f((const(int(cval(idx[0])) // m), const(int(cval(idx[0])) % m)))
        return Arr(ABuf(a, (const(n * m),), ("read", rd), lambda bi: (add(mul(bi[0], const(m)), bi[1]),)))
    if a.ndim == 0:
        return Arr(ABuf(a, (ONE,), lambda ix: (), lambda bi: (ZERO,)))
    raise Unsupported("flatten of nd array")


def transpose(a):
    if a.ndim < 2:
        return a
    return Arr(ABuf(a, a.shape[::-1], lambda ix: tuple(ix)[::-1], lambda bi: tuple(bi)[::-1]))


def flatten(I, a):
    if a.ndim == 1:
        r = copy(I, a)
        r.tag = None
        return r
    if a.ndim == 2 and is_const(a.shape[1]):
        f, m = a.frozen(), int(cval(a.shape[1]))
        if is_const(a.shape[0]):
            n = int(cval(a.shape[0]))
            vals = [f((const(i), const(j))) for i in range(n) for j in range(m)]
            return new_arr(I, (const(n * m),), lambda idx: pick(idx[0], vals), a.dtype)
    if a.ndim == 0:
        v = a.get(())
        return new_arr(I, (ONE,), lambda idx: v)
    raise Unsupported("flatten of nd array")


# arguments with a semantics here: (positional, keywords); others are declined
METH_ARGS = {"copy": (1, ("order",)), "fill": (1, ("value",)), "reshape": (9, ()), "diagonal": (0, ()), "flatten": (0, ()), "ravel": (0, ()), "sum": (1, ("axis",)), "dot": (1, ()),
             "max": (0, ()), "min": (0, ()), "mean": (0, ()), "item": (1, ()), "all": (0, ()), "any": (0, ()), "astype": (1, ("dtype", "copy")), "tolist": (0, ())}
LIKE = (1, ("dtype",))
ARGS = {"zeros": (2, ("shape", "dtype")), "ones": (2, ("shape", "dtype")), "empty": (2, ("shape", "dtype")), "full": (2, ("shape", "fill_value", "dtype")), "zeros_like": LIKE, "empty_like": LIKE,
        "ones_like": LIKE, "full_like": (2, ("dtype",)), "array": (2, ("object", "dtype", "copy")), "asarray": (2, ("dtype",)), "ascontiguousarray": (2, ("dtype",)), "asanyarray": (2, ("dtype",)),
        "atleast_1d": (1, ()), "copy": (1, ()), "copyto": (2, ()), "eye": (1, ()), "identity": (1, ()), "arange": (3, ()), "einsum": (9, ("optimize",)), "dot": (2, ()), "matmul": (2, ()),
        "inner": (2, ()), "vdot": (2, ()), "outer": (2, ()), "tensordot": (3, ("axes",)), "sum": (2, ("axis",)), "prod": (1, ()), "all": (1, ()), "any": (1, ()), "array_equal": (2, ()),
        "array_equiv": (2, ()), "isclose": (4, ("rtol", "atol")), "allclose": (4, ("rtol", "atol")), "roll": (2, ("shift",)), "concatenate": (1, ("axis",)), "hstack": (1, ()), "append": (2, ()),
        "size": (2, ()), "shape": (1, ()), "isinf": (1, ()), "max": (1, ()), "amax": (1, ()), "min": (1, ()), "amin": (1, ()), "clip": (3, ()), "where": (3, ()), "diag": (1, ()), "diagonal": (1, ()),
        "triu": (2, ("k",)), "tril": (2, ("k",)), "mean": (1, ()), "cumsum": (1, ()), "flip": (1, ()), "trace": (1, ()), "vstack": (1, ()), "stack": (1, ()), "count_nonzero": (1, ()), "transpose": (1, ()), "reshape": (2, ()), "ravel": (1, ()),
        "abs": (1, ()), "absolute": (1, ()), "fabs": (1, ()), "sqrt": (1, ()), "negative": (1, ()), "square": (1, ()), "exp": (1, ()), "sin": (1, ()), "cos": (1, ()), "log": (1, ()),
        "maximum": (3, ("out",)), "minimum": (3, ("out",)), "add": (3, ("out",)), "subtract": (3, ("out",)), "multiply": (3, ("out",)), "divide": (3, ("out",)), "true_divide": (3, ("out",)),
        "power": (3, ("out",)), "unravel_index": (2, ("shape", "order"))}


# ---- attributes / methods of arrays
def arr_getattr(I, a, name):
    if name == "shape":
        if a.tag is not None:
            return a.tag
        return tuple(unlift(d) for d in a.shape)
    if name == "size":
        return size(I, a)
    if name == "ndim":
        return a.ndim
    if name == "T":
        return transpose(a)
    if name == "dtype":
        return DTYPES[a.dtype]
    if name == "flat":
        return flat_view(a) if a.ndim != 1 else Arr(a.buf, list(a.axes))
    if name == "transpose":
        return Builtin("transpose", lambda I, ar, kw: transpose(a) if not ar and not kw else raise_unsupported("transpose arguments"))

    def m(fn):
        mx, kws = METH_ARGS.get(name, (0, ()))

        def g(I, ar, kw):
            if len(ar) > mx or any(k not in kws for k in kw):
                raise Unsupported(f"arguments of ndarray.{name}")
            return fn(I, ar, kw)
        return Builtin(f"ndarray.{name}", g)
    if name == "copy":
        return m(lambda I, ar, kw: copy(I, a))
    if name == "fill":
        return m(lambda I, ar, kw: assign(I, a, ar[0] if ar else kw["value"]))
    if name == "reshape":
        return m(lambda I, ar, kw: reshape(I, a, ar[0] if len(ar) == 1 else tuple(ar)))
    if name == "diagonal" and a.ndim == 2:
        return m(lambda I, ar, kw: diagonal(I, a) if not ar and not kw else (_ for _ in ()).throw(Unsupported("diagonal arguments")))
    if name in ("flatten",):
        return m(lambda I, ar, kw: flatten(I, a))
    if name == "ravel":
        return m(lambda I, ar, kw: raise_unsupported("ravel arguments") if ar or kw else (flat_view(a) if a.ndim != 1 else Arr(a.buf, list(a.axes), None)) if contiguous(a) else flatten(I, a))
    if name == "sum":
        return m(lambda I, ar, kw: unlift(total_sum(I, a, ar[0] if ar else kw.get("axis"))) if (ar or kw.get("axis") is not None) else unlift(total_sum(I, a)))
    if name == "dot":
        return m(lambda I, ar, kw: dot(I, a, ar[0]))
    if name in ("max", "min"):
        return m(lambda I, ar, kw: reduce_mm(I, a, T.max_ if name == "max" else T.min_, name))
    if name == "mean":
        return m(lambda I, ar, kw: unlift(div(lift(total_sum(I, a)), lift(size(I, a)))))
    if name == "item":
        return m(lambda I, ar, kw: unlift(a.get(tuple(ZERO for _ in a.shape))) if not ar else getitem(I, a, ar[0]))
    if name == "all":
        return m(lambda I, ar, kw: allany(I, a, "all"))
    if name == "any":
        return m(lambda I, ar, kw: allany(I, a, "any"))
    if name == "astype":
        def astype(I, ar, kw):
            if dtype_of(I, ar[0] if ar else kw.get("dtype")) != a.dtype:
                if a.dtype != "I":
                    raise Unsupported("astype")
                f = a.frozen()
                return new_arr(I, a.shape, f, "R")
            return copy(I, a)
        return m(astype)
    if name == "tolist":
        def tolist(I, ar, kw):
            if a.ndim == 1 and is_const(a.shape[0]):
                r = [unlift(a.get((const(i),))) for i in range(int(cval(a.shape[0])))]
                I.register(r)
                return r
            raise Unsupported("tolist")
        return m(tolist)
    raise Unsupported(f"ndarray.{name}")


class DType(Native):
    def __init__(self, n):
        self.n = n


DTYPES = {k: DType(k) for k in "RIBO"}


def make_numpy(I):
    ns = {}

    def d(*names):
        def deco(f):
            for n in names:
                ns[n] = Builtin("np." + n, f)
            return f
        return deco

    def sc(fn):
        """scalar-or-array unary"""
        def g(I, ar, kw):
            x = ar[0]
            if isinstance(x, (Arr, list, tuple)):
                return elementwise(I, fn, to_arr(I, x))
            return unlift(fn(lift(x)))
        return g

    ns["inf"] = INF
    ns["nan"] = float("nan")
    ns["pi"] = T.app("pi", [])
    ns["e"] = T.app("e_const", [])
    ns["newaxis"] = None
    for t in ("float64", "float32", "int64", "int32", "complex128", "bool_", "intp"):
        def conv(I, ar, kw, t=t):
            if t == "float64" and len(ar) == 1:
                return I.to_float(ar[0])
            if t in ("int64", "intp") and len(ar) == 1:
                return I.to_int(ar[0])
            raise Unsupported("np." + t)
        ns[t] = Builtin("np." + t, conv)
    ns["ndarray"] = I.ndarray_cls
    ns["integer"] = I.builtins["int"]
    ns["floating"] = I.builtins["float"]

    @d("zeros")
    def _(I, ar, kw):
        return filled(I, ar[0] if ar else kw["shape"], lambda idx: ZERO, "zeros", dtype_of(I, ar[1] if len(ar) > 1 else kw.get("dtype")))

    @d("empty")
    def _(I, ar, kw):
        n = I.fresh_name("empty")
        return filled(I, ar[0] if ar else kw["shape"], lambda idx: T.app(n, idx), n, dtype_of(I, ar[1] if len(ar) > 1 else kw.get("dtype")))

    @d("ones")
    def _(I, ar, kw):
        return filled(I, ar[0] if ar else kw["shape"], lambda idx: ONE, "ones", dtype_of(I, ar[1] if len(ar) > 1 else kw.get("dtype")))

    @d("full")
    def _(I, ar, kw):
        v = lift(ar[1] if len(ar) > 1 else kw["fill_value"])
        return filled(I, ar[0] if ar else kw["shape"], lambda idx: v, "full", dtype_of(I, kw.get("dtype"), v.sort if v.sort in "IB" else "R"))

    @d("zeros_like")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        r = new_arr(I, a.shape, lambda idx: ZERO, dtype_of(I, kw.get("dtype"), a.dtype), "zeros")
        r.tag = a.tag
        return r

    @d("empty_like")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        n = I.fresh_name("empty")
        return new_arr(I, a.shape, lambda idx: T.app(n, idx), dtype_of(I, kw.get("dtype"), a.dtype), n)

    @d("ones_like")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        return new_arr(I, a.shape, lambda idx: ONE, dtype_of(I, kw.get("dtype"), a.dtype), "ones")

    @d("full_like")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        dt = dtype_of(I, kw.get("dtype"), a.dtype)
        v = lift(ar[1])
        if dt == "I" and v.sort != "I":
            raise Unsupported("full_like of integers")
        return new_arr(I, a.shape, lambda idx: v, dt, "full")

    @d("array")
    def _(I, ar, kw):
        if kw.get("copy", True) is not True or kw.get("ndmin", 0) not in (0, 1):
            raise Unsupported("np.array without copy")
        return typed(I, np_array(I, ar[0] if ar else kw["object"]), ar[1] if len(ar) > 1 else kw.get("dtype"))

    def typed(I, a, dt):
        if dt is None or not isinstance(a, Arr):
            return a
        t = dtype_of(I, dt)
        if t == a.dtype:
            return a
        if t == "R" and a.dtype == "I":
            f = a.frozen()
            r = new_arr(I, a.shape, f, "R")
            r.tag = a.tag
            return r
        raise Unsupported("conversion to integers")

    @d("asarray", "ascontiguousarray", "asanyarray")
    def _(I, ar, kw):
        x = ar[0]
        if isinstance(x, Arr) and x.ndim:
            return typed(I, x, ar[1] if len(ar) > 1 else kw.get("dtype"))
        return typed(I, np_array(I, x), ar[1] if len(ar) > 1 else kw.get("dtype"))

    @d("atleast_1d")
    def _(I, ar, kw):
        x = ar[0]
        if isinstance(x, Arr) and x.ndim:
            return x
        if is_num(x):
            return np_array(I, [x])
        return np_array(I, x)

    @d("copy")
    def _(I, ar, kw):
        return copy(I, to_arr(I, ar[0]))

    @d("copyto")
    def _(I, ar, kw):
        assign(I, ar[0], ar[1])

    @d("eye", "identity")
    def _(I, ar, kw):
        n = lift(ar[0])
        return new_arr(I, (n, n), lambda idx: ite(eq(idx[0], idx[1]), ONE, ZERO))

    @d("arange")
    def _(I, ar, kw):
        lo, hi = (0, ar[0]) if len(ar) == 1 else (ar[0], ar[1])
        if len(ar) > 2:
            raise Unsupported("arange step")
        lo, hi = lift(lo), lift(hi)
        if lo.sort != "I" or hi.sort != "I":
            raise Unsupported("arange of reals")
        if I.decide(le(lo, hi)) is not True:
            if I.decide(le(lo, hi)) is None:
                raise Unsupported("arange of unknown length")
            hi = lo
        return new_arr(I, (sub(hi, lo),), lambda idx: add(lo, idx[0]), "I")

    @d("einsum")
    def _(I, ar, kw):
        return einsum(I, *ar)

    @d("dot", "matmul")
    def _(I, ar, kw):
        return dot(I, ar[0], ar[1])

    @d("inner", "vdot")
    def _(I, ar, kw):
        a, b = to_arr(I, ar[0]), to_arr(I, ar[1])
        if a.ndim == 1 and b.ndim == 1:
            return einsum(I, "a,a->", a, b)
        raise Unsupported("inner nd")

    @d("outer")
    def _(I, ar, kw):
        return einsum(I, "a,b->ab", ar[0], ar[1])

    @d("tensordot")
    def _(I, ar, kw):
        ax = ar[2] if len(ar) > 2 else kw.get("axes", 2)
        a, b = to_arr(I, ar[0]), to_arr(I, ar[1])
        la, lb = "abcd"[:a.ndim], "wxyz"[:b.ndim]
        if isinstance(ax, int):
            pa = list(range(a.ndim - ax, a.ndim))
            pb = list(range(ax))
        else:
            pa = [ax[0]] if isinstance(ax[0], int) else list(ax[0])
            pb = [ax[1]] if isinstance(ax[1], int) else list(ax[1])
        lb = list(lb)
        for i, j in zip(pa, pb):
            lb[j] = la[i]
        lb = "".join(lb)
        out = "".join(c for i, c in enumerate(la) if i not in [p % a.ndim for p in pa]) + "".join(c for j, c in enumerate(lb) if j not in pb)
        return einsum(I, f"{la},{lb}->{out}", a, b)

    @d("sum")
    def _(I, ar, kw):
        ax = ar[1] if len(ar) > 1 else kw.get("axis")
        return unlift(total_sum(I, to_arr(I, ar[0]), ax))

    @d("prod")
    def _(I, ar, kw):
        x = ar[0]
        if isinstance(x, ShapeV):
            return x.total
        if isinstance(x, (tuple, list)):
            r = ONE
            for e in x:
                r = mul(r, lift(e))
            return unlift(r)
        a = to_arr(I, x)
        if a.ndim == 1 and is_const(a.shape[0]):
            r = ONE
            for i in range(int(cval(a.shape[0]))):
                r = mul(r, a.get((const(i),)))
            return unlift(r)
        raise Unsupported("np.prod of symbolic array")

    for n, fn in (("abs", T.abs_), ("absolute", T.abs_), ("fabs", T.abs_), ("sqrt", T.sqrt), ("negative", neg),
                  ("square", lambda x: mul(x, x)),
                  ("exp", lambda x: T.app("exp", [x])), ("sin", lambda x: T.app("sin", [x])), ("cos", lambda x: T.app("cos", [x])),
                  ("log", lambda x: T.app("log", [x]))):
        ns[n] = Builtin("np." + n, sc(fn))
    for n, fn in (("maximum", T.max_), ("minimum", T.min_), ("add", add), ("subtract", sub), ("multiply", mul), ("divide", div), ("true_divide", div), ("power", T.pow_)):
        def g(I, ar, kw, fn=fn):
            if any(isinstance(x, Arr) for x in ar):
                r = elementwise(I, fn, *ar[:2])
            else:
                r = unlift(fn(lift(ar[0]), lift(ar[1])))
            out = kw.get("out") or (ar[2] if len(ar) > 2 else None)
            if out is not None:
                assign(I, out, r)
                return out
            return r
        ns[n] = Builtin("np." + n, g)

    @d("all")
    def _(I, ar, kw):
        return allany(I, ar[0], "all")

    @d("any")
    def _(I, ar, kw):
        return allany(I, ar[0], "any")

    @d("array_equal")
    def _(I, ar, kw):
        a, b = to_arr(I, ar[0]), to_arr(I, ar[1])
        if a.ndim != b.ndim:
            return False
        c = [eq(x, y) for x, y in zip(a.shape, b.shape)]
        vs = [fresh_bound() for _ in a.shape]
        if all(same_dim(I, x, y) for x, y in zip(a.shape, b.shape)):
            e = elementwise(I, eq, a, b, dtype="B")
            return allany(I, e, "all")
        raise Unsupported("array_equal with unknown shapes")

    @d("array_equiv")
    def _(I, ar, kw):
        return ns["array_equal"].fn(I, ar, kw)

    def closeness(I, ar, kw):
        ar = list(ar) + [None] * (5 - len(ar))
        g = lambda k, n, d: lift(ar[k] if ar[k] is not None else kw.get(n, d))
        rt, at = g(2, "rtol", Fraction(1, 10**5)), g(3, "atol", Fraction(1, 10**8))
        f = lambda x, y: T.le(T.abs_(T.sub(x, y)), T.add(at, T.mul(rt, T.abs_(y))))
        return elementwise(I, f, ar[0], ar[1], dtype="B")

    @d("isclose")
    def _(I, ar, kw):
        return closeness(I, ar, kw)

    @d("allclose")
    def _(I, ar, kw):
        r = closeness(I, ar, kw)
        return allany(I, r, "all") if isinstance(r, Arr) else r

    @d("roll")
    def _(I, ar, kw):
        return roll(I, ar[0], ar[1] if len(ar) > 1 else kw["shift"])

    @d("concatenate", "hstack", "append")
    def _(I, ar, kw):
        if kw.get("axis", 0) not in (0, None):
            raise Unsupported("concatenate axis")
        parts = ar[0] if isinstance(ar[0], (list, tuple)) and len(ar) == 1 else list(ar)
        parts = [to_arr(I, p) for p in parts]
        if any(p.ndim != 1 for p in parts):
            if all(p.ndim <= 1 for p in parts):
                parts = [p if p.ndim else flatten(I, p) for p in parts]
            else:
                raise Unsupported("concatenate nd")
        fs = [p.frozen() for p in parts]
        offs = [ZERO]
        for p in parts:
            offs.append(add(offs[-1], p.shape[0]))

        def fn(idx):
            r = fs[-1]((sub(idx[0], offs[len(fs) - 1]),))
            for k in range(len(fs) - 2, -1, -1):
                r = ite(lt(idx[0], offs[k + 1]), fs[k]((sub(idx[0], offs[k]),)), r)
            return r
        return new_arr(I, (offs[-1],), fn)

    @d("size")
    def _(I, ar, kw):
        a = ar[0]
        if len(ar) > 1:
            return unlift(a.shape[ar[1]])
        return size(I, a)

    @d("shape")
    def _(I, ar, kw):
        return arr_getattr(I, ar[0], "shape")

    @d("isinf")
    def _(I, ar, kw):
        return isinstance(ar[0], float) and ar[0] in (INF, -INF)

    @d("isnan", "isfinite")
    def _(I, ar, kw):
        raise Unsupported("isnan")

    @d("max", "amax")
    def _(I, ar, kw):
        return reduce_mm(I, ar[0], T.max_, "max")

    @d("min", "amin")
    def _(I, ar, kw):
        return reduce_mm(I, ar[0], T.min_, "min")

    @d("clip")
    def _(I, ar, kw):
        x, lo, hi = ar
        if isinstance(x, Arr):
            raise Unsupported("clip array")
        r = x
        if lo is not None:
            r = I.call(I.builtins["max"], [lo, r], {})
        if hi is not None:
            r = I.call(I.builtins["min"], [hi, r], {})
        return r

    @d("where")
    def _(I, ar, kw):
        c, a, b = ar
        return elementwise(I, ite, c, a, b)

    @d("unravel_index")
    def _(I, ar, kw):
        raise Unsupported("unravel_index")

    @d("diag", "diagonal")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        if a.ndim == 2 and len(ar) == 1 and not kw:
            return diagonal(I, a)
        raise Unsupported("diag of vector")

    def tri(upper):
        def g(I, ar, kw):
            a = to_arr(I, ar[0])
            k = lift(ar[1] if len(ar) > 1 else kw.get("k", 0))
            f = a.frozen()
            if upper:
                return new_arr(I, a.shape, lambda idx: ite(le(add(idx[0], k), idx[1]), f(idx), ZERO))
            return new_arr(I, a.shape, lambda idx: ite(le(idx[1], add(idx[0], k)), f(idx), ZERO))
        return g
    ns["triu"] = Builtin("np.triu", tri(True))
    ns["tril"] = Builtin("np.tril", tri(False))

    @d("count_nonzero")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        e = elementwise(I, lambda x: ite(eq(x, ZERO), ZERO, ONE), a)
        return total_sum(I, e)

    @d("mean")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        return unlift(div(lift(total_sum(I, a)), lift(size(I, a))))

    @d("cumsum")
    def _(I, ar, kw):
        a = to_arr(I, ar[0])
        if a.ndim != 1:
            raise Unsupported("cumsum nd")
        f = a.frozen()

        def fn(idx):
            v = fresh_bound()
            return T.sum_(v, ZERO, add(idx[0], ONE), f((v,)))
        return new_arr(I, a.shape, fn, a.dtype)

    @d("flip")
    def _(I, ar, kw):
        return getitem(I, to_arr(I, ar[0]), SliceV(None, None, -1)) if to_arr(I, ar[0]).ndim == 1 else raise_unsupported("flip nd")

    @d("trace")
    def _(I, ar, kw):
        return unlift(total_sum(I, diagonal(I, to_arr(I, ar[0]))))

    @d("vstack", "stack")
    def _(I, ar, kw):
        ps = [to_arr(I, x) for x in I.iter_list(ar[0])]
        if any(p.ndim != 1 for p in ps) or not all(same_dim(I, p.shape[0], ps[0].shape[0]) for p in ps):
            raise Unsupported("stack nd")
        fs = [p.frozen() for p in ps]
        return new_arr(I, (const(len(ps)), ps[0].shape[0]), lambda idx: pick(idx[0], [f(idx[1:]) for f in fs]))

    @d("transpose")
    def _(I, ar, kw):
        return transpose(to_arr(I, ar[0]))

    @d("reshape")
    def _(I, ar, kw):
        return reshape(I, to_arr(I, ar[0]), ar[1])

    @d("ravel")
    def _(I, ar, kw):
        return I.call(arr_getattr(I, to_arr(I, ar[0]), "ravel"), [], {})

    def guarded(n, b):
        mx, kws = ARGS[n]

        def g(I, ar, kw, fn=b.fn):
            if len(ar) > mx or any(k not in kws for k in kw):
                raise Unsupported(f"arguments of np.{n}")
            return fn(I, ar, kw)
        return Builtin(b.name, g)
    for n, b in list(ns.items()):
        if type(b) is Builtin and n not in ("float64", "float32", "int64", "int32", "complex128", "bool_", "intp", "ndarray", "integer", "floating", "isnan", "isfinite"):
            ns[n] = guarded(n, b)
    la = {}

    def norm_(I, ar, kw):
        if len(ar) > 2 or any(k != "ord" for k in kw):
            raise Unsupported("arguments of np.linalg.norm")
        return norm(I, ar[0], ar[1] if len(ar) > 1 else kw.get("ord"))
    la["norm"] = Builtin("np.linalg.norm", norm_)
    ns["linalg"] = Module("numpy.linalg", la)
    return Module("numpy", ns)


def diagonal(I, a):
    if I.decide(eq(a.shape[0], a.shape[1])) is not True:
        raise Unsupported("diagonal of a matrix that may not be square")
    return Arr(ABuf(a, (a.shape[0],), lambda ix: (ix[0], ix[0]), None))


def reduce_mm(I, x, f, nm):
    a = to_arr(I, x)
    if a.ndim == 1 and is_const(a.shape[0]):
        r = a.get((ZERO,))
        for i in range(1, int(cval(a.shape[0]))):
            r = f(r, a.get((const(i),)))
        return r
    if a.ndim == 1:
        I.side_condition(f"np.{nm} of a non-empty array", lt(ZERO, a.shape[0]))
        v = fresh_bound()
        if nm == "max" and I.decide(le(ZERO, a.get((v,)))) is True:
            I.assume(le(ZERO, T.app("arrmax", [a.lam()])))
    return T.app("arr" + nm, [a.lam()])
