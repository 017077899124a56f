"""Run-time values of the symbolic executor: heap objects, numpy buffers and views."""
from fractions import Fraction
from . import terms as T
from .terms import Term, ZERO, ONE, const, add, sub, mul, le, lt, eq, and_, ite, fresh_bound, lift, is_const, cval


class Unsupported(Exception):
    """The construct is outside the verifier's subset (never a property violation)."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, obj):
        self.obj = obj

    def __str__(self):
        return f"PyExc({self.obj!r})"


class Poison:
    def __repr__(self):
        return "<poison>"


POISON = Poison()


class Buf:
    """Memory of one numpy array."""
    __slots__ = ("shape", "_fn", "memo", "dtype", "name", "serial")

    def __init__(self, shape, fn, dtype="R", name=""):
        self.shape = tuple(lift(s) for s in shape)
        self.setfn(fn)
        self.dtype = dtype
        self.name = name

    def setfn(self, fn):
        self._fn = fn
        self.memo = {}

    def read(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self._fn(idx)
            self.memo[idx] = r
        return r

    # snapshot protocol
    def snap(self):
        return (self._fn, self.memo, self.shape)

    def restore(self, s):
        self._fn, self.memo, self.shape = s


class ABuf(Buf):
    """Memory of another array seen through an index map (transposed, flattened ...): reads and writes reach it."""
    __slots__ = ("base", "fwd", "inv")

    def __init__(self, base, shape, fwd, inv):
        """fwd: index -> index into `base` (an Arr), or (for a function of reads) via ("read", f);
        inv: base index -> index, None: read-only"""
        self.base, self.fwd, self.inv = base, fwd, inv
        self.shape = tuple(lift(s) for s in shape)
        self.dtype, self.name = base.dtype, base.buf.name
        if hasattr(base.buf, "serial"):
            self.serial = base.buf.serial

    @property
    def memo(self):
        return {}

    @property
    def _fn(self):
        rd = self.base.frozen()
        if isinstance(self.fwd, tuple):
            return lambda idx, f=self.fwd[1]: f(rd, idx)
        return lambda idx: rd(self.fwd(tuple(idx)))

    def read(self, idx):
        return self._fn(idx)

    def setfn(self, fn):
        if self.inv is None:
            raise Unsupported("write through a read-only view")
        self.base.write(lambda vi: fn(self.inv(vi)))

    def snap(self):
        return None

    def restore(self, s):
        pass


def root(b):
    """the memory a buffer stands for"""
    while isinstance(b, ABuf):
        b = b.base.buf
    return b


class Arr:
    """View: per buffer axis either ('f', index) or ('r', start, step, length)."""
    __slots__ = ("buf", "axes", "tag", "readonly")

    def __init__(self, buf, axes=None, tag=None):
        self.buf = buf
        self.axes = axes if axes is not None else [("r", ZERO, 1, s) for s in buf.shape]
        self.tag = tag          # opaque multi-dim shape carried by a flattened array
        self.readonly = False

    @property
    def shape(self):
        return tuple(a[3] for a in self.axes if a[0] == "r")

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def bufidx(self, idx):
        out, i = [], 0
        for a in self.axes:
            if a[0] == "f":
                out.append(a[1])
            else:
                out.append(add(a[1], idx[i]) if a[2] == 1 else sub(a[1], idx[i]))
                i += 1
        return tuple(out)

    def get(self, idx):
        return self.buf.read(self.bufidx(tuple(idx)))

    def write(self, valfn):
        """valfn(view idx) -> Term; writes the whole view."""
        old = self.buf._fn
        oldmemo = self.buf.memo
        axes, shape = list(self.axes), self.buf.shape

        def rd_old(idx):
            r = oldmemo.get(idx)
            if r is None:
                r = old(idx)
                oldmemo[idx] = r
            return r
        cache = {}

        def fn(idx):
            conds, vi = [], []
            for k, a in enumerate(axes):
                b = idx[k]
                if a[0] == "f":
                    conds.append(eq(b, a[1]))
                else:
                    rel = sub(b, a[1]) if a[2] == 1 else sub(a[1], b)
                    vi.append(rel)
                    if not (a[1] is ZERO and a[2] == 1 and a[3] is shape[k]):
                        conds.append(le(ZERO, rel))
                        conds.append(lt(rel, a[3]))
            c = and_(*conds)
            if c is T.FALSE:
                return rd_old(idx)
            v = valfn(tuple(vi))
            if c is T.TRUE:
                return v
            return ite(c, v, rd_old(idx))
        self.buf.setfn(fn)

    def lam(self):
        """content as a lambda term"""
        shp = self.shape
        vs = [fresh_bound() for _ in shp]
        return T.lam(vs, shp, self.get(tuple(vs)))

    def frozen(self):
        """function giving the present content (immune to later writes)"""
        fn, memo, axes = self.buf._fn, self.buf.memo, list(self.axes)

        def rd(idx):
            b = self.bufidx(tuple(idx))
            r = memo.get(b)
            if r is None:
                r = fn(b)
                memo[b] = r
            return r
        return rd

    def __repr__(self):
        return f"<Arr {self.buf.name} {self.shape}>"


class PyClass:
    def __init__(self, name, bases, ns, module=None, qual=None):
        self.name, self.bases, self.ns, self.module = name, list(bases), ns, module
        self.qual = qual or name
        self.dataclass = None
        self.fields = []
        self.mro = _c3(self)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def subclass_of(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.name}>"


def _c3(cls):
    def merge(seqs):
        res = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            res.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]
    return [cls] + merge([list(b.mro) for b in cls.bases] + [list(cls.bases)])


class Obj:
    """Instance of an interpreted (or stub) class."""
    __slots__ = ("cls", "attrs", "serial", "label")

    def __init__(self, cls, attrs=None, label=""):
        self.cls, self.attrs, self.label = cls, attrs if attrs is not None else {}, label
        self.serial = None

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s)

    def __repr__(self):
        return f"<{self.cls.name} {self.label or hex(id(self))}>"


class Native:
    """Base of stub objects implemented in Python; subclasses define py_* hooks."""
    def snap(self):
        return dict(self.__dict__)

    def restore(self, s):
        self.__dict__.clear()
        self.__dict__.update(s)


class PyFunc:
    def __init__(self, node, closure, module, qual, cls=None, defaults=(), kwdefaults=None):
        self.node, self.closure, self.module, self.qual, self.cls = node, closure, module, qual, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.name = getattr(node, "name", "<lambda>")

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn}>"


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClsM:
    def __init__(self, fn):
        self.fn = fn


class Module:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns

    def __repr__(self):
        return f"<module {self.name}>"


class SymRange:
    """range with symbolic bounds; step +1 or -1 ; iteration i -> start + step*i, i in [0,n)"""
    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = lift(start), lift(n), step


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
