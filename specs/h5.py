"""Contract of h5py (assumed): a file is a map from group names to datasets; ghost state of the file on disk."""
from .common import *
from pyvc import npmodel as NP
from pyvc.npmodel import ShapeV
from pyvc.values import Module, SliceV


class EShape(ShapeV):
    """shape of at least one dimension: contains a zero iff it has no element; dims: None or the dimensions"""

    def __init__(self, name, total, dims=None):
        super().__init__(name, total)
        self.dims = dims

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_contains(self, I, x):
        if self.dims is not None:
            return I.contains(tuple(self.dims), x)
        if lift(x) is ZERO:
            return eq(self.total, ZERO)
        raise Unsupported("containment in a shape")

    def _d(self):
        if self.dims is None:
            raise Unsupported("dimensions of a shape")
        return tuple(NP.unlift(d) for d in self.dims)

    def py_iterlist(self, I):
        return self._d()

    def py_len(self, I):
        return len(self._d())

    def py_getitem(self, I, k):
        return I.getitem(self._d(), k)


def key_parts(I, k):
    """key as (first component, rest) where the first is an int / term / str"""
    if isinstance(k, str):
        parts = [k]
    elif isinstance(k, Term) and k.kind == "app" and k.args[0] == "fstr":
        parts = []
        for p in k.args[1]:
            if p.kind == "var" and p.sort == "S" and str(p.args[0]).startswith("str:"):
                parts.append(p.args[0][4:])
            else:
                parts.append(p)
    elif isinstance(k, Term) and k.sort == "S":
        parts = [k]
    else:
        I.raise_("TypeError", "names in files are strings")
    out, cur = [], []
    for p in parts:
        if isinstance(p, str):
            segs = p.split("/")
            for i, s in enumerate(segs):
                if i:
                    out.append(cur)
                    cur = []
                if s:
                    cur.append(s)
        else:
            cur.append(p)
    out.append(cur)
    out = [c for c in out if c]
    res = []
    for c in out:
        if len(c) != 1:
            raise Unsupported("composed name in a file")
        c = c[0]
        res.append(c)
    return res


def group_no(I, c):
    if isinstance(c, str):
        if not c.isdigit() or str(int(c)) != c:
            raise Unsupported(f"group {c!r}")
        return lift(int(c))
    if c.sort != "I":
        raise Unsupported("group name")
    return c


class Disk(Native):
    """the (one) file on disk: groups numbered g hold time, error measure and a dataset per quantity k
    (the local block of which has entries i)"""

    def __init__(self, I, W, filename, comm, exists, want_err):
        self.I, self.W, self.filename, self.comm = I, W, filename, comm
        self.exists, self.open = exists, None
        G, K, N = (I.fresh(n, "I") for n in ("G", "K", "N"))
        self.b = {}
        for n, shp in (("present", (G,)), ("time?", (G,)), ("err?", (G,)), ("data?", (G, K))):
            self.b[n] = Buf(shp, lambda ix, n=n: app("file_" + n, list(ix), "I"), "I", n)
        for n, shp in (("time", (G,)), ("err", (G,)), ("data", (G, K, N))):
            self.b[n] = Buf(shp, lambda ix, n=n: app("file_" + n, list(ix)), "R", n)
        for b in self.b.values():
            I.register(b)
        self.axes_whole = None
        self.allow = None
        I.register(self)

    def snap(self):
        return dict(exists=self.exists, open=self.open)

    def restore(self, s):
        self.__dict__.update(s)

    def module(self):
        I = self.I
        return Module("h5py", {"File": Builtin("h5py.File", self.open_)})

    def open_(self, I, ar, kw):
        d = dict(zip(("name", "mode", "driver"), ar))
        d.update(kw)
        truth(I, "the file of the callback is opened", d.get("name") is self.filename, repr(d.get("name")))
        mode = d.get("mode", "r")
        truth(I, "opened collectively by all ranks", d.get("driver") == "mpio" and d.get("comm") is self.comm, f"driver={d.get('driver')!r}")
        if mode not in ("w", "r+", "a", "w-", "x", "r"):
            I.raise_("ValueError", "mode")
        if self.open is not None:
            truth(I, "the file is not open twice", False)
        if mode in ("w", "w-", "x"):
            if mode != "w" and self.exists:
                I.raise_("FileExistsError", "")
            for n in ("present", "time?", "err?", "data?"):
                self.b[n].setfn(lambda ix: ZERO)
        elif not self.exists:
            if mode == "a":
                for n in ("present", "time?", "err?", "data?"):
                    self.b[n].setfn(lambda ix: ZERO)
            else:
                I.raise_("FileNotFoundError", "")
        self.exists = True
        f = H5(self, None, mode != "r")
        I.register(f)
        self.open = f
        return f

    def flag(self, n, *ix):
        if n == "data?" and self.lemma is not None:
            self.I.assume(*self.lemma(*[lift(i) for i in ix]))
        return eq(self.b[n].read(tuple(lift(i) for i in ix)), ONE)

    def put(self, n, ix, v):
        b = self.b[n]
        old = b._fn
        ix = tuple(lift(i) for i in ix)
        b.setfn(lambda jx, old=old, ix=ix, v=v: ite(and_(*[eq(a, c) for a, c in zip(jx, ix)]), v(jx[len(ix):]) if callable(v) else v, old(jx)))


class H5(Native):
    """open file (g None) or group g of it"""

    def __init__(self, D, g, writable):
        self.D, self.g, self.writable, self.root = D, g, writable, None

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def live(self, I):
        r = self.root or self
        if self.D.open is not r:
            I.raise_("ValueError", "the file is closed")

    def group(self, I, g):
        r = H5(self.D, g, self.writable)
        r.root = self.root or self
        I.register(r)
        return r

    def py_getattr(self, I, name):
        if name in ("__enter__",):
            return Builtin(name, lambda I2, ar, kw: self)
        if name in ("__exit__", "close"):
            return Builtin(name, lambda I2, ar, kw: setattr(self.D, "open", None))
        if name == "keys":
            return Builtin(name, lambda I2, ar, kw: Keys(self))
        if name == "flush":
            return Builtin(name, lambda I2, ar, kw: None)
        if name in ("create_group", "require_group", "create_dataset", "require_dataset"):
            return Builtin(name, lambda I2, ar, kw, name=name: getattr(self, name)(I2, ar, kw))
        if name == "get":
            return Builtin(name, lambda I2, ar, kw: self.py_getitem(I2, ar[0]) if I2.branch(lift(self.py_contains(I2, ar[0]))) else (ar[1] if len(ar) > 1 else None))
        raise Unsupported("file." + name)

    def split(self, I, key):
        p = key_parts(I, key)
        if self.g is None:
            g = group_no(I, p[0])
            rest = p[1:]
        else:
            g, rest = self.g, p
        if len(rest) > 1:
            raise Unsupported("nested name")
        return g, (rest[0] if rest else None)

    def item(self, I, n):
        """(flag, value) arrays and index of an item of a group"""
        if n == "time":
            return "time", ()
        if n == "error_measure":
            return "err", ()
        if isinstance(n, Term) and n.kind == "app" and n.args[0] == "qname":
            return "data", (n.args[1][0],)
        if isinstance(n, str) and n.startswith("q") and n[1:].isdigit():
            return "data", (lift(int(n[1:])),)
        return None, ()

    def py_contains(self, I, key):
        self.live(I)
        g, n = self.split(I, key)
        D = self.D
        if n is None:
            return D.flag("present", g)
        w, ix = self.item(I, n)
        if w is None:
            return False
        return and_(D.flag("present", g), D.flag(w + "?", g, *ix))

    def create_group(self, I, ar, kw):
        self.live(I)
        g, n = self.split(I, ar[0])
        if n is not None:
            raise Unsupported("nested group")
        D = self.D
        if not self.writable or I.branch(D.flag("present", g)):
            I.raise_("ValueError", "unable to create group (name already exists)")
        self.fresh_group(I, g)
        return self.group(I, g)

    def fresh_group(self, I, g):
        D = self.D
        D.put("present", (g,), ONE)
        for n in ("time?", "err?"):
            D.put(n, (g,), ZERO)
        b = D.b["data?"]
        old = b._fn
        b.setfn(lambda ix: ite(eq(ix[0], g), ZERO, old(ix)))

    def require_group(self, I, ar, kw):
        self.live(I)
        g, n = self.split(I, ar[0])
        if I.branch(self.D.flag("present", g)):
            return self.group(I, g)
        return self.create_group(I, ar, kw)

    def create_dataset(self, I, ar, kw, require=False):
        self.live(I)
        d = dict(zip(("name", "shape", "dtype", "data"), ar))
        d.update(kw)
        g, n = self.split(I, d["name"])
        D = self.D
        w, ix = self.item(I, n) if n is not None else (None, ())
        if w is None:
            truth(I, "only time, error measure and quantities are stored", False, repr(n))
            raise PathEnd()
        if not self.writable:
            I.raise_("ValueError", "read only")
        if not I.branch(D.flag("present", g)):
            self.fresh_group(I, g)      # intermediate groups are created
        if I.branch(D.flag(w + "?", g, *ix)):
            if require:
                return self.py_getitem(I, d["name"])
            I.raise_("ValueError", "unable to create dataset (name already exists)")
        unk = set(d) - {"name", "shape", "dtype"}
        if unk:
            raise Unsupported(f"create_dataset arguments {sorted(unk)}")
        shp = d.get("shape")
        if w == "data":
            ok = isinstance(shp, ShapeV) and isinstance(shp.name, tuple) and shp.name[0] == "ug" and I.decide(eq(lift(shp.name[1]), ix[0])) is True
            truth(I, "dataset of a quantity has its global shape", ok, repr(shp))
        else:
            ok = shp in (1, (1,), ()) if not isinstance(shp, Native) else False
            truth(I, f"dataset of the {w} has one entry", shp in (1, (1,)), repr(shp))
        dt = d.get("dtype")
        truth(I, "datasets hold double precision numbers", dt is I.stubs["numpy"].ns["float64"] or dt is I.builtins["float"] or dt in ("float64", "f8", "<f8", "d", "float"), repr(dt))
        D.put(w + "?", (g,) + ix, ONE)
        D.put(w, (g,) + ix, (lambda rest: ZERO))
        return DSet(self, g, w, ix)

    def require_dataset(self, I, ar, kw):
        return self.create_dataset(I, ar, kw, True)

    def py_getitem(self, I, key):
        self.live(I)
        g, n = self.split(I, key)
        D = self.D
        if not I.branch(D.flag("present", g)):
            I.raise_("KeyError", str(key))
        if n is None:
            return self.group(I, g)
        w, ix = self.item(I, n)
        if w is None or not I.branch(D.flag(w + "?", g, *ix)):
            I.raise_("KeyError", str(key))
        r = DSet(self, g, w, ix)
        I.register(r)
        return r

    def py_setitem(self, I, key, val):
        raise Unsupported("assignment of a whole dataset by name")


class Keys(Native):
    def __init__(self, f):
        self.f = f

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_contains(self, I, key):
        return self.f.py_contains(I, key)


class WI(Native):
    """index of the local block of quantity k (contract of get_write_indices)"""

    def __init__(self, k):
        self.k = k

    def snap(self):
        return {}

    def restore(self, s):
        pass


class DSet(Native):
    def __init__(self, f, g, w, ix):
        self.f, self.g, self.w, self.ix = f, g, w, ix

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_setitem(self, I, key, val):
        f, D = self.f, self.f.D
        f.live(I)
        if not f.writable:
            I.raise_("OSError", "read only")
        if self.w != "data":
            k = key[0] if isinstance(key, tuple) and len(key) == 1 else key
            if not (k is Ellipsis or k == () or (isinstance(k, SliceV) and k.lo is None and k.hi is None) or (isinstance(k, (int, Term)) and I.decide(or_(eq(lift(k), ZERO), eq(lift(k), lift(-1)))) is True)):
                I.raise_("ValueError", "index out of range")
            x = num(I, val)
            D.put(self.w, (self.g,), x)
            return
        W, k = D.W, self.ix[0]
        n = W.length("old", k)
        ok = False
        if isinstance(key, WI):
            ok = I.decide(eq(lift(key.k), k)) is True
        elif isinstance(key, tuple) and D.block is not None:
            ok = D.block(I, k, key)
        elif key is Ellipsis or key == ():
            ok = False
        truth(I, "values are written to the local block of the quantity", ok, repr(key))
        if not isinstance(val, Arr):
            x = num(I, val)
            D.put("data", (self.g, k), lambda r: x)
            return
        same = isinstance(val.tag, ShapeV) and isinstance(val.tag.name, tuple) and val.tag.name[0] == "u" and I.decide(eq(lift(val.tag.name[1]), k)) is True
        truth(I, "the values have the local shape of the quantity", same, repr(val.tag))
        I.oblige("size of the values", eqs=(val.shape[0], n))
        c = content(val)
        b = D.b["data"]
        old, g = b._fn, self.g
        b.setfn(lambda ix: ite(and_(eq(ix[0], g), eq(ix[1], k), le(ZERO, ix[2]), lt(ix[2], n)), c((ix[2],)), old(ix)))
Disk.block = None
Disk.lemma = None     # instance of the quantified part of the file invariant
