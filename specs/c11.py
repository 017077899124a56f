"""C11: every quantity owns its own exact slice of the state vector."""
from .common import *
from pyvc.npmodel import ShapeV
import itertools

MDX = PKG + ".metadata_extractor"
FILES = ["rkopenmdao/metadata_extractor.py", "rkopenmdao/errors.py"]
FUNCS = ["extract_time_integration_metadata", "_search_for_time_variable", "_create_local_array_metadata", "_extract_time_integration_quantity",
         "add_time_independent_input_metadata", "_extract_time_independent_quantity", "add_distributivity_information"]
ASSUMPTIONS = ["contract of OpenMDAO: get_io_metadata returns exactly the variables of the given iotypes carrying at least one of the tags (local ones with get_remote=False), with the requested metadata",
               "contract of OpenMDAO: _var_sizes[iotype][rank, index of the variable] is the size of the variable on that rank",
               "at least one quantity is requested (an empty list means 'no filtering' to OpenMDAO; OpenMDAOODE skips the independent inputs then)",
               "np.prod(shape) is the number of entries of a variable of that shape"]
RT_NOTE = "real OpenMDAO problems with random taggings, shapes and orders (and simulated ranks) against the documented layout"
LEVEL = "layout of arbitrarily many quantities, global ranges and distributivity proved; tagging rules of one quantity for up to 8 tagged variables"
B = lambda n, *a: app(n, list(a), "B")


class Shp(ShapeV):
    """opaque shape; equality with another shape is a ghost truth value"""

    def __init__(self, I, name, total, other=None, same=None):
        super().__init__(name, total)
        self.other, self.same = other, same
        self.empty = None
        I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_eq(self, I, o):
        if o is self:
            return True
        if isinstance(o, Shp):
            if self.other is o:
                return self.same
            if o.other is self:
                return o.same
        if o == (0,):
            return B("empty_shape", var(str(self.name), "S") if not isinstance(self.name, Term) else self.name)
        raise Unsupported("comparison of shapes")

    def py_iter(self, I):
        raise Unsupported("iteration over an opaque shape")

    def py_len(self, I):
        raise Unsupported("number of dimensions of an opaque shape")


class Comm(Native):
    """LAND with the other ranks: others(k) says whether the shapes agree on all of them"""

    def __init__(self, I, rank=None, size=None):
        self.calls = []
        self.rank, self.size = rank, size
        I.register(self)
        self.mine, self.others = None, None      # set before each reduction

    def snap(self):
        return dict(calls=list(self.calls))

    def restore(self, s):
        self.calls = list(s["calls"])

    def py_getattr(self, I, name):
        if name in ("rank", "size"):
            return getattr(self, name)
        if name in ("Get_rank", "Get_size"):
            return Builtin(name, lambda I2, ar, kw: getattr(self, name[4:]))
        if name == "allreduce":
            def f(I2, ar, kw):
                op = ar[1] if len(ar) > 1 else kw.get("op", "SUM")
                x = ar[0]
                x = x if isinstance(x, Term) else T.boolc(bool(x)) if isinstance(x, bool) else lift(x)
                mine, others = self.ghost(I, x)
                self.calls.append(op)
                if op in ("LAND", "MIN") and mine is not None and P.prove(T.or_(and_(x, mine), and_(not_(x), not_(mine))), I.facts).status == "proved":
                    return I.unbool(and_(mine, others)) if hasattr(I, "unbool") else and_(mine, others)
                if op in ("LOR", "MAX") and mine is not None and P.prove(T.or_(and_(x, not_(mine)), and_(not_(x), mine)), I.facts).status == "proved":
                    return T.or_(not_(mine), not_(others))
                return app("reduced_" + str(op), [x], "B")
            return Builtin(name, f)
        raise Unsupported("comm." + name)


def problem(I, meta, sizes=None, comm=None):
    """stage problem with the given get_io_metadata"""
    meth = {"get_io_metadata": lambda I2, ar, kw: meta(I2, ar[1:], kw)}
    model = I.register(Obj(stub_class(I, "Model", None, meth), {}, "model"))
    if sizes:
        model.attrs.update(sizes)
    return I.register(Obj(stub_class(I, "StageProblem", None, {}), {"model": model, "comm": comm}, "stage problem"))


KEYS = ["iotypes", "metadata_keys", "includes", "excludes", "is_indep_var", "is_design_var", "tags", "get_remote", "rank", "return_rel_names"]


def iargs(I, ar, kw):
    d = dict(zip(KEYS, ar))
    d.update(kw)
    bad = set(d) - set(KEYS)
    if bad:
        I.raise_("TypeError", str(bad))
    for k in d:
        if k not in ("iotypes", "metadata_keys", "tags", "get_remote"):
            raise Unsupported("get_io_metadata(" + k + ")")
    io = d.get("iotypes", ("input", "output"))
    io = {io} if isinstance(io, str) else set(I.iter_list(io))
    tags = d.get("tags")
    mk = d.get("metadata_keys")
    return io, tags, None if mk is None else I.iter_list(mk), d.get("get_remote", False)


# ------------------------------------------------------------------ one local variable
def run_array(iotype, differs, older=False):
    """_create_local_array_metadata: local and global range"""
    def run(I):
        R, NV, rank, idx, st, en, sz, gsz = [var(n, "I") for n in ("R", "NV", "rank", "idx", "st", "en", "sz", "gsz")]
        I.assume(le(ZERO, rank), lt(rank, R), le(ZERO, idx), lt(idx, NV), le(ZERO, st), le(st, en), le(ZERO, sz), le(ZERO, gsz))
        tabs = {t: arr(I, "sizes_" + t, (R, NV), "I") for t in ("input", "output")}
        g = Shp(I, "g", gsz)
        s = Shp(I, "s", sz, g, T.boolc(False) if differs else T.boolc(True))
        if not differs:
            I.assume(eq(sz, gsz))
        v = "x"
        if older:
            sizes = {"_var_sizes": I.register({"nonlinear": I.register(dict(tabs))}), "_var_allprocs_abs2idx": I.register({"nonlinear": I.register({v: idx})})}
        else:
            sizes = {"_var_sizes": I.register(dict(tabs)), "_var_allprocs_abs2idx": I.register({v: idx})}
        p = problem(I, None, sizes, Comm(I, rank, R))
        kw = dict(stage_problem=p, start_index=st, end_index=en, detailed_var=v, detailed_data=I.register({"shape": s, "global_shape": g, "tags": I.register(set())}))
        if iotype == "input":
            kw["iotype"] = "input"
        r = I.call(I.get(MDX + ":_create_local_array_metadata"), [], kw)
        check_array(I, "", r, s, g, st, en, None if differs else (ZERO, sz), tabs[iotype], rank, idx)
    return run


def check_array(I, what, r, s, g, st, en, rng, tab=None, rank=None, idx=None):
    ga = lambda n: I.getattr(r, n)
    truth(I, what + "shape", ga("shape") is s, repr(ga("shape")))
    truth(I, what + "global shape", ga("global_shape") is g, repr(ga("global_shape")))
    truth(I, what + "local", ga("local") is True, repr(ga("local")))
    I.oblige(what + "start", eqs=(lift(ga("start_index")), st))
    I.oblige(what + "end", eqs=(lift(ga("end_index")), en))
    if rng is None:
        v = fresh_bound()
        f = content(tab)
        before = sum_(v, ZERO, rank, f((v, idx)))
        rng = (before, add(before, f((rank, idx))))
    I.oblige(what + "global range starts after the ranks before", eqs=(lift(ga("global_start_index")), rng[0]))
    I.oblige(what + "global range has the size of this rank's part", eqs=(lift(ga("global_end_index")), rng[1]))


# ------------------------------------------------------------------ arbitrarily many quantities
class Req(Native):
    """requested quantity list / its set"""

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_set(self, I):
        return self

    def py_binop(self, I, op, o):
        if op == "BitAnd" and isinstance(o, TagSet):
            return o.inter(I)
        raise Unsupported("requested quantities " + op)

    def py_rbinop(self, I, op, o):
        return self.py_binop(I, op, o)

    def py_getattr(self, I, name):
        if name == "intersection":
            return Builtin(name, lambda I2, ar, kw: self.py_binop(I, "BitAnd", ar[0]))
        raise Unsupported("requested quantities." + name)

    def py_truth(self, I):
        return T.TRUE


class TagSet(Native):
    """tags of the k-th tagged variable"""

    def __init__(self, S, k):
        self.S, self.k = S, k
        S.I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_set(self, I):
        return self

    def inter(self, I):
        return Inter(self.S, self.k)

    def py_binop(self, I, op, o):
        if op == "BitAnd" and isinstance(o, Req):
            return self.inter(I)
        raise Unsupported("tags " + op)

    py_rbinop = py_binop

    def py_getattr(self, I, name):
        if name == "intersection":
            return Builtin(name, lambda I2, ar, kw: self.py_binop(I, "BitAnd", ar[0]))
        raise Unsupported("tags." + name)


class Inter(Native):
    """requested quantity tags of the k-th variable"""

    def __init__(self, S, k):
        self.S, self.k, self.popped = S, k, 0
        S.I.register(self)

    def snap(self):
        return dict(popped=self.popped)

    def restore(self, s):
        self.popped = s["popped"]

    def py_set(self, I):
        return self

    def py_len(self, I):
        return sub(self.S.nt(self.k), lift(self.popped))

    def py_truth(self, I):
        return lt(ZERO, self.py_len(I))

    def the(self, I):
        I.side_condition("exactly one quantity tag", eq(self.py_len(I), ONE))
        return self.S.qname(self.k)

    def py_getattr(self, I, name):
        if name == "pop":
            def f(I2, ar, kw):
                r = self.the(I)
                self.popped = 1
                return r
            return Builtin(name, f)
        raise Unsupported("tags." + name)

    def py_iterlist(self, I):
        return [self.the(I)]


class Vars(Native):
    """get_io_metadata of all requested quantities: NV variables, the k-th local iff loc(k)"""

    def __init__(self, S, remote, keys):
        self.S, self.remote, self.keys = S, remote, keys
        S.I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def data(self, k):
        return self.S.data(k, self.keys)

    def py_contains(self, I, x):
        if isinstance(x, Term) and x.kind == "app" and x.args[0] == "varname":
            return T.TRUE if self.remote else self.S.loc(x.args[1][0])
        raise Unsupported("membership of another variable")

    def key(self, I, x):
        if not (isinstance(x, Term) and x.kind == "app" and x.args[0] == "varname"):
            raise Unsupported("metadata of another variable")
        k = x.args[1][0]
        if not self.remote and I.decide(self.S.loc(k)) is not True:
            I.raise_("KeyError", "not local")
        return self.data(k)

    def py_getitem(self, I, x):
        return self.key(I, x)

    def py_len(self, I):
        if not self.remote:
            raise Unsupported("number of local variables")
        return self.S.NV

    def py_symiter(self, I, st, fr):
        if not self.remote:
            raise Unsupported("loop over local variables")
        return SymList(I, self.S.NV, lambda k: self.S.vname(k)).py_symiter(I, st, fr)

    def py_getattr(self, I, name):
        if name in ("items", "keys", "values") and self.remote:
            f = {"items": lambda k: (self.S.vname(k), self.data(k)), "keys": self.S.vname, "values": self.data}[name]

            def g(I2, ar, kw):
                l = SymList(I, self.S.NV, lambda k: f(lift(k)))
                l.vars = self
                return l
            return Builtin(name, g)
        raise Unsupported("metadata." + name)


class Grow(SymList):
    """a list of n quantities (as described by the loop contract), plus the elements appended since"""

    def __init__(self, S, n):
        super().__init__(S.I, n, None)
        self.S, self.extra = S, ()

    def snap(self):
        return dict(n=self.n, extra=self.extra)

    def restore(self, s):
        self.n, self.extra = s["n"], s["extra"]

    def py_getattr(self, I, name):
        if name == "append":
            def f(I2, ar, kw):
                self.extra = self.extra + (ar[0],)
            return Builtin(name, f)
        raise Unsupported("list." + name)

    def py_len(self, I):
        return add(self.n, lift(len(self.extra)))

    def py_getitem(self, I, k):
        raise Unsupported("element of the quantity list")

    def py_symcomp(self, I, f):
        """f(element) for an arbitrary element of the first n"""
        if self.extra:
            raise Unsupported("comprehension over an extended list")
        k = I.fresh("kq", "I")
        I.assume(le(ZERO, k), lt(k, self.n))
        I.assume(*self.S.distinct(k))
        q = I.register(Obj(I.object_cls, {"name": self.S.qname(k)}, "quantity"))
        return f(q)


class Many:
    """NV tagged variables; the k-th carries nt(k) requested tags, one of them qname(k)"""

    def __init__(self, I, kind):
        self.I, self.kind = I, kind
        self.NV = var("NV", "I")
        I.assume(le(ZERO, self.NV))
        self.req = I.register(Req())
        self.reject = None
        self.cur = None
        self.grow = None
        self.size0 = ZERO if kind == "u" else var("size0", "I")
        self.asked = []
        self.shapes = {}
        self.p = problem(I, self.io, comm=Comm(I, var("rank", "I"), var("R", "I")))
        self.called = []
        I.contracts = dict(I.contracts)
        I.contracts["_extract_time_integration_quantity" if kind == "u" else "_extract_time_independent_quantity"] = self.extract
        I.contracts["_search_for_time_variable"] = lambda I2, f, ar, kw: "the time variable"
        I.loop_specs.append(self)

    nt = lambda self, k: app("ntags", [k], "I")
    qname = lambda self, k: app("qname", [k], "S")
    vname = lambda self, k: app("varname", [k], "S")
    loc = lambda self, k: B("loc", k)
    size = lambda self, k: app("size", [k], "I")
    rej = lambda self, k: B("untagged", k)

    def off(self, k):
        v = fresh_bound()
        return add(self.size0, sum_(v, ZERO, k, ite(self.loc(v), self.size(v), ZERO)))

    def distinct(self, kq):
        """the requested quantities of different variables differ (the ambiguous case is the bounded part)"""
        return [] if self.cur is None else [not_(eq(self.qname(kq), self.qname(self.cur)))] if self.unique else []

    unique = True

    def data(self, k, keys):
        self.cur = k
        d = {}
        for key in keys:
            if key == "tags":
                d[key] = TagSet(self, k)
            elif key == "global_shape":
                d[key] = self.shapes.setdefault(k, Shp(self.I, ("g", k), app("gsize", [k], "I")))
            else:
                raise Unsupported("metadata " + key)
        return self.I.register(d)

    def io(self, I, ar, kw):
        io, tags, keys, remote = iargs(I, ar, kw)
        if tags is not self.req:
            raise Unsupported("variables of other tags")
        truth(I, "variables of the right kind are searched", io == ({"output"} if self.kind == "u" else {"input"}), repr(io))
        return Vars(self, bool(remote), keys or [])

    # contract of the extraction of one local quantity (its body: bounded part)
    def extract(self, I, f, ar, kw):
        d = argmap(I, ["quantity_name", "stage_problem", "array_size"], ar, kw)
        k = self.cur
        I.oblige("call: quantity extracted is that of the variable", eqs=(d["quantity_name"], self.qname(k)))
        truth(I, "call: this problem", d["stage_problem"] is self.p)
        I.oblige("call: free index is the end of the quantities before", eqs=(lift(d["array_size"]), self.off(k)))
        I.assume(le(ZERO, self.size(k)))
        if I.branch(self.rej(k)):
            self.reject = k
            I.raise_(I.get(PKG + ".errors:SetupError"), "tags")
        q = self.quantity(k)
        self.called.append((k, q))
        return (add(lift(d["array_size"]), self.size(k)), q)

    def quantity(self, k):
        return self.I.register(Obj(self.I.object_cls, {"name": self.qname(k), "ghost": k}, "quantity"))

    # loop contract
    def matches_while(self, I, st, fr):
        return False

    def for_inv(self, I, st, fr, rng):
        if getattr(rng, "list", None) is None or I.decide(eq(rng.n, self.NV)) is not True or getattr(rng.list, "vars", rng.list) is None:
            return None
        from pyvc.interp import _assigned_names
        inv = ClosedForm("quantities", {}, {})
        if self.kind == "u":
            lists = [n for n, v in fr.vars.items() if isinstance(v, list) and not v]
            nums = [n for n in _assigned_names(st.body) if isinstance(fr.vars.get(n), (int, Term)) and not isinstance(fr.vars.get(n), bool)]
            if len(lists) != 1 or len(nums) != 1:
                return None
            return _Many(self, ("frame", lists[0]), ("frame", nums[0]))
        return _Many(self, (self.meta, "time_independent_input_quantity_list"), (self.meta, "time_independent_input_size"))


class _Many(ClosedForm):
    exclusive = True

    def __init__(self, S, lst, num_):
        self.S, self.lst, self.num = S, lst, num_
        super().__init__("quantities", {}, {num_: S.off})
        self.locs = self.locs | {lst}
        if lst[0] == "frame":
            self.vars = self.vars | {lst[1]}

    def put(self, v):
        o, n = self.lst
        if o == "frame":
            self.fr.vars[n] = v
        else:
            o.attrs[n] = v

    def cur(self):
        o, n = self.lst
        return self.fr.vars.get(n) if o == "frame" else o.attrs.get(n)

    def at(self, I, k, final=False):
        super().at(I, k, final)
        g = Grow(self.S, k)
        self.locs = self.locs | {(g, "n"), (g, "extra")}
        self.put(g)
        self.S.grow = g

    def holds(self, I, k, what):
        S = self.S
        ok = super().holds(I, k, what)
        l = self.cur()
        if k is ZERO:
            return ok and l == []
        good = isinstance(l, Grow) and len(l.extra) == 1
        I.collect.append((f"{what}: one quantity per tagged variable", P.Result("proved" if good else "refuted", "structural", repr(l))))
        if not good:
            return False
        before = len([1 for _, r in I.collect if r.status != "proved"])
        check_quantity(I, S, sub(k, ONE), l.extra[0])
        return ok and before == len([1 for _, r in I.collect if r.status != "proved"])


def check_quantity(I, S, k, q):
    """the element of the list that stands for the k-th variable"""
    here = [x for kk, x in S.called if x is q]
    loc = I.decide(S.loc(k))
    if loc is True:
        truth(I, "local quantity: extracted from its variables", bool(here) and I.decide(eq(q.attrs["ghost"], k)) is True, repr(q))
        return
    truth(I, "remote quantity: not extracted", loc is False and not here)
    a, t = I.getattr(q, "array_metadata"), I.getattr(q, "translation_metadata")
    I.oblige("remote quantity: name", eqs=(I.getattr(q, "name"), S.qname(k)))
    truth(I, "remote quantity: not local", I.getattr(a, "local") is False)
    truth(I, "remote quantity: no entries", I.getattr(a, "start_index") == 0 and I.getattr(a, "end_index") == 0 and I.getattr(a, "global_start_index") == 0 and I.getattr(a, "global_end_index") == 0)
    truth(I, "remote quantity: empty local shape", I.getattr(a, "shape") == (0,), repr(I.getattr(a, "shape")))
    truth(I, "remote quantity: global shape", isinstance(I.getattr(a, "global_shape"), Shp) and I.getattr(a, "global_shape") is S.shapes.get(k), repr(I.getattr(a, "global_shape")))
    for n in ("step_input_var", "accumulated_stage_var", "stage_output_var") if S.kind == "u" else ("time_independent_input_var",):
        truth(I, f"remote quantity: no {n}", I.getattr(t, n) is None)


def run_many(kind):
    def run(I):
        S = Many(I, kind)
        try:
            if kind == "u":
                meta = I.run(I.get(MDX + ":extract_time_integration_metadata"), [S.p, S.req], {}, raises=True) if False else I.call(I.get(MDX + ":extract_time_integration_metadata"), [S.p, S.req], {})
            else:
                other = I.register([])
                meta = I.call(I.get(MDX + ":TimeIntegrationMetadata"), [], dict(time_variable="tv", time_integration_array_size=var("n", "I"), time_independent_input_size=S.size0, time_integration_quantity_list=other))
                S.meta = meta
                I.assume(le(ZERO, S.size0))
                I.call(I.get(MDX + ":add_time_independent_input_metadata"), [S.p, S.req, meta], {})
        except PyExc as e:
            o = e.obj
            truth(I, "only setup errors are raised", getattr(getattr(o, "cls", None), "name", "") == "SetupError", repr(o))
            k = S.cur
            I.oblige("rejected only for ambiguous or incomplete tags", goal=T.or_(not_(eq(S.nt(k), ONE)), S.rej(k)))
            return
        g = lambda n: I.getattr(meta, n)
        I.oblige("size of the vector: sum of the local sizes", eqs=(lift(g("time_integration_array_size" if kind == "u" else "time_independent_input_size")), S.off(S.NV)))
        l = g("time_integration_quantity_list" if kind == "u" else "time_independent_input_quantity_list")
        if I.decide(eq(S.NV, ZERO)) is True:
            truth(I, "no quantities", l == [] or isinstance(l, Grow))
        else:
            truth(I, "the list of all quantities", isinstance(l, Grow) and not l.extra, repr(l))
            I.oblige("number of quantities", eqs=(l.n if isinstance(l, Grow) else var("none"), S.NV))
        if kind == "u":
            truth(I, "the time variable found", g("time_variable") == "the time variable", repr(g("time_variable")))
            I.oblige("no independent inputs yet", eqs=(lift(g("time_independent_input_size")), ZERO))
        else:
            truth(I, "frame: time integration part", g("time_integration_quantity_list") is other and other == [] and g("time_variable") == "tv")
            I.oblige("frame: state size", eqs=(lift(g("time_integration_array_size")), var("n", "I")))
    return run


# ------------------------------------------------------------------ distributivity
class Each(ClosedForm):
    """for-each loop: every item is treated on its own; `check` looks at the item of the iteration"""

    exclusive = True

    def __init__(self, check):
        self.check = check
        super().__init__("each quantity", {}, {})

    def holds(self, I, k, what):
        if k is ZERO:
            return True
        before = len([1 for _, r in I.collect if r.status != "proved"])
        self.check(I, sub(k, ONE))
        return before == len([1 for _, r in I.collect if r.status != "proved"])


def run_distributed(I):
    lists, items = {}, {}
    comm = Comm(I, var("rank", "I"), var("R", "I"))
    cur = []
    same = lambda w, k: B("same_" + w, k)
    others = lambda w, k: B("others_" + w, k)

    def item(w, k):
        key = (w, k)
        if key not in items:
            g = Shp(I, (w + "g", k), app(w + "gs", [k], "I"))
            s = Shp(I, (w + "s", k), app(w + "ls", [k], "I"), g, same(w, k))
            a = I.call(I.get(MDX + ":ArrayMetadata"), [], dict(shape=s, global_shape=g, local=B(w + "loc", k), distributed=B(w + "old", k)))
            q = I.register(Obj(I.object_cls, {"name": app(w + "name", [k], "S"), "array_metadata": a, "translation_metadata": None, "type": "t"}, "quantity"))
            items[key] = q
        cur[:] = [(w, k)]
        comm.calls = []
        return items[key]
    for w, nm in (("u", "Q"), ("p", "NP")):
        n = var(nm, "I")
        I.assume(le(ZERO, n))
        lists[w] = SymList(I, n, lambda k, w=w: item(w, lift(k)))
        lists[w].w = w
    comm.ghost = lambda I2, x: (same(*cur[0]), others(*cur[0])) if cur else (None, None)

    class Spec:
        def matches_while(self, I2, st, fr):
            return False

        def for_inv(self, I2, st, fr, rng):
            w = getattr(getattr(rng, "list", None), "w", None)
            if w is None:
                return None

            def check(I3, k):
                seen.add(w)
                q = items.get((w, k))
                if q is None:
                    truth(I3, "every quantity is treated", False)
                    return
                d = I3.getattr(I3.getattr(q, "array_metadata"), "distributed")
                d = d if isinstance(d, Term) else T.boolc(bool(d))
                want = not_(and_(same(w, k), others(w, k)))
                I3.oblige("distributed exactly if the shapes differ on some rank", goal=and_(T.or_(not_(d), want), T.or_(d, not_(want))))
                truth(I3, "one reduction per quantity on every rank", len(comm.calls) == 1, repr(comm.calls))
            e = Each(check)
            # writes go to the item of the iteration only
            e.locs = _Items(items, w)
            return e
    seen = set()
    I.loop_specs.append(Spec())
    meta = I.call(I.get(MDX + ":TimeIntegrationMetadata"), [], dict(time_integration_quantity_list=lists["u"], time_independent_input_quantity_list=lists["p"]))
    I.call(I.get(MDX + ":add_distributivity_information"), [problem(I, None, comm=comm), meta], {})
    for w, nm in (("u", "Q"), ("p", "NP")):
        truth(I, f"all quantities are visited ({w})", w in seen or I.decide(le(var(nm, "I"), ZERO)) is True)


def run_distributed_bounded(I):
    """up to three quantities of each kind"""
    n, m = I.choose(4, "quantities"), I.choose(4, "inputs")
    comm = Comm(I, var("rank", "I"), var("R", "I"))
    qs = {"u": [], "p": []}
    order = []
    for w, k in (("u", n), ("p", m)):
        for j in range(k):
            g = Shp(I, f"{w}g{j}", var(f"{w}gs{j}", "I"))
            same, oth = var(f"{w}same{j}", "B"), var(f"{w}oth{j}", "B")
            s = Shp(I, f"{w}s{j}", var(f"{w}ls{j}", "I"), g, same)
            a = I.call(I.get(MDX + ":ArrayMetadata"), [], dict(shape=s, global_shape=g, local=var(f"{w}loc{j}", "B"), distributed=var(f"{w}old{j}", "B")))
            q = I.register(Obj(I.object_cls, {"name": f"{w}{j}", "array_metadata": a, "translation_metadata": None, "type": "t"}, "quantity"))
            qs[w].append((q, same, oth))
            order.append((same, oth))
    # the c-th reduction of this rank meets the c-th of the others
    comm.ghost = lambda I2, x: order[len(comm.calls)] if len(comm.calls) < len(order) else (None, None)
    lists = {w: I.register([q for q, _, _ in qs[w]]) for w in qs}
    meta = I.call(I.get(MDX + ":TimeIntegrationMetadata"), [], dict(time_integration_quantity_list=lists["u"], time_independent_input_quantity_list=lists["p"]))
    I.call(I.get(MDX + ":add_distributivity_information"), [problem(I, None, comm=comm), meta], {})
    truth(I, "one reduction per quantity", len(comm.calls) == n + m, repr(comm.calls))
    for w in qs:
        for q, same, oth in qs[w]:
            d = I.getattr(I.getattr(q, "array_metadata"), "distributed")
            d = d if isinstance(d, Term) else T.boolc(bool(d))
            want = not_(and_(same, oth))
            I.oblige("distributed exactly if the shapes differ on some rank", goal=and_(T.or_(not_(d), want), T.or_(d, not_(want))))


class _Items:
    """locations: attribute 'distributed' of the items' metadata, and the call log"""

    def __init__(self, items, w):
        self.items = items

    def __contains__(self, x):
        return isinstance(x, tuple) and (x[1] == "distributed" or x[1] == "calls")

    def __iter__(self):
        return iter(())


# ------------------------------------------------------------------ concrete taggings
class Case:
    """variables: (name, iotype, tags, local); shapes are symbolic"""

    def __init__(self, I, vs, req, preq=()):
        self.I, self.vs, self.req, self.preq = I, vs, list(req), list(preq)
        self.R, self.rank = var("R", "I"), var("rank", "I")
        I.assume(le(ZERO, self.rank), lt(self.rank, self.R))
        self.tab = {t: arr(I, "sizes_" + t, (self.R, lift(len(vs))), "I") for t in ("input", "output")}
        self.shape, self.gshape, self.idx = {}, {}, {}
        cnt = {"input": 0, "output": 0}
        for n, io, tags, loc in vs:
            self.idx[n] = cnt[io]
            cnt[io] += 1
            sz, gsz = var("size_" + n, "I"), var("gsize_" + n, "I")
            I.assume(le(ZERO, sz), le(ZERO, gsz))
            g = Shp(I, "g" + n, gsz)
            same = var("same_" + n, "B")
            I.assume(T.or_(not_(same), eq(sz, gsz)))
            self.gshape[n] = g
            self.shape[n] = Shp(I, "s" + n, sz, g, same)
        self.comm = Comm(I, self.rank, self.R)
        self.comm.ghost = lambda I2, x: (None, None)
        self.p = problem(I, self.io, {"_var_sizes": I.register(dict(self.tab)), "_var_allprocs_abs2idx": I.register(dict(self.idx))}, self.comm)

    def io(self, I, ar, kw):
        io, tags, keys, remote = iargs(I, ar, kw)
        tags = {tags} if isinstance(tags, str) else set(I.iter_list(tags))
        d = {}
        for n, it, tg, loc in self.vs:
            if it in io and (not tags or set(tg) & tags) and (loc or remote):
                e = {}
                for k in keys or []:
                    if k == "tags":
                        e[k] = I.register(set(tg))
                    elif k == "global_shape":
                        e[k] = self.gshape[n]
                    elif k == "shape":
                        e[k] = self.shape[n]
                    else:
                        raise Unsupported("metadata " + k)
                d[n] = I.register(e)
        return I.register(d)

    # documented outcome
    def expect(self, kind):
        req = self.req if kind == "u" else self.preq
        out = []
        for n, io, tags, loc in self.vs:
            if io != ("output" if kind == "u" else "input") or not set(tags) & set(req):
                continue
            t = set(tags) & set(req)
            if len(t) != 1:
                return None
            q = next(iter(t))
            if any(o["name"] == q for o in out):
                return None
            e = dict(name=q, loc=loc, first=n)
            if loc:
                mine = [(m, tg) for m, _, tg, l in self.vs if q in tg and l]
                roles = ("stage_output_var", "step_input_var", "accumulated_stage_var") if kind == "u" else ("time_independent_input_var",)
                found = {r: [m for m, tg in mine if r in tg] for r in roles}
                c = [len(found[r]) for r in roles]
                if c[0] != 1 or (kind == "u" and tuple(c[1:]) not in ((0, 0), (1, 1))):
                    return None
                e["var"] = {r: (found[r] or [None])[0] for r in roles}
                e["main"] = found[roles[0]][0]
            out.append(e)
        return out


def run_case(kind, cases):
    def run(I):
        vs, req = cases[I.choose(len(cases), "tagging")]
        C = Case(I, vs, req if kind == "u" else [], req if kind == "p" else [])
        for n, _, tags, _ in vs:
            if "time_variable" in tags:
                I.assume(eq(C.gshape[n].total, ONE))
        want = C.expect(kind)
        lst = I.register(list(req))
        what = f"{req} in {[(n, sorted(t), l) for n, _, t, l in vs]}: "
        n0 = ZERO
        try:
            if kind == "u":
                meta = I.call(I.get(MDX + ":extract_time_integration_metadata"), [C.p, lst], {})
            else:
                n0 = var("size0", "I")
                meta = I.call(I.get(MDX + ":TimeIntegrationMetadata"), [], dict(time_independent_input_size=n0))
                I.call(I.get(MDX + ":add_time_independent_input_metadata"), [C.p, lst, meta], {})
        except PyExc as e:
            truth(I, "valid taggings are accepted; others are rejected with a setup error", want is None and getattr(getattr(e.obj, "cls", None), "name", "") == "SetupError", what + repr(e.obj))
            return
        truth(I, "ambiguous, missing or half-present taggings are rejected", want is not None, what)
        if want is None:
            return
        truth(I, "frame: requested list", lst == list(req))
        ql = I.iter_list(I.getattr(meta, "time_integration_quantity_list" if kind == "u" else "time_independent_input_quantity_list"))
        names = [I.getattr(q, "name") for q in ql]
        truth(I, "each requested quantity once", sorted(names) == sorted(e["name"] for e in want), what + repr(names))
        pos = n0
        for q in ql:
            e = [x for x in want if x["name"] == I.getattr(q, "name")]
            if len(e) != 1:
                return
            e = e[0]
            a, t = I.getattr(q, "array_metadata"), I.getattr(q, "translation_metadata")
            if not e["loc"]:
                truth(I, "remote quantity: no local entries", I.getattr(a, "local") is False and I.getattr(a, "start_index") == I.getattr(a, "end_index"), what)
                truth(I, "remote quantity: global shape", I.getattr(a, "global_shape") is C.gshape[e["first"]], what)
                continue
            m = e["main"]
            sz = C.shape[m].total
            iot = "output" if kind == "u" else "input"
            same = C.shape[m].same
            saved = I.facts
            s = I.decide(same)
            rng = (ZERO, sz) if s is True else None
            if s is None:
                truth(I, "local and global shape are compared", False, what)
            check_array(I, "", a, C.shape[m], C.gshape[m], pos, add(pos, sz), rng, C.tab[iot], C.rank, lift(C.idx[m]))
            pos = add(pos, sz)
            for r, v in e["var"].items():
                truth(I, f"recorded variable: {r}", I.getattr(t, r) == v, what + repr(I.getattr(t, r)))
        I.oblige("the slices cover the vector", eqs=(lift(I.getattr(meta, "time_integration_array_size" if kind == "u" else "time_independent_input_size")), pos))
    return run


def single():
    """all taggings of one quantity (up to 8 tagged variables)"""
    out = []
    for no, ni, na, po, pi in itertools.product(range(3), range(3), range(3), range(2), range(2)):
        vs = [(f"o{k}", "output", ("u", "stage_output_var"), True) for k in range(no)] + [(f"e{k}", "output", ("u",), True) for k in range(po)]
        vi = [(f"i{k}", "input", ("u", "step_input_var"), True) for k in range(ni)] + [(f"a{k}", "input", ("u", "accumulated_stage_var"), True) for k in range(na)] + [(f"n{k}", "input", ("u",), True) for k in range(pi)]
        out.append((vi + vs, ["u"]))
        if no + ni + na > 1 and (no, ni, na) != (0, 1, 1):
            out.append((vs[::-1] + vi[::-1], ["u", "w"]))
    return out


def quantity(q, old=True, loc=True, tag=()):
    r = [(f"{q}_out", "output", (q, "stage_output_var") + tuple(tag), loc)]
    if old:
        r = [(f"{q}_in", "input", (q, "step_input_var"), loc), (f"{q}_acc", "input", (q, "accumulated_stage_var"), loc)] + r
    return r


def several(n=3):
    out = []
    for Q in (1, 2, n):
        for locs in itertools.product((True, False), repeat=Q):
            for old in ((True,) * Q, (False,) * Q, tuple(k % 2 == 0 for k in range(Q))):
                names = [f"q{k}" for k in range(Q)]
                vs = [("other", "output", ("w",), True), ("t", "input", ("time_variable",), True), ("p", "input", ("par", "time_independent_input_var"), True)]
                groups = [quantity(q, o, l) for q, o, l in zip(names, old, locs)]
                for g in groups if len(locs) % 2 else groups[::-1]:
                    vs = vs + g
                out.append((vs, names))
    two = quantity("a") + quantity("b")
    out += [(quantity("a", tag=("b",)) + quantity("b"), ["a", "b"]), (two, ["a", "b", "stage_output_var"]), (two, ["b"]), (two, ["b", "a"]),
            (quantity("a", tag=("x", "y")) + quantity("b", False, tag=("z",)), ["b", "a"]), (quantity("a", loc=False) + [("a2", "output", ("a", "stage_output_var"), True)], ["a"])]
    return out


def params():
    out = []
    for nr, ni, no in itertools.product(range(4), range(3), range(2)):
        vs = [(f"x{k}", "input", ("par", "time_independent_input_var"), True) for k in range(nr)] + [(f"y{k}", "input", ("par",), True) for k in range(ni)] + [(f"z{k}", "output", ("w",), True) for k in range(no)]
        out.append((vs, ["par"]))
        out.append((vs[::-1] + quantity("u"), ["par"]))
    one = lambda q, l=True, tag=(): [(f"{q}_in", "input", (q, "time_independent_input_var") + tuple(tag), l)]
    for locs in itertools.product((True, False), repeat=3):
        out.append((quantity("u") + one("a", locs[0]) + one("b", locs[1]) + [("o", "output", (), True)] + one("c", locs[2]), ["c", "b", "a"]))
    out += [(one("a", tag=("b",)) + one("b"), ["a", "b"]), (one("a") + one("b"), ["a", "time_independent_input_var"]), (one("a") + one("b"), ["b"])]
    return out


def run_time(I):
    """time variable: at most one, scalar"""
    nl, ng = [(a, b) for b in range(4) for a in range(b + 1)][I.choose(10, "time variables")]
    order = I.choose(2, "order")
    vs = [(f"t{k}", "input", ("time_variable", "more"), k < nl) for k in range(ng)] + [("x", "input", ("u",), True), ("y", "output", ("w",), True)]
    C = Case(I, vs[::-1] if order else vs, [])
    gs = C.gshape["t0"].total if ng else ONE
    try:
        r = I.call(I.get(MDX + ":_search_for_time_variable"), [C.p], {})
    except PyExc as e:
        truth(I, "only setup errors are raised", getattr(getattr(e.obj, "cls", None), "name", "") == "SetupError", repr(e.obj))
        if (nl, ng) == (1, 1):
            I.oblige("rejected only if not scalar", goal=not_(eq(gs, ONE)))
        else:
            truth(I, "rejected only if there is no unique local time variable", ng > 0 and (nl, ng) != (1, 1))
        return
    truth(I, "several time variables are rejected", ng <= 1, f"{ng}")
    if ng == 1:
        I.oblige("a non-scalar time variable is rejected", eqs=(gs, ONE))
        truth(I, "the time variable is found", r == "t0" if nl == 1 else True, repr(r))
    else:
        truth(I, "no time variable", r is None, repr(r))


def units(tier):
    u = [(f"global range of a variable ({io}, {'distributed' if d else 'replicated'}{', older layout' if o else ''})", run_array(io, d, o), {}, {})
         for io in ("output", "input") for d in (True, False) for o in ((False, True) if d else (False,))]
    return u + [("layout of all quantities", run_many("u"), {}, {}), ("layout of all independent inputs", run_many("p"), {}, {}), ("distributed quantities", run_distributed, {}, {})]


def always(tier):
    s = single()
    return [("taggings of one quantity", run_case("u", s), {}, {"max_paths": 2000}), ("several quantities", run_case("u", several(3 if tier == "quick" else 4)), {}, {"max_paths": 2000}),
            ("independent inputs", run_case("p", params()), {}, {"max_paths": 2000}), ("time variable", run_time, {}, {"max_paths": 200}),
            ("distributivity of up to three quantities of each kind", run_distributed_bounded, {}, {"max_paths": 600})]


def bounded(tier, ints=()):
    return always(tier)
