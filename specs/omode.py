"""Symbolic harness around the real OpenMDAOODE: the stage problem (model, vectors, solves) and the
metadata (contract C11) are stubs with contracts; the number of quantities is symbolic or given."""
from .common import *
from pyvc import npmodel as NP
from pyvc.npmodel import ShapeV

OMODE = PKG + ".discretized_ode.openmdao_ode"
MDX = PKG + ".metadata_extractor"


class Name(Native):
    """variable name: role of the k-th quantity; kind 'in' (promoted input) or 'src' (its source)"""

    def __init__(self, role, k, kind):
        self.role, self.k, self.kind = role, k, kind

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def __repr__(self):
        return f"{self.kind}:{self.role}[{self.k}]"


class Flat(Native):
    """all data of a vector, as returned by asarray()"""

    def __init__(self, vec):
        self.vec = vec

    def py_arr(self, I):
        v = self.vec
        f = v.flat()
        return arr(I, v.name, (v.size,), fn=lambda ix: f(ix[0]))

    def py_getattr(self, I, name):
        if name == "size":
            return self.vec.size
        if name == "shape":
            return (self.vec.size,)
        a = self.py_arr(I)
        if name in ("copy", "flatten", "ravel"):
            return Builtin(name, lambda I2, ar, kw: a)
        if name == "fill":
            return Builtin(name, lambda I2, ar, kw: self.vec.assign(I2, ar[0]))
        raise Unsupported("vector data." + name)

    def whole(self, I, key):
        k = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if k is Ellipsis:
            return True
        if not hasattr(k, "lo"):
            return False
        lo = k.lo is None or I.decide(eq(lift(k.lo), ZERO)) is True
        hi = k.hi is None or I.decide(eq(lift(k.hi), self.vec.size)) is True
        return lo and hi and k.step in (None, 1)

    def py_getitem(self, I, key):
        return self if self.whole(I, key) else NP.getitem(I, self.py_arr(I), key)

    def py_setitem(self, I, key, val):
        if not self.whole(I, key):
            raise Unsupported("partial write to vector data")
        if val is self:
            return
        self.vec.assign(I, val)

    def py_binop(self, I, op, o):
        if op in ("Mult", "*") and isinstance(o, (int, float, Fraction, Term)) and lift(o) is ZERO:
            # 0*NaN = NaN: the data may hold anything
            f = self.vec.flat()
            return arr(I, self.vec.name, (self.vec.size,), fn=lambda ix: app("ieee_zero_times", [f(ix[0])]))
        return I.binop(op, self.py_arr(I), o.py_arr(I) if isinstance(o, Flat) else o)

    def py_rbinop(self, I, op, o):
        if op in ("Mult", "*"):
            return self.py_binop(I, op, o)
        return I.binop(op, o, self.py_arr(I))

    def py_iop(self, I, op, o):
        self.vec.assign(I, self.py_binop(I, op, o))
        return self

    def py_len(self, I):
        return self.vec.size


class OMVec(Native):
    """a model vector: flat data of the given size; named parts are disjoint slices of it"""

    def __init__(self, W, name, size):
        self.W, self.name, self.size = W, name, size
        self.I = W.I
        self.roles = {}
        for r, K in W.roles.items():
            b = Buf((K, W.width), lambda ix: ZERO, "R", f"{name}.{r}")
            self.I.register(b)
            self.roles[r] = b
        self.I.register(self)
        self.reset(lambda j, nm=name: app(nm + "0", [j]))

    def snap(self):
        return dict(base=self.base, clean=dict(self.clean))

    def restore(self, s):
        self.base, self.clean = s["base"], dict(s["clean"])

    def pos(self, role, k, i):
        return add(app(f"pos_{role}", [k], "I"), i)

    def reset(self, base):
        """arbitrary whole content"""
        self.base = base
        self.clean = {}
        for r, b in self.roles.items():
            b.setfn(lambda ix, r=r: base(self.pos(r, ix[0], ix[1])))
            self.clean[r] = b._fn

    def assign(self, I, val):
        if isinstance(val, Flat):
            f = val.vec.flat()
            self.reset(f)
            return
        if isinstance(val, Arr) and val.ndim == 1:
            I.oblige("size of data written to a whole vector", eqs=(val.shape[0], self.size))
            f = content(val)
            self.reset(lambda j: f((j,)))
        else:
            x = num(I, val)
            self.reset(lambda j: x)

    def touched(self):
        return [r for r, b in self.roles.items() if b._fn is not self.clean[r]]

    def flat(self):
        """function giving the flat data"""
        base = self.base
        ch = self.touched()
        if not ch:
            return base
        parts = []
        for r in sorted(ch):
            b = self.roles[r]
            v1, v2 = fresh_bound(), fresh_bound()
            parts.append(T.lam([v1, v2], b.shape, b.read((v1, v2))))
        return lambda j: app("patched_" + "_".join(sorted(ch)), [base(j)] + parts + [j])

    def part(self, I, name):
        if not isinstance(name, Name):
            I.raise_("KeyError", str(name))
        if name.kind != "src":
            I.raise_("KeyError", f"{name} is not in the vector")
        W = self.W
        return Arr(self.roles[name.role], [("f", lift(name.k)), ("r", ZERO, 1, W.length(name.role, name.k))], W.shape(name.role, name.k))

    def py_getitem(self, I, name):
        return self.part(I, name)

    def py_setitem(self, I, name, val):
        a = self.part(I, name)
        if isinstance(val, Arr) and val.ndim:
            f = content(val)
            if val.buf is a.buf and val.axes == a.axes:
                return
            if a.tag is not None and not same_shape(I, a.tag, val.tag):
                if I.decide(eq(a.shape[0], ONE)) is not True:
                    truth(I, "data written to a variable has its shape", False, f"{val.tag} instead of {a.tag}")
            I.oblige("size of data written to a variable", eqs=(val.shape[0], a.shape[0]))
            a.write(lambda ix: f(ix))
        else:
            x = num(I, val)
            a.write(lambda ix: x)

    def py_getattr(self, I, name):
        if name == "asarray":
            return Builtin(name, lambda I2, ar, kw: Flat(self).py_arr(I2) if (ar and ar[0]) or kw.get("copy") else Flat(self))
        if name == "set_val":
            return Builtin(name, lambda I2, ar, kw: self.assign(I2, ar[0]))
        if name == "set_vec":
            return Builtin(name, lambda I2, ar, kw: self.reset(ar[0].flat()))
        raise Unsupported("vector." + name)


def same_shape(I, a, b):
    if a is b:
        return True
    if not isinstance(a, ShapeV) or not isinstance(b, ShapeV):
        return False
    if isinstance(a.name, tuple) and isinstance(b.name, tuple):
        return a.name[0] == b.name[0] and I.decide(eq(lift(a.name[1]), lift(b.name[1]))) is True
    return a.name == b.name


class Wrapper:
    """metadata: quantity k of the state owns [st(k), en(k)); parameter k owns [pst(k), pen(k))"""

    def __init__(self, I, Q=None, Pn=None, time=True, order=None, excl=None, linear_args=1, comm=None, maker=None):
        self.I, self.time = I, time
        self.Q = var("Q", "I") if Q is None else lift(Q)
        self.Pn = var("NP", "I") if Pn is None else lift(Pn)
        self.n, self.q, self.width, self.NI, self.NO = sizes(I, "n", "q", "width", "NI", "NO")
        I.assume(le(ZERO, self.Q), le(ZERO, self.Pn))
        self.roles = {"time": ONE, "old": self.Q, "acc": self.Q, "out": self.Q, "ind": self.Pn}
        self.memo = {}
        if maker:
            maker(self)
        self.qlist = SymList(I, self.Q, lambda k: self.item("u", lift(k))) if Q is None else I.register([self.item("u", lift(k)) for k in range(Q)])
        self.plist = SymList(I, self.Pn, lambda k: self.item("p", lift(k))) if Pn is None else I.register([self.item("p", lift(k)) for k in range(Pn)])
        g = lambda n: I.get(f"{MDX}:{n}")
        self.meta = I.call(g("TimeIntegrationMetadata"), [], dict(time_variable=Name("time", ZERO, "in") if time else None, time_integration_array_size=self.n,
              time_independent_input_size=self.q, time_integration_quantity_list=self.qlist, time_independent_input_quantity_list=self.plist))
        I.contracts = dict(I.contracts)
        self.asked = []
        I.contracts["extract_time_integration_metadata"] = lambda I2, f, ar, kw: (self.asked.append(("q", list(ar) + list(kw.values()))), self.meta)[1]
        I.contracts["add_time_independent_input_metadata"] = lambda I2, f, ar, kw: self.asked.append(("p", list(ar) + list(kw.values())))
        I.contracts["add_distributivity_information"] = lambda I2, f, ar, kw: self.asked.append(("d", list(ar) + list(kw.values())))
        self.vec = {n: OMVec(self, n, s) for n, s in (("inputs", self.NI), ("outputs", self.NO), ("residuals", self.NO), ("d_inputs", self.NI), ("d_outputs", self.NO), ("d_residuals", self.NO))}
        self.log = []
        self.linear_args = linear_args
        self.comm = comm
        self.unsteady = [I.register(Obj(I.object_cls, {"om_data_exchange": None}, f"unsteady{k}")) for k in range(2)]
        meth = {}
        for nm in ("get_nonlinear_vectors", "get_linear_vectors", "get_source", "run_solve_nonlinear", "run_linearize", "run_solve_linear", "system_iter"):
            meth[nm] = (lambda I2, ar, kw, nm=nm: getattr(self, nm)(ar[1:], kw))
        self.model = I.register(Obj(stub_class(I, "Model", None, meth), {}, "model"))
        self.problem = I.register(Obj(stub_class(I, "StageProblem", None, {}), {"model": self.model, "comm": comm}, "stage problem"))
        I.stubs_inspect = self
        sig = stub_class(I, "Signature", None, {})
        from pyvc.values import Module
        I.stubs["inspect"] = Module("inspect", {"signature": Builtin("signature", lambda I2, ar, kw: I2.register(Obj(sig, {"parameters": I2.register({f"a{k}": None for k in range(self.linear_args)})}, "signature")))})
        kw = {}
        if order is not None:
            kw["norm_order"] = order
        if excl is not None:
            kw["norm_exclusions"] = excl
        self.qn, self.pn = I.register(["u"]), I.register(["p"])
        self.ode = I.call(I.get(OMODE + ":OpenMDAOODE"), [self.problem, self.qn, self.pn], kw)

    # ------------------------------------------------------------ metadata
    def st(self, w, k):
        return app({"u": "st", "p": "pst"}[w], [k], "I")

    def en(self, w, k):
        return app({"u": "en", "p": "pen"}[w], [k], "I")

    def local(self, w, k):
        return app({"u": "loc", "p": "ploc"}[w], [k], "B")

    def dist(self, k):
        return app("distr", [k], "B")

    def hasold(self, k):
        return app("hasold", [k], "B")

    def layout(self, w, k):
        """facts about quantity k (post-condition of C11)"""
        n = self.n if w == "u" else self.q
        s, e = self.st(w, k), self.en(w, k)
        return [le(ZERO, s), le(s, e), le(e, n), le(sub(e, s), self.width), T.or_(self.local(w, k), eq(s, ZERO)), T.or_(self.local(w, k), eq(e, ZERO)),
                T.or_(self.local(w, k), not_(self.hasold(k))) if w == "u" else T.TRUE]

    def length(self, role, k):
        if role == "time":
            return ONE
        w = "p" if role == "ind" else "u"
        return sub(self.en(w, lift(k)), self.st(w, lift(k)))

    def shape(self, role, k):
        if role == "time":
            return None
        return ShapeV(("p" if role == "ind" else "u", lift(k)), self.length(role, k))

    def item(self, w, k):
        I = self.I
        key = (w, k)
        I.assume(*[f for f in self.layout(w, k)])
        g = lambda n: I.get(f"{MDX}:{n}")
        loc = self.local(w, k)
        a = I.call(g("ArrayMetadata"), [], dict(shape=self.shape("old" if w == "u" else "ind", k), global_shape=ShapeV((w + "g", k), app(w + "_glen", [k], "I")), local=loc,
              distributed=self.dist(k), start_index=self.st(w, k), end_index=self.en(w, k), global_start_index=app(w + "_gst", [k], "I"), global_end_index=app(w + "_gen", [k], "I")))
        if w == "u":
            tr = I.call(g("TimeIntegrationTranslationMetadata"), [], {})
            q = I.call(g("TimeIntegrationQuantity"), [], dict(name=app("qname", [k], "S"), type="time_integration", array_metadata=a, translation_metadata=tr))
            q.attrs["translation_metadata"] = Translation(self, k)
        else:
            q = I.call(g("TimeIndependentQuantity"), [], dict(name=app("pname", [k], "S"), type="independent_input", array_metadata=a,
                  translation_metadata=I.call(g("TimeIndependentInputTranslationMetadata"), [Name("ind", k, "in")], {})))
        return q

    # ------------------------------------------------------------ model contract
    def get_nonlinear_vectors(self, ar, kw):
        return (self.vec["inputs"], self.vec["outputs"], self.vec["residuals"])

    def get_linear_vectors(self, ar, kw):
        return (self.vec["d_inputs"], self.vec["d_outputs"], self.vec["d_residuals"])

    def get_source(self, ar, kw):
        n = ar[0]
        if not isinstance(n, Name):
            self.I.raise_("KeyError", str(n))
        return Name(n.role, n.k, "src")

    def system_iter(self, ar, kw):
        return self.I.register(list(self.unsteady))


class Translation(Native):
    """translation metadata of quantity k; the step input may be absent"""

    def __init__(self, W, k):
        self.W, self.k = W, k
        W.I.register(self)

    def snap(self):
        return {}

    def restore(self, s):
        pass

    def py_getattr(self, I, name):
        if name == "stage_output_var":
            return Name("out", self.k, "src")
        if name in ("step_input_var", "accumulated_stage_var"):
            return Name("old" if name[0] == "s" else "acc", self.k, "in") if I.branch(self.W.hasold(self.k)) else None
        raise Unsupported("translation metadata " + name)
