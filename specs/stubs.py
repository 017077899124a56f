"""Stub modules for the dependencies (assumed contracts)."""
from pyvc.interp import STUB_EXT, Opaque
from pyvc.values import PyClass, Builtin, Module, Obj, Native, Unsupported, PyExc


def _pyrevolve(I, S):
    base = I.object_cls
    cls = lambda n: PyClass(n, [base], {})
    S["pyrevolve"] = Module("pyrevolve", {n: cls(n) for n in (
        "Checkpoint", "Operator", "BaseRevolver", "SingleLevelRevolver", "MultiLevelRevolver", "DiskRevolver", "MemoryRevolver",
        "NumpyStorage", "DiskStorage", "BytesStorage")})


class Deque(list):
    """collections.deque of concrete length (registered like a list)"""


def _collections(I, S):
    def mk(I2, ar, kw):
        if kw.get("maxlen") is not None or len(ar) > 1:
            raise Unsupported("bounded deque")
        return I2.register(list(I2.iter_list(ar[0])) if ar else [])
    S["collections"] = Module("collections", {"deque": Builtin("deque", mk), "OrderedDict": I.builtins.get("dict"), "namedtuple": Opaque("namedtuple")})


class Options(Native):
    """OpenMDAO OptionsDictionary: declared options hold their default until set"""

    def __init__(self):
        self.vals, self.declared = {}, set()

    def snap(self):
        return dict(vals=dict(self.vals), declared=set(self.declared))

    def restore(self, s):
        self.vals, self.declared = dict(s["vals"]), set(s["declared"])

    def py_getattr(self, I, name):
        if name == "declare":
            return Builtin("declare", self.declare)
        raise Unsupported("options." + name)

    def declare(self, I, ar, kw):
        n = ar[0] if ar else kw["name"]
        self.declared.add(n)
        if len(ar) > 1:
            self.vals.setdefault(n, ar[1])
        elif "default" in kw:
            self.vals.setdefault(n, kw["default"])
        return None

    def py_getitem(self, I, k):
        if k not in self.vals:
            I.raise_("KeyError", str(k))
        return self.vals[k]

    def py_setitem(self, I, k, v):
        if k not in self.declared:
            I.raise_("KeyError", str(k))
        self.vals[k] = v

    def py_contains(self, I, k):
        return k in self.declared


def comp_init(I, ar, kw):
    self = ar[0]
    o = Options()
    I.register(o)
    self.attrs["options"] = o
    self.attrs["io"] = I.register({})
    init, _ = self.cls.lookup("initialize")
    if init is not None:
        I.call(init, [self], {})
    for k, v in kw.items():
        o.py_setitem(I, k, v)
    return None


def comp_add(kind):
    def f(I, ar, kw):
        self, name = ar[0], ar[1]
        d = dict(kw)
        for n, v in zip(("val", "shape"), ar[2:]):
            d[n] = v
        d["kind"] = kind
        if name in self.attrs["io"]:
            I.raise_("ValueError", f"variable {name} exists")
        self.attrs["io"][name] = I.register(d)
        return None
    return f


def _openmdao(I, S):
    base = I.object_cls
    cls = lambda n, b=None: PyClass(n, [b or base], {})
    comp = PyClass("Component", [base], {"__init__": Builtin("Component.__init__", comp_init), "add_input": Builtin("add_input", comp_add("input")),
                                         "add_output": Builtin("add_output", comp_add("output")),
                                         "declare_partials": Builtin("declare_partials", lambda I2, ar, kw: None)})
    api = {n: cls(n, comp) for n in ("ExplicitComponent", "ImplicitComponent", "IndepVarComp", "ExecComp")}
    api["Group"] = PyClass("Group", [base], {"__init__": Builtin("Group.__init__", comp_init)})
    solver = PyClass("Solver", [base], {"__init__": Builtin("Solver.__init__", lambda I2, ar, kw: ar[0].attrs.update(kw))})
    api.update({n: cls(n, solver) for n in ("NewtonSolver", "LinearBlockJac", "PETScKrylov", "LinearRunOnce", "NonlinearRunOnce")})
    api.update({n: cls(n) for n in ("Problem", "NonlinearBlockGS", "ScipyKrylov", "LinearBlockGS", "DirectSolver")})
    S["openmdao.api"] = Module("openmdao.api", api)
    S["openmdao"] = Module("openmdao", {"api": S["openmdao.api"]})
    S["openmdao.vectors.vector"] = Module("openmdao.vectors.vector", {"Vector": cls("Vector")})
    S["mpi4py"] = Module("mpi4py", {"MPI": Module("mpi4py.MPI", {n: n for n in ("SUM", "MAX", "MIN", "LAND", "LOR", "PROD")})})
    S["mpi4py.MPI"] = S["mpi4py"].ns["MPI"]


STUB_EXT[:] = [_pyrevolve, _collections, _openmdao]
