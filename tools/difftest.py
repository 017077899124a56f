"""Differential test of pyvc's semantics: every program in difftest_cases.py is run by CPython/numpy and by
pyvc (on concrete data); the results must be equal, or pyvc must decline (Unsupported).  Exit 1 on a difference."""
import os, shutil, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("PYVC_NOEXEC"):
    os.environ["PYVC_NOEXEC"] = "1"
    os.execv(VT, [VT, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
tmp = tempfile.mkdtemp(prefix="pyvc_diff_")
os.makedirs(tmp + "/rkopenmdao")
open(tmp + "/rkopenmdao/__init__.py", "w").close()
import ast
tree = ast.parse(open(H + "/tools/difftest_cases.py").read())
for f in [x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name.startswith("t_")]:
    r = f.body[-1]
    if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and len(r.value.elts) > 1:
        # one program per returned piece: a declined piece must not hide another one
        for k, e in enumerate(r.value.elts):
            tree.body.append(ast.FunctionDef(name=f"{f.name}__{k}", args=f.args, body=f.body[:-1] + [ast.Return(e)], decorator_list=[], returns=None, type_comment=None, type_params=[]))
open(tmp + "/rkopenmdao/difftest_cases.py", "w").write(ast.unparse(ast.fix_missing_locations(tree)))
os.environ["PYVC_SRC"] = tmp
sys.path.insert(0, H)
sys.path.insert(0, tmp)
import numpy as np
import rkopenmdao.difftest_cases as D
from fractions import Fraction
from pyvc import terms as T
from pyvc.interp import explore
from pyvc.values import Arr, PyExc, Unsupported
from specs import common as C
TRUE_MISMATCH, DECLINED, OK = [], [], 0


def conc(I, v):
    """pyvc value -> plain python"""
    if isinstance(v, Arr):
        sh = [int(T.cval(T.lift(d))) for d in v.shape]
        def rec(pre, rest):
            if not rest:
                return conc(I, v.get(tuple(T.lift(i) for i in pre)))
            return [rec(pre + [i], rest[1:]) for i in range(rest[0])]
        return rec([], sh) if sh else conc(I, v.get(()))
    if isinstance(v, T.Term):
        if v is T.TRUE:
            return True
        if v is T.FALSE:
            return False
        if T.is_const(v):
            return Fraction(T.cval(v))
        if v.sort == "B":
            d = I.decide(v)
            if d is not None:
                return bool(d)
        # constant in the theory (e.g. an if-then-else over constants): decide numerically
        raise Unsupported(f"result not concrete: {v}")
    if isinstance(v, dict):
        return {conc(I, k) if not isinstance(k, str) else k: conc(I, x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(conc(I, x) for x in v)
    if isinstance(v, (list, range)) or type(v).__name__ in ("deque", "odict_items"):
        return [conc(I, x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {conc(I, x) for x in v}
    if v is None or isinstance(v, (bool, str, int, Fraction)):
        return v
    if isinstance(v, float):
        return v
    raise Unsupported(f"result of type {type(v).__name__}")


def plain(v):
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v] if v.ndim else plain(v[()])
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        return abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(a)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def wrong(want, got):
    """the results of tuple-valued programs are compared piece by piece: a declined piece does not hide a wrong one"""
    return not same(want, got)


try:
    for n in [x for x in dir(D) if x.startswith("t_")]:
        want = plain(getattr(D, n)())
        got = {}

        def run(I, n=n, got=got):
            try:
                r = I.call(I.get("rkopenmdao.difftest_cases:" + n), [], {})
            except PyExc as ex:
                got["exc"] = ex.obj.cls.name + " " + repr(ex.obj.attrs.get("args"))
                return
            got.setdefault("vals", []).append(conc(I, r))
        rep = explore(n, run, {}, {}, max_paths=50)
        if rep.unsupported:
            DECLINED.append((n, rep.unsupported[0][:110]))
            continue
        if "exc" in got:
            TRUE_MISMATCH.append((n, want, "raises " + got["exc"]))
            continue
        vs = got.get("vals", [])
        if not any(same(want, v) for v in vs) or len(vs) != 1:
            TRUE_MISMATCH.append((n, want, vs))
        else:
            OK += 1
finally:
    shutil.rmtree(tmp)
if "-v" in sys.argv:
    for n, m in DECLINED:
        print("declined", n, m)
for n, w, g in TRUE_MISMATCH:
    print("DIFFERENT", n, "\n   python:", w, "\n   pyvc:  ", g)
print(f"{OK} programs agree, {len(DECLINED)} declined, {len(TRUE_MISMATCH)} different")
sys.exit(1 if TRUE_MISMATCH else 0)
