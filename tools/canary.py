"""Canaries: small programs with a right and a wrong contract each.  The verifier has to discharge the right one
and must not discharge the wrong one (unbounded, symbolic data).  Exit 1 if a wrong one is accepted.

A wrong contract that is accepted would mean that the verifier assumes something false (a vacuous path, a
dropped case, a wrong loop summary); a right one that is not discharged only costs precision."""
import os, shutil, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("PYVC_NOEXEC"):
    os.environ["PYVC_NOEXEC"] = "1"
    os.execv(VT, [VT, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
CODE = '''
import numpy as np
def total(x):
    s = 0.0
    for i in range(len(x)):
        s += x[i]
    return s
def skip_last(x):
    s = 0.0
    for i in range(len(x) - 1):
        s += x[i]
    return s
def inplace(x):
    y = x
    y *= 2
    return x
def copied(x):
    y = x.copy()
    y *= 2
    return x
def view(x):
    y = x[1:]
    y[0] = 7.0
    return x
def branch(a):
    if a > 0:
        return a
    return -a
def branch_gap(a):
    if a > 0:
        return a
    elif a < 0:
        return -a
    return 1.0
def dotted(x, y):
    return np.dot(x, y)
def reversed_dot(x, y):
    return x @ y[::-1]
def search(x, a):
    for v in x:
        if v == a:
            return True
    return False
def weighted(m, w):
    return np.einsum("ij,i", m, w)
def transposed(m, w):
    return np.einsum("ij,j", m, w)
def clipped(a, lo, hi):
    return min(max(a, lo), hi)
def fill(n):
    y = np.zeros(n)
    for i in range(n):
        y[i] = i * i
    return y
def fill_off(n):
    y = np.zeros(n)
    for i in range(1, n):
        y[i] = i * i + 0.0
    return y
def counter(n):
    c = 0
    while c < n:
        c += 1
    return c
def raises(a):
    if a < 0:
        raise ValueError("negative")
    return a
def swallowed(a):
    try:
        if a < 0:
            raise ValueError("negative")
    except ValueError:
        return 0.0
    return a
def shared(x):
    a = [x]
    b = a
    b.append(x)
    return len(a)
def divide(a, b):
    return a / b * b
def order(a, b):
    return (a + b) ** 2
def default(d):
    return d.get("k", 3.0)
def last_wins(x, a):
    r = a
    for v in x:
        r = v
    return r
def after(x, n):
    i = 5
    for i in range(n):
        pass
    return i
def norm(x):
    return np.sqrt(np.sum(x * x))
def count(n):
    c = 0
    for i in range(n):
        c += 2
    return c
def uninit(n):
    return np.empty(n)
def allow(a, b):
    return np.isclose(a, b)
'''
tmp = tempfile.mkdtemp(prefix="pyvc_canary_")
os.makedirs(tmp + "/rkopenmdao")
open(tmp + "/rkopenmdao/__init__.py", "w").close()
open(tmp + "/rkopenmdao/canary_code.py", "w").write(CODE)
os.environ["PYVC_SRC"] = tmp
sys.path.insert(0, H)
from specs.common import *

M = "rkopenmdao.canary_code:"


def n_(I):
    n = I.fresh("n", "I")
    I.assume(le(ONE, n))
    return n


def X(I, n, name="x"):
    return arr(I, name, (n,))


def px(i, name="x"):
    return app(name, [lift(i)])


def call(I, f, *a):
    return I.call(I.get(M + f), list(a), {})


def S(lo, hi, f):
    v = fresh_bound()
    return sum_(v, lift(lo), lift(hi), f(v))


CASES = []


def case(fn):
    CASES.append(fn)
    return fn


# each case returns (right, wrong): functions of the interpreter that emit obligations
def scal(f, right, wrong, pre=None, args=("a", "b", "c")):
    import inspect

    def mk(post):
        def run(I):
            vs = [var(x) for x in args]
            if pre:
                I.assume(*pre(*vs))
            r = num(I, call(I, f, *vs))
            g = post(r, *vs)
            I.oblige("post", **({"eqs": g} if isinstance(g, tuple) else {"goal": g}))
        return run
    CASES.append((f, mk(right), mk(wrong)))


def vec(f, right, wrong, more=()):
    def mk(post):
        def run(I):
            n = n_(I)
            xs = [X(I, n)] + [X(I, n, m) if m in "yzw" else var(m) for m in more]
            r = call(I, f, *xs)
            post(I, r, n, xs)
        return run
    CASES.append((f, mk(right), mk(wrong)))


def eqs(fn):
    return lambda I, r, n, xs: I.oblige("post", eqs=(num(I, r), fn(n)))


def same(fn):
    return lambda I, r, n, xs: same_array(I, "post", r, fn(n), (n,))


vec("total", eqs(lambda n: S(0, n, px)), eqs(lambda n: S(0, sub(n, ONE), px)))
vec("total", eqs(lambda n: S(0, n, px)), eqs(lambda n: S(1, n, px)))
vec("skip_last", eqs(lambda n: sub(S(0, n, px), px(sub(n, ONE)))), eqs(lambda n: S(0, n, px)))
vec("inplace", same(lambda n: lambda ix: mul(lift(2), px(ix[0]))), same(lambda n: lambda ix: px(ix[0])))
vec("copied", same(lambda n: lambda ix: px(ix[0])), same(lambda n: lambda ix: mul(lift(2), px(ix[0]))))
vec("norm", eqs(lambda n: T.sqrt(S(0, n, lambda v: mul(px(v), px(v))))), eqs(lambda n: S(0, n, px)))


def viewpost(k):
    def post(I, r, n, xs):
        I.assume(le(lift(2), n))
        same_array(I, "post", r, lambda ix: ite(eq(ix[0], lift(k)), lift(7), px(ix[0])), (n,))
    return post


def view_case(k):
    def run(I):
        n = n_(I)
        I.assume(le(lift(2), n))
        viewpost(k)(I, call(I, "view", X(I, n)), n, None)
    return run


CASES.append(("view", view_case(1), view_case(0)))
scal("branch", lambda r, a: le(ZERO, r), lambda r, a: lt(ZERO, r), args=("a",))
scal("branch_gap", lambda r, a: or_(eq(r, a), eq(r, sub(ZERO, a)), eq(r, ONE)), lambda r, a: or_(eq(r, a), eq(r, sub(ZERO, a))), args=("a",))
scal("clipped", lambda r, a, b, c: and_(le(b, r), le(r, c)), lambda r, a, b, c: and_(lt(b, r), le(r, c)), pre=lambda a, b, c: (le(b, c),))
scal("clipped", lambda r, a, b, c: le(r, c), lambda r, a, b, c: le(b, r))          # without lo <= hi the lower bound is not guaranteed
scal("order", lambda r, a, b: (r, add(mul(a, a), mul(lift(2), mul(a, b)), mul(b, b))), lambda r, a, b: (r, add(mul(a, a), mul(b, b))), args=("a", "b"))
scal("raises", lambda r, a: le(ZERO, r), lambda r, a: lt(ZERO, r), args=("a",), pre=lambda a: (le(ZERO, a),))
scal("swallowed", lambda r, a: le(ZERO, r), lambda r, a: (r, a), args=("a",))
vec("dotted", eqs(lambda n: S(0, n, lambda v: mul(px(v), px(v, "y")))), eqs(lambda n: S(0, n, lambda v: mul(px(v), px(v)))), more=("y",))
vec("reversed_dot", eqs(lambda n: S(0, n, lambda v: mul(px(v), px(sub(n, add(v, ONE)), "y")))), eqs(lambda n: S(0, n, lambda v: mul(px(v), px(v, "y")))), more=("y",))


def last(which):
    def post(I, r, n, xs):
        I.oblige("post", eqs=(num(I, r), px(which(n))))
    return post


vec("last_wins", last(lambda n: sub(n, ONE)), last(lambda n: ZERO), more=("a",))


def found(wrong):
    def run(I):
        n = n_(I)
        x = arr(I, "x", (n,), fn=None if wrong else (lambda ix: var("a")))
        I.oblige("post: found", goal=lift(call(I, "search", x, var("a"))))
    return run


CASES.append(("search", found(False), found(True)))


def mat(f, right, wrong):
    def mk(post):
        def run(I):
            n = n_(I)
            m = arr(I, "m", (n, n))
            same_array(I, "post", call(I, f, m, X(I, n, "w")), post(n), (n,))
        return run
    CASES.append((f, mk(right), mk(wrong)))


mij = lambda i, j: app("m", [i, j])
mat("weighted", lambda n: lambda ix: S(0, n, lambda v: mul(mij(v, ix[0]), px(v, "w"))), lambda n: lambda ix: S(0, n, lambda v: mul(mij(ix[0], v), px(v, "w"))))
mat("transposed", lambda n: lambda ix: S(0, n, lambda v: mul(mij(ix[0], v), px(v, "w"))), lambda n: lambda ix: S(0, n, lambda v: mul(mij(v, ix[0]), px(v, "w"))))


def sized(f, right, wrong):
    def mk(post):
        def run(I):
            n = n_(I)
            same_array(I, "post", call(I, f, n), post(n), (n,))
        return run
    CASES.append((f, mk(right), mk(wrong)))


sized("fill", lambda n: lambda ix: mul(ix[0], ix[0]), lambda n: lambda ix: ix[0])
sized("fill_off", lambda n: lambda ix: mul(ix[0], ix[0]), lambda n: lambda ix: ite(eq(ix[0], ZERO), ONE, mul(ix[0], ix[0])))


def misc(f, right, wrong):
    CASES.append((f, right, wrong))


def counted(wrong):
    def run(I):
        n = I.fresh("n", "I")
        r = num(I, call(I, "count", n))
        I.oblige("post", eqs=(r, mul(lift(2), n) if wrong else ite(le(ZERO, n), mul(lift(2), n), ZERO)))
    return run


def after(wrong):
    def run(I):
        n = I.fresh("n", "I")
        if not wrong:
            I.assume(le(ONE, n))
        I.oblige("post", eqs=(num(I, call(I, "after", var("a"), n)), sub(n, ONE)))
    return run


misc("after", after(False), after(True))
misc("count", counted(False), counted(True))


def shared(k):
    return lambda I: I.oblige("post", eqs=(num(I, call(I, "shared", var("a"))), lift(k)))


misc("shared", shared(2), shared(1))


def uninit(wrong):
    def run(I):
        n = n_(I)
        a = call(I, "uninit", n)
        if wrong:
            same_array(I, "post", a, lambda ix: ZERO, (n,))
        else:
            I.oblige("post", eqs=(a.shape[0], n))
    return run


misc("uninit", uninit(False), uninit(True))


def raising(I, wrong):
    a = var("a")
    try:
        r = call(I, "raises", a)
    except PyExc as e:
        I.oblige("post: raised only for negative", goal=lt(a, ZERO) if not wrong else lt(a, sub(ZERO, ONE)))
        return
    I.oblige("post: value", eqs=(num(I, r), a))


misc("raises", lambda I: raising(I, False), lambda I: raising(I, True))


def frame(wrong):
    def run(I):
        n = n_(I)
        x = X(I, n)
        call(I, "inplace" if wrong else "copied", x)
        same_array(I, "frame", x, lambda ix: px(ix[0]), (n,))
    return run


misc("frame", frame(False), frame(True))


def closeness(wrong):
    def run(I):
        a, b = var("a"), var("b")
        r = I.branch(I.truth(call(I, "allow", a, b))) if False else call(I, "allow", a, b)
        I.oblige("post", goal=or_(not_(eq(a, b)), r) if not wrong else or_(not_(r), eq(a, b)))
    return run


misc("allow", closeness(False), closeness(True))


def vacuous(I):
    a = var("a")
    I.assume(lt(a, ZERO), lt(ZERO, a))
    I.oblige("post", eqs=(a, add(a, ONE)))


bad = []
try:
    for k, (f, right, wrong) in enumerate(CASES):
        for kind, run in (("right", right), ("wrong", wrong)):
            rep = explore(f, run, {}, {}, max_paths=60)
            tot, ok = rep.counts()
            held = tot > 0 and ok == tot and not rep.unsupported
            if held != (kind == "right"):
                bad.append(f"{kind} contract of {f} (#{k}) {'accepted' if held else 'not discharged'}: {rep.unsupported} {[(n, r.status) for n, r, *_ in rep.failures()][:2]}")
            if kind == "wrong" and "-v" in sys.argv:
                print(f, "wrong contract:", [(n, r.status) for n, r, *_ in rep.failures()][:1], rep.unsupported[:1])
    rep = explore("vacuous", vacuous, {}, {}, max_paths=10)
    if not rep.unsupported:
        bad.append("a unit with contradictory assumptions counts as proved")
finally:
    shutil.rmtree(tmp)
for b in bad:
    print(b)
print(f"{len(CASES)} canaries: right contracts discharged, wrong ones rejected" if not bad else f"{len(bad)} canaries failed")
sys.exit(1 if any("not discharged" not in b for b in bad) else 0)
