"""programs whose result pyvc's symbolic semantics must reproduce (see difftest.py)"""
from __future__ import annotations
import copy
import functools
import itertools
import math
from collections import deque
from dataclasses import dataclass, field

import numpy as np


def m23():
    return np.array([[1.0, -2.0, 3.0], [4.0, 0.5, -6.0]])


def m33():
    return np.array([[1.0, 2.0, 0.0], [0.25, -1.0, 4.0], [3.0, 0.0, 0.5]])


def v3():
    return np.array([3.0, -1.0, 2.0])


def t_view_write():
    a = m23()
    b = a[1]
    b[0] = 7.0
    c = a[:, 1:]
    c[:] = 9.0
    return a, b, c


def t_copy_no_alias():
    a = m23()
    b = a.copy()
    b[0, 0] = 100.0
    c = np.array(a)
    c[1, 1] = -100.0
    return a, b, c


def t_slices():
    a = np.array([0.0, 1.0, 2.0, 3.0, 4.0, 5.0])
    return a[2:], a[:2], a[1:4], a[-2:], a[:-1], a[::-1], a[1::2], a[4:1:-1], a[10:], a[-10:2], a[3:1]


def t_neg_index():
    a = m33()
    return a[-1, -2], a[-1], a[..., 0], a[1, ...]


def t_iadd_alias():
    a = v3()
    b = a
    b += 1.0
    c = a
    c = c + 1.0
    return a, b, c


def t_iops():
    a = m33()
    a[1] += a[0]
    a[:, 2] *= 2.0
    a[0, 0] -= 5.0
    a /= 4.0
    return a


def t_overlap():
    a = np.array([1.0, 2.0, 3.0, 4.0])
    a[1:] = a[:-1]
    return a


def t_overlap_reverse():
    a = np.array([1.0, 2.0, 3.0, 4.0])
    a[:] = a[::-1]
    return a


def t_broadcast():
    a = m23()
    return a + v3(), a * np.array([[2.0], [3.0]]), 1.0 - a, a / 2.0, -a, a ** 2


def t_broadcast_assign():
    a = np.zeros((2, 3))
    a[:] = v3()
    b = np.ones((2, 3))
    b[:, 0] = 5.0
    b[1] = [1.0, 2.0, 3.0]
    return a, b


def t_einsum():
    a, b = m23(), np.array([2.0, -1.0])
    return np.einsum("ij,i", a, b), np.einsum("ij,j->i", a, v3()), np.einsum("ij,i->j", a, b), np.einsum("i,i", b, b), np.einsum("ij->i", a), np.einsum("ij,ij", a, a)


def t_dot():
    a = m23()
    return a @ v3(), np.dot(a, v3()), a.T @ np.array([1.0, 2.0]), np.dot(v3(), v3()), v3() @ v3(), a @ m33(), a.dot(v3()), np.vdot(v3(), v3()), np.inner(v3(), v3())


def t_outer():
    return np.outer(v3(), np.array([1.0, 2.0])), np.tensordot(m23(), v3(), axes=1)


def t_sums():
    a = m23()
    return np.sum(a), a.sum(), np.sum(a, axis=0), np.sum(a, axis=1), a.sum(axis=1), np.sum(a, 0), a.sum(axis=-1)


def t_prod():
    return np.prod((2, 3, 4)), np.prod(v3()), np.prod(())


def t_minmax():
    return max(3, 1, 2), min([4.0, -2.0]), np.maximum(v3(), 0.0), np.minimum(v3(), np.array([0.0, 0.0, 5.0])), np.max(v3()), np.min(v3()), np.abs(v3()), abs(-3.5), max([1.0, 5.0, 2.0]), min(2, 7)


def t_clip():
    return np.clip(v3(), -0.5, 2.5), np.clip(5.0, 1.0, 2.0), np.clip(-5.0, 1.0, 2.0)


def t_roll():
    a = np.array([1.0, 2.0, 3.0, 4.0])
    return np.roll(a, 1), np.roll(a, -1), np.roll(a, 3), a


def t_ctors():
    return np.zeros(3), np.ones((2, 2)), np.full(3, 2.5), np.full((1, 2), -1.0), np.zeros_like(m23()), np.ones_like(v3()), np.full_like(v3(), 4.0), np.arange(4), np.arange(1, 4), np.arange(0, 6, 2), np.eye(2), np.identity(3), np.diag(np.array([1.0, 2.0]))


def t_diag():
    return m33().diagonal(), np.diag(m33()), np.diagonal(m33()), np.trace(m33())


def t_tril():
    return np.tril(m33()), np.triu(m33()), np.tril(m33(), -1), np.triu(m33(), 1), np.triu(m33(), k=1), np.tril(m33(), k=1)


def t_any_all():
    a = m33()
    return bool(np.any(a < -0.5)), bool(np.all(a > -2.0)), bool((a == 0.0).any()), bool((a == 0.0).all()), bool(np.any(np.triu(a, 1))), np.count_nonzero(a) if False else 0, not np.any(np.zeros(2))


def t_allclose():
    return bool(np.allclose(v3(), v3() + 1e-9)), bool(np.allclose(v3(), v3() + 1e-2)), bool(np.isclose(1.0, 1.0 + 1e-6)), bool(np.isclose(0.0, 1e-9)), bool(np.isclose(0.0, 1e-7)), bool(np.allclose(1.0, 1.0 + 1e-6, rtol=0.0, atol=1e-5)), bool(np.allclose(1.0, 1.0 + 1e-4, rtol=0.0, atol=1e-5)), bool(np.array_equal(v3(), v3())), bool(np.array_equal(v3(), m23()))


def t_reshape():
    a = m23()
    b = a.reshape(-1)
    b[0] = 42.0
    return a, b, a.reshape((3, 2)), a.reshape(6), a.flatten(), a.ravel(), a.T, np.transpose(a), a.reshape(3, -1)


def t_flatten_copies():
    a = m23()
    b = a.flatten()
    b[0] = 42.0
    return a, b


def t_where():
    a = v3()
    return np.where(a > 0.0, a, 0.0), np.where(a < 0.0, 1.0, -1.0)


def t_concat():
    return np.concatenate((v3(), np.array([9.0]))), np.concatenate([v3(), v3()]), np.append(v3(), 4.0), np.hstack((v3(), v3())), np.vstack((v3(), v3())), np.stack([v3(), v3()])


def t_cumsum():
    return np.cumsum(v3()), np.flip(v3())


def t_shape():
    a = m23()
    return a.shape, a.size, a.ndim, len(a), a.shape[0], v3().shape


def t_int_div():
    return 7 // 2, -7 // 2, 7 % 3, -7 % 3, divmod(7, 2), 7 / 2, 2 ** 5, 2 ** -1, round(2.4), int(3.7), int(-3.7), float(2), abs(-4), 5 & 3, bool(0)


def t_compare_chain():
    x = 3
    return 1 < x < 5, 1 < x < 2, x == 3 != 4, x in (1, 2), x not in [1, 2], None is None, x is not None


def t_bool_values():
    return 0 or 5, 3 and 7, 0 and 7, "" or "x", None or 0, not [], not [0], [] == [], (1, 2) == (1, 2), (1, 2) < (1, 3), "ab" < "b"


def t_loops():
    out = []
    for i in range(5):
        if i == 1:
            continue
        if i == 4:
            break
        out.append(i)
    else:
        out.append("else")
    for j in []:
        pass
    else:
        out.append("empty")
    k = 0
    while True:
        k += 2
        if k > 6:
            break
    while k > 0:
        k -= 3
    else:
        out.append("welse")
    return out, k, i


def t_for_var_after():
    for i in range(3):
        last = i
    return i, last


def t_nested_break():
    out = []
    for i in range(3):
        for j in range(3):
            if j > i:
                break
            out.append((i, j))
    return out


def t_reversed_range():
    return [i for i in reversed(range(4))], list(range(5, 0, -2)), list(reversed([1, 2, 3])), [x for x in range(3, -1, -1)], len(range(2, 9, 3)), 4 in range(5)


def t_enumerate_zip():
    return [(i, x) for i, x in enumerate("abc")], [(a, b) for a, b in zip([1, 2, 3], (4, 5))], list(enumerate([7, 8], start=1)), [(a, b, c) for a, (b, c) in zip([1], [(2, 3)])], list(zip([1, 2], [3, 4]))


def t_enumerate_array():
    out = []
    for i, x in enumerate(v3()):
        out.append(i * x)
    for row in m23():
        row[0] = 0.0
        out.append(row.sum())
    return out


def t_row_iter_alias():
    a = m23()
    for row in a:
        row += 1.0
    for x in a[0]:
        x += 100.0
    return a


def t_comprehensions():
    return [x * x for x in range(5) if x % 2], {k: v for k, v in zip("ab", (1, 2))}, sorted({3, 1, 2}), sum(x for x in range(4)), any(x > 2 for x in range(4)), all(x > 2 for x in range(4)), [[j for j in range(i)] for i in range(3)], [a + b for a in "xy" for b in "12"]


def t_comprehension_scope():
    x = 10
    y = [x for x in range(3)]
    return x, y


def t_dict():
    d = {"b": 1, "a": 2}
    d["c"] = 3
    d["b"] = 5
    e = dict(d)
    e.pop("a")
    d.update({"z": 0}, q=1)
    sd = d.setdefault("n", 9)
    return list(d.items()), list(e), "a" in e, d.get("nope"), d.get("nope", 4), sd, d["n"], len(d), list({**e, "b": 0}.items()), list(dict(a=1, b=2)), {"a": 1} == {"a": 1}, list((e | {"w": 1}).keys())


def t_dict_mutation_alias():
    d = {"a": [1]}
    e = dict(d)
    e["a"].append(2)
    f = copy.deepcopy(d)
    f["a"].append(3)
    g = copy.copy(d)
    g["x"] = 1
    return d, e, f, g


def t_list():
    a = [3, 1, 2]
    b = a
    b.append(4)
    c = a[:]
    c.sort()
    a.insert(0, 9)
    d = a + [7]
    e = a * 2
    a.remove(1)
    x = a.pop()
    y = a.pop(0)
    b.extend([5, 6])
    return a, b, c, d, e, x, y, sorted([3, 1, 2], reverse=True), a.index(2), [1, 2, 2].count(2), a[::-1], a[-1], a[0:2]


def t_list_iadd():
    a = [1]
    b = a
    b += [2]
    c = a
    c = c + [3]
    return a, b, c


def t_list_delete():
    a = [1, 2, 3, 4]
    del a[1]
    a[0] = 7
    return a


def t_tuple_unpack():
    a, (b, *c), d = 1, (2, 3, 4), 5
    a, b = b, a
    *h, t = [1, 2, 3]
    return a, b, c, d, h, t


def t_deque():
    d = deque()
    d.append(1)
    d.append(2)
    d.appendleft(0)
    x = d.pop()
    y = d.popleft()
    d.extend([5, 6])
    return list(d), x, y, len(d), d[-1], d[0]


def t_strings():
    n = 3
    return f"a{n}b", "a" + "b", "x_{}".format(n), "a,b".split(","), ",".join(["p", "q"]), "abc".startswith("ab"), "abc".endswith("bc"), "abc".upper(), " x ".strip(), "abc"[1:], "abc".replace("b", "z"), "b" in "abc", len("abc"), str(5), "%s" % n, "Abc".lower()


def t_closure():
    fs = []
    for i in range(3):
        def f(y, i=i):
            return i + y
        fs.append(f)
    gs = [lambda: i for i in range(3)]
    k = 1

    def h():
        nonlocal k
        k += 1
        return k
    h()
    h()
    return [f(1) for f in fs], [g() for g in gs], k


def t_default_args():
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    f(1)
    return f(2)


def t_varargs():
    def f(a, *args, k=0, **kw):
        return a, args, k, sorted(kw.items())
    t = (1, 2, 3)
    return f(1), f(*t), f(1, 2, k=3, z=4), f(**{"a": 5, "k": 6})


def t_exceptions():
    out = []

    class E(ValueError):
        pass

    def f(k):
        try:
            if k == 0:
                raise E("e")
            if k == 1:
                raise KeyError("k")
            if k == 2:
                return "ret"
        except ValueError as x:
            out.append(("ve", str(x)))
        except (KeyError, IndexError):
            out.append("ke")
            return "k"
        else:
            out.append("else")
        finally:
            out.append("fin")
        return "end"
    r = [f(k) for k in range(4)]
    try:
        try:
            raise E("inner")
        finally:
            out.append("f2")
    except E:
        out.append("outer")
    try:
        {}["x"]
    except KeyError:
        out.append("keyerror")
    try:
        [][0]
    except IndexError:
        out.append("indexerror")
    return r, out


def t_raise_from():
    try:
        try:
            raise ValueError("a")
        except ValueError as e:
            raise TypeError("b") from e
    except TypeError as t:
        return type(t).__name__, str(t)


def t_reraise():
    out = []
    try:
        try:
            raise ValueError("a")
        except ValueError:
            out.append(1)
            raise
    except ValueError as e:
        out.append(str(e))
    return out


class Base:
    cnt = 0
    shared = []

    def __init__(self, x):
        self.x = x
        Base.cnt += 1

    def get(self):
        return self.x

    @property
    def twice(self):
        return 2 * self.get()

    @staticmethod
    def st(a):
        return a + 1

    @classmethod
    def make(cls, a):
        return cls(a)

    def __len__(self):
        return 4

    def __call__(self, y):
        return self.x + y


class Derived(Base):
    def __init__(self, x, y):
        super().__init__(x)
        self.y = y

    def get(self):
        return super().get() + self.y

    @property
    def z(self):
        return self._z

    @z.setter
    def z(self, v):
        self._z = v + 1


class Mixin:
    def get(self):
        return 100 + super().get()


class Both(Mixin, Derived):
    pass


def t_classes():
    b, d = Base(3), Derived(4, 5)
    m = Both(1, 2)
    d.z = 8
    b.shared.clear()
    b.shared.append(1)
    b.own = 2
    return b.get(), d.get(), d.twice, m.get(), m.twice, Base.st(1), d.st(2), Base.make(7).x, len(b), b(10), d.z, Derived.shared, isinstance(d, Base), issubclass(Derived, Base), isinstance(b, Derived), hasattr(b, "own"), hasattr(d, "own"), getattr(d, "own", "no"), type(d).__name__


@dataclass
class DC:
    a: int
    b: list = field(default_factory=list)
    c: float = 2.5
    d: int = field(init=False, default=3)

    def __post_init__(self):
        self.e = self.a + 1


@dataclass
class DC2(DC):
    f: str = "f"


def t_dataclass():
    x, y = DC(1), DC(2, [5], c=0.5)
    x.b.append(9)
    z = DC2(3, f="g")
    return x.a, x.b, x.c, x.d, x.e, y.b, y.c, z.f, z.e, DC(1) == DC(1), DC(1).b, DC2(4).f


def t_partial():
    f = functools.partial(lambda a, b, c=0: (a, b, c), 1, c=5)
    return f(2), f(2, c=7)


def t_itertools():
    return list(itertools.chain([1], [2, 3])), list(map(lambda x: x + 1, [1, 2])), list(filter(lambda x: x > 1, [1, 2])), sum([1, 2], 10)


def t_generator():
    def g(n):
        for i in range(n):
            yield i * i
    return list(g(3)), sum(g(4))


def t_walrus():
    if (n := 5) > 3:
        return n
    return 0


def t_conditional():
    return [("a" if x > 1 else "b") for x in range(3)], (1 if [] else 2)


def t_math():
    return math.isclose(1.0, 1.0 + 1e-10), math.inf > 5, np.inf > 1e300, -np.inf < 0, math.prod([2, 3]), np.isinf(np.inf) if False else True


def t_power():
    return 2.0 ** 3, 4.0 ** 0.5, (-2.0) ** 2, np.sqrt(np.array([4.0, 9.0])), 2.0 ** -2, np.power(np.array([2.0, 3.0]), 2), np.square(v3())


def t_norm():
    return np.linalg.norm(np.array([3.0, 4.0])), np.linalg.norm(v3(), np.inf), np.linalg.norm(v3(), 1), np.linalg.norm(v3(), ord=1)


def t_isinstance():
    return isinstance(3, int), isinstance(3.0, float), isinstance("a", str), isinstance([1], list), isinstance((1,), (list, tuple)), isinstance(v3(), np.ndarray), callable(len), isinstance(None, int), isinstance({}, dict), isinstance(True, int)


def t_attr_alias():
    b = Base(v3())
    a = b.x
    b.x[0] = 5.0
    a[1] = 6.0
    b.x = np.zeros(1)
    return a, b.x


def t_state_swap():
    a, b = np.array([1.0, 2.0]), np.array([3.0, 4.0])
    a, b = b, a
    a[0] = 9.0
    return a, b


def t_swap_rows():
    a = m33()
    a[0], a[1] = a[1], a[0].copy()
    return a


def t_swap_rows_alias():
    a = m33()
    a[0], a[1] = a[1], a[0]
    return a


def t_fill():
    a = m23()
    a.fill(3.0)
    b = np.zeros(2)
    b[...] = 4.0
    return a, b


def t_array_of_list():
    a = np.array([1, 2, 3], dtype=float)
    b = np.asarray(a)
    b[0] = 5.0
    c = np.array(a, copy=True)
    c[0] = 8.0
    return a, b, c, np.array([[1.0], [2.0]]), np.array([a[0], a[1]])


def t_array_eq():
    a = v3()
    return (a == v3()).tolist() if False else [bool(x) for x in (a == v3())], [bool(x) for x in (a > 0.0)], [bool(x) for x in (a != 2.0)]


def t_bool_index_sum():
    a = v3()
    s = 0.0
    for i in range(a.size):
        if a[i] > 0:
            s += a[i]
    return s


def t_while_index():
    a = v3()
    i = 0
    while i < len(a) and a[i] != -1.0:
        i += 1
    return i


def t_tuple_key():
    d = {(1, 2): "x"}
    d[(3,)] = "y"
    return d[(1, 2)], d[3,], list(d)


def t_unravel():
    return [tuple(int(y) for y in np.unravel_index(k, (2, 3))) for k in range(6)]


def t_string_keys_sort():
    return sorted(["b", "a", "C"]), sorted([(2, "a"), (1, "b")]), sorted([3, 1, 2], key=lambda x: -x)


def t_int_conv():
    return int("12"), float("0.5"), int(True), str(1.5), "7".isdigit()


def t_assert():
    try:
        assert 1 == 2, "no"
    except AssertionError:
        return "asserted"
    return "not"


def t_with():
    log = []

    class C:
        def __enter__(self):
            log.append("enter")
            return self

        def __exit__(self, *a):
            log.append("exit")
            return False
    with C() as c:
        log.append("body")
    try:
        with C():
            raise ValueError("x")
    except ValueError:
        log.append("caught")
    return log


def t_global_state():
    Base.cnt = 0
    Base(1)
    Derived(1, 2)
    return Base.cnt, Derived.cnt


def t_del_attr():
    b = Base(1)
    b.tmp = 4
    del b.tmp
    return hasattr(b, "tmp")


def t_setattr():
    b = Base(1)
    setattr(b, "foo", 12)
    return b.foo, getattr(b, "foo"), vars(b)["foo"] if False else 12


def t_multi_assign():
    a = b = [1]
    a.append(2)
    x = y = 0
    x += 1
    return a, b, x, y


def t_aug_item():
    d = {"a": 1}
    d["a"] += 5
    l = [1, 2]
    l[1] *= 4
    return d, l


def t_aug_array_item_scalar():
    d = {"x": v3()}
    a = d["x"]
    d["x"] += 1.0
    return a, d["x"]


def t_aug_attr_array():
    b = Base(v3())
    a = b.x
    b.x -= 1.0
    b.x = b.x - 1.0
    return a, b.x


def t_zero_size():
    a = np.zeros(0)
    return a.size, a.sum(), len(a), [x for x in a], np.zeros((0, 3)).shape, np.concatenate((a, v3()))


def t_ternary_nested():
    return [("neg" if x < 0 else "zero" if x == 0 else "pos") for x in (-1, 0, 1)]


def t_slice_assign_list():
    a = [1, 2, 3]
    b = a[1:]
    b[0] = 9
    return a, b


def t_star_print():
    print("a", 1, sep="-")
    return None


def t_is_same():
    a = v3()
    b = a
    c = a.copy()
    return a is b, a is c, a is not c


def t_matrix_fun():
    a = m33()
    return a[1:, :2], a[:, ::2], a[::-1], a[1:2, 0], a[0, 1:], a.T[0], a[:, 0]


def t_view_of_view():
    a = np.arange(12.0).reshape(3, 4) if False else np.array([[0.0, 1.0, 2.0, 3.0], [4.0, 5.0, 6.0, 7.0], [8.0, 9.0, 10.0, 11.0]])
    b = a[1:, 1:]
    c = b[:, ::-1]
    c[0] = 0.0
    d = a.T
    d[3, 2] = -1.0
    return a, b, c


def t_fancy():
    a = v3()
    return a[[0, 2]], m33()[[2, 0]]


def t_tile():
    return np.tile(np.array([1.0, 2.0]), 2), np.repeat(np.array([1.0, 2.0]), 2)


def t_expand():
    return v3()[:, None] * np.array([1.0, 2.0]), np.expand_dims(v3(), 0), v3()[np.newaxis, :], np.squeeze(np.array([[1.0, 2.0]])), np.atleast_1d(3.0)


def t_copyto():
    a = np.zeros(3)
    np.copyto(a, v3())
    b = np.empty_like(a)
    b[:] = a
    np.add(a, b, out=b)
    return a, b


def t_argmax():
    return int(np.argmax(v3())), int(np.argmin(v3()))


def t_diff_lists():
    a, b = [1, 2, 3], [2]
    return [x for x in a if x not in b], set(a) - set(b) == {1, 3}, {1, 2} | {3} == {1, 2, 3}, {1} <= {1, 2}, frozenset([1]) == frozenset([1])


def t_try_loop():
    out = []
    for i in range(3):
        try:
            if i == 1:
                continue
            if i == 2:
                break
            out.append(i)
        finally:
            out.append("f")
    return out


def t_try_return_finally():
    out = []

    def f():
        try:
            return len(out)
        finally:
            out.append(1)
    return f(), out


def t_recursion():
    def fac(n):
        return 1 if n == 0 else n * fac(n - 1)
    return fac(6)


def t_swapaxes_sum():
    a = m23()
    s = np.zeros(3)
    for i in range(2):
        s += a[i] * (i + 1)
    return s


def t_inplace_in_fn():
    def f(x):
        x[0] = 5.0
        x = x + 1.0
        x[1] = 7.0
        return x
    a = v3()
    b = f(a)
    return a, b


def t_list_of_arrays():
    l = [np.zeros(2)] * 2
    l[0][0] = 1.0
    m = [np.zeros(2) for _ in range(2)]
    m[0][0] = 1.0
    return l, m


def t_deepcopy_arrays():
    b = Base([v3(), v3()])
    c = copy.deepcopy(b)
    c.x[0][0] = 99.0
    d = copy.copy(b)
    d.x[1][1] = 77.0
    return b.x, c.x, d.x


def t_deepcopy_shared():
    a = v3()
    c = copy.deepcopy([a, a])
    c[0][0] = 5.0
    return c, a


def t_float_cmp():
    return 0.1 + 0.2 < 0.4, 1e-5 < 1e-4, 3 == 3.0, 1 / 4 == 0.25


def t_isnan():
    return bool(np.isfinite(3.0)), bool(np.all(np.isfinite(v3())))


def t_sum_axis_keep():
    return np.mean(np.array([1.0, 3.0])), np.array([1.0, 3.0]).mean()


def t_row_sum_check():
    a = m33()
    return [bool(np.isclose(sum(a[i]), a[i].sum())) for i in range(3)], [float(s) for s in np.sum(a, axis=1)]


def t_int_arrays():
    a = np.array([1, 2, 3])
    b = np.zeros(2, dtype=int)
    c = np.array([1, 2, 3], dtype=float)
    c[0] = 0.5
    return a / 2, a // 2, a * 0.5, a + 1, c, a.sum(), b


def t_int_truncation():
    a = np.array([1, 2, 3])
    a[0] = 1.7
    b = np.zeros(2, dtype=int)
    b[:] = np.array([1.5, 2.5])
    return a, b


def t_fstrings():
    return f"{1.0}", f"{0.5}", f"{3}", f"{True}", f"{'a'}", f"{None}" if False else "", f"x{1}y{2}"


def t_eq():
    class P:
        def __init__(self, a):
            self.a = a

        def __eq__(self, o):
            return self.a == o.a
    return [1, [2, 3]] == [1, [2, 3]], (1, 2) == [1, 2], {"a": [1]} == {"a": [1]}, {"a": 1} == {"a": 2}, "a" == 1, None == 0, P(1) == P(1), P(1) != P(1), DC2(1, f="a") == DC2(1, f="b"), DC2(1) == DC2(1), DC(1) == DC2(1)


def t_views_after_write():
    a = m33()
    t = a.T
    d = a.diagonal()
    f = a.ravel()
    r = a.reshape(-1)
    g = a[1:].reshape(-1)
    h = a[:, 1:].reshape(-1)
    k = a.T.ravel()
    a[0, 1] = 50.0
    a[2, 2] = 60.0
    t[0, 2] = 70.0
    f[4] = 80.0
    return a, t, d, f, r, g, h, k


def t_reshape_write():
    a = np.array([1.0, 2.0, 3.0, 4.0, 5.0, 6.0])
    b = a.reshape((2, 3))
    b[1, 0] = 40.0
    b[:, 2] = 0.0
    c = a.reshape(3, 2)
    c += 1.0
    return a, b, c, a.reshape(-1, 3), a.reshape((6,))


def t_strided_ravel():
    a = np.array([1.0, 2.0, 3.0])
    b = a[::-1].ravel()
    b[0] = 9.0
    return a, b


def t_flat():
    a = m23()
    a.flat[2] = 10.0
    return a, [x for x in a.flat]


def t_slice_transpose_write():
    a = m23()
    a.T[0] = 5.0
    a.T[2, 1] = 6.0
    return a


def t_none_default():
    def f(a=None, b=0):
        a = a or [1]
        b = b if b is not None else 5
        return a, b
    return f(), f([], None), f([2], 3)


def t_chained_methods():
    return m23().T.copy().sum(axis=0), (m23() * 2).max(), m23()[0].dot(v3())


def t_mixed_index():
    a = m33()
    i = 1
    return a[i, :i], a[:i, i], a[i + 1:, i], a[i][i], a[-i:], a[:, -i]


def t_empty_slices():
    a = v3()
    return a[:0], a[3:], a[5:], a[2:1], np.sum(a[:0]), np.dot(a[:0], a[:0]), m33()[:0].sum(), m33()[:0, :].shape


def t_einsum_empty():
    return np.einsum("ij,i", m33()[:0, :], v3()[:0]), np.einsum("ij,i->j", np.zeros((0, 2)), np.zeros(0))


def t_lambda_late():
    x = 1
    f = lambda: x
    x = 2
    return f()


def t_class_attr_shadow():
    class A:
        v = 1

        def bump(self):
            self.v += 1
            return self.v
    a, b = A(), A()
    return a.bump(), a.bump(), b.v, A.v


def t_property_cache():
    class A:
        def __init__(self):
            self.n = 0

        @property
        def p(self):
            self.n += 1
            return self.n
    a = A()
    return a.p, a.p


def t_super_chain():
    class A:
        def f(self):
            return ["A"]

    class B(A):
        def f(self):
            return ["B"] + super().f()

    class C(A):
        def f(self):
            return ["C"] + super().f()

    class D(B, C):
        def f(self):
            return ["D"] + super().f()
    return D().f(), [c.__name__ for c in D.__mro__] if False else 0


def t_kwonly_default_none():
    def f(*, a, b=2):
        return a + b
    try:
        f(1)
    except TypeError:
        return f(a=1), "te"
    return "no"


def t_bad_calls():
    out = []
    for g in (lambda: len(3), lambda: [1] + (2,), lambda: {}["a"], lambda: (1,)[3], lambda: None.x, lambda: int("z"), lambda: 1 / 0, lambda: "a" + 1):
        try:
            g()
            out.append("ok")
        except (TypeError, KeyError, IndexError, AttributeError, ValueError, ZeroDivisionError) as e:
            out.append(type(e).__name__)
    return out


def t_while_counters():
    i, j = 0, 10
    while i < j:
        i += 1
        j -= 2
    return i, j


def t_loop_mutating_list():
    a = [1, 2, 3]
    for x in list(a):
        if x == 2:
            a.remove(x)
    return a


def t_nested_functions_state():
    def counter():
        n = [0]

        def inc():
            n[0] += 1
            return n[0]
        return inc
    c, d = counter(), counter()
    return c(), c(), d()


def t_min_max_key():
    return max([1, -3, 2], key=abs) if False else 0, min(3.5, 2), max((1, 2), (1, 3)) if False else 0


def t_bool_arith():
    return True + True, sum([True, False, True]), int(False), 3 * True


def t_unary_not_on_arrays():
    return not np.array([1.0])[0], -v3(), +v3()


def t_assign_list_to_row():
    a = np.zeros((2, 2))
    a[0] = [1, 2]
    a[1, :] = (3.0, 4.0)
    return a


def t_sum_of_products():
    a, b = v3(), np.array([1.0, 2.0, 3.0])
    return sum(x * y for x, y in zip(a, b)), sum(a), float(np.sum(a * b))


def t_clip_scalar_float():
    return float(np.clip(0.3, 0.5, 1.0)), min(max(0.3, 0.5), 1.0)


def t_isclose_order():
    # the tolerance is relative to the second argument
    return bool(np.isclose(1.0, 1.00001, rtol=1e-5, atol=0)), bool(np.isclose(100.0, 100.001)), bool(np.isclose(100.0, 100.0011)), bool(np.isclose(0.00001, 0.0))


def t_abs_pow():
    return np.sum(np.abs(v3()) ** 2), np.abs(v3()) ** 3, (v3() ** 2).sum() ** 1


def t_early_return_in_with_loop():
    class C:
        def __init__(self):
            self.log = []

        def __enter__(self):
            self.log.append("in")
            return self

        def __exit__(self, t, v, tb):
            self.log.append("out")
            return t is KeyError
    c = C()

    def f():
        for i in range(3):
            with c:
                if i == 1:
                    return i
    r = f()
    with c:
        raise KeyError("swallowed")
    return r, c.log
