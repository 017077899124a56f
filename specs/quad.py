"""Exact arithmetic in multi-quadratic fields Q(sqrt d1, sqrt d2, ...) and rigorous enclosures."""
from fractions import Fraction as F
from math import isqrt


class NotQuad(Exception):
    pass


def squarefree(n):
    """n = k^2 * d"""
    k, d, p = 1, 1, 2
    while p * p <= n:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        k *= p ** (e // 2)
        d *= p ** (e % 2)
        p += 1
        if p > 100000:
            raise NotQuad("large radicand")
    return k, d * n


class Q:
    """sum of c_d * sqrt(d) over square-free d"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = {d: v for d, v in c.items() if v}

    @staticmethod
    def of(x):
        return Q({1: F(x)})

    def __add__(s, o):
        r = dict(s.c)
        for d, v in o.c.items():
            r[d] = r.get(d, 0) + v
        return Q(r)

    def __sub__(s, o):
        return s + o * Q.of(-1)

    def __mul__(s, o):
        r = {}
        for d, v in s.c.items():
            for e, w in o.c.items():
                k, f = squarefree(d * e)
                r[f] = r.get(f, 0) + v * w * k
        return Q(r)

    def inv(s):
        if not s.c:
            raise NotQuad("division by zero")
        if set(s.c) == {1}:
            return Q.of(1 / s.c[1])
        # multiply by the conjugate in one prime of the radicands
        d = max(s.c)
        p = next(q for q in range(2, d + 1) if d % q == 0)
        conj = Q({e: (-v if e % p == 0 else v) for e, v in s.c.items()})
        return conj * (s * conj).inv()

    def sqrt(s):
        if not s.c:
            return Q.of(0)
        if set(s.c) == {1}:
            x = s.c[1]
            if x < 0:
                raise NotQuad("negative radicand")
            k, d = squarefree(x.numerator * x.denominator)
            return Q({d: F(k, x.denominator)})
        if len(s.c) == 2 and 1 in s.c:
            (d,) = [e for e in s.c if e != 1]
            a, b = s.c[1], s.c[d]
            n = a * a - b * b * d
            if n >= 0 and isqrt(n.numerator) ** 2 == n.numerator and isqrt(n.denominator) ** 2 == n.denominator:
                q = F(isqrt(n.numerator), isqrt(n.denominator))
                if a + q >= 0 and a - q >= 0:
                    r = Q.of((a + q) / 2).sqrt()
                    t = Q.of((a - q) / 2).sqrt()
                    return r + t if b > 0 else r - t
        raise NotQuad("nested radical")

    def bounds(s, digits=60):
        """rational enclosure"""
        lo = hi = F(0)
        for d, v in s.c.items():
            x = isqrt(d * 100 ** digits)
            a, b = F(x, 10 ** digits), F(x if x * x == d * 100 ** digits else x + 1, 10 ** digits)
            if v < 0:
                a, b = b, a
            lo, hi = lo + v * a, hi + v * b
        return lo, hi

    def zero(s):
        return not s.c

    def within(s, tol):
        lo, hi = s.bounds()
        return -tol <= lo and hi <= tol

    def __float__(s):
        return float(s.bounds()[0])


def value(t, memo=None):
    """a ground term as an exact number"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.kind == "poly":
        r = Q.of(0)
        for mono, c in t.args:
            m = Q.of(c)
            for a, e in mono:
                m = m * power(value(a, memo), e)
            r = r + m
    elif t.kind == "app" and t.args[0] == "inv":
        r = value(t.args[1][0], memo).inv()
    elif t.kind == "app" and t.args[0] == "sqrt":
        r = value(t.args[1][0], memo).sqrt()
    elif t.kind == "app" and t.args[0] == "pow":
        e = value(t.args[1][1], memo)
        if set(e.c) - {1}:
            raise NotQuad("exponent")
        x = e.c.get(1, F(0))
        b = value(t.args[1][0], memo)
        if x.denominator == 1:
            r = power(b, int(x))
        elif x.denominator == 2:
            r = power(b.sqrt(), x.numerator)
        else:
            raise NotQuad("exponent")
    else:
        raise NotQuad(t.kind + (" " + str(t.args[0]) if t.kind == "app" else ""))
    memo[t] = r
    return r


def power(x, e):
    if e < 0:
        return power(x.inv(), -e)
    r = Q.of(1)
    for _ in range(int(e)):
        r = r * x
    return r
