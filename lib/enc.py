"""Encoding of the code's objects (through their public attributes) as JSON for the specifications."""
from math import gcd
from quicktions import Fraction


class Malformed(Exception):
    pass


def F(x):
    return x if isinstance(x, Fraction) else Fraction(x)


def isint(x):
    return isinstance(x, int) or (isinstance(x, Fraction) and x.denominator == 1)


def I(x):
    if isinstance(x, bool):
        return int(x)
    f = F(x)
    if f.denominator != 1:
        raise Malformed('not an integer: %r' % (x,))
    return int(f.numerator)


def bm(b):
    return [[k + 1 for k, _ in b.coords], [1 if f else 0 for _, f in b.coords], 1 if b.time_rev else 0]


def spec(s):
    """Defined spec: [bm, pattern (1-based)]; undefined: []."""
    return [] if s is None else [bm(s.base_map), s.pnum + 1]


def cube(c):
    return [] if c is None else [I(x) for x in c]


def proto(p):
    return [cube(c) for c in p]


def pattern(p):
    return {'c': proto(p.proto), 's': [spec(s) for s in p.specs]}


def curve(c):
    return {'d': c.dim, 'n': c.div, 'p': c.pnum + 1, 'pats': [pattern(p) for p in c.patterns]}


def over(xs, D):
    """numerators over the common denominator D"""
    return [I(F(x) * D) for x in xs]


def lcd(xs):
    D = 1
    for x in xs:
        d = int(F(x).denominator)
        D = D * d // gcd(D, d)
    return D


def big(n):
    """non-negative integer as little-endian limbs base 2^14 (at least one)"""
    if n < 0:
        raise Malformed('negative')
    out = []
    while n:
        out.append(n & 16383)
        n >>= 14
    return out or [0]


def rat(x):
    """rational as [n, d]; plain ints when small, else limbs are used by the caller"""
    x = F(x)
    n, d = int(x.numerator), int(x.denominator)
    if abs(n) >= 2 ** 31 or d >= 2 ** 31:
        raise OverflowError
    return [n, d]


def text(s):
    return [ord(ch) for ch in s]
