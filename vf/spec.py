"""Specification vocabulary shared by the theorems (independent of the code under verification)."""
from fractions import Fraction as F
from . import terms as t
from .values import *
from . import values as V
from .sarray import *
from .snp import R, rsum
from .ctx import ctx, PyExc

PP = "spafe.utils.preprocessing:"
CP = "spafe.utils.cepstral:"
FL = "spafe.utils.filters:"
SP = "spafe.utils.spectral:"
WINDOWS = ["hanning", "bartlet", "kaiser", "blackman", "hamming"]


def N(x):
    return asnum(x)


def floor_(x):
    return Num(t.floor(nt(x)), asnum(x).ok, "i")


def trunc_pos(x):
    """trunc of a non-negative real"""
    return floor_(x)


def nframes(n, L, H):
    return Num(t.add(t.floor(t.div(t.sub(I_(n), I_(L)), I_(H))), t.ONE), dt="i")


def window_value(name, L, j):
    """value j of the numpy window of that name (uninterpreted library functions)"""
    nm = {"hanning": "hanning", "bartlet": "bartlett", "kaiser": "kaiser", "blackman": "blackman", "hamming": "hamming"}[name]
    if nm == "kaiser":
        return R["numpy.kaiser"](Num(I_(L), dt="i"), 14).get(I_(j))
    return R["numpy." + nm](Num(I_(L), dt="i")).get(I_(j))


def ssum(n, f):
    return rsum(I_(n), lambda v: asnum(f(Num(v, dt="i"))))


def ite(c, a, b):
    c = c.t if isinstance(c, Num) else c
    return ite_num(c, asnum(a), asnum(b))


def mean(n, f):
    s = ssum(n, f)
    return Num(t.div(s.t, I_(n)), s.ok, "f", True)


def elem(a, *idx):
    return a.get(*[I_(i) for i in idx])


def fn_of(a):
    f = a.snap()
    return lambda *i: f(tuple(I_(x) for x in i))


def recur(body, nidx=1, dt="f"):
    """the function f(i, ...) defined by f(i, ...) = body(f, i, ...) (primitive recursion over the first index)"""
    from .loops import close_rec, sref
    vs = tuple(t.fresh("j") for _ in range(nidx))
    tag = ("loop", "spec", vs[0].id)
    me = lambda *i: Num(sref(tag, tuple(I_(x) for x in i), dt), t.TRUE, dt, True)
    l = close_rec(tag, vs, nt(body(me, *[Num(v, dt="i") for v in vs])))
    return lambda *i: Num(t.bop("rec", tuple(I_(x) for x in i), (l,), dt == "i", dt != "c", "n"), t.TRUE, dt, True)
