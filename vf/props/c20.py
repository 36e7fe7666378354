"""C20, C21: linear prediction and its cepstra."""
from .ex import *
from ..snp import inv_term
from ..harness import unlist

LP = "spafe.features.lpc:"


def autocorr(L, f, lag):
    """sum of f(j) f(j + lag) over the frame of length L, 0 for lags outside it"""
    return ite(t.lt(I_(lag), I_(L)), ssum(Num(t.sub(I_(L), I_(lag)), dt="i"), lambda j: f(j) * f(j + Num(I_(lag), dt="i"))), 0)


def lp_coeff(p, r, m):
    """a[m]: 1, then the inverse of the Toeplitz matrix of r[0..p-1] applied to -r[1..p]"""
    M = lambda idx: r(Num(t.rabs(t.sub(idx[0], idx[1])), dt="i"))
    m = Num(I_(m), dt="i")
    phi = ssum(p, lambda q: Num(inv_term(I_(p), M, t.sub(m.t, t.ONE), I_(q)), t.TRUE, "f", True) * (-1 * r(q + 1)))
    return ite(t.eq(m.t, t.ZERO), 1, phi)


def lp_error(p, r):
    s = ssum(Num(I_(p), dt="i") + 1, lambda m: r(m) * lp_coeff(p, r, m))
    return Num(t.rabs(s.t), t.TRUE, "f", True)


def lp_setup(h, emph=False, window="given", wtype="hamming", sigdt="f"):
    s = Setup(h, None, window=window, wtype=wtype, emph=emph, sigdt=sigdt)
    s.order = h.int("order", lo=2)
    s.kw["order"] = s.order
    s.p = s.order - 1
    s.r = lambda i: s.memo(lambda l: autocorr(s.L, lambda j: s.frame(i, j), l))
    return s


@theorem("C20", cases=[dict(emph=e, window=w, dt=d) for e, w, d in ((False, "given", "f"), (True, "default", "f"), (False, "given", "i"))])
def normal_equations(h, emph, window, dt):
    "row i = (1, inv(Toeplitz(r)) (-r[1..p])) and error |r . a| for the autocorrelation r of windowed frame i"
    s = lp_setup(h, emph, window, sigdt=dt)
    a, e = h.value(LP + "lpc", s.sig, **s.kw)
    h.equal("coefficients", a, (s.nf, s.order), lambda i, m: lp_coeff(s.p, s.r(i), m), defined=False, dt="f")
    h.equal("errors", e, (s.nf, 1), lambda i, z: lp_error(s.p, s.r(i)), defined=False, dt="f")


@theorem("C20", cases=[dict(wtype=w) for w in WINDOWS])
def lpc_windows(h, wtype):
    "the frames are multiplied by the requested window before the autocorrelation"
    s = lp_setup(h, wtype=wtype)
    a, e = h.value(LP + "lpc", s.sig, **s.kw)
    h.equal("coefficients", a, (s.nf, s.order), lambda i, m: lp_coeff(s.p, s.r(i), m), defined=False)


@theorem("C21", cases=[dict(n=n) for n in ("any", "one")])
def cepstrum_recursion(h, n):
    "c[0] = log(error), c[m] = a[m] + sum of (k/m) c[k] a[m-k]; coefficients beyond the order count as 0"
    p = h.int("p", lo=1)
    a = h.arr("a", (p,))
    e = h.real("e", lo=0)
    nc = h.int("nceps", lo=1) if n == "any" else 1
    c = h.value(LP + "lpc2lpcc", a, e, nc)
    c = h.shape("cepstra", unlist(c), (nc,))
    cf, af = fn_of(c), fn_of(a)
    A = lambda j: ite(t.lt(I_(j), p.t), af(j), 0)
    h.prove("c[0] is the log of the error", t.eq(cf(0).t, ln(zh(e)).t))

    def rec(m):
        m1 = m + 1
        s = ssum(m, lambda k: Num(t.div(t.add(k.t, t.ONE), m1.t), t.TRUE, "f", True) * cf(k + 1) * A(m1 - k - 1))
        return t.eq(cf(m1).t, (A(m1) + s).t)
    h.forall("recursion", (asnum(nc) - 1,), rec)


@theorem("C21", cases=[dict(emph=e, window=w) for e, w in ((False, "given"), (True, "default"))])
def lpcc_rows(h, emph, window):
    "row i of LPCC is the conversion of row i and error i of LPC"
    s = lp_setup(h, emph, window)
    a, e = h.value(LP + "lpc", s.sig, **s.kw)
    c = h.value(LP + "lpcc", s.sig, **s.kw)
    af, ef = fn_of(a), fn_of(e)
    i = h.int("row", lo=0)
    h.assume(t.lt(i.t, s.nf.t))
    row = SymArray.make((s.order.t,), lambda idx: af(i, idx[0]), "f")
    z = fn_of(toarray(unlist(h.value(LP + "lpc2lpcc", row, ef(i, 0), s.order))))
    c = h.shape("cepstra", c, (s.nf, s.order))
    cf = fn_of(c)
    h.forall("row is the converted row", (s.order,), lambda m: t.eq(cf(i, m).t, z(m).t))
