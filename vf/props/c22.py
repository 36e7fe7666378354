"""C22, C23: the stages of PNCC; RASTA filtering and (RASTA-)PLP."""
from .ex import *
from ..harness import unlist

PN = "spafe.features.pncc:"
MTP, ALF, TM, WS, MPN, ANS = (PN + x for x in ("medium_time_power_calculation", "asymmetric_lowpass_filtering", "temporal_masking", "weight_smoothing",
                                               "mean_power_normalization", "asymmetric_noise_suppression_with_temporal_masking"))


def mat(h, name="P", nonneg=False):
    T, C = h.int("frames", lo=1), h.int("channels", lo=1)
    a = h.arr(name, (T, C), nonneg=nonneg)
    return T, C, a, fn_of(a)


def frac01(h, *names):
    return [h.real(n, lo=0, hi=1) for n in names]


def mx(a, b):
    return Num(t.max2(nt(a), nt(b)), dt="i" if asnum(a).dt == asnum(b).dt == "i" else "f")


def mn(a, b):
    return Num(t.min2(nt(a), nt(b)), dt="i" if asnum(a).dt == asnum(b).dt == "i" else "f")


# ---------------------------------------------------------------- specification
def spec_mtp(T, P, M):
    def f(m, l):
        lo = mx(0, m - M)
        return ssum(mn(T, m + M + 1) - lo, lambda q: P(lo + q, l)) / (2 * M + 1)
    return f


def spec_alf(X, la, lb):
    def step(f, m, l):
        prev, x = f(m - 1, l), X(m, l)
        return ite(t.le(m.t, t.ZERO), F(9, 10) * X(0, l), ite(t.le(prev.t, x.t), la * prev + (1 - la) * x, lb * prev + (1 - lb) * x))
    return recur(step, 2)


def spec_peak(X, lt):
    return recur(lambda f, m, l: ite(t.le(m.t, t.ZERO), X(0, l), mx(lt * f(m - 1, l), X(m, l))), 2)


def spec_tm(X, lt, mu):
    pk = spec_peak(X, lt)
    return lambda m, l: ite(t.lt(m.t, t.ONE), X(0, l), ite(t.le((lt * pk(m - 1, l)).t, X(m, l).t), X(m, l), mu * pk(m - 1, l)))


def spec_ws(R, Q, N, L):
    def f(m, l):
        lo, hi = mx(l - N, 0), mn(l + N, L - 1)
        return ssum(hi - lo + 1, lambda q: R(m, lo + q) / zh(Q(m, lo + q))) / (hi - lo + 1)
    return f


def spec_mu(X, lam, L):
    return recur(lambda f, m: ite(t.le(m.t, t.ZERO), F(1, 10000), lam * f(m - 1) + (1 - lam) / L * ssum(L, lambda l: X(m, l))), 1)


def as_array(T, C, f):
    return SymArray.make((T.t, C.t), lambda idx: f(Num(idx[0], dt="i"), Num(idx[1], dt="i")), "f")


# ---------------------------------------------------------------- theorems
@theorem("C22", cases=[dict(M=m) for m in ("any", "default")])
def medium_time_power(h, M):
    "the (2M+1)-point sum over the frames that exist, divided by 2M+1"
    T, C, P, f = mat(h)
    m = h.int("M", lo=0) if M == "any" else 2
    q = h.value(MTP, P, m) if M == "any" else h.value(MTP, P)
    h.equal("average", q, (T, C), spec_mtp(T, f, asnum(m)))


@theorem("C22", cases=[dict(lams=m) for m in ("any", "default")])
def asymmetric_filter(h, lams):
    "0.9 of the first frame, then weight lambda_a when the input is not below the previous output and lambda_b otherwise"
    T, C, P, f = mat(h)
    a = (h.real("la"), h.real("lb")) if lams == "any" else ()
    la, lb = a or (asnum(F(999, 1000)), asnum(F(1, 2)))
    q = h.value(ALF, P, *a)
    h.equal("recursion", q, (T, C), spec_alf(f, la, lb))
    g = fn_of(q)
    h.forall("first frame", (C,), lambda l: t.eq(g(0, l).t, (F(9, 10) * f(0, l)).t))


@theorem("C22", cases=[dict(lams=m) for m in ("any", "default")])
def masking(h, lams):
    "frames below the decayed running peak are replaced by mu_t times the previous peak"
    T, C, P, f = mat(h)
    a = (h.real("lt"), h.real("mu")) if lams == "any" else ()
    lt, mu = a or (asnum(F(85, 100)), asnum(F(1, 5)))
    q = h.value(TM, P, *a)
    h.equal("recursion", q, (T, C), spec_tm(f, lt, mu))


@theorem("C22", cases=[dict(N=m) for m in ("any", "default")])
def smoothing(h, N):
    "the mean of R/Q over the channels within N of l"
    T, C, R_, r = mat(h, "R")
    Q = h.arr("Q", (T, C))
    n = h.int("N", lo=0) if N == "any" else 4
    s = h.value(WS, R_, Q, C, *([n] if N == "any" else []))
    h.equal("mean", s, (T, C), spec_ws(r, fn_of(Q), asnum(n), C), defined=True)


@theorem("C22", cases=[dict(lam=m) for m in ("any", "default")])
def mean_power(h, lam):
    "each frame is divided by the running mean power, which starts at 0.0001"
    T, C, X, f = mat(h, "T", nonneg=True)
    la = h.real("lam", pos=True, hi=1) if lam == "any" else F(999, 1000)
    k = h.real("k") if lam == "any" else 1
    u = h.value(MPN, X, la, C, k) if lam == "any" else h.value(MPN, X, nfilts=C)
    mu = spec_mu(f, asnum(la), C)
    h.equal("normalised", u, (T, C), lambda m, l: k * f(m, l) / mu(m), defined=False)
    h.defined("running mean is not 0", u)


@theorem("C22")
def suppression(h):
    "noise suppression: masked frames where the power reaches twice its lower envelope, the filtered floor elsewhere"
    T, C, Q, q = mat(h, "Q")
    th = h.real("threshold")
    r = h.value(ANS, Q, th)
    env = fn_of(h.value(ALF, Q, F(999, 1000), F(1, 2)))
    q0 = as_array(T, C, lambda m, l: ite(t.lt((q(m, l) - env(m, l)).t, th.t), 0, q(m, l) - env(m, l)))
    fl, tm = fn_of(h.value(ALF, q0)), fn_of(h.value(TM, q0))
    h.equal("selection", r, (T, C), lambda m, l: ite(t.le((2 * env(m, l)).t, q(m, l).t), tm(m, l), fl(m, l)))


@theorem("C22", cases=[dict(stage=s) for s in ("mtp", "alf", "tm", "ws", "mpn", "ans")])
def nonnegative(h, stage):
    "non-negative input gives non-negative output"
    T, C, X, f = mat(h, "X", nonneg=True)
    if stage == "mtp":
        y = h.value(MTP, X, h.int("M", lo=0))
    elif stage == "alf":
        y = h.value(ALF, X, *frac01(h, "la", "lb"))
    elif stage == "tm":
        y = h.value(TM, X, h.real("lt", lo=0), h.real("mu", lo=0))
    elif stage == "ws":
        y = h.value(WS, X, h.arr("Q", (T, C), nonneg=True), C, h.int("N", lo=0))
    elif stage == "mpn":
        y = h.value(MPN, X, h.real("lam", pos=True, hi=1), C, h.real("k", lo=0))
    else:
        pncc_contracts(h, False)
        y = h.value(ANS, X, h.real("threshold", lo=0))
    y = h.shape("result", y, (T, C))
    g = fn_of(y)
    h.forall("not negative", (T, C), lambda m, l: t.le(t.ZERO, g(m, l).t))


@theorem("C22", cases=[dict(bank=b, window=w, power=p) for b, w, p in (("given", "given", None), ("built", "default", None), ("given", "given", 3))])
def pncc_rows(h, bank, window, power):
    "PNCC: orthonormal DCT of the 15th root of P times the smoothed weights over the running mean power, P the bank energies of each frame"
    pncc_contracts(h)
    s = Setup(h, "gamma", emph=window == "default", window=window, bank=bank)
    nc = h.int("num_ceps", lo=1)
    h.assume(t.le(nc.t, s.nfilts.t))
    kw = dict(s.kw, num_ceps=nc)
    if power:
        kw["power"] = power
    c = h.value(PN + "pncc", s.sig, **kw)
    pw = lambda i, k: s.power(i, k) if not power else s.mag(i, k) ** power / s.nfft
    P = as_array(s.nf, s.nfilts, lambda i, m: ssum(s.K, lambda k: pw(i, k) * s.B(m, k)))
    Q = h.value(MTP, P, 2)
    R_ = h.value(ANS, Q, 0)
    S = fn_of(h.value(WS, R_, Q, s.nfilts, 4))
    pf = fn_of(P)
    U = fn_of(h.value(MPN, as_array(s.nf, s.nfilts, lambda i, m: pf(i, m) * S(i, m)), F(999, 1000), s.nfilts, 1))
    root = lambda x: Num(t.power(asnum(x).t, t.num(F(1, 15))), t.TRUE, "f", True)
    h.equal("cepstra", c, (s.nf, nc), lambda i, q: dct_of(s.nfilts, lambda m: root(U(i, m)), q), dt="f")


# ---------------------------------------------------------------- RASTA, PLP
RF = FL + "rasta_filter"
RP = "spafe.features.rplp:"


def fir(x, i, j):
    b = (F(1, 5), F(1, 10), F(0), F(-1, 10), F(-1, 5))
    return sum((c * x(i, j - k) for k, c in enumerate(b) if c), asnum(0))


@theorem("C23", cases=[dict(cols=c) for c in ("any", "1", "3", "4", "5")])
def rasta_rows(h, cols):
    "rows on their own: four zeros, then the pole-0.94 filter started from the state reached on the first four values"
    n = h.int("rows", lo=1)
    c = h.int("cols", lo=4) if cols == "any" else int(cols)
    x = h.arr("x", (n, c))
    y = h.shape("filtered", h.value(RF, x), (n, c))
    h.defined("filtered", y)
    xf, yf = fn_of(x), fn_of(y)
    C = asnum(c)
    h.forall("first four values are 0", (n, mn(C, 4)), lambda i, j: t.eq(yf(i, j).t, t.ZERO))
    if cols in ("any", "5"):
        more = C - 5
        h.assume(t.lt(t.num(4), C.t))
        h.forall("fifth value", (n,), lambda i: t.eq(yf(i, 4).t, fir(xf, i, asnum(4)).t))
        h.forall("recursion", (n, more), lambda i, j: t.eq(yf(i, j + 5).t, (fir(xf, i, j + 5) + F(94, 100) * yf(i, j + 4)).t))


@theorem("C23", cases=[dict(rasta=r, bank=b, window=w) for r in (False, True) for b, w in (("given", "given"), ("built", "default"))])
def plp_rows(h, rasta, bank, window):
    "the LPC cepstrum of |ifft| of the loudness-compressed bark spectrum of each frame (RPLP: after RASTA filtering of the log spectrum)"
    lp_contracts(h)
    rasta_contract(h)
    s = Setup(h, "bark", emph=window == "default", window=window, bank=bank)
    order = h.int("order", lo=2)
    h.assume(t.le(order.t, s.nfilts.t))
    c = h.value(RP + ("rplp" if rasta else "plp"), s.sig, **dict(s.kw, order=order))
    S = s.feat
    if rasta:
        A = as_array(s.nf, s.nfilts, lambda i, m: ln(zh(s.feat(i, m))))
        ra = fn_of(h.value(RF, A))
        S = lambda i, m: Num(t.exp(ra(i, m).t), t.TRUE, "f", True)
    i = h.int("row", lo=0)
    h.assume(t.lt(i.t, s.nf.t))
    two = t.scale(t.mul2(t.I, t.PI), 2)
    mN = t.min2(s.nfilts.t, s.nfft.t)

    def inv(k):
        v = ssum(Num(mN, dt="i"), lambda m: Num(t.mul2(ipl(S(i, m)).t, t.exp(t.mul2(two, t.div(t.mul2(I_(m), I_(k)), s.nfft.t)))), t.TRUE, "c", True))
        return Num(t.cabs(t.div(v.t, s.nfft.t)), t.TRUE, "f", True)
    fr = SymArray.make((s.nfft.t,), lambda idx: inv(idx[0]), "f")
    a, e = h.value("spafe.features.lpc:__lpc_helper", fr, order - 1)
    z = fn_of(toarray(unlist(h.value("spafe.features.lpc:lpc2lpcc", a, e, order))))
    c = h.shape("cepstra", c, (s.nf, order))
    cf = fn_of(c)
    h.forall("row is the cepstrum of its spectrum", (order,), lambda m: t.eq(cf(i, m).t, z(m).t))
