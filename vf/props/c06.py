"""C06-C11: filter banks."""
from ..harness import theorem, Num, nt, t, asnum
from ..spec import *
from .c01 import *

MB = "spafe.fbanks.mel_fbanks:"
LB = "spafe.fbanks.linear_fbanks:"
BB = "spafe.fbanks.bark_fbanks:"
GB = "spafe.fbanks.gammatone_fbanks:"
BANK = {"mel": MB + "mel_filter_banks", "imel": MB + "inverse_mel_filter_banks", "lin": LB + "linear_filter_banks", "bark": BB + "bark_filter_banks", "gamma": GB + "gammatone_filter_banks"}
EXTRA = {"mel": "Oshaghnessy", "imel": "Oshaghnessy", "bark": "Wang", "gamma": "Glasberg"}
SCALES = ("ascendant", "descendant", "constant")


def ln10():
    return t.log(t.num(10))


def mel_of(ap, f):
    a, b = {"Oshaghnessy": (2595, 700), "Lindsay": (2410, 625)}[ap]
    return t.mul2(t.num(a), t.div(t.log(t.add(t.ONE, t.div(nt(f), t.num(b)))), ln10()))


def hz_of(ap, m):
    a, b = {"Oshaghnessy": (2595, 700), "Lindsay": (2410, 625)}[ap]
    return t.mul2(t.num(b), t.sub(t.exp(t.mul2(t.div(m, t.num(a)), ln10())), t.ONE))


def ramp_of(scale, n, j):
    n, j = I_(n), I_(j)
    return {"ascendant": t.div(t.add(j, t.ONE), n), "descendant": t.div(t.sub(n, j), n), "constant": t.ONE}[scale]


def params(h, high, lo=0, fsint=True):
    nf, nfft = h.int("nfilts", lo=1), h.int("nfft", lo=2)
    fs = h.int("fs", lo=1) if fsint else h.real("fs", pos=True)
    low = h.real("low")
    hi = None if high == "omitted" else h.real("high")
    top = fs / 2 if hi is None else hi
    return nf, nfft, fs, low, hi, top


def valid(h, fs, low, top):
    h.assume(t.le(t.ZERO, low.t), t.lt(low.t, nt(top)), t.le(nt(top), t.div(fs.t, t.num(2))))


def call_bank(h, kind, nf, nfft, fs, low, hi, scale="constant", ap=None):
    kw = dict(nfilts=nf, nfft=nfft, fs=fs, low_freq=low, high_freq=hi, scale=scale)
    if ap:
        kw["conversion_approach"] = ap
    return h.call(BANK[kind], **kw)


def edges(kind, ap, nf, low, top):
    """(scale value, Hz) of edge j"""
    if kind == "mel":
        lo, hi = mel_of(ap, low), mel_of(ap, top)
    else:
        lo, hi = nt(low), nt(top)
    s = lambda j: t.add(lo, t.mul2(t.div(t.sub(hi, lo), t.add(I_(nf), t.ONE)), I_(j)))
    return s, ((lambda j: hz_of(ap, s(j))) if kind == "mel" else s)


def column(nfft, low, top, k):
    half = t.floor(t.div(I_(nfft), t.num(2)))
    return t.add(nt(low), t.mul2(I_(k), t.div(t.sub(nt(top), nt(low)), half)))


TRI = [dict(kind="mel", ap=a, high=hh) for a in ("Oshaghnessy", "Lindsay") for hh in ("given", "omitted")] + [dict(kind="lin", ap=None, high=hh) for hh in ("given", "omitted")]


@theorem("C07", cases=TRI)
def triangles(h, kind, ap, high):
    "row j of the mel/linear bank is the unit triangle on the edges e_j, e_j+1, e_j+2 sampled at the column frequencies"
    nf, nfft, fs, low, hi, top = params(h, high)
    valid(h, fs, low, top)
    o = call_bank(h, kind, nf, nfft, fs, low, hi, "constant", ap)
    if not o.ok:
        h.fail("no exception", str(o.exc))
        return
    B, cf = o.v
    s, e = edges(kind, ap, nf, low, top)
    K = t.add(t.floor(t.div(nfft.t, t.num(2))), t.ONE)

    def w(j, k):
        f = column(nfft, low, top, k)
        a, b, c = e(I_(j)), e(t.add(I_(j), t.ONE)), e(t.add(I_(j), t.num(2)))
        up, dn = t.div(t.sub(f, a), t.sub(b, a)), t.div(t.sub(c, f), t.sub(c, b))
        return Num(t.ite(t.or_(t.le(f, a), t.le(c, f)), t.ZERO, t.ite(t.lt(f, b), up, dn)), t.TRUE, "f", True)
    h.equal("weights", B, (nf, Num(K, dt="i")), w)
    h.equal("centre frequencies", cf, (nf,), lambda j: Num(s(t.add(I_(j), t.ONE)), t.TRUE, "f", True))


BARKS = ("Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller")
KINDS = [dict(kind="mel", ap="Oshaghnessy"), dict(kind="mel", ap="Lindsay"), dict(kind="imel", ap="Oshaghnessy"), dict(kind="imel", ap="Lindsay"), dict(kind="lin", ap=None)] + [dict(kind="bark", ap=a) for a in BARKS] + [dict(kind="gamma", ap="Glasberg")]


CV = "spafe.utils.converters:"


def bark_contracts(h):
    """callers of hz2bark/bark2hz against their contract (proved under C01 and C02): strictly increasing on its domain, bark2hz the inverse"""
    def fwd(I, b):
        ap = b["approach"]
        if ap not in BARKS:
            raise PyExc("KeyError", "approach")
        f = asnum(b["f"])
        ctx().safe("precondition", t.lt(t.ZERO, f.t) if ap == "Zwicker" else t.le(t.ZERO, f.t), "hz2bark argument in its domain")
        return Num(t.fun1("mono:bark:" + ap, f.t), f.ok, "f", True)

    def bwd(I, b):
        ap = b["approach"]
        if ap not in BARKS:
            raise PyExc("KeyError", "approach")
        x = asnum(b["fb"])
        return Num(t.fun1("mono-inv:bark:" + ap, x.t), x.ok, "f", True)
    h.use(CV + "hz2bark", fwd)
    h.use(CV + "bark2hz", bwd)


def bark_of(ap, f):
    return t.fun1("mono:bark:" + ap, nt(f))


def bark_domain(h, nfft, fs, low, ap):
    if ap == "Zwicker":     # the logarithmic scale has no value at 0 Hz
        h.assume(t.le(fs.t, t.mul2(t.add(nfft.t, t.ONE), low.t)))


@theorem("C06", cases=[dict(k, high=hh) for k in KINDS for hh in ("given", "omitted")])
def bounds_and_shape(h, kind, ap, high):
    "ParameterError iff low_freq < 0 or high_freq > fs/2; otherwise no error, nfilts x (nfft//2+1) matrix, nfilts centres"
    nf, nfft, fs, low, hi, top = params(h, high)
    if hi is not None:
        h.assume(t.lt(low.t, hi.t), t.lt(t.ZERO, hi.t))
    else:
        h.assume(t.lt(low.t, nt(top)))
    if kind == "bark":
        bark_contracts(h)
        bark_domain(h, nfft, fs, low, ap)
    o = call_bank(h, kind, nf, nfft, fs, low, hi, "constant", ap)
    h.raises_iff("bounds", o, "ParameterError", t.or_(t.lt(low.t, t.ZERO), t.lt(t.div(fs.t, t.num(2)), nt(top))))
    if o.ok:
        B, cf = o.v
        K = t.add(t.floor(t.div(nfft.t, t.num(2))), t.ONE)
        h.shape("matrix", B, (nf, Num(K, dt="i")))
        h.shape("centres", cf, (nf,))


@theorem("C06", cases=[dict(kind=k, high=hh) for k in ("mel", "imel", "lin", "bark", "gamma") for hh in ("given", "omitted")])
def defaults(h, kind, high):
    "the bank built with scale and approach omitted is the constant-scale bank of the first approach"
    nf, nfft, fs, low, hi, top = params(h, high)
    valid(h, fs, low, top)
    if kind == "bark":
        bark_contracts(h)
    kw = {} if hi is None else {"high_freq": hi}
    a = h.value(BANK[kind], nf, nfft, fs, low, **kw)
    b = call_bank(h, kind, nf, nfft, fs, low, hi, "constant", EXTRA.get(kind))
    if not b.ok:
        h.fail("no exception", str(b.exc))
        return
    h.same("bank with defaults", a, b.v)


def fm_of(d):
    """Hermansky's critical-band curve"""
    p = lambda e: t.exp(t.mul2(e, ln10()))
    q = lambda a, b: t.num(F(a, b))
    return t.ite(t.or_(t.lt(d, q(-13, 10)), t.lt(q(5, 2), d)), t.ZERO, t.ite(t.le(d, q(-1, 2)), p(t.mul2(q(5, 2), t.add(d, q(1, 2)))), t.ite(t.lt(d, q(1, 2)), t.ONE, p(t.sub(q(1, 2), d)))))


@theorem("C08")
def critical_band_curve(h):
    "Fm equals the published curve and lies in [0, 1]"
    a, b = h.real("fb"), h.real("fc")
    y = h.value(BB + "Fm", a, b)
    h.prove("Fm formula", t.eq(nt(y), fm_of(t.sub(a.t, b.t))))
    h.prove("Fm >= 0", t.le(t.ZERO, nt(y)))
    h.prove("Fm <= 1", t.le(nt(y), t.ONE))


@theorem("C08", cases=[dict(ap=a, high=hh) for a in BARKS for hh in ("given", "omitted")])
def bark_rows(h, ap, high):
    "row j of the Bark bank is the critical-band curve around the j-th centre on the columns of the band, 0 elsewhere"
    nf, nfft, fs, low, hi, top = params(h, high)
    valid(h, fs, low, top)
    bark_contracts(h)
    bark_domain(h, nfft, fs, low, ap)
    o = call_bank(h, "bark", nf, nfft, fs, low, hi, "constant", ap)
    if not o.ok:
        h.fail("no exception", str(o.exc))
        return
    B, cf = o.v
    lo, hb = bark_of(ap, low), bark_of(ap, top)
    n1 = t.add(nfft.t, t.ONE)
    c = lambda j: t.ite(t.eq(nf.t, t.ONE), lo, t.add(lo, t.mul2(I_(j), t.div(t.sub(hb, lo), t.sub(nf.t, t.ONE)))))
    first = t.floor(t.div(t.mul2(n1, low.t), fs.t))
    last = t.ite(t.eq(nf.t, t.ONE), first, t.floor(t.div(t.mul2(n1, nt(top)), fs.t)))
    K = t.add(t.floor(t.div(nfft.t, t.num(2))), t.ONE)

    def w(j, i):
        f = t.div(t.mul2(I_(i), fs.t), n1)
        return Num(t.ite(t.and_(t.le(first, I_(i)), t.lt(I_(i), last)), fm_of(t.sub(bark_of(ap, f), c(j))), t.ZERO), t.TRUE, "f", True)
    h.equal("weights", B, (nf, Num(K, dt="i")), w)
    h.equal("centres", cf, (nf,), lambda j: Num(c(j), t.TRUE, "f", True))


@theorem("C07", cases=TRI[::2])
def triangle_range(h, kind, ap, high):
    "every weight lies in [0, 1] and vanishes outside (e_j, e_j+2); the centres increase strictly"
    nf, nfft, fs, low, hi, top = params(h, high)
    valid(h, fs, low, top)
    o = call_bank(h, kind, nf, nfft, fs, low, hi, "constant", ap)
    if not o.ok:
        h.fail("no exception", str(o.exc))
        return
    B, cf = o.v
    s, e = edges(kind, ap, nf, low, top)
    K = t.add(t.floor(t.div(nfft.t, t.num(2))), t.ONE)
    b, c = fn_of(h.shape("matrix", B, (nf, Num(K, dt="i")))), fn_of(h.shape("centres", cf, (nf,)))
    h.forall("weights >= 0", (nf, Num(K, dt="i")), lambda j, k: t.le(t.ZERO, b(j, k).t))
    h.forall("weights <= 1", (nf, Num(K, dt="i")), lambda j, k: t.le(b(j, k).t, t.ONE))
    h.forall("support", (nf, Num(K, dt="i")), lambda j, k: t.or_(t.eq(b(j, k).t, t.ZERO), t.and_(t.lt(e(j), column(nfft, low, top, k)), t.lt(column(nfft, low, top, k), e(j + 2)))))
    h.forall("centres increase", (nf - 1,), lambda j: t.lt(c(j).t, c(j + 1).t))


CASES10 = [dict(kind=k, scale=s) for k in ("mel", "imel", "lin", "bark", "gamma") for s in SCALES]


@theorem("C10", cases=[dict(c, high=hh) for c in CASES10 for hh in ("given", "omitted")])
def rows_times_ramp(h, kind, scale, high):
    "the bank with a scaling is the constant-scaling bank with row j times the j-th ramp entry (opposite ramp for the inverse mel bank); the centres are the same"
    nf, nfft, fs, low, hi, top = params(h, high)
    valid(h, fs, low, top)
    ap = EXTRA.get(kind)
    if kind == "bark":
        bark_contracts(h)
    a = call_bank(h, kind, nf, nfft, fs, low, hi, scale, ap)
    b = call_bank(h, kind, nf, nfft, fs, low, hi, "constant", ap)
    if not a.ok or not b.ok:
        h.fail("no exception", str(a.exc or b.exc))
        return
    r = {"ascendant": "descendant", "descendant": "ascendant", "constant": "constant"}[scale] if kind == "imel" else scale
    B = h.shape("constant bank", b.v[0], (nf, Num(t.add(t.floor(t.div(nfft.t, t.num(2))), t.ONE), dt="i")))
    f = fn_of(B)
    h.equal("weights", a.v[0], B._shape, lambda j, k: f(j, k) * Num(ramp_of(r, nf, j), t.TRUE, "f", True), defined=False)
    h.same("centres", a.v[1], b.v[1])


@theorem("C10", cases=[dict(kind=k) for k in ("mel", "imel", "lin", "bark", "gamma")])
def unknown_scale_rejected(h, kind):
    "every bank rejects an unknown scaling with KeyError"
    nf, nfft, fs, low, hi, top = params(h, "given")
    valid(h, fs, low, top)
    if kind == "bark":
        bark_contracts(h)
    s = h.string("scale")
    o = call_bank(h, kind, nf, nfft, fs, low, hi, s, EXTRA.get(kind))
    h.raises_iff("scale", o, "KeyError", t.and_(*[t.not_(t.eq(s.t, V.str_term(w))) for w in SCALES]))


@theorem("C11", cases=[dict(ap=a, scale=s, high=hh) for a in ("Oshaghnessy", "Lindsay") for s in SCALES for hh in ("given", "omitted")])
def mirrored(h, ap, scale, high):
    "inverse bank [j, k] = mel bank of the opposite scaling [j, nfft//2 - k]; centres are the mel values of low + high - f"
    nf, nfft, fs, low, hi, top = params(h, high)
    valid(h, fs, low, top)
    r = {"ascendant": "descendant", "descendant": "ascendant", "constant": "constant"}[scale]
    a = call_bank(h, "imel", nf, nfft, fs, low, hi, scale, ap)
    b = call_bank(h, "mel", nf, nfft, fs, low, hi, r, ap)
    if not a.ok or not b.ok:
        h.fail("no exception", str(a.exc or b.exc))
        return
    half = Num(t.floor(t.div(nfft.t, t.num(2))), dt="i")
    f = fn_of(h.shape("mel bank", b.v[0], (nf, half + 1)))
    c = fn_of(h.shape("mel centres", b.v[1], (nf,)))
    h.equal("weights", a.v[0], (nf, half + 1), lambda j, k: f(j, half - k))
    h.equal("centres", a.v[1], (nf,), lambda j: Num(mel_of(ap, t.sub(t.add(low.t, nt(top)), hz_of(ap, c(j).t))), t.TRUE, "f", True))


CC = t.num(F("9.26449") * F("24.7"))


def fc_of(low, top, nf, j):
    lo, hi = t.add(nt(low), CC), t.add(nt(top), CC)
    return t.sub(t.mul2(hi, t.exp(t.mul2(t.div(t.sub(I_(nf), I_(j)), I_(nf)), t.sub(t.log(lo), t.log(hi))))), CC)


@theorem("C09")
def gammatone_centres(h):
    "the centres follow the ERB spacing formula: they start at low_freq, increase strictly and stay below high_freq"
    nf = h.int("nfilts", lo=1)
    low, top = h.real("low", lo=0), h.real("high")
    h.assume(t.lt(low.t, top.t))
    y = h.value(GB + "generate_center_frequencies", low, top, nf)
    h.equal("centres", y, (nf,), lambda j: Num(fc_of(low, top, nf, j), t.TRUE, "f", True))
    f = fn_of(y)
    h.prove("first centre is low_freq", t.eq(f(0).t, low.t))
    h.forall("centres increase", (nf - 1,), lambda j: t.lt(f(j).t, f(j + 1).t))
    h.forall("centres below high_freq", (nf,), lambda j: t.lt(f(j).t, top.t))


@theorem("C09", cases=[dict(high=hh) for hh in ("given", "omitted")])
def gammatone_reported_centres(h, high):
    "the bank reports its centres on the ERB scale"
    nf, nfft, fs, low, hi, top = params(h, high)
    valid(h, fs, low, top)
    o = call_bank(h, "gamma", nf, nfft, fs, low, hi, "constant", "Glasberg")
    if not o.ok:
        h.fail("no exception", str(o.exc))
        return
    A = t.div(t.mul2(t.num(1000), ln10()), t.num(F("24.7") * F("4.37")))
    h.equal("centres", o.v[1], (nf,), lambda j: Num(t.mul2(A, t.div(t.log(t.add(t.ONE, t.mul2(fc_of(low, top, nf, j), t.num(F("0.00437"))))), ln10())), t.TRUE, "f", True))


@theorem("C09", cases=[dict(order=o) for o in ("default", "any")])
def gammatone_rows(h, order):
    "each row is non-negative, has maximum 1 and is proportional to the magnitude response of the gammatone filter at the FFT bins"
    nf, nfft, fs, low, hi, top = params(h, "given")
    valid(h, fs, low, top)
    kw = {}
    od = t.num(4)
    if order == "any":
        oo = h.int("order", lo=1)
        kw["order"], od = oo, oo.t
    o = h.call(BANK["gamma"], nfilts=nf, nfft=nfft, fs=fs, low_freq=low, high_freq=hi, scale="constant", **kw)
    if not o.ok:
        h.fail("no exception", str(o.exc))
        return
    half = Num(t.floor(t.div(nfft.t, t.num(2))), dt="i")
    B = fn_of(h.shape("matrix", o.v[0], (nf, half + 1)))
    T = t.div(t.ONE, fs.t)

    def resp(j, k):
        fc = fc_of(low, top, nf, j)
        bw = t.mul2(t.mul2(t.num(F("1.019") * 2), t.PI), t.power(t.add(t.power(t.div(fc, t.num(F("9.26449"))), od), t.power(t.num(F("24.7")), od)), t.div(t.ONE, od)))
        w = t.mul2(t.mul2(t.num(2), t.PI), t.mul2(fc, T))
        co, si = t.fun1("cos", w), t.fun1("sin", w)
        K = t.exp(t.mul2(bw, T))
        s1, s2 = t.sqrt(t.add(t.num(3), t.power(t.num(2), t.num(F(3, 2))))), t.sqrt(t.sub(t.num(3), t.power(t.num(2), t.num(F(3, 2)))))
        u = t.exp(t.mul2(t.mul2(t.I, t.mul2(t.num(2), t.PI)), t.div(I_(k), nfft.t)))
        num = t.ONE
        for s, g in ((s1, 1), (s1, -1), (s2, 1), (s2, -1)):
            num = t.mul2(num, t.sub(u, t.div(t.add(co, t.scale(t.mul2(s, si), g)), K)))
        p = t.div(t.exp(t.mul2(t.I, w)), K)
        den = t.mul2(t.sub(u, p), t.sub(u, t.conj(p)))
        return t.cabs(num), t.cabs(den)
    j, k, k2 = t.fresh("j"), t.fresh("k"), t.fresh("k")
    hs = [t.le(t.ZERO, j), t.lt(j, nf.t)] + [c for q in (k, k2) for c in (t.le(t.ZERO, q), t.le(q, half.t))]
    x, y = B(Num(j, dt="i"), Num(k, dt="i")), B(Num(j, dt="i"), Num(k2, dt="i"))
    (n1, d1), (n2, d2) = resp(j, k), resp(j, k2)
    ok = [x.ok, y.ok] + [t.not_(t.eq(d, t.ZERO)) for d in (d1, d2)]
    h.prove("rows are proportional to the response", t.eq(t.mul2(x.t, t.mul2(n2, t.ipow(d1, 4))), t.mul2(y.t, t.mul2(n1, t.ipow(d2, 4)))), hyps=hs + ok)
    h.prove("weights >= 0", t.le(t.ZERO, x.t), hyps=hs + ok)


@theorem("C09")
def gammatone_peak(h):
    "whatever the gain and zeros, every row with a finite response is normalised to a maximum of exactly 1"
    nf, nfft, fs, low, hi, top = params(h, "given")
    valid(h, fs, low, top)

    def gain(I, b):
        A = h.arr("zeros", (4, nf), ext=False)
        return (A, h.arr("gain", (nf,), nonneg=True, ext=False))
    h.use(GB + "compute_gain", gain)
    o = h.call(BANK["gamma"], nfilts=nf, nfft=nfft, fs=fs, low_freq=low, high_freq=hi, scale="constant")
    if not o.ok:
        h.fail("no exception", str(o.exc))
        return
    half = Num(t.floor(t.div(nfft.t, t.num(2))), dt="i")
    B = fn_of(h.shape("matrix", o.v[0], (nf, half + 1)))
    j, k = t.fresh("j"), t.fresh("k")
    hs = [t.le(t.ZERO, j), t.lt(j, nf.t), t.le(t.ZERO, k), t.le(k, half.t)]
    x = B(Num(j, dt="i"), Num(k, dt="i"))
    h.prove("weights <= 1", t.le(x.t, t.ONE), hyps=hs + [x.ok])
    row = SymArray.make((I_(half + 1),), lambda idx: B(Num(j, dt="i"), Num(idx[0], dt="i")), "f")
    h.prove("largest weight is 1", t.eq(R["numpy.max"](row).t, t.ONE), hyps=hs + [x.ok])
