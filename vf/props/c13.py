"""C13-C18, C04, C05: the cepstral extractors built on filter banks and the DCT."""
from .ex import *

NAMES = tuple(CEPS)


def gamma_of(h, kw, name):
    if name in ("msrcc", "psrcc"):
        kw["gamma"] = h.real("gamma")
        return kw["gamma"]
    return None


def phase(s, i, k):
    d = t.angle(s.spectrum(i, k).t)
    d = t.mul2(d, t.div(t.num(180), t.PI))
    return Num(t.ite(t.lt(d, t.ZERO), t.add(t.num(360), d), d), t.TRUE, "f", True)


def compressed(s, name, i, m, g):
    if name == "psrcc":
        return Num(t.power(zh(ssum(s.K, lambda k: phase(s, i, k) * s.B(m, k))).t, g.t), t.TRUE, "f", True)
    f = s.feat(i, m)
    if name == "gfcc":
        return Num(t.power(f.t, t.num(F(1, 3))), t.TRUE, "f", True)
    if name == "msrcc":
        return Num(t.power(zh(f).t, g.t), t.TRUE, "f", True)
    if name == "bfcc":
        return ln(zh(ipl(f)))
    return ln(zh(f))


def setup(h, name, bank="given", emph=False, window="given", ty="any", **k):
    q, kind = CEPS[name]
    s = Setup(h, kind, bank=bank, emph=emph, window=window, **k)
    s.nc = h.int("num_ceps", lo=1)
    h.assume(t.le(s.nc.t, s.nfilts.t))
    s.kw["num_ceps"] = s.nc
    s.ty = 2
    if ty == "any":
        s.ty = h.int("dct_type", lo=1, hi=4)
        h.assume(t.or_(t.not_(t.eq(s.ty.t, t.ONE)), t.le(t.num(2), s.nfilts.t)))
        s.kw["dct_type"] = s.ty
    s.g = gamma_of(h, s.kw, name)
    return q, s


def run(h, q, s, **kw):
    o = h.call(q, s.sig, **dict(s.kw, **kw))
    if not o.ok:
        h.fail("no exception", str(o.exc))
        raise Infeasible()
    return o.v


@theorem("C14", cases=[dict(name=n, bank=b, emph=e, window=w) for n in NAMES for b, e, w in (("given", False, "given"), ("built", True, "default"))])
def cepstra(h, name, bank, emph, window):
    "row i is the first num_ceps coefficients of the orthonormal DCT of the compressed filter outputs of frame i"
    q, s = setup(h, name, bank, emph, window, ty="any" if bank == "given" else None)
    y = run(h, q, s)
    h.equal("cepstra", y, (s.nf, s.nc), lambda i, c: dct_of(s.nfilts, lambda m: compressed(s, name, i, m, s.g), c, s.ty), defined=False)


@theorem("C15", cases=[dict(name=n, bank=b) for n in NAMES for b in ("given", "built")])
def energy_option(h, name, bank):
    "with use_energy coefficient 0 is the log of the frame power (zero replaced by eps), the others are those without use_energy"
    q, s = setup(h, name, bank, bank == "built", ty=None)
    y = run(h, q, s)
    f = fn_of(h.shape("without energy", y, (s.nf, s.nc)))
    z = run(h, q, s, use_energy=True)
    h.equal("with energy", z, (s.nf, s.nc), lambda i, c: ite(t.eq(I_(c), t.ZERO), ln(zh(s.energy(i))), f(i, c)), defined=False)


@theorem("C16", cases=[dict(name=n, energy=e) for n in NAMES for e in (False, True)])
def liftered(h, name, energy):
    "the extractor with a lifter returns lifter_ceps of what it returns without"
    q, s = setup(h, name, ty=None)
    l = h.int("lift")
    h.assume(t.or_(t.le(t.ZERO, l.t), t.le(l.t, t.num(-1))))
    kw = {"use_energy": energy}
    a = run(h, q, s, lifter=l, **kw)
    b = run(h, q, s, **kw)
    h.same("liftered cepstra", a, h.value(CP + "lifter_ceps", b, l))


@theorem("C17", cases=[dict(name=n, kind=k) for n in NAMES for k in ("mvn", "ms", "vn", "mn")])
def normalised(h, name, kind):
    "the extractor with lifter and normalisation returns the normalised version of what it returns with the lifter only"
    q, s = setup(h, name, ty=None)
    l = h.int("lift", lo=0)
    a = run(h, q, s, lifter=l, normalize=kind)
    b = run(h, q, s, lifter=l)
    h.same("normalised cepstra", a, h.value(CP + "normalize_ceps", b, kind))


@theorem("C18", cases=[dict(name=n, energy=e) for n in NAMES for e in (False, True)])
def always_defined(h, name, energy):
    "every logarithm, power and division of the unnormalised cepstra is applied where it is defined"
    q, s = setup(h, name, bank="given" if energy else "built", ty=None)
    y = run(h, q, s, use_energy=energy)
    h.defined("cepstra are defined", y)


@theorem("C13", cases=[dict(name=n, bank=b, high=hh) for n in NAMES for b, hh in (("given", "given"), ("built", "given"), ("built", "omitted"))])
def shape_and_errors(h, name, bank, high):
    "frames x num_ceps for every valid request; ParameterError exactly when num_ceps > nfilts, the band is rejected or win_len < win_hop"
    q, kind = CEPS[name]
    s = Setup(h, kind, bank=bank, emph=False, high=high, low_ok=False, order=False)
    nc = h.int("num_ceps", lo=1)
    s.kw["num_ceps"] = nc
    fl = h.choice("energy", [False, True])
    o = h.call(q, s.sig, use_energy=fl, **s.kw)
    bad = [t.lt(s.nfilts.t, nc.t), t.lt(s.wl.t, s.wh.t)]
    if bank == "built":
        bad += [t.lt(s.low.t, t.ZERO), t.lt(t.div(s.fs.t, t.num(2)), nt(s.high))]
    h.raises_iff("request", o, "ParameterError", t.or_(*bad))
    if o.ok:
        h.shape("cepstra", o.v, (s.nf, nc))


@theorem("C04", cases=[dict(name=n, bank=b) for n in NAMES for b in ("given", "built")])
def extractor_emphasis(h, name, bank):
    "pre-emphasis inside the extractor is the filter applied to the signal beforehand; switched off, the coefficient is ignored"
    q, s = setup(h, name, bank, emph=True, ty=None)
    a = run(h, q, s)
    sf = fn_of(s.sig)
    x = SymArray.make((s.n.t,), lambda idx: ite(t.lt(idx[0], t.ONE), sf(0), sf(idx[0]) - s.a * sf(t.sub(idx[0], t.ONE))), "f")
    kw = dict(s.kw, pre_emph=False)
    b = h.value(q, x, **kw)
    h.same("pre-emphasised", a, b)


@theorem("C04", cases=[dict(name=n) for n in NAMES])
def emphasis_default(h, name):
    "the coefficient defaults to 0.97, and with pre-emphasis off it has no effect"
    q, s = setup(h, name, emph=False, ty=None)
    a = run(h, q, s, pre_emph_coeff=h.real("a1"))
    b = run(h, q, s)
    h.same("coefficient ignored when off", a, b)
    kw = {k: v for k, v in s.kw.items() if k not in ("pre_emph", "pre_emph_coeff")}
    c = h.value(q, s.sig, pre_emph_coeff=F(97, 100), **dict(kw, pre_emph=True))
    d = h.value(q, s.sig, **dict(kw, pre_emph=True))
    h.same("default coefficient", d, c)


@theorem("C05", cases=[dict(name=n, wtype=w) for n in NAMES for w in WINDOWS])
def extractor_window(h, name, wtype):
    "the frames are multiplied by the requested window"
    q, s = setup(h, name, wtype=wtype, ty=None)
    y = run(h, q, s)
    h.equal("cepstra", y, (s.nf, s.nc), lambda i, c: dct_of(s.nfilts, lambda m: compressed(s, name, i, m, s.g), c, s.ty), defined=False)


@theorem("C05", cases=[dict(name=n) for n in NAMES])
def default_window(h, name):
    "no window = 25 ms Hamming frames every 10 ms"
    q, s = setup(h, name, window="default", ty=None)
    a = run(h, q, s)
    b = run(h, q, s, window=h.value(SW, F(25, 1000), F(10, 1000), "hamming"))
    h.same("default window", a, b)
