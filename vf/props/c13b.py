"""C04, C05, C13, C16-C18: the extractors with their own stages (LPCC, PLP, RPLP, PNCC, CQCC)."""
from .ex import *

OTHER = {"lpcc": ("spafe.features.lpc:lpcc", None), "plp": ("spafe.features.rplp:plp", "bark"), "rplp": ("spafe.features.rplp:rplp", "bark"),
         "pncc": ("spafe.features.pncc:pncc", "gamma"), "cqcc": ("spafe.features.cqcc:cqcc", None)}
BANKED = ("plp", "rplp", "pncc")


def setup2(h, name, emph=False, window="given", bank="given", nc=True, named=False, ratio=False, cq_low=True, **k):
    q, kind = OTHER[name]
    s = Setup(h, kind, emph=emph, window=window, bank=bank, **k)
    lp_contracts(h, named)
    pncc_contracts(h)
    rasta_contract(h)
    if name == "cqcc":
        cqt_setup(h, s, ratio, cq_low)
    par = "num_ceps" if name in ("pncc", "cqcc") else "order"
    s.nc = h.int(par, lo=2)
    s.kw[par] = s.nc
    if nc and kind:
        h.assume(t.le(s.nc.t, s.nfilts.t))
    return q, s


def cqt_setup(h, s, ratio=False, low_ok=True):
    """parameters of the constant-Q transform, and its contract"""
    cqt_contract(h)
    s.nfft = h.int("nfft", lo=1)
    p = dict(low_freq=h.real("low_freq"), high_freq=h.real("high_freq", pos=True), number_of_octaves=h.int("octaves", lo=1), number_of_bins_per_octave=h.int("bins_per_octave", lo=1),
             f0=h.real("f0", pos=True), q_rate=h.real("q_rate", pos=True), spectral_threshold=h.real("threshold"))
    if low_ok:
        h.assume(t.le(p["high_freq"].t, t.div(s.fs.t, t.num(2))))
    s.kw.update(p, nfft=s.nfft)
    s.p = p
    s.n_pitch = Num(pitches(tuple(nt(v) for v in (s.fs, p["low_freq"], p["high_freq"], s.nfft, p["number_of_octaves"], p["number_of_bins_per_octave"], p["f0"], p["q_rate"]))), dt="i")
    s.rows = s.nf
    if ratio:
        q = s.kw["resampling_ratio"] = h.real("ratio", pos=True)
        s.rows = floor_(s.nf * q)
        h.assume(t.le(t.ONE, s.rows.t))

    def cqt(k, m):
        v = t.fresh("s")
        ps = tuple(nt(x) for x in (s.fs, p["low_freq"], p["high_freq"], s.nfft, p["number_of_octaves"], p["number_of_bins_per_octave"], p["f0"], p["q_rate"], p["spectral_threshold"])) + (strt(s.wtype),)
        return Num(t.bop("cqt", (s.L.t, I_(k)) + ps, (t.lam([v], nt(s.frame(m, v))),), False, False), t.TRUE, "c", True)
    s.cqt = Setup.memo(cqt)


def run(h, q, s, **kw):
    o = h.call(q, s.sig, **dict(s.kw, **kw))
    if not o.ok:
        h.fail("no exception", str(o.exc))
        raise Infeasible()
    return o.v


@theorem("C16", cases=[dict(name=n) for n in OTHER])
def liftered_other(h, name):
    "the extractor with a lifter returns lifter_ceps of what it returns without"
    q, s = setup2(h, name, named=True)
    l = h.int("lift")
    h.assume(t.or_(t.le(t.ZERO, l.t), t.le(l.t, t.num(-1))))
    a = run(h, q, s, lifter=l)
    b = run(h, q, s)
    h.same("liftered cepstra", a, h.value(CP + "lifter_ceps", b, l))


@theorem("C17", cases=[dict(name=n, kind=k) for n in OTHER for k in ("mvn", "ms", "vn", "mn")])
def normalised_other(h, name, kind):
    "the extractor with lifter and normalisation returns the normalised version of what it returns with the lifter only"
    q, s = setup2(h, name, named=True)
    l = h.int("lift", lo=0)
    a = run(h, q, s, lifter=l, normalize=kind)
    b = run(h, q, s, lifter=l)
    h.same("normalised cepstra", a, h.value(CP + "normalize_ceps", b, kind))


@theorem("C13", cases=[dict(name=n, bank=b, high=hh) for n in OTHER for b, hh in (("given", "given"), ("built", "given"), ("built", "omitted")) if OTHER[n][1] or (b, hh) == ("given", "given")])
def shape_and_errors_other(h, name, bank, high):
    "frames x coefficients for every valid request; ParameterError exactly for too few filters, a rejected band or win_len < win_hop"
    q, kind = OTHER[name]
    k = dict(high=high, low_ok=False) if kind else {}
    q, s = setup2(h, name, bank=bank, nc=False, order=False, ratio=name == "cqcc", cq_low=False, **k)
    if high == "given" and kind:
        h.assume(t.not_(t.eq(nt(s.high), t.ZERO)))
    o = h.call(q, s.sig, **s.kw)
    bad = [t.lt(s.wl.t, s.wh.t)]
    if kind:
        bad += [t.lt(s.nfilts.t, s.nc.t)]
        if bank == "built":
            bad += [t.lt(s.low.t, t.ZERO), t.lt(t.div(s.fs.t, t.num(2)), nt(s.high))]
    if name == "cqcc":
        bad += [t.lt(t.div(s.fs.t, t.num(2)), nt(s.p["high_freq"]))]
    h.raises_iff("request", o, "ParameterError", t.or_(*bad))
    if o.ok and name == "cqcc":
        h.shape("cepstra", o.v, (s.rows, Num(t.min2(s.nc.t, s.n_pitch.t), dt="i")))
    elif o.ok:
        h.shape("cepstra", o.v, (s.nf, s.nc))


@theorem("C04", cases=[dict(name=n) for n in OTHER])
def extractor_emphasis_other(h, name):
    "pre-emphasis inside the extractor is the filter applied to the signal beforehand"
    q, s = setup2(h, name, emph=True)
    a = run(h, q, s)
    sf = fn_of(s.sig)
    x = SymArray.make((s.n.t,), lambda idx: ite(t.lt(idx[0], t.ONE), sf(0), sf(idx[0]) - s.a * sf(t.sub(idx[0], t.ONE))), "f")
    b = h.value(q, x, **dict(s.kw, pre_emph=False))
    h.same("pre-emphasised", a, b)


@theorem("C04", cases=[dict(name=n) for n in OTHER])
def emphasis_default_other(h, name):
    "the coefficient defaults to 0.97, and with pre-emphasis off it has no effect"
    q, s = setup2(h, name)
    a = run(h, q, s, pre_emph_coeff=h.real("a1"))
    b = run(h, q, s)
    h.same("coefficient ignored when off", a, b)
    kw = {k: v for k, v in s.kw.items() if k not in ("pre_emph", "pre_emph_coeff")}
    c = h.value(q, s.sig, pre_emph_coeff=F(97, 100), **dict(kw, pre_emph=True))
    d = h.value(q, s.sig, **dict(kw, pre_emph=True))
    h.same("default coefficient", d, c)


@theorem("C05", cases=[dict(name=n) for n in OTHER])
def default_window_other(h, name):
    "no window = 25 ms Hamming frames every 10 ms"
    q, s = setup2(h, name, window="default")
    a = run(h, q, s)
    b = run(h, q, s, window=h.value(SW, F(25, 1000), F(10, 1000), "hamming"))
    h.same("default window", a, b)


@theorem("C18", cases=[dict(name=n) for n in ("pncc", "cqcc")])
def always_defined_other(h, name):
    "every logarithm, power and division of the unnormalised PNCC and CQCC is applied where it is defined"
    q, s = setup2(h, name, bank="given")
    y = run(h, q, s)
    h.defined("cepstra are defined", y)
