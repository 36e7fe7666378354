"""C24, C25, C28: YIN, dominant frequencies, spectral descriptors."""
from .ex import *
from ..harness import unlist

YN = "spafe.frequencies.fundamental_frequencies:"
DF = "spafe.frequencies.dominant_frequencies:get_dominant_frequencies"
SF = "spafe.features.spfeats:"


# ---------------------------------------------------------------- C25
@theorem("C25", cases=[dict(wtype=w, pos=p, dflt=d) for w, p, d in (("hamming", True, False), ("hanning", False, False), ("bartlet", True, False), ("kaiser", True, False), ("blackman", True, False), ("hamming", True, True))])
def dominant(h, wtype, pos, dflt):
    "frame i: the first of the bins 0..nfft//2 with the largest power, times fs/nfft, rounded to three decimals"
    n = h.int("n", lo=1)
    sig = h.arr("sig", (n,))
    fs = h.int("fs", lo=1)
    nfft = h.int("nfft", lo=1)
    kw = dict(nfft=nfft)
    wl, wh = F("0.025"), F("0.01")
    if not dflt:
        wl, wh = h.real("win_len", pos=True), h.real("win_hop", pos=True)
        kw.update(win_len=wl, win_hop=wh, win_type=wtype, only_positive=pos)
    L, H = floor_(asnum(wl) * fs), floor_(asnum(wh) * fs)
    h.assume(t.le(t.ONE, H.t), t.le(H.t, L.t), t.le(L.t, n.t), t.le(nt(wh), nt(wl)))
    d = h.value(DF, sig, fs, **kw)
    sf = fn_of(sig)
    c = t.scale(t.mul2(t.I, t.PI), -2)

    def mag(i, k):
        m = Num(t.min2(L.t, nfft.t), dt="i")
        s = ssum(m, lambda j: Num(t.mul2((sf(i * H + j) * window_value(wtype, L, j)).t, t.exp(t.mul2(c, t.div(t.mul2(j.t, I_(k)), nfft.t)))), t.TRUE, "c", True))
        return Num(t.cabs(s.t), t.TRUE, "f", True)
    K = floor_(nfft / 2) + 1
    best = lambda i: R["numpy.argmax"](SymArray.make((K.t,), lambda idx: mag(i, Num(idx[0], dt="i")), "f"))
    nf = nframes(n, L, H)
    h.equal("frequency", d, (nf,), lambda i: R["numpy.round"](best(i) * fs / nfft, 3), dt="f")
    df = fn_of(toarray(d))
    h.forall("within [0, fs/2]", (nf,), lambda i: t.and_(t.le(t.ZERO, df(i).t), t.le(df(i).t, t.div(fs.t, t.num(2)))))


# ---------------------------------------------------------------- C28
def spec_in(h, lo=1):
    n = h.int("bins", lo=lo)
    a = h.arr("spectrum", (n,), "c")
    f = fn_of(a)
    mag = lambda k: Num(t.cabs(f(k).t), t.TRUE, "f", True)
    fs = h.int("fs", lo=1)
    tot = ssum(n, mag)
    h.assume(t.lt(t.ZERO, tot.t))
    ff = R["numpy.fft.fftfreq"](n, asnum(1) / fs)
    freq = lambda k: Num(t.rabs(ff.get(k.t).t), t.TRUE, "f", True)
    return n, a, mag, fs, tot, freq


def centroid(n, mag, tot, freq, i):
    return ssum(n, lambda k: mag(k) * freq(k) ** i) / tot


def moment(n, mag, tot, freq, p):
    m1 = centroid(n, mag, tot, freq, 1)
    return ssum(n, lambda k: mag(k) * (freq(k) - m1) ** p)


@theorem("C28", cases=[dict(i=i) for i in (0, 1, 2, 3)])
def spectral_centroid(h, i):
    "magnitude-weighted mean of the i-th powers of the bin frequencies |fftfreq|"
    n, a, mag, fs, tot, freq = spec_in(h)
    c = h.value(SF + "spectral_centroid", fs, a, *([i] if i else []))
    h.prove("centroid", t.eq(nt(c), centroid(n, mag, tot, freq, i or 1).t))


@theorem("C28", cases=[dict(p=3), dict(p=4)])
def spectral_moments(h, p):
    "skewness and kurtosis: weighted third and fourth central moments over the same power of the order-2 centroid"
    n, a, mag, fs, tot, freq = spec_in(h)
    mu2 = centroid(n, mag, tot, freq, 2)
    h.assume(t.not_(t.eq(mu2.t, t.ZERO)))
    s = h.value(SF + ("spectral_skewness" if p == 3 else "spectral_kurtosis"), h.arr("sig", (h.int("n", lo=1),)), fs, a)
    h.prove("moment", t.eq(nt(s), (moment(n, mag, tot, freq, p) / (tot * mu2 ** p)).t))


@theorem("C28")
def spectral_spread(h):
    "square root of the weighted second central moment"
    n, a, mag, fs, tot, freq = spec_in(h)
    s = h.value(SF + "spectral_spread", h.arr("sig", (h.int("n", lo=1),)), fs, a)
    h.prove("spread", t.eq(nt(s), t.power((moment(n, mag, tot, freq, 2) / tot).t, t.num(F(1, 2)))))


@theorem("C28")
def spectral_flatness(h):
    "geometric over arithmetic mean"
    n, a, mag, fs, tot, freq = spec_in(h)
    f = h.value(SF + "spectral_flatness", a)
    h.prove("flatness", t.eq(nt(f), t.div(t.exp((ssum(n, lambda k: ln(mag(k))) / n).t), (tot / n).t)))


@theorem("C28", cases=[dict(k=k) for k in ("any", "default")])
def spectral_rolloff(h, k):
    "the given fraction of the total magnitude, 0.85 by default"
    n, a, mag, fs, tot, freq = spec_in(h)
    q = h.real("k") if k == "any" else asnum(F(85, 100))
    r = h.value(SF + "spectral_rolloff", a, *([q] if k == "any" else []))
    h.prove("roll-off", t.eq(nt(r), (q * tot).t))


@theorem("C28", cases=[dict(p=p) for p in (0, 1, 2, 3)])
def spectral_flux(h, p):
    "p-norm of successive magnitude differences, p = 2 by default"
    n, a, mag, fs, tot, freq = spec_in(h, 2)
    r = h.value(SF + "spectral_flux", a, *([p] if p else []))
    p = p or 2
    s = ssum(n - 1, lambda k: Num(t.rabs((mag(k + 1) - mag(k)).t), t.TRUE, "f", True) ** p)
    h.prove("flux", t.eq(nt(r), t.power(s.t, t.num(F(1, p)))))


@theorem("C28", cases=[dict(what=w) for w in ("spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_spread", "spectral_flatness")])
def level_free(h, what):
    "unchanged when the spectrum is multiplied by a positive constant"
    n, a, mag, fs, tot, freq = spec_in(h)
    c = h.real("level", pos=True)
    f = fn_of(a)
    b = SymArray.make((n.t,), lambda idx: f(idx[0]) * c, "c")
    call = {"spectral_centroid": lambda x: (fs, x), "spectral_flatness": lambda x: (x,)}.get(what, lambda x: (sig, fs, x))
    sig = h.arr("sig", (h.int("n", lo=1),))
    if what in ("spectral_skewness", "spectral_kurtosis"):
        h.assume(t.not_(t.eq(centroid(n, mag, tot, freq, 2).t, t.ZERO)))
    if what == "spectral_flatness":
        pos = lambda k: t.lt(t.ZERO, mag(k).t)
        v = t.fresh("v")
        h.assume(t.forall_(n.t, [v], pos(Num(v, dt="i"))))
    h.prove("level", t.eq(nt(h.value(SF + what, *call(b))), nt(h.value(SF + what, *call(a)))))


@theorem("C28")
def collected(h):
    "the collected set holds exactly these numbers for the rfft of the signal"
    n = h.int("n", lo=1)
    sig = h.arr("sig", (n,))
    fs, nfft = h.int("fs", lo=1), h.int("nfft", lo=2)
    d = h.value(SF + "extract_feats", sig, fs, nfft)
    S = h.value("numpy:fft.rfft", sig, nfft) if False else R["numpy.fft.rfft"](sig, nfft)
    one = dict(spectral_centroid=(fs, S), spectral_skewness=(sig, fs, S), spectral_kurtosis=(sig, fs, S), spectral_entropy=(S,), spectral_spread=(sig, fs, S),
               spectral_flatness=(S,), spectral_rolloff=(S,), spectral_flux=(S,))
    for k, a in one.items():
        v = d.get(k) if hasattr(d, "get") else d[k]
        h.prove(k, t.eq(nt(v), nt(h.value(SF + k, *a))))


# ---------------------------------------------------------------- C24
def diff_fn(w, x):
    """d(t): sum of (x[j] - x[j+t])^2 over the j with both samples in the frame"""
    return lambda tau: ssum(asnum(w) - tau, lambda j: (x(j) - x(j + tau)) * (x(j) - x(j + tau)))


def cmnd_fn(d):
    return lambda tau: ite(t.eq(I_(tau), t.ZERO), 1, d(tau) * tau / ssum(tau, lambda j: d(j + 1)))


@theorem("C24", cases=[dict(dt=d) for d in ("f", "i")])
def difference(h, dt):
    "lag t: the sum of squared differences of the samples t apart"
    w = h.int("w", lo=1)
    x = h.arr("x", (w,), dt)
    tm = h.int("tau_max", lo=1)
    h.assume(t.le(tm.t, w.t))
    d = h.value(YN + "compute_difference", x, tm)
    h.equal("difference", d, (tm,), diff_fn(w, fn_of(x)), dt="f")


@theorem("C24")
def cumulative(h):
    "1 at lag 0, then d(t) t / (d(1) + ... + d(t))"
    tm = h.int("tau_max", lo=1)
    d = h.arr("d", (tm,))
    c = h.value(YN + "compute_cmnd", d, tm)
    h.equal("normalised", c, (tm,), cmnd_fn(fn_of(d)), defined=False)


def cmnd_raw(d):
    return lambda tau: ite(t.eq(I_(tau), t.ZERO), 1, Num(t.div((d(tau) * tau).t, ssum(tau, lambda j: d(j + 1)).t), t.TRUE, "f", True))


def lag_setup(h):
    n = h.int("n", lo=1)
    c = h.arr("c", (n,))
    lo, hi = h.int("tau_min", lo=0), h.int("tau_max", lo=0)
    h.assume(t.le(hi.t, n.t))
    th = h.real("threshold")
    f = fn_of(c)
    return n, c, lo, hi, th, f, lambda k: t.lt(f(k).t, th.t)


@theorem("C24")
def unvoiced(h):
    "period 0 when no lag in [tau_min, tau_max) is below the threshold"
    n, c, lo, hi, th, f, low = lag_setup(h)
    v = t.fresh("v")
    h.assume(t.forall_(t.sub(hi.t, lo.t), [v], t.not_(low(Num(t.add(lo.t, v), dt="i")))))
    p = h.value(YN + "get_pitch", c, lo, hi, th)
    h.prove("no period", t.eq(nt(p), t.ZERO))


@theorem("C24", cases=[dict(what=w) for w in ("range", "descending", "minimum")])
def voiced(h, what):
    "otherwise the first local minimum reached by descending from the first lag below the threshold, inside [tau_min, tau_max)"
    n, c, lo, hi, th, f, low = lag_setup(h)
    q = h.int("first", lo=0)
    v = t.fresh("v")
    h.assume(t.le(lo.t, q.t), t.lt(q.t, hi.t), low(q))
    h.assume(t.forall_(t.sub(q.t, lo.t), [v], t.not_(low(Num(t.add(lo.t, v), dt="i")))))
    p = h.value(YN + "get_pitch", c, lo, hi, th)
    p = Num(nt(p), dt="i")
    if what == "range":
        h.prove("from the first lag below the threshold on, below tau_max", t.and_(t.le(q.t, p.t), t.lt(p.t, hi.t)))
    elif what == "descending":
        r = h.int("r")
        h.prove("descending all the way", t.implies(t.and_(t.le(q.t, r.t), t.lt(r.t, p.t)), t.lt(f(r + 1).t, f(r).t)))
    else:
        h.prove("up to a local minimum", t.implies(t.lt(t.add(p.t, t.ONE), hi.t), t.le(f(p).t, f(p + 1).t)))


def pitch_contract(h):
    """callers of compute_difference and compute_cmnd against the formulas above, of get_pitch against its contract: a period determined by the arguments, 0 or inside [tau_min, tau_max)"""
    def handler(I, b):
        c = toarray(b["cmdf"])
        f = c.snap()
        v = t.fresh("s")
        lo, hi = I_(b["tau_min"]), I_(b["tau_max"])
        ctx().safe("IndexError", t.and_(t.le(t.ZERO, lo), t.or_(t.le(hi, lo), t.le(hi, c._shape[0]))), "lags inside the difference function")
        return Num(t.bop("yin-period", (c._shape[0], lo, hi, nt(b["harmonic_threshold"])), (t.lam([v], nt(f((v,)))),), True), t.TRUE, "i")
    def diff(I, b):
        x = toarray(b["x"])
        f = x.snap()
        n = I_(b["tau_max"])
        ctx().safe("IndexError", t.and_(t.le(t.ONE, n), t.le(n, x._shape[0])), "lags inside the frame")
        d = Setup.memo(diff_fn(Num(x._shape[0], dt="i"), lambda j: f((j.t,))))
        return SymArray.make((n,), lambda idx: d(idx[0]), "f")

    def cmnd(I, b):
        x = toarray(b["d_t"])
        f = x.snap()
        ctx().safe("ValueError", t.eq(I_(b["tau"]), x._shape[0]), "lags of the difference function")
        d = Setup.memo(cmnd_raw(lambda j: f((j.t,))))
        return SymArray.make(x._shape, lambda idx: d(idx[0]), "f")
    h.use(YN + "compute_difference", diff)
    h.use(YN + "compute_cmnd", cmnd)
    h.use(YN + "get_pitch", handler)
    h.cx.facts.by_op["yin-period"] = lambda pr, hyps, x, ps, ls: [t.or_(t.eq(x, t.ZERO), t.and_(t.le(ps[1], x), t.lt(x, ps[2])))]


@theorem("C24", cases=[dict(what=w, dflt=d) for d in (False, True) for w in ("pitch", "rate", "time")])
def tracker(h, what, dflt):
    "per hop: fs/period or 0, the normalised difference at the period (its minimum if unvoiced), the time of the frame start"
    n = h.int("n", lo=1)
    sig = h.arr("sig", (n,))
    fs = h.int("fs", lo=1)
    if dflt:
        wl, wh, low, high, th = (asnum(F(x)) for x in ("0.03", "0.015", "50", "3000", "0.1"))
        kw = {}
    else:
        wl, wh, low, high, th = h.real("win_len", pos=True), h.real("win_hop", pos=True), h.real("low", pos=True), h.real("high", pos=True), h.real("threshold")
        kw = dict(win_len=wl, win_hop=wh, low_freq=low, high_freq=high, harmonic_threshold=th)
    L, H = floor_(wl * fs), floor_(wh * fs)
    lo, hi = floor_(fs / high), floor_(fs / low)
    h.assume(t.le(t.ONE, H.t), t.le(t.ONE, hi.t), t.le(hi.t, L.t), t.lt(L.t, n.t), t.le(lo.t, hi.t))
    pitch_contract(h)
    out = h.value(YN + "compute_yin", sig, fs, **kw)
    nf = Num(t.neg(t.floor(t.div(t.sub(L.t, n.t), H.t))), dt="i")
    if not isinstance(out, tuple) or len(out) != 4:
        h.fail("four results", str(type(out)))
        return
    sf = fn_of(sig)

    def cm(i):
        d = diff_fn(L, lambda j: sf(i * H + j))
        return SymArray.make((hi.t,), lambda idx: cmnd_raw(d)(Num(idx[0], dt="i")), "f")
    per = lambda i: h.value(YN + "get_pitch", cm(i), lo, hi, th)
    if what == "pitch":
        h.equal("pitch", out[0], (nf,), lambda i: ite(t.eq(nt(per(i)), t.ZERO), 0, Num(t.div(fs.t, nt(per(i))), t.TRUE, "f", True)), defined=False, dt="f")
        h.shape("argmins", out[2], (nf,))
    elif what == "rate":
        h.equal("harmonic rate", out[1], (nf,), lambda i: ite(t.eq(nt(per(i)), t.ZERO), R["numpy.min"](cm(i)), cm(i).get(nt(per(i)))), defined=False, dt="f")
    else:
        h.equal("time", out[3], (nf,), lambda i: i * H / fs, dt="f")
