"""C27: the constant-Q transform and the cepstrum computed from it."""
from .ex import *
from .c13b import cqt_setup, run

CQT = SP + "compute_constant_qtransform"
CQ = "spafe.features.cqcc:"


def cqt_params(h, defaults=False):
    B, O = h.int("bins_per_octave", lo=1), h.int("octaves", lo=1)
    f0, q = h.real("f0", pos=True), h.real("q_rate", pos=True)
    low, high = h.real("low_freq"), h.real("high_freq", pos=True)
    thr = h.real("threshold")
    return dict(low_freq=low, high_freq=high, number_of_octaves=O, number_of_bins_per_octave=B, spectral_threshold=thr, f0=f0, q_rate=q)


class Cqt:
    """specification of the transform: selected pitches, window lengths, kernel, values"""

    def __init__(self, h, fs, nfft, wtype, p):
        B, O, f0 = p["number_of_bins_per_octave"], p["number_of_octaves"], p["f0"]
        P0 = SymArray.make(((O * B).t,), lambda i: f0 * asnum(2) ** (Num(i[0], dt="i") / B), "f")
        hi = p["high_freq"]
        f = P0.snap()
        P1 = P0[SymArray.make(P0._shape, lambda i: Num(t.and_(t.le(nt(p["low_freq"]), f(i).t), t.le(f(i).t, nt(hi))), dt="b"), "b")]
        self.Q = p["q_rate"] / (asnum(2) ** (asnum(1) / B) - 1)
        g = P1.snap()
        W1 = SymArray.make(P1._shape, lambda i: Num(t.neg(t.floor(t.neg((self.Q * fs / g(i)).t))), dt="i"), "i")
        w = W1.snap()
        keep = SymArray.make(P1._shape, lambda i: Num(t.le(w(i).t, nfft.t), dt="b"), "b")
        P2, W2 = P1[keep], W1[keep]
        self.n = Num(P2._shape[0], dt="i")
        self.P, self.W = fn_of(P2), fn_of(W2)
        self.fs, self.nfft, self.wtype, self.thr = fs, nfft, wtype, p["spectral_threshold"]
        h.assume(t.le(t.ONE, self.n.t))

    def atom(self, k, x):
        """centred, windowed, 1/N-scaled exponential"""
        W = self.W(k)
        s = floor_((self.nfft - W) / 2)
        e = Num(t.exp(t.mul2(t.scale(t.mul2(t.I, t.PI), 2), (self.P(k) / self.fs * (x - s)).t)), t.TRUE, "c", True)
        v = e * window_value(self.wtype, W, x - s) / W
        return ite(t.and_(t.le(s.t, x.t), t.lt(x.t, (s + W).t)), v, 0)

    def fft(self, n, f, q):
        c = t.scale(t.mul2(t.I, t.PI), -2)
        return ssum(n, lambda j: Num(t.mul2(f(j).t, t.exp(t.mul2(c, t.div(t.mul2(j.t, I_(q)), self.nfft.t)))), t.TRUE, "c", True))

    def kernel(self, k, q):
        r = self.fft(self.nfft, lambda x: self.atom(k, x), q)
        return ite(t.le(t.cabs(r.t), nt(self.thr)), 0, r)

    def value(self, frame, L, k, m):
        n = Num(t.min2(I_(L), self.nfft.t), dt="i")
        return ssum(self.nfft, lambda q: self.fft(n, lambda j: frame(m, j), q) * Num(t.conj(self.kernel(k, q).t), t.TRUE, "c", True) / self.nfft)


@theorem("C27", cases=[dict(wtype=w, high=g) for w, g in (("hamming", True), ("hanning", True), ("kaiser", True), ("bartlet", True), ("blackman", True), ("hamming", False))])
def transform(h, wtype, high):
    "rows: the pitches in the band with windows of at most nfft samples; row k, frame m: frame FFT times the conjugate thresholded kernel, summed over bins, over nfft"
    T, L = h.int("frames", lo=1), h.int("length", lo=1)
    a = h.arr("frame", (T, L))
    fs, nfft = h.int("fs", lo=1), h.int("nfft", lo=1)
    p = cqt_params(h)
    kw = dict(p)
    if not high:
        p["high_freq"] = fs / 2
        del kw["high_freq"]
    s = Cqt(h, fs, nfft, wtype, p)
    r = h.value(CQT, a, fs=fs, nfft=nfft, win_type=wtype, **kw)
    h.equal("transform", r, (s.n, T), lambda k, m: s.value(fn_of(a), L, k, m), dt="c")


@theorem("C27", cases=[dict(high=True), dict(high=False)])
def pitches(h, high):
    "the rows are the pitches f0 * 2^(i / B) with low_freq <= f <= high_freq (both ends included) whose windows have at most nfft samples"
    T, L = h.int("frames", lo=1), h.int("length", lo=1)
    a = h.arr("frame", (T, L))
    fs, nfft = h.int("fs", lo=1), h.int("nfft", lo=1)
    p = cqt_params(h)
    kw = dict(p)
    if not high:
        p["high_freq"] = fs / 2
        del kw["high_freq"]
    s = Cqt(h, fs, nfft, "hamming", p)
    h.shape("transform", h.value(CQT, a, fs=fs, nfft=nfft, **kw), (s.n, T))


def cqcc_setup(h, ratio=True, low_ok=True, **k):
    s = Setup(h, None, **k)
    cqt_setup(h, s, ratio, low_ok)
    return s


@theorem("C27", cases=[dict(emph=e, wtype=w) for e, w in ((True, "hamming"), (False, "hanning"), (None, "kaiser"))])
def spectrogram(h, emph, wtype):
    "cqt_spectrogram is the transform of the pre-emphasised, framed, windowed signal; a high_freq above fs/2 is rejected"
    s = cqcc_setup(h, False, False, emph=emph, wtype=wtype)
    o = h.call(CQ + "cqt_spectrogram", s.sig, **s.kw)
    h.raises_iff("request", o, "ParameterError", t.lt(t.div(s.fs.t, t.num(2)), nt(s.p["high_freq"])))
    if o.ok:
        h.equal("spectrogram", o.v, (s.n_pitch, s.nf), lambda k, m: s.cqt(k, m), dt="c")


@theorem("C27", cases=[dict(few=f, ty=y) for f in (True, False) for y in ("any", "default")])
def cepstra(h, few, ty):
    "CQCC: DCT over the pitches of the resampled-in-time log power of the transform"
    s = cqcc_setup(h, emph=True)
    nc = s.kw["num_ceps"] = h.int("num_ceps", lo=1)
    h.assume(t.le(nc.t, s.n_pitch.t) if few else t.lt(s.n_pitch.t, nc.t))
    h.assume(t.le(t.num(2), s.n_pitch.t))
    T = asnum(2)
    if ty == "any":
        T = s.kw["dct_type"] = h.int("dct_type", lo=1, hi=4)
    y = run(h, CQ + "cqcc", s)

    def lg(m, k):
        z = s.cqt(k, m)
        a = Num(t.cabs(z.t), t.TRUE, "f", True)
        return ln(zh(a * a))

    def rs(i, k):
        v = t.fresh("s")
        return Num(t.bop("resample", (s.nf.t, s.rows.t, I_(i)), (t.lam([v], lg(Num(v, dt="i"), k).t),)), t.TRUE, "f", True)
    h.equal("cepstra", y, (s.rows, nc if few else s.n_pitch), lambda i, c: dct_of(s.n_pitch, lambda k: rs(i, k), c, T), defined=False)
    h.defined("cepstra are defined", y)
