"""Shared specification of the feature extractors' front end, and contracts of the bank constructors."""
from ..harness import theorem, Num, nt, t, asnum, Infeasible
from ..spec import *
from .c06 import BANK, SCALES, EXTRA

SW = PP + "SlidingWindow"
MF = "spafe.features.mfcc:"
BF = "spafe.features.bfcc:"
GF = "spafe.features.gfcc:"
LF = "spafe.features.lfcc:"
# name -> (qualified function, bank kind, default nfilts)
SPECTRO = {"mel": MF + "mel_spectrogram", "bark": BF + "bark_spectrogram", "gamma": GF + "erb_spectrogram", "lin": LF + "linear_spectrogram"}
CEPS = {"mfcc": (MF + "mfcc", "mel"), "imfcc": (MF + "imfcc", "imel"), "bfcc": (BF + "bfcc", "bark"), "gfcc": (GF + "gfcc", "gamma"), "lfcc": (LF + "lfcc", "lin"),
        "ngcc": ("spafe.features.ngcc:ngcc", "gamma"), "msrcc": ("spafe.features.msrcc:msrcc", "mel"), "psrcc": ("spafe.features.psrcc:psrcc", "mel")}
APPROACH = {"mel": ("Oshaghnessy", "Lindsay"), "imel": ("Oshaghnessy", "Lindsay"), "bark": ("Wang", "Traunmueller"), "gamma": ("Glasberg",), "lin": (None,)}


def strt(s):
    return s.t if isinstance(s, SymStr) else V.str_term(s)


def bank_term(kind, a, j, k):
    """element of the bank the constructor returns for these arguments (a function of the arguments only)"""
    return t.app("bank:" + kind, (nt(a["nfilts"]), nt(a["nfft"]), nt(a["fs"]), nt(a["low_freq"]), nt(a["high_freq"]), strt(a["scale"]), strt(a.get("conversion_approach") or "-"), I_(j), I_(k)))


def bank_contracts(h):
    """callers of the bank constructors against their contract (C06-C11): deterministic in the arguments, nfilts x (nfft//2+1), non-negative,
    high_freq omitted means fs/2, ParameterError exactly outside 0 <= low_freq, high_freq <= fs/2"""
    for kind in BANK:
        def handler(I, b, kind=kind):
            a = dict(b)
            fs = asnum(a["fs"])
            if a["high_freq"] is None:
                a["high_freq"] = fs / 2
            cx = ctx()
            if cx.decide(t.lt(nt(a["low_freq"]), t.ZERO)) or cx.decide(t.lt(t.div(fs.t, t.num(2)), nt(a["high_freq"]))):
                raise PyExc("ParameterError", "bounds")
            sc = a["scale"]
            if not isinstance(sc, SymStr) and sc not in SCALES:
                raise PyExc("KeyError", "scale")
            if kind == "gamma" and not (isinstance(a.get("order"), int) and a["order"] == 4 or asnum(a.get("order", 4)).t is t.num(4)):
                a["conversion_approach"] = "order:%s" % t.show(nt(a["order"]), 4)
            nf = asnum(a["nfilts"])
            K = t.add(t.floor(t.div(nt(a["nfft"]), t.num(2))), t.ONE)
            B = SymArray.make((nf.t, K), lambda idx: Num(bank_term(kind, a, *idx), t.TRUE, "f", True), "f")
            c = SymArray.make((nf.t,), lambda idx: Num(t.app("centres:" + kind, (nf.t, nt(a["nfft"]), fs.t, nt(a["low_freq"]), nt(a["high_freq"]), idx[0])), t.TRUE, "f", True), "f")
            return (B, c)
        h.use(BANK[kind], handler)
        nm = "bank:" + kind
        h.cx.facts.declare(nm, lambda *x, nm=nm: [t.le(t.ZERO, t.app(nm, x))])


def emphasis_contract(h):
    """callers of pre_emphasis against its contract (C04): x[0], then x[t] - a x[t-1]"""
    def handler(I, b):
        x = toarray(b["sig"])
        f, a = x.snap(), asnum(b["pre_emph_coeff"])
        g = Setup.memo(lambda q: ite(t.lt(q.t, t.ONE), f((t.ZERO,)), f((q.t,)) - a * f((t.sub(q.t, t.ONE),))))
        return SymArray.make(x._shape, lambda idx: g(idx[0]), "f")
    h.use(PP + "pre_emphasis", handler)


def abbrev(name, params, lams, on):
    """an opaque operator over closures; when on, the closures are abbreviated by a name for them as functions of the index in them (the
    same closures get the same name)"""
    if on:
        fv = {v for l in lams for v in l.fv if "!" in v.args[0]}
        if len(fv) <= 1:
            fv = tuple(fv)
            ids = tuple(t.lam(list(fv), l).id if fv else l.id for l in lams)
            return t.app("%s#%s" % (name, ".".join(map(str, ids))), tuple(params) + fv)
    return t.bop(name, params, lams)


def lp_contracts(h, named=False):
    """callers of the LPC helper and of lpc2lpcc against their contracts (C20, C21): values determined by the frame (coefficients and
    error) and by the coefficients and the error (cepstra), of the stated lengths; the error is not negative"""
    def helper(I, b):
        x = toarray(b["frame"])
        n = asnum(b["order"]).t
        f = x.snap()
        v = t.fresh("s")
        l = t.lam([v], nt(f((v,))))
        a = SymArray.make((t.add(n, t.ONE),), lambda idx: Num(abbrev("lpa", (x._shape[0], n, idx[0]), (l,), named), t.TRUE, "f", True), "f")
        return (a, Num(t.rabs(abbrev("lpe", (x._shape[0], n), (l,), named)), t.TRUE, "f", True))

    def conv(I, b):
        a = toarray(b["a"])
        f = a.snap()
        v = t.fresh("s")
        l = t.lam([v], nt(f((v,))))
        e, n = nt(b["e"]), asnum(b["nceps"]).t
        r = SymArray.make((n,), lambda idx: Num(abbrev("lpc2lpcc", (a._shape[0], n, idx[0], e), (l,), named), t.TRUE, "f", True), "f")
        return r
    h.use("spafe.features.lpc:__lpc_helper", helper)
    h.use("spafe.features.lpc:lpc2lpcc", conv)


class Setup:
    """symbolic signal, framing and filter-bank parameters with their specification"""

    def __init__(self, h, kind="mel", window="given", wtype="hamming", emph=True, bank="built", high="given", approach=None, scale="constant", sigdt="f", nfft_lo=2, low_ok=True, order=True, contracts=True):
        self.h, self.kind = h, kind
        n = self.n = h.int("n", lo=1)
        self.sig = h.arr("sig", (n,), sigdt)
        fs = self.fs = h.int("fs", lo=1)
        kw = self.kw = {}
        if window == "given":
            wl, wh = h.real("win_len", pos=True), h.real("win_hop", pos=True)
            kw["window"] = h.value(SW, wl, wh, wtype)
        else:
            wl, wh, wtype = Num(t.num(F("0.025")), dt="f"), Num(t.num(F("0.01")), dt="f"), "hamming"
        self.wtype = wtype
        self.wl, self.wh = wl, wh
        L, H = self.L, self.H = floor_(wl * fs), floor_(wh * fs)
        h.assume(t.le(t.ONE, H.t), t.le(t.ONE, L.t), t.le(L.t, n.t))
        if order:
            h.assume(t.le(wh.t, wl.t), t.le(H.t, L.t))
        self.nf = nframes(n, L, H)
        self.emph = emph
        if emph is None:
            self.a = Num(t.num(F("0.97")), dt="f")
        else:
            kw["pre_emph"] = emph
            self.a = h.real("a") if emph else None
            if emph:
                kw["pre_emph_coeff"] = self.a
        if emph is not False and contracts:
            emphasis_contract(h)
        sf = fn_of(self.sig)
        if emph is False:
            self.x = lambda q: sf(q)
        else:
            self.x = lambda q: ite(t.lt(I_(q), t.ONE), sf(0), sf(q) - self.a * sf(q - 1))
        self.x = self.memo(self.x)
        kw["fs"] = fs
        if kind is None:
            return
        nfft = self.nfft = h.int("nfft", lo=nfft_lo)
        self.K = floor_(nfft / 2) + 1
        self.nfilts = h.int("nfilts", lo=1)
        self.low = h.real("low")
        hi = h.real("high") if high == "given" else None
        self.high = hi if hi is not None else fs / 2
        if low_ok:
            h.assume(t.le(t.ZERO, self.low.t), t.lt(self.low.t, nt(self.high)), t.le(nt(self.high), t.div(fs.t, t.num(2))))
        kw.update(fs=fs, nfft=nfft, nfilts=self.nfilts, low_freq=self.low, high_freq=hi, scale=scale)
        ap = approach or EXTRA.get(kind)
        if kind != "lin" and approach != "omitted":
            kw["conversion_approach"] = ap
        if approach == "omitted":
            ap = EXTRA.get(kind)
        self.args = dict(nfilts=self.nfilts, nfft=nfft, fs=fs, low_freq=self.low, high_freq=self.high, scale=scale, conversion_approach=ap)
        bank_contracts(h)
        if bank == "given":
            B = h.arr("fbanks", (self.nfilts, self.K), nonneg=True)
            kw["fbanks"] = B
            bf = fn_of(B)
            self.B = lambda j, k: bf(j, k)
        else:
            self.B = lambda j, k: Num(bank_term(kind, self.args, I_(j), I_(k)), t.TRUE, "f", True)

    @staticmethod
    def memo(f):
        d = {}

        def g(*a):
            k = tuple(I_(q).id for q in a)
            if k not in d:
                d[k] = f(*[Num(I_(q), dt="i") for q in a])
            return d[k]
        return g

    def frame(self, i, j):
        """windowed frame i, sample j"""
        return self.x(Num(I_(i), dt="i") * self.H + Num(I_(j), dt="i")) * window_value(self.wtype, self.L, j)

    def spectrum(self, i, k):
        """DFT of the windowed frame zero-padded or cut to nfft samples"""
        m = t.min2(self.L.t, self.nfft.t)
        c = t.scale(t.mul2(t.I, t.PI), -2)
        s = ssum(Num(m, dt="i"), lambda j: Num(t.mul2(self.frame(i, j).t, t.exp(t.mul2(c, t.div(t.mul2(I_(j), I_(k)), self.nfft.t)))), t.TRUE, "c", True))
        return s

    def mag(self, i, k):
        return Num(t.cabs(self.spectrum(i, k).t), t.TRUE, "f", True)

    def power(self, i, k):
        m = self.mag(i, k)
        return m * m / self.nfft

    def feat(self, i, m):
        return ssum(self.K, lambda k: self.power(i, k) * self.B(m, k))

    def energy(self, i):
        return ssum(self.K, lambda k: self.power(i, k))


def zh(x):
    return ite(t.eq(asnum(x).t, t.ZERO), F(1, 2 ** 52), x)


def ln(x):
    return Num(t.log(asnum(x).t), t.TRUE, "f", True)


def dct_of(n, f, c, ty=2):
    """coefficient c of the orthonormal DCT of f(0..n-1)"""
    v = t.fresh("s")
    ty = t.num(ty) if isinstance(ty, int) else nt(ty)
    return Num(t.bop("dct", (ty, I_(n), t.ONE, I_(c)), (t.lam([v], asnum(f(Num(v, dt="i"))).t),)), t.TRUE, "f", True)


def ipl(w):
    """intensity-to-loudness power law"""
    w = asnum(w).t
    g = lambda x, c, p: t.add(t.mul2(x, x), t.num(F(c) * 10 ** p))
    E = t.div(t.mul2(g(w, "56.8", 6), t.ipow(w, 4)), t.mul(g(w, "6.3", 6), g(w, "0.38", 9), g(t.ipow(w, 3), "9.58", 26)))
    return Num(t.power(E, t.num(F(1, 3))), t.TRUE, "f", True)


def _closure(x, f, rows=True):
    """closure over the elements of a matrix, and obligations that they are defined"""
    cx = ctx()
    vs = (t.fresh("s"), t.fresh("s"))
    h0 = list(cx.hyps)
    cx.hyps = h0 + [h for v, n in zip(vs, x._shape) for h in (t.le(t.ZERO, v), t.lt(v, n))]
    try:
        e = f(vs)
        cx.safe("Undefined", e.ok, "input of the stage")
        nn = cx.prover.proved(cx.hyps, t.le(t.ZERO, e.t), 3, 2)
    finally:
        cx.hyps = h0
    return t.lam(vs, nt(e)), nn


def pncc_contracts(h, whole=True):
    """callers of the recursive PNCC stages against their contracts (C22): a matrix of the input's shape determined by the input and the
    parameters, non-negative for non-negative input (weights in [0, 1]); the running mean power is positive for non-negative input"""
    PN = "spafe.features.pncc:"

    def stage(name, arg, a, b, lim):
        def handler(I, bd):
            x = toarray(bd[arg])
            l, nn = _closure(x, x.snap())
            ps = (nt(bd[a]), nt(bd[b]))
            for p in ps:
                nn = nn and ctx().implied(t.le(t.ZERO, p)) and (not lim or ctx().implied(t.le(p, t.ONE)))
            g = t.rabs if nn else (lambda y: y)
            return SymArray.make(x._shape, lambda idx: Num(g(t.bop(name, x._shape + ps + tuple(idx), (l,))), t.TRUE, "f", True), "f")
        return handler
    h.use(PN + "asymmetric_lowpass_filtering", stage("alf", "Q_tilde_in", "lm_a", "lm_b", True))
    h.use(PN + "temporal_masking", stage("tmask", "Q_tilde_0", "lam_t", "myu_t", False))

    def single(name, arg, par):
        def handler(I, bd):
            x = toarray(bd[arg])
            l, nn = _closure(x, x.snap())
            nn = nn and ctx().implied(t.le(t.ZERO, nt(bd[par])))
            g = t.rabs if nn else (lambda y: y)
            return SymArray.make(x._shape, lambda idx: Num(g(t.bop(name, x._shape + (nt(bd[par]),) + tuple(idx), (l,))), t.TRUE, "f", True), "f")
        return handler
    if whole:
        h.use(PN + "medium_time_power_calculation", single("mtp", "P", "M"))
        h.use(PN + "asymmetric_noise_suppression_with_temporal_masking", single("ans", "Q_tilde", "threshold"))

        def ws(I, bd):
            x, q = toarray(bd["R_tilde"]), toarray(bd["Q_tilde"])
            cx = ctx()
            for a, b in zip(x._shape, q._shape):
                cx.safe("IndexError", t.eq(a, b), "shapes")
            cx.safe("IndexError", t.eq(x._shape[1], I_(bd["nfilts"])), "channels")
            cx.safe("IndexError", t.le(t.ZERO, nt(bd["N"])), "width")
            l, n1 = _closure(x, x.snap())
            lq, n2 = _closure(q, q.snap())
            g = t.rabs if n1 and n2 else (lambda y: y)
            return SymArray.make(x._shape, lambda idx: Num(g(t.bop("wsm", x._shape + (nt(bd["N"]),) + tuple(idx), (l, lq))), t.TRUE, "f", True), "f")
        h.use(PN + "weight_smoothing", ws)

    def mpn(I, bd):
        x = toarray(bd["T"])
        l, nn = _closure(x, x.snap())
        lam, L, k = nt(bd["lam_myu"]), I_(bd["nfilts"]), asnum(bd["k"])
        cx = ctx()
        cx.safe("IndexError", t.le(L, x._shape[1]), "channels")
        pos = nn and cx.implied(t.lt(t.ZERO, lam)) and cx.implied(t.le(lam, t.ONE)) and cx.implied(t.lt(t.ZERO, L))
        f = x.snap()

        def el(idx):
            m = t.bop("mpn", x._shape + (lam, L, idx[0]), (l,))
            m = Num(t.exp(m) if pos else m, t.TRUE, "f", True)
            return k * f(tuple(idx)) / m
        return SymArray.make(x._shape, el, "f")
    h.use(PN + "mean_power_normalization", mpn)


def rasta_contract(h):
    """callers of rasta_filter against its contract (C23): a matrix of the input's shape, row i determined by row i of the input"""
    def handler(I, bd):
        x = toarray(bd["x"])
        f = x.snap()

        def el(idx):
            v = t.fresh("s")
            e = f((idx[0], v))
            return Num(t.bop("rasta", (x._shape[1], idx[1]), (t.lam([v], nt(e)),)), t.TRUE, "f", True)
        _closure(x, f)
        return SymArray.make(x._shape, el, "f")
    h.use(FL + "rasta_filter", handler)


def cqt_contract(h):
    """callers of compute_constant_qtransform against its contract (C27): pitches x frames, the number of pitches determined by the
    parameters (and at least one, the precondition), column m determined by frame m and the parameters"""
    def handler(I, b):
        x = toarray(b["frames"])
        f = x.snap()
        fs = asnum(b["fs"])
        hi = b["high_freq"]
        cx = ctx()
        if hi is None or cx.decide(t.eq(nt(hi), t.ZERO)):
            hi = fs / 2
        for q in ("fs", "nfft", "number_of_octaves", "number_of_bins_per_octave", "f0", "q_rate"):
            cx.safe("Precondition", t.lt(t.ZERO, nt(b[q])), "constant-Q parameter " + q)
        ps = tuple(nt(v) for v in (fs, b["low_freq"], hi, b["nfft"], b["number_of_octaves"], b["number_of_bins_per_octave"], b["f0"], b["q_rate"]))
        n = pitches(ps)
        cx.hyps.append(t.le(t.ONE, n))
        ps += (nt(b["spectral_threshold"]), strt(b["win_type"]))
        _closure(x, f)

        def el(idx):
            v = t.fresh("s")
            return Num(t.bop("cqt", (x._shape[1], idx[0]) + ps, (t.lam([v], nt(f((idx[1], v)))),), False, False), t.TRUE, "c", True)
        return SymArray.make((n, x._shape[0]), el, "c")
    h.use(SP + "compute_constant_qtransform", handler)


def pitches(ps):
    return t.app("cqt_pitches", ps, isint=True)
