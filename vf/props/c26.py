"""C26: purity - no argument, default argument or module state is written, and no result aliases internal state."""
from .c13b import *
from .c22 import PN, RP, RF, MTP, ALF, TM, WS, MPN, ANS, mat
from .c24 import YN, DF, SF, pitch_contract
from .c20 import LP
from ..harness import ListV

CV = "spafe.utils.converters:"


def pure(h, q, *args, **kw):
    """run q; every write to an argument, a default argument or module state, and every result that shares memory with one of the latter
    two, is an obligation that must be unreachable"""
    h.cx.writes[:] = []
    o = h.call(q, *args, **kw)
    nm = q.split(":")[1]
    for what, loc, hyps in h.cx.writes:
        h.prove("%s does not write to %s" % (nm, what), t.FALSE, 2, hyps)
    h.cx.writes[:] = []
    h.prove("%s writes to nothing it is given and keeps no state" % nm, t.TRUE)
    if o.ok:
        alias(h, nm, o.v)
    return o


def alias(h, nm, v):
    if isinstance(v, tuple):
        for x in v:
            alias(h, nm, x)
    elif isinstance(v, SymArray):
        e = v.buf.ext
        if e is not None and not e.startswith("input"):
            h.fail("%s returns %s itself" % (nm, e), e)
    elif isinstance(v, ListV) and v.ext is not None and not str(v.ext).startswith("input"):
        h.fail("%s returns %s itself" % (nm, v.ext), v.ext)


def mark(kw):
    w = kw.get("window")
    if w is not None and hasattr(w, "external"):
        w.external = "the window object"
    return kw


CONV = [(f, a) for f, aps in (("hz2mel", ("Oshaghnessy", "Lindsay")), ("mel2hz", ("Oshaghnessy", "Lindsay")), ("hz2erb", ("Glasberg",)), ("erb2hz", ("Glasberg",)),
                              ("hz2bark", ("Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller")), ("bark2hz", ("Wang", "Tjomov", "Schroeder", "Terhardt", "Traunmueller"))) for a in aps]


@theorem("C26", cases=[dict(f=f, ap=a) for f, a in CONV])
def converters(h, f, ap):
    "scale converters"
    pure(h, CV + f, h.arr("x", (h.int("n", lo=1),), pos=True), ap)


@theorem("C26", cases=[dict(f=f) for f in ("zero_handling", "pre_emphasis", "stride_trick", "framing", "windowing", "normalize_ceps", "lifter_ceps", "deltas", "rasta_filter", "scale_fbank", "intensity_power_law")])
def helpers(h, f):
    "pre-processing, filter and cepstral helpers"
    n, m = h.int("n", lo=1), h.int("m", lo=2)
    x, X = h.arr("x", (n,), h.choice("dt", ["f", "i"])), h.arr("X", (n, m))
    if f == "zero_handling":
        pure(h, PP + f, h.choice("arg", [X, x]))
    elif f == "pre_emphasis":
        pure(h, PP + f, x, h.real("a"))
    elif f == "stride_trick":
        L, H = h.int("L", lo=1), h.int("H", lo=1)
        h.assume(t.le(L.t, n.t))
        pure(h, PP + f, x, L, H)
    elif f == "framing":
        fs, wl, wh = h.int("fs", lo=1), h.real("wl", pos=True), h.real("wh", pos=True)
        h.assume(t.le(t.ONE, floor_(wh * fs).t), t.le(wh.t, wl.t), t.le(floor_(wh * fs).t, floor_(wl * fs).t), t.le(floor_(wl * fs).t, n.t))
        pure(h, PP + f, x, fs, wl, wh)
    elif f == "windowing":
        pure(h, PP + f, X, m, h.choice("w", WINDOWS))
    elif f == "normalize_ceps":
        h.assume(t.le(t.num(2), n.t))
        pure(h, CP + f, X, h.choice("k", ["mvn", "ms", "vn", "mn"]))
    elif f == "lifter_ceps":
        pure(h, CP + f, X, h.int("lift"))
    elif f == "deltas":
        pure(h, CP + f, X, h.int("w", lo=1))
    elif f == "rasta_filter":
        h.assume(t.le(t.num(5), m.t))
        pure(h, RF, X)
    elif f == "scale_fbank":
        pure(h, FL + f, h.choice("s", ["ascendant", "descendant", "constant"]), n)
    else:
        pure(h, BF + f, h.arr("W", (n, m), nonneg=True))


@theorem("C26", cases=[dict(kind=k, high=hh) for k in BANK for hh in ("given", "omitted")])
def banks(h, kind, high):
    "filter bank constructors"
    fs, nfft, nfilts = h.int("fs", lo=1), h.int("nfft", lo=2), h.int("nfilts", lo=1)
    low = h.real("low", lo=0)
    hi = h.real("high") if high == "given" else None
    h.assume(t.lt(low.t, nt(hi) if hi is not None else t.div(fs.t, t.num(2))), t.le(nt(hi) if hi is not None else t.ZERO, t.div(fs.t, t.num(2))))
    pure(h, BANK[kind], nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low, high_freq=hi, scale=h.choice("s", ["ascendant", "descendant", "constant"]))


@theorem("C26", cases=[dict(name=n, bank=b) for n in SPECTRO for b in ("given", "built")])
def spectrograms(h, name, bank):
    "filter bank spectrograms"
    s = Setup(h, name, bank=bank)
    pure(h, SPECTRO[name], s.sig, **mark(s.kw))


@theorem("C26", cases=[dict(name=n, bank=b) for n in CEPS for b in ("given", "built")])
def cepstra(h, name, bank):
    "cepstral extractors, with lifter and normalisation"
    q, kind = CEPS[name]
    s = Setup(h, kind, bank=bank)
    nc = h.int("num_ceps", lo=2)
    h.assume(t.le(nc.t, s.nfilts.t))
    pure(h, q, s.sig, num_ceps=nc, lifter=h.int("lift", lo=1), normalize="mvn", **mark(s.kw))


@theorem("C26", cases=[dict(name=n) for n in OTHER])
def other_extractors(h, name):
    "LPCC, PLP, RPLP, PNCC with lifter and normalisation"
    q, s = setup2(h, name, emph=True, named=True)
    pure(h, q, s.sig, lifter=h.int("lift", lo=1), normalize="mvn", **mark(s.kw))


@theorem("C26", cases=[dict(f=f) for f in ("lpc", "__lpc_helper", "lpc2lpcc")])
def prediction(h, f):
    "linear prediction and its conversion"
    if f == "lpc":
        s = Setup(h, None)
        lp_contracts(h)
        pure(h, LP + f, s.sig, order=h.int("order", lo=2), **mark(s.kw))
    elif f == "__lpc_helper":
        pure(h, LP + f, h.arr("x", (h.int("n", lo=1),)), h.int("order", lo=1))
    else:
        pure(h, LP + f, h.arr("a", (h.int("p", lo=1),)), h.real("e", lo=0), h.int("n", lo=1))


@theorem("C26", cases=[dict(f=f) for f in (MTP, ALF, TM, WS, MPN, ANS)])
def pncc_stages(h, f):
    "the stages of PNCC"
    T, C, X, _ = mat(h, "X", nonneg=True)
    a = [h.arr("Q", (T, C), nonneg=True), C] if f == WS else []
    pure(h, f, X, *a, **(dict(nfilts=C) if f == MPN else {}))


@theorem("C26", cases=[dict(f=f) for f in ("compute_difference", "compute_cmnd", "get_pitch", "compute_yin", "dominant")])
def frequencies(h, f):
    "pitch and dominant frequency"
    n = h.int("n", lo=1)
    x = h.arr("x", (n,))
    tau = h.int("tau", lo=1)
    h.assume(t.le(tau.t, n.t))
    if f == "compute_difference":
        pure(h, YN + f, x, tau)
    elif f == "compute_cmnd":
        pure(h, YN + f, x, n)
    elif f == "get_pitch":
        pure(h, YN + f, x, h.int("lo", lo=0), tau, h.real("th"))
    elif f == "compute_yin":
        pitch_contract(h)
        fs = h.int("fs", lo=3000)
        h.assume(t.lt(floor_(F("0.03") * asnum(fs)).t, n.t))
        pure(h, YN + f, x, fs)
    else:
        fs = h.int("fs", lo=100)
        h.assume(t.le(floor_(F("0.025") * asnum(fs)).t, n.t))
        pure(h, DF, x, fs, nfft=h.int("nfft", lo=1))


@theorem("C26", cases=[dict(f=f) for f in ("spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread", "spectral_flatness", "spectral_rolloff", "spectral_flux", "extract_feats")])
def descriptors(h, f):
    "spectral descriptors"
    n = h.int("bins", lo=2)
    S = h.arr("spectrum", (n,), "c")
    sig, fs = h.arr("sig", (h.int("n", lo=1),)), h.int("fs", lo=1)
    a = {"spectral_centroid": (fs, S), "extract_feats": (sig, fs)}.get(f) or ((S,) if f in ("spectral_entropy", "spectral_flatness", "spectral_rolloff", "spectral_flux") else (sig, fs, S))
    pure(h, SF + f, *a)


@theorem("C26", cases=[dict(f=f) for f in ("compute_constant_qtransform", "cqt_spectrogram")])
def constant_q(h, f):
    "the constant-Q transform"
    from .c27 import CQT, CQ, Cqt, cqt_params
    if f == "cqt_spectrogram":
        s = Setup(h, None)
        cqt_setup(h, s)
        pure(h, CQ + f, s.sig, **mark(s.kw))
    else:
        T, L, fs, nfft = h.int("frames", lo=1), h.int("length", lo=1), h.int("fs", lo=1), h.int("nfft", lo=1)
        p = cqt_params(h)
        Cqt(h, fs, nfft, "hamming", p)
        pure(h, CQT, h.arr("frame", (T, L)), fs=fs, nfft=nfft, win_type="hamming", **p)
