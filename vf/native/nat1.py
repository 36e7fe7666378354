"""C01-C11: converters, preprocessing, filter banks."""
import math
import numpy as np
from . import ref, ex
from .base import native, gen, signal, close, first, attempt


def conv(name):
    import spafe.utils.converters as cv
    return getattr(cv, name)


def _pair(c):
    k, ap = c["scale"], c["ap"]
    F = {"mel": ("hz2mel", "mel2hz"), "bark": ("hz2bark", "bark2hz"), "erb": ("hz2erb", "erb2hz")}[k]
    fwd, bwd = conv(F[0]), conv(F[1])
    R = {"mel": (ref.hz2mel, ref.mel2hz), "bark": (ref.hz2bark, ref.bark2hz), "erb": (lambda f, a: ref.hz2erb(f), lambda e, a: ref.erb2hz(e))}[k]
    if c.get("default"):
        return (lambda f: fwd(f)), (lambda f: bwd(f)), (lambda f: R[0](f, ap)), (lambda f: R[1](f, ap))
    return (lambda f: fwd(f, ap)), (lambda f: bwd(f, ap)), (lambda f: R[0](f, ap)), (lambda f: R[1](f, ap))


ALL = [("mel", a) for a in ref.MEL] + [("bark", a) for a in ref.BARK] + [("erb", "Glasberg")]
DEFAULTS = {("mel", "Oshaghnessy"), ("bark", "Wang"), ("erb", "Glasberg")}


def _freqs(g):
    fs = [0.0, 1.0, 19.0, 20.0, 100.0, 199.7, 205.3, 1000.0, 6600.0, 6542.0, 8000.0, 16000.0, 22050.0, 1e5, 0.001]
    fs += [float(x) for x in range(0, 24000, 997)]
    fs += [g.real(0, 30000) for _ in range(60)] + [10 ** g.real(-3, 5, 0) for _ in range(20)]
    return fs


@native("C01")
def inverse(c):
    fwd, bwd, _, _ = _pair(c)
    for f in c["f"]:
        if c["ap"] == "Zwicker" and f <= 0:
            continue
        back = float(bwd(fwd(f)))
        if not abs(back - f) <= 1e-6 * max(1.0, f):
            return "%s/%s: %r Hz converts to %r and back to %r" % (c["scale"], c["ap"], f, float(fwd(f)), back)
        z = float(fwd(f))
        z2 = float(fwd(bwd(z)))
        if not abs(z2 - z) <= 1e-6 * max(1.0, abs(z)):
            return "%s/%s: value %r converts to %r Hz and back to %r" % (c["scale"], c["ap"], z, float(bwd(z)), z2)
    if c["scale"] != "bark":
        for fs in (np.array(c["f"]), np.sort(c["f"]), np.array(c["f"][:1]), np.array(c["f"][-4:]).reshape(2, 2)):
            m = first(close("%s/%s array: back to Hz" % (c["scale"], c["ap"]), bwd(fwd(fs)), fs, 1e-6, 1e-6))
            if m:
                return m
    return None


@gen("C01", "inverse")
def _(g):
    for k in range(12):
        for s, a in ALL:
            c = {"scale": s, "ap": a, "f": _freqs(g)}
            yield c
            if (s, a) in DEFAULTS:
                yield dict(c, default=1)


@native("C02")
def closed_form(c):
    fwd, bwd, rf, rb = _pair(c)
    fs = sorted(set(f for f in c["f"] if not (c["ap"] == "Zwicker" and f <= 0)))
    prev = None
    for f in fs:
        z, w = float(fwd(f)), float(rf(f))
        if not abs(z - w) <= 1e-9 * max(1.0, abs(w)):
            return "%s/%s: %r Hz converts to %r, published formula gives %r" % (c["scale"], c["ap"], f, z, w)
        h, w2 = float(bwd(z)), float(rb(z))
        if not abs(h - w2) <= 1e-7 * max(1.0, abs(w2)):
            return "%s/%s: value %r converts to %r Hz, published formula gives %r" % (c["scale"], c["ap"], z, h, w2)
        if prev is not None and f > prev[0] * (1 + 1e-9) + 1e-9 and not z > prev[1]:
            return "%s/%s: not increasing between %r and %r Hz" % (c["scale"], c["ap"], prev[0], f)
        prev = (f, z)
    if c["scale"] == "mel":
        for nm in ("hz2mel", "mel2hz"):
            for bad in ("Nope", "", "oshaghnessy", "Wang"):
                r = attempt(conv(nm), 100.0, bad)
                if r[0] == "ok" or r[1] != "KeyError":
                    return "%s with approach %r: %s instead of KeyError" % (nm, bad, r[1] if r[0] != "ok" else "accepted")
    if c["ap"] != "Traunmueller" and len(fs):
        fa = np.array(fs)
        return first(close("%s/%s array input" % (c["scale"], c["ap"]), fwd(fa), rf(fa), 1e-9), close("%s/%s array input" % (c["scale"], c["ap"]), bwd(rf(fa)), rb(rf(fa)), 1e-7) if c["scale"] != "bark" else None)
    return None


gen("C02", "closed_form")(lambda g: [c for k in range(12) for s, a in ALL for c in ([{"scale": s, "ap": a, "f": _freqs(g)}] + ([{"scale": s, "ap": a, "f": _freqs(g), "default": 1}] if (s, a) in DEFAULTS else []))])


# ------------------------------------------------------------------ framing, pre-emphasis, windows
def pp(n):
    return ex.fn("preprocessing", n, "utils")


@native("C03")
def framing(c):
    x = signal(c["sig"])
    if c.get("view") == "rev":
        x = x[::-1]
    elif c.get("view") == "step":
        x = np.repeat(x, 2)[::2]
    elif c.get("view") == "list":
        x = [float(v) for v in x]
    fs, wl, wh = c["fs"], c["wl"], c["wh"]
    x0 = np.array(x)
    r = attempt(pp("framing"), x, fs, wl, wh)
    if wl < wh:
        return None if r[0] == "exc" and r[1] == "ParameterError" else "win_len %r < win_hop %r: %s instead of ParameterError" % (wl, wh, r[1] if r[0] == "exc" else "accepted")
    if r[0] == "exc":
        return "framing raises %s: %s" % (r[1], r[2])
    fr, L = r[1]
    want, L2 = ref.frames(x0, fs, wl, wh)
    if L != L2:
        return "frame length %r, expected %r" % (L, L2)
    m = close("frames", fr, want, 0, 0)
    if m:
        return m
    fr += 1
    if not np.array_equal(np.array(x), x0):
        return "changing the frames changes the signal"
    return None


@gen("C03", "framing")
def _(g):
    for k in range(400):
        fs = g.fs() if k % 3 else g.pick([1, 2, 10, 100])
        L = g.int(1, 40)
        H = g.int(1, L) if k % 4 else g.int(1, L + 5)
        n = L + g.int(0, 5 * H)
        if k % 7 == 0:
            n = L + H * g.int(0, 6)          # exact fit
        if k % 7 == 1:
            n = L + H * g.int(1, 6) - 1      # one sample short
        yield {"fs": fs, "wl": (L + 0.5) / fs, "wh": (H + 0.5) / fs, "sig": g.sig(n), "view": g.pick([None, None, "rev", "step", "list"])}
        if fs == 1 and H <= L:
            yield {"fs": 1, "wl": L, "wh": H, "sig": g.sig(n), "view": None}
    for k in range(10):
        yield {"fs": 16000, "wl": 0.025, "wh": 0.01, "sig": g.sig(g.int(401, 5000)), "view": None}
        yield {"fs": 16000, "wl": 0.02, "wh": 0.02, "sig": g.sig(g.int(401, 5000)), "view": None}
        yield {"fs": 16000, "wl": 0.01, "wh": 0.02, "sig": g.sig(g.int(401, 5000)), "view": None}


@native("C04")
def pre_emphasis(c):
    x = signal(c["sig"])
    return close("pre_emphasis", pp("pre_emphasis")(x, c["a"]) if not c.get("dflt") else pp("pre_emphasis")(x), ref.preemph(x, c["a"]), 1e-12)


@gen("C04", "pre_emphasis")
def _(g):
    for k in range(200):
        yield {"a": g.pick([0.0, 0.97, 1.0, 0.5, -0.3, g.real(-2, 2)]), "sig": g.sig(g.pick([1, 2, 3, g.int(1, 300)]))}
    yield {"a": 0.97, "dflt": 1, "sig": g.sig(50)}


def _ext_names(g, k, specs=True):
    names = list(ex.CEPS) + (["spec:" + s for s in ex.SPECS] if specs else [])
    return names[k % len(names)]


def _run(name, c, sig=None, **over):
    """value of an extractor or spectrogram as one array"""
    if name.startswith("spec:"):
        return np.hstack(ex.spec_call(name[5:], c, sig, **over))
    if name == "lpc":
        k = ex.kwargs("lpcc", dict(c, **over))
        k.pop("lifter", None), k.pop("normalize", None)
        return np.hstack(ex.fn("lpc", "lpc")(signal(c["sig"]) if sig is None else sig, **k))
    if name == "cqt":
        k = ex.kwargs("cqcc", dict(c, **over))
        for z in ("lifter", "normalize", "num_ceps", "dct_type", "resampling_ratio"):
            k.pop(z, None)
        v = ex.fn("cqcc", "cqt_spectrogram")(signal(c["sig"]) if sig is None else sig, **k)
        return np.hstack([v.real, v.imag])
    return ex.call(name, c, sig, **over)


def all_names():
    return list(ex.CEPS) + ["spec:" + s for s in ex.SPECS] + ["lpc", "cqt"]


def case_for(g, name, **kw):
    b = name[5:] if name.startswith("spec:") else {"lpc": "lpcc", "cqt": "cqcc"}.get(name, name)
    for _ in range(20):
        c = ex.base_case(g, b, **kw)
        c["ext"] = name
        if b == "cqcc" and not ex.cq_pitches(c):
            continue
        return c
    return None


def _lin(name):
    return 1e-5 if name in ("plp", "rplp", "lpcc", "lpc") else 1e-8


def _guard(f):
    """singular normal equations (silence) are outside the properties"""
    def run(c):
        try:
            return f(c)
        except np.linalg.LinAlgError:
            return None
    run.__name__ = f.__name__
    return run


@native("C04", "extractors", 3.0)
@_guard
def pre_ext(c):
    name = c["ext"]
    x = signal(c["sig"])
    a = _run(name, c, x, pre=True)
    b = _run(name, c, ref.preemph(x, c["coeff"]), pre=False)
    m = close("%s with pre_emph, coefficient %r, vs the filtered signal" % (name, c["coeff"]), a, b, _lin(name) * 10)
    if m:
        return m
    d = _run(name, c, x, pre=False)
    e = _run(name, c, x, pre=False, coeff=0.123)
    return close("%s without pre-emphasis: effect of the coefficient" % name, e, d, 0, 0)


@gen("C04", "extractors")
def _(g):
    ns = all_names()
    for k in range(40 * len(ns)):
        c = case_for(g, ns[k % len(ns)], kinds=["noise", "mix", "int16", "large", "f32"], frames=(2, 6), nffthi=300, nfhi=16)
        if c is not None:
            if c["ext"] == "psrcc":
                c["sig"]["kind"] = "noise"
            yield c


@native("C05")
def windowing(c):
    x = signal(c["sig"]).reshape(c["T"], c["L"]) if c["T"] else signal(c["sig"])
    w = pp("windowing")
    r = w(x, c["L"], c["wt"]) if c["wt"] != "dflt" else w(x, c["L"])
    m = close("windowing %s" % c["wt"], r, x * ref.WINS["hamming" if c["wt"] == "dflt" else c["wt"]](c["L"]), 1e-12)
    if m:
        return m
    q = attempt(w, x, c["L"], "nope")
    return None if q[0] == "exc" and q[1] == "KeyError" else "unknown window type: %s" % (q[1] if q[0] == "exc" else "accepted")


@gen("C05", "windowing")
def _(g):
    for k in range(300):
        T, L = g.int(0, 5), g.int(1, 60)
        yield {"T": T, "L": L, "wt": (list(ref.WINS) + ["dflt"])[k % 6], "sig": g.sig(max(1, T) * L)}


@native("C05", "extractors", 3.0)
@_guard
def win_ext(c):
    name = c["ext"]
    x = signal(c["sig"]).astype(float)
    fs = c["fs"]
    if c["mode"] == "default":
        a = _run(name, c, x, win=None)
        b = _run(name, c, x, win=[0.025, 0.010, "hamming"])
        return close("%s without window vs 25/10 ms Hamming" % name, a, b, 0, 0)
    wl, wh, wt = c["win"]
    L = int(wl * fs)
    ratio = ref.WINS[wt](L) / np.hamming(L)
    y = x.copy()
    n = (len(x) - L) // L + 1
    for i in range(n):
        y[i * L:(i + 1) * L] *= ratio
    a = _run(name, c, x)
    b = _run(name, c, y, win=[wl, wh, "hamming"])
    if name in ("cqt", "cqcc"):
        return None
    return close("%s with window %s vs Hamming on the reweighted signal" % (name, wt), a, b, _lin(name) * 100)


@gen("C05", "extractors")
def _(g):
    ns = all_names()
    for k in range(40 * len(ns)):
        c = case_for(g, ns[k % len(ns)], kinds=["noise", "mix", "large"], frames=(2, 6), nffthi=300, nfhi=16)
        if c is None:
            continue
        c["pre"] = False
        if (k // len(ns)) % 3 == 2:
            c["mode"] = "default"
            c["win"] = None
            c["sig"]["n"] = max(c["sig"]["n"], int(0.06 * c["fs"]))
        else:
            c["mode"] = "ratio"
            c["win"] = g.window(c["fs"], 0.02, nonover=True)
            L = int(c["win"][0] * c["fs"])
            c["sig"]["n"] = L * g.int(2, 5)
            if c["ext"] == "psrcc":
                c["sig"]["kind"] = "noise"
        yield c


@native("C05", "cqt_window", 0.5)
def cqt_win(c):
    name = c["ext"]
    if name == "cqcc":
        return ex.compare("cqcc", c, ex.call("cqcc", c))
    x = signal(c["sig"])
    w = ref.windowed(x, c["fs"], c["win"], c["pre"], c["coeff"])
    want = ref.cqt(w, c["fs"], c["low"], c["high"], c["nfft"], c["octs"], c["bpo"], (c["win"] or ref.DEFWIN)[2], c["thr"], c["f0"], c["q"])
    return close("cqt with window %s" % (c["win"] and c["win"][2]), _run("cqt", c), np.hstack([want.real, want.imag]), 1e-6)


@gen("C05", "cqt_window")
def _(g):
    for k in range(30):
        c = case_for(g, ["cqt", "cqcc"][k % 2], plain=True, kinds=["noise", "mix"], frames=(2, 4))
        if c:
            yield c


# ------------------------------------------------------------------ banks
APS = {"mel": ref.MEL, "imel": ref.MEL, "bark": ["Wang", "Tjomov", "Schroeder", "Terhardt", "Traunmueller", "Zwicker"], "gamma": ["Glasberg"], "lin": [None]}


def bank_case(g, kind, valid=True):
    fs = g.fs()
    nfft = g.nfft(2 if g.maybe(0.1) else 16, 800)
    low, high = g.band(fs)
    ap = g.pick(APS[kind])
    if ap == "Zwicker" and low <= 0:
        low = 50.0
        if high is not None and high <= low:
            high = None
    nf = g.int(1, 40)
    c = {"kind": kind, "fs": fs, "nfft": nfft, "low": low, "high": high, "nfilts": nf, "scale": g.scale()}
    if ap:
        c["ap"] = ap
    if kind == "gamma" and g.maybe(0.3):
        c["order"] = g.pick([1, 2, 3, 4, 5])
    if kind == "bark":
        for key, v in (("low", low), ("high", high if high is not None else fs / 2)):
            q = (nfft + 1) * v / fs
            if abs(q - round(q)) < 1e-6 and not (key == "low" and v == 0):
                c[key] = (round(q) + (0.3 if key == "low" else -0.3)) * fs / (nfft + 1)
    return c


@native("C06")
def bank_shape(c):
    lo, hi, fs = c["low"], c["high"], c["fs"]
    r = attempt(ex.bank_call, c["kind"], c)
    bad = lo < 0 or (hi is not None and hi > fs / 2)
    if bad:
        return None if r[0] == "exc" and r[1] == "ParameterError" else "%s bank, band [%r, %r] at fs %r: %s instead of ParameterError" % (c["kind"], lo, hi, fs, r[1] if r[0] == "exc" else "accepted")
    if r[0] == "exc":
        return "%s bank raises %s: %s" % (c["kind"], r[1], r[2])
    B, cf = r[1]
    K = c["nfft"] // 2 + 1
    if np.shape(B) != (c["nfilts"], K):
        return "%s bank: shape %s, expected %s" % (c["kind"], np.shape(B), (c["nfilts"], K))
    if np.shape(cf) != (c["nfilts"],):
        return "%s bank: %s centre frequencies, expected %d" % (c["kind"], np.shape(cf), c["nfilts"])
    return None


@gen("C06", "bank_shape")
def _(g):
    for k in range(300):
        for kind in ex.BANKS:
            c = bank_case(g, kind)
            if k % 5 == 1:
                c["low"] = -g.real(1e-6, 100)
            elif k % 5 == 2:
                c["high"] = c["fs"] / 2 + g.pick([1e-6, 1, g.real(0.1, 5000)])
            elif k % 5 == 3:
                c["high"] = c["fs"] / 2
                c["low"] = 0 if c.get("ap") != "Zwicker" else 20.0
            yield c


def _near_edge(c, e):
    """a column frequency within rounding of an edge: values there are continuous, so only a tolerance matters"""
    return False


@native("C07")
def triangles(c):
    kind = c["kind"]
    B, cf = ex.bank_call(kind, c)
    want, cw, e = ref.tri_bank(c["nfilts"], c["nfft"], c["fs"], c["low"], c["high"], c["scale"], kind, c.get("ap"))
    return first(close("%s weights" % kind, B, want, 1e-7, 1e-8), close("%s centres" % kind, cf, cw, 1e-9))


@gen("C07", "triangles")
def _(g):
    for k in range(300):
        for kind in ("mel", "lin"):
            yield bank_case(g, kind)


@native("C08", "Fm")
def fm(c):
    f = ex.fn("bark_fbanks", "Fm", "fbanks")
    for d in c["d"]:
        if min(abs(d + 1.3), abs(d - 2.5), abs(d + 0.5), abs(d - 0.5)) < 1e-9:
            continue
        for fc in c["fc"]:
            v, w = float(f(fc + d, fc)), ref.crit(d)
            if not abs(v - w) <= 1e-8:
                return "Fm(%r, %r) = %r, critical-band curve at distance %r is %r" % (fc + d, fc, v, d, w)
    return None


@gen("C08", "Fm")
def _(g):
    for k in range(20):
        yield {"d": [g.real(-4, 4) for _ in range(60)] + [-1.3 + 1e-6, -1.3 - 1e-6, 2.5 - 1e-6, 2.5 + 1e-6, -0.5 + 1e-6, -0.5 - 1e-6, 0.5 - 1e-6, 0.5 + 1e-6, 0.0, 1.0, 2.0, -1.0], "fc": [0.0, g.real(0, 25)]}


@native("C08", "bark_bank", 2.0)
def bark_bank(c):
    B, cf = ex.bank_call("bark", c)
    want, cw = ref.bark_bank(c["nfilts"], c["nfft"], c["fs"], c["low"], c["high"], c["scale"], c.get("ap"))
    # columns where the curve jumps (distance exactly at a limit) are left out
    d = ref.hz2bark(np.maximum(np.arange(want.shape[1]), 1e-9 if c.get("ap") == "Zwicker" else 0) * c["fs"] / (c["nfft"] + 1), c.get("ap"))[None, :] - cw[:, None]
    far = np.min([abs(d - v) for v in (-1.3, 2.5)], axis=0) > 1e-9
    if np.shape(B) == want.shape:
        B = np.where(far, B, want)
    return first(close("bark weights", B, want, 1e-7, 1e-8), close("bark centres", cf, cw, 1e-9))


@gen("C08", "bark_bank")
def _(g):
    for k in range(250):
        c = bank_case(g, "bark")
        c["nfft"] = min(c["nfft"], 300 if k % 5 else 800)
        for key, v in (("low", c["low"]), ("high", c["high"] if c["high"] is not None else c["fs"] / 2)):
            q = (c["nfft"] + 1) * v / c["fs"]
            if abs(q - round(q)) < 1e-6 and not (key == "low" and v == 0):
                c[key] = (round(q) + (0.3 if key == "low" else -0.3)) * c["fs"] / (c["nfft"] + 1)
        yield c


@native("C09")
def gamma(c):
    B, cf = ex.bank_call("gamma", c)
    want, ew, fc = ref.gamma_bank(c["nfilts"], c["nfft"], c["fs"], c["low"], c["high"], c["scale"], c.get("order", 4))
    f = ex.fn("gammatone_fbanks", "generate_center_frequencies", "fbanks")
    hi = c["fs"] / 2 if c["high"] is None else c["high"]
    m = first(close("gammatone centres", f(c["low"], hi, c["nfilts"]), fc, 1e-9, 1e-8), close("gammatone centres in ERB", cf, ew, 1e-9, 1e-9), close("gammatone weights", B, want, 1e-6))
    if m:
        return m
    r = ref.ramp(c["scale"], c["nfilts"])
    B = np.asarray(B)
    if (B < 0).any() or (B > r[:, None] * (1 + 1e-12)).any() or not np.allclose(B.max(1), r, rtol=1e-12):
        return "gammatone row maxima %r, expected %r" % (B.max(1)[:4], r[:4])
    return None


@gen("C09", "gamma")
def _(g):
    for k in range(250):
        yield bank_case(g, "gamma")


@native("C10")
def ramp(c):
    f = ex.fn("filters", "scale_fbank", "utils")
    for n in c["n"]:
        for s in ("ascendant", "descendant", "constant"):
            m = close("scale_fbank(%r, %d)" % (s, n), f(s, n), ref.ramp(s, n)[:, None], 1e-12)
            if m:
                return m
    for s in ("nope", "", "Constant", "ascending"):
        r = attempt(f, s, 5)
        if r[0] == "ok" or r[1] != "KeyError":
            return "scaling name %r: %s instead of KeyError" % (s, r[1] if r[0] == "exc" else "accepted")
    return None


gen("C10", "ramp")(lambda g: [{"n": [1, 2, 3, 24, 26, g.int(1, 100), g.int(1, 100)]} for _ in range(20)])


@native("C10", "banks", 3.0)
def scaled_banks(c):
    k = c["kind"]
    B0, c0 = ex.bank_call(k, dict(c, scale="constant"))
    B1, c1 = ex.bank_call(k, c)
    s = ref.OPP[c["scale"]] if k == "imel" else c["scale"]
    r = ref.ramp(s, c["nfilts"])
    return first(close("%s bank with scale %s vs constant bank times ramp" % (k, c["scale"]), B1, np.asarray(B0) * r[:, None], 1e-9),
                 close("%s centres with scale %s" % (k, c["scale"]), c1, c0, 0, 0))


@gen("C10", "banks")
def _(g):
    for k in range(200):
        for kind in ex.BANKS:
            c = bank_case(g, kind)
            c["nfft"] = min(c["nfft"], 200)
            c["scale"] = g.pick(["ascendant", "descendant"])
            yield c
    for kind in ex.BANKS:
        r = bank_case(g, kind)
        yield r


@native("C11")
def mirror(c):
    Bi, ci = ex.bank_call("imel", c)
    B, cm = ex.bank_call("mel", dict(c, scale=ref.OPP[c["scale"]]))
    want, cw, e = ref.imel_bank(c["nfilts"], c["nfft"], c["fs"], c["low"], c["high"], c["scale"], c["ap"])
    hi = c["fs"] / 2 if c["high"] is None else c["high"]
    return first(close("inverse mel bank vs mirrored mel bank", Bi, np.asarray(B)[:, ::-1], 1e-9, 1e-10), close("inverse mel bank", Bi, want, 1e-7, 1e-8),
                 close("inverse mel centres", ci, ref.hz2mel(c["low"] + hi - ref.mel2hz(np.asarray(cm), c["ap"]), c["ap"]), 1e-8), close("inverse mel centres (reference)", ci, cw, 1e-8))


gen("C11", "mirror")(lambda g: [bank_case(g, "imel") for _ in range(400)])
