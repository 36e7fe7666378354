"""The extractors and spectrograms: how to call them, and what they must return (reference)."""
import importlib
import math
import numpy as np
from . import ref
from .base import signal, close

# name: (module, function, bank kind, approach kind, default nfilts, compression)
CEPS = {
    "mfcc": ("mfcc", "mfcc", "mel", "mel", 24, "log"),
    "imfcc": ("mfcc", "imfcc", "imel", "mel", 24, "log"),
    "lfcc": ("lfcc", "lfcc", "lin", None, 24, "log"),
    "bfcc": ("bfcc", "bfcc", "bark", "bark", 26, "ipl"),
    "gfcc": ("gfcc", "gfcc", "gamma", "erb", 24, "cube"),
    "ngcc": ("ngcc", "ngcc", "gamma", "erb", 24, "log"),
    "msrcc": ("msrcc", "msrcc", "mel", "mel", 24, "gamma"),
    "psrcc": ("psrcc", "psrcc", "mel", "mel", 26, "phase"),
    "pncc": ("pncc", "pncc", "gamma", "erb", 24, "pncc"),
    "plp": ("rplp", "plp", "bark", "bark", 24, "plp"),
    "rplp": ("rplp", "rplp", "bark", "bark", 24, "rplp"),
    "lpcc": ("lpc", "lpcc", None, None, None, "lpcc"),
    "cqcc": ("cqcc", "cqcc", None, None, None, "cqcc"),
}
SPECS = {
    "mel": ("mfcc", "mel_spectrogram", "mel", "mel"),
    "lin": ("lfcc", "linear_spectrogram", "lin", None),
    "bark": ("bfcc", "bark_spectrogram", "bark", "bark"),
    "erb": ("gfcc", "erb_spectrogram", "gamma", "erb"),
}
BANKS = {"mel": ("mel_fbanks", "mel_filter_banks", "mel"), "imel": ("mel_fbanks", "inverse_mel_filter_banks", "mel"), "lin": ("linear_fbanks", "linear_filter_banks", None),
         "bark": ("bark_fbanks", "bark_filter_banks", "bark"), "gamma": ("gammatone_fbanks", "gammatone_filter_banks", "erb")}
FBANK = [k for k in CEPS if CEPS[k][2]]
ENERGY = ["mfcc", "imfcc", "lfcc", "bfcc", "gfcc", "ngcc", "msrcc", "psrcc"]


def fn(mod, name, pkg="features"):
    return getattr(importlib.import_module("spafe.%s.%s" % (pkg, mod)), name)


def sw(w):
    if w is None:
        return None
    from spafe.utils.preprocessing import SlidingWindow
    return SlidingWindow(w[0], w[1], w[2])


def user_bank(d, K):
    if d is None:
        return None
    r = np.random.default_rng(d["seed"])
    b = r.random((d["rows"], K)) * (r.random((d["rows"], K)) < 0.6)
    if d.get("zero"):
        b[d["rows"] // 2] = 0
    return b * (1.0, 3.0, 0.25)[d["seed"] % 3]


def kwargs(name, c):
    """keyword arguments of a cepstral extractor for the case c (missing keys: the library's defaults)"""
    mod, f, bk, apk, dnf, comp = CEPS[name]
    k = {}
    m = {"fs": "fs", "pre": "pre_emph", "coeff": "pre_emph_coeff", "lifter": "lifter", "norm": "normalize"}
    for a, b in m.items():
        if a in c:
            k[b] = c[a]
    if "win" in c:
        k["window"] = sw(c["win"])
    if "nceps" in c:
        k["order" if comp in ("plp", "rplp", "lpcc") else "num_ceps"] = c["nceps"]
    if comp != "lpcc":
        for a, b in {"nfft": "nfft", "low": "low_freq", "high": "high_freq"}.items():
            if a in c:
                k[b] = c[a]
    if bk:
        for a in ("nfilts", "scale"):
            if a in c:
                k[a] = c[a]
        if c.get("bank") is not None:
            k["fbanks"] = user_bank(c["bank"], c.get("nfft", 512) // 2 + 1)
        if apk and "ap" in c:
            k["conversion_approach"] = c["ap"]
    if comp not in ("plp", "rplp", "lpcc") and "dct" in c:
        k["dct_type"] = c["dct"]
    if name in ENERGY and "energy" in c:
        k["use_energy"] = c["energy"]
    if comp in ("gamma", "phase") and "gamma" in c:
        k["gamma"] = c["gamma"]
    if comp == "pncc" and "power" in c:
        k["power"] = c["power"]
    if comp == "cqcc":
        for a, b in {"octs": "number_of_octaves", "bpo": "number_of_bins_per_octave", "ratio": "resampling_ratio", "thr": "spectral_threshold", "f0": "f0", "q": "q_rate"}.items():
            if a in c:
                k[b] = c[a]
    return k


def call(name, c, sig=None, **over):
    k = kwargs(name, dict(c, **over))
    return fn(CEPS[name][0], CEPS[name][1])(signal(c["sig"]) if sig is None else sig, **k)


def spec_call(name, c, sig=None, **over):
    c = dict(c, **over)
    k = {}
    for a, b in {"fs": "fs", "pre": "pre_emph", "coeff": "pre_emph_coeff", "nfilts": "nfilts", "nfft": "nfft", "low": "low_freq", "high": "high_freq", "scale": "scale"}.items():
        if a in c:
            k[b] = c[a]
    if "win" in c:
        k["window"] = sw(c["win"])
    if SPECS[name][3] and "ap" in c:
        k["conversion_approach"] = c["ap"]
    if c.get("bank") is not None:
        k["fbanks"] = user_bank(c["bank"], c["nfft"] // 2 + 1) if isinstance(c["bank"], dict) else c["bank"]
    return fn(SPECS[name][0], SPECS[name][1])(signal(c["sig"]) if sig is None else sig, **k)


def bank_call(name, c):
    mod, f, apk = BANKS[name]
    k = {}
    for a, b in {"nfilts": "nfilts", "nfft": "nfft", "fs": "fs", "low": "low_freq", "high": "high_freq", "scale": "scale", "order": "order"}.items():
        if a in c and not (a == "order" and name != "gamma"):
            k[b] = c[a]
    if apk and "ap" in c:
        k["conversion_approach"] = c["ap"]
    return fn(mod, f, "fbanks")(**k)


def bank_for(kind, c):
    K = c["nfft"] // 2 + 1
    if c.get("bank") is not None:
        return user_bank(c["bank"], K)
    # the library's own bank for these parameters (C06-C11 compare it with the reference; weights within rounding of 0 matter after log or power)
    return np.asarray(bank_call(kind, c)[0])


class Skip(Exception):
    pass


def reference(name, c):
    """what extractor `name` must return on the (complete) case c"""
    mod, f, bk, apk, dnf, comp = CEPS[name]
    x = signal(c["sig"])
    w = ref.windowed(x, c["fs"], c["win"], c["pre"], c["coeff"])
    if comp == "lpcc":
        out = []
        for fr in w:
            a, e, r, R = ref.lpc_frame(fr, c["nceps"] - 1)
            if c["nceps"] > 1 and np.linalg.cond(R) > 1e8:
                raise Skip()
            out.append(ref.lpc2lpcc(a, e, c["nceps"]))
        return ref.post(np.array(out), c["lifter"], c["norm"])
    if comp == "cqcc":
        q = ref.cqt(w, c["fs"], c["low"], c["high"], c["nfft"], c["octs"], c["bpo"], (c["win"] or ref.DEFWIN)[2], c["thr"], c["f0"], c["q"])
        lg = np.log(ref.nozero(np.abs(q) ** 2)).T
        rs = ref.resample(lg, int(len(lg) * c["ratio"]))
        return ref.post(ref.odct(rs, c["dct"], c["nceps"]), c["lifter"], c["norm"])
    B = bank_for(bk, c)
    F = ref.fft_half(w, c["nfft"])
    P = np.abs(F) ** 2 / c["nfft"]
    S = P @ B.T
    if comp in ("plp", "rplp"):
        if comp == "rplp":
            S = np.exp(ref.rasta(np.log(ref.nozero(S))))
        Lc = ref.ipl(S)
        iv = np.abs(np.fft.ifft(Lc, c["nfft"]))
        out = []
        for fr in iv:
            a, e, r, R = ref.lpc_frame(fr, c["nceps"] - 1)
            if c["nceps"] > 1 and not (np.linalg.cond(R) <= 1e7):
                raise Skip()
            out.append(ref.lpc2lpcc(a, e, c["nceps"]))
        return ref.post(np.array(out), c["lifter"], c["norm"])
    if comp == "log":
        V = np.log(ref.nozero(S))
    elif comp == "ipl":
        V = np.log(ref.nozero(ref.ipl(S)))
    elif comp == "cube":
        V = S ** (1 / 3)
    elif comp == "gamma":
        V = ref.nozero(S) ** c["gamma"]
    elif comp == "phase":
        ph = np.degrees(np.angle(np.fft.rfft(w, c["nfft"])))
        ph = np.where(ph < 0, ph + 360, ph)
        V = ref.nozero(ph @ B.T) ** c["gamma"]
    elif comp == "pncc":
        Pp = (np.abs(F) ** c["power"] / c["nfft"]) @ B.T
        Q = ref.medium_power(Pp)
        Rt = ref.anstm(Q)
        St = ref.wsmooth(Rt, Q)
        V = ref.mpn(Pp * St) ** (1 / 15)
    C = ref.odct(V, c["dct"], c["nceps"]).copy()
    if c.get("energy") and name in ENERGY:
        C[:, 0] = np.log(ref.nozero(P.sum(1)))
    return ref.post(C, c["lifter"], c["norm"])


# ------------------------------------------------------------------ case generation
def base_case(g, name, plain=False, kinds=None, nfhi=30, frames=(2, 14), nffthi=700):
    """a complete valid case for extractor or spectrogram `name`"""
    comp = CEPS[name][5] if name in CEPS else None
    apk = CEPS[name][3] if name in CEPS else SPECS[name][3]
    fs = g.fs()
    nfft = g.nfft(32, nffthi)
    if comp == "cqcc":
        nfft = g.pick([512, 600, 1024, 777, 901])
    wl = g.pick([0.01, 0.02, 0.03])
    win = g.window(fs, wl)
    Lw = int((win or ref.DEFWIN)[0] * fs)
    Hw = int((win or ref.DEFWIN)[1] * fs)
    n = Lw + Hw * g.int(frames[0] - 1, frames[1] - 1, 0.1) + g.int(0, max(0, Hw - 1), 0)
    low, high = g.band(fs)
    nf = g.int(4, nfhi)
    if g.maybe(0.05) and comp not in ("plp", "rplp"):
        nf = g.int(1, 3)
    # a filter-bank row without any column is legal, so is a coarse FFT
    nc = g.int(1, nf)
    ap = {"mel": ref.MEL, "bark": ["Wang", "Tjomov", "Schroeder", "Terhardt", "Traunmueller"], "erb": ["Glasberg"], None: [None]}[apk]
    c = {"ext": name, "fs": fs, "nfft": nfft, "win": win, "sig": g.sig(n, kinds), "low": low, "high": high, "nfilts": nf, "nceps": nc, "scale": g.scale(),
         "ap": g.pick(ap), "pre": g.maybe(0.5), "coeff": round(g.real(0.1, 0.99, 0.1), 3) if g.maybe(0.75) else g.pick([0.0, 0.0, 1.0, 1.5, -0.5, 0.97]), "dct": g.pick([2, 2, 1, 3, 4]) if nf > 1 else 2, "energy": False, "lifter": None, "norm": None,
         "gamma": g.pick([-1 / 7, -0.5, 0.3, 1 / 3, 2.0]), "power": g.pick([2, 2, 1, 3]), "bank": None}
    if c["ap"] is None:
        del c["ap"]
    if apk == "bark":
        # keep the first and last bin away from a bin boundary (floor of a rounded value)
        for key, v in (("low", low), ("high", high if high is not None else fs / 2)):
            q = (nfft + 1) * v / fs
            if abs(q - round(q)) < 1e-6 and not (key == "low" and v == 0):
                q2 = round(q) + 0.3 if key == "low" else round(q) - 0.3
                c[key] = q2 * fs / (nfft + 1)
    if g.maybe(0.2):
        c["bank"] = {"rows": nf, "seed": g.r.randint(0, 999), "zero": g.maybe(0.3)}
    if comp == "lpcc":
        c["nceps"] = g.int(2, 16)
    if comp in ("plp", "rplp"):
        c["nceps"] = min(g.int(2, 13), nf)
        c["nfilts"] = max(nf, 4)
        if c["bank"]:
            c["bank"]["rows"] = c["nfilts"]
    if comp == "cqcc":
        c.update(octs=g.int(1, 7), bpo=g.pick([12, 24, 6, 18]), ratio=g.pick([1.0, 1.0, 0.5, 1.5, 2.0]), thr=g.pick([0.005, 0.0054, 0.02]), f0=g.pick([120, 200, 400.0, 87.3]), q=g.pick([1.0, 0.7, 1.3]))
        c["low"] = g.pick([0, 0, 300.0])
        c["high"] = g.pick([None, fs / 2, fs / 3])
        c["dct"] = 2
        if int(((c["sig"]["n"] - Lw) // Hw + 1) * c["ratio"]) < 1:
            c["ratio"] = 1.0
    if not plain:
        if g.maybe(0.3):
            c["lifter"] = g.pick([0, 3, 1, 0.6, 10, 11, 22, -1, -2, -22, -12])
        if g.maybe(0.3):
            c["norm"] = g.pick(["mvn", "ms", "vn", "mn"])
        if name in ENERGY and g.maybe(0.3):
            c["energy"] = True
    return c


def cq_pitches(c):
    """number of constant-Q pitches, None when borderline"""
    Q = c["q"] / (2 ** (1.0 / c["bpo"]) - 1)
    hi = c["high"] or c["fs"] / 2
    n = 0
    for i in range(c["octs"] * c["bpo"]):
        f = c["f0"] * 2 ** (i / c["bpo"])
        v = Q * c["fs"] / f
        if abs(f - c["low"]) < 1e-9 * f or abs(f - hi) < 1e-9 * f or abs(v - round(v)) < 1e-9 * v:
            return None
        if c["low"] <= f <= hi and math.ceil(v) <= c["nfft"]:
            n += 1
    return n


TOL = {"rplp": 1e-4, "plp": 1e-4, "lpcc": 1e-5}


def compare(name, c, got, label=None):
    try:
        want = reference(name, c)
    except Skip:
        return None
    except np.linalg.LinAlgError:
        return None
    return close(label or name, got, want, TOL.get(name, 1e-6))
