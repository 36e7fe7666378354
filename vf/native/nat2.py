"""C12-C18: spectrograms and cepstral extractors."""
import math
import numpy as np
from . import ref, ex
from .base import native, gen, signal, close, first, attempt
from .nat1 import case_for, _run, _guard, all_names


@native("C12")
def spectrogram(c):
    n = c["ext"][5:]
    kind = ex.SPECS[n][2]
    S, M = ex.spec_call(n, c)
    x = signal(c["sig"])
    w = ref.windowed(x, c["fs"], c["win"], c["pre"], c["coeff"])
    Mw = np.abs(ref.fft_half(w, c["nfft"]))
    B = ex.bank_for(kind, c)
    m = first(close(n + " magnitudes", M, Mw, 1e-9), close(n + " spectrogram", S, (Mw ** 2 / c["nfft"]) @ B.T, 1e-7))
    if m:
        return m
    if (np.asarray(S) < 0).any():
        return n + " spectrogram has negative values"
    if c["bank"] is None:
        b = ex.bank_call(kind, c)[0]
        S2, M2 = ex.spec_call(n, c, bank=np.asarray(b))
        m = first(close(n + " with its own bank supplied", S2, S, 1e-12), close(n + " magnitudes with its own bank supplied", M2, M, 0, 0))
    return m


@gen("C12", "spectrogram")
def _(g):
    for k in range(120):
        for s in ex.SPECS:
            c = case_for(g, "spec:" + s, kinds=None if k % 6 else ["silence", "isilence", "const"], frames=(1, 8), nffthi=400)
            yield c


# ------------------------------------------------------------------ C13
def nframes(c):
    w = c["win"] or ref.DEFWIN
    L, H = int(w[0] * c["fs"]), int(w[1] * c["fs"])
    return (c["sig"]["n"] - L) // H + 1


@native("C13")
def shapes(c):
    name = c["ext"]
    r = attempt(ex.call, name, c)
    comp = ex.CEPS[name][5]
    w = c["win"] or ref.DEFWIN
    bad = None
    hi = c["high"]
    if ex.CEPS[name][2]:
        if c["nceps"] > c["nfilts"]:
            bad = "more coefficients than filters"
        elif c["bank"] is None and (c["low"] < 0 or (hi is not None and hi > c["fs"] / 2)):
            bad = "band outside [0, fs/2]"
    if comp == "cqcc" and hi is not None and hi > c["fs"] / 2:
        bad = "high_freq > fs/2"
    if w[0] < w[1]:
        bad = bad or "win_len < win_hop"
    if bad:
        return None if r[0] == "exc" and r[1] == "ParameterError" else "%s, %s: %s instead of ParameterError" % (name, bad, "%s (%s)" % (r[1], r[2]) if r[0] == "exc" else "accepted")
    if r[0] == "exc":
        if r[1] == "LinAlgError":
            return None
        return "%s raises %s: %s" % (name, r[1], r[2])
    T = nframes(c)
    nc = c["nceps"]
    if comp == "cqcc":
        T = int(T * c["ratio"])
        nc = min(nc, ex.cq_pitches(c))
    if np.shape(r[1]) != (T, nc):
        return "%s returns shape %s, expected %s" % (name, np.shape(r[1]), (T, nc))
    return None


@gen("C13", "shapes")
def _(g):
    ns = list(ex.CEPS)
    for k in range(40 * len(ns)):
        c = case_for(g, ns[k % len(ns)], frames=(1, 6), nffthi=300, nfhi=26)
        if c is None:
            continue
        q = (k // len(ns)) % 6
        if c["norm"] and ns[k % len(ns)] in ("lpcc", "plp", "rplp"):
            c["norm"] = None
        if q == 1:
            c["nceps"] = c["nfilts"] + g.int(1, 5) if ex.CEPS[c["ext"]][2] else c["nceps"]
        elif q == 2:
            c["high"] = c["fs"] / 2 + g.pick([0.001, 10, 1000.0])
            if c["ext"] != "cqcc" and g.maybe(0.3):
                c["low"], c["high"] = -g.real(0.001, 50), None
        elif q == 3:
            w = c["win"] or ref.DEFWIN
            c["win"] = [w[0], w[0] + 1.5 / c["fs"], w[2]]
            c["sig"]["n"] += 2000
        yield c


# ------------------------------------------------------------------ C14
@native("C14")
@_guard
def definition(c):
    name = c["ext"]
    got = ex.call(name, c)
    m = ex.compare(name, c, got)
    if m:
        return m
    k = c.get("fewer")
    if k:
        return close("%s with %d of %d coefficients" % (name, k, c["nceps"]), ex.call(name, c, nceps=k), np.asarray(got)[:, :k], 0, 0)
    return None


C14 = ["mfcc", "imfcc", "lfcc", "ngcc", "bfcc", "gfcc", "msrcc", "psrcc"]


@gen("C14", "definition")
def _(g):
    for k in range(60):
        for name in C14:
            c = case_for(g, name, plain=True, kinds=None if k % 5 else ["gap", "silence", "noise"], frames=(1, 6), nffthi=400)
            if name == "psrcc":
                c["sig"]["kind"] = g.pick(["noise", "gap", "noise", "int16"])
            c["fewer"] = g.int(1, c["nceps"])
            yield c


@native("C14", "intensity_law", 0.2)
def ipl(c):
    f = ex.fn("bfcc", "intensity_power_law")
    x = np.array(c["w"])
    return close("intensity_power_law", f(x), ref.ipl(x), 1e-9)


gen("C14", "intensity_law")(lambda g: [{"w": [0.0, 1.0, 1e-8, 1e6, 1e3] + [10 ** g.real(-6, 7, 0) for _ in range(30)]} for _ in range(20)])


# ------------------------------------------------------------------ C15
@native("C15")
def energy(c):
    name = c["ext"]
    a = np.asarray(ex.call(name, c, energy=True))
    b = np.asarray(ex.call(name, c, energy=False))
    w = ref.windowed(signal(c["sig"]), c["fs"], c["win"], c["pre"], c["coeff"])
    P = np.abs(ref.fft_half(w, c["nfft"])) ** 2 / c["nfft"]
    e = np.log(ref.nozero(P.sum(1)))
    return first(close(name + " coefficient 0 with use_energy", a[:, 0], e, 1e-8), close(name + " other coefficients with use_energy", a[:, 1:], b[:, 1:], 0, 0))


@gen("C15", "energy")
def _(g):
    for k in range(60):
        for name in ex.ENERGY:
            yield case_for(g, name, plain=True, kinds=None if k % 5 else ["gap", "silence", "noise"], frames=(1, 5), nffthi=300, nfhi=16)


# ------------------------------------------------------------------ C16, C17
LIFTS = [0, 1, 2, 3, 0.6, 1.5, 10, 10.5, 11, 22, 100, -1, -2, -3, -22, -12, -1.5, -22.7]


@native("C16")
def lifter(c):
    f = ex.fn("cepstral", "lifter_ceps", "utils")
    x = np.random.default_rng(c["seed"]).standard_normal((c["n"], c["m"]))
    for lift in c["lifts"]:
        m = close("lifter_ceps(lift=%r)" % lift, f(x, lift), ref.lifter(x, lift), 1e-9)
        if m:
            return m
    return None if c["m"] < 2 else close("lifter_ceps default", f(x), ref.lifter(x, 3), 1e-9)


gen("C16", "lifter")(lambda g: [{"n": g.int(1, 6), "m": g.int(1, 30), "seed": k, "lifts": LIFTS + [g.int(1, 12), -g.int(1, 40), g.real(0.1, 10)]} for k in range(60)])


@native("C16", "extractors", 4.0)
@_guard
def lift_ext(c):
    name = c["ext"]
    a = ex.call(name, c, norm=None)
    b = ex.call(name, c, norm=None, lifter=None)
    return close("%s with lifter %r" % (name, c["lifter"]), a, ref.lifter(np.asarray(b), c["lifter"]), 1e-8)


@gen("C16", "extractors")
def _(g):
    for k in range(50):
        for name in ex.CEPS:
            c = case_for(g, name, kinds=["noise", "mix", "int16", "large"], frames=(1, 4), nffthi=256, nfhi=16)
            if c is None:
                continue
            c["lifter"] = LIFTS[k % len(LIFTS)] if k < 2 * len(LIFTS) else g.pick([g.int(1, 12), -g.int(1, 30)])
            yield c


@native("C17")
def norm(c):
    f = ex.fn("cepstral", "normalize_ceps", "utils")
    x = np.random.default_rng(c["seed"]).standard_normal((c["n"], c["m"])) * c["s"] + c["o"]
    for k in ("mvn", "ms", "vn", "mn"):
        y = f(x, k)
        m = close("normalize_ceps(%s)" % k, y, ref.normalise(x, k), 1e-8)
        if m:
            return m
        sc = 1e-7 * (1 + abs(c["o"]) / c["s"]) * (c["s"] + 1)
        y = np.asarray(y)
        if k in ("mvn", "ms") and np.abs(y.mean(0)).max() > sc:
            return "normalize_ceps(%s): column means %r" % (k, y.mean(0)[:3])
        if k == "vn" and abs(y.std() - 1) > 1e-6:
            return "normalize_ceps(vn): overall standard deviation %r" % y.std()
        if k == "mn" and (abs(y.mean()) > sc or abs(y.max() - y.min() - 1) > 1e-6):
            return "normalize_ceps(mn): mean %r, range %r" % (y.mean(), y.max() - y.min())
    return close("normalize_ceps default", f(x), ref.normalise(x, "mvn"), 1e-8)


gen("C17", "norm")(lambda g: [{"n": g.int(2, 12), "m": g.int(1, 20), "seed": k, "s": g.pick([1.0, 1e-3, 100.0]), "o": g.pick([0.0, 3.0, -50.0])} for k in range(200)])


@native("C17", "extractors", 4.0)
@_guard
def norm_ext(c):
    name = c["ext"]
    b = np.asarray(ex.call(name, c, norm=None))
    if not np.isfinite(b).all() or b.std() < 1e-9 * (1e-300 + np.abs(b).max()) or b.size < 2:
        return None
    return close("%s with normalisation %s" % (name, c["norm"]), ex.call(name, c), ref.normalise(b, c["norm"]), 1e-7)


@gen("C17", "extractors")
def _(g):
    for k in range(40):
        for name in ex.CEPS:
            c = case_for(g, name, kinds=["noise", "mix", "int16", "large"], frames=(2, 5), nffthi=256, nfhi=16)
            if c is None:
                continue
            c["norm"] = ("mvn", "ms", "vn", "mn")[k % 4]
            c["lifter"] = [None, None, 3, -22, 0.6][(k // 4) % 5]
            yield c


# ------------------------------------------------------------------ C18
@native("C18", "zero_handling", 0.3)
def zh(c):
    f = ex.fn("preprocessing", "zero_handling", "utils")
    x = np.array(c["x"])
    w = x.astype(float).copy()
    w[w == 0] = ref.EPS
    return close("zero_handling", f(x), w, 0, 0)


gen("C18", "zero_handling")(lambda g: [{"x": [0.0, -0.0, 1.0, -2.0, 1e-300, 0.0]}, {"x": [0, 1, 0, -3]}, {"x": [[0.0, 1e-20], [3.0, 0.0]]}])
C18 = ["mfcc", "imfcc", "lfcc", "bfcc", "gfcc", "ngcc", "msrcc", "psrcc", "pncc", "cqcc"]


@native("C18", "finite", 4.0)
def finite(c):
    y = np.asarray(ex.call(c["ext"], c))
    if not np.isfinite(y).all():
        i = np.argwhere(~np.isfinite(y))[0]
        return "%s on %s input: element %s is %r" % (c["ext"], c["sig"]["kind"], tuple(int(v) for v in i), y[tuple(i)])
    return None


@gen("C18", "finite")
def _(g):
    for k in range(60):
        for name in C18:
            c = case_for(g, name, kinds=["silence", "isilence", "gap", "const", "noise", "small", "impulse"], frames=(1, 6), nffthi=300, nfhi=26)
            if c is None:
                continue
            c["norm"] = None
            if k % 3 == 0:
                c["sig"]["kind"] = ["silence", "isilence", "gap"][(k // 3) % 3]
            if k % 5 == 4 and c["bank"]:
                c["bank"]["zero"] = True
            yield c
