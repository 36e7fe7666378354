"""C19-C28: deltas, LPC, PNCC, RASTA/PLP, pitch, dominant frequency, purity, constant Q, spectral descriptors."""
import copy
import math
import os
import numpy as np
from scipy import signal as sps
from . import ref, ex
from .base import native, gen, signal, close, first, attempt
from .nat1 import case_for, _run, _guard, all_names, bank_case


def mat(c, pos=False):
    r = np.random.default_rng(c["seed"])
    x = r.standard_normal((c["n"], c["m"]))
    if pos:
        x = np.abs(x) * 10 ** r.uniform(-3, 3)
        if c.get("zeros"):
            x[r.random(x.shape) < 0.3] = 0
        if c.get("zrow") is not None:
            x[c["zrow"] % c["n"]] = 0
    if c.get("int"):
        x = np.round(x * 10).astype(np.int64)
    if c.get("dyadic"):
        x = 2.0 ** r.integers(0, 4, x.shape)      # comparisons with dyadic factors are exact: ties
    return x


# ------------------------------------------------------------------ C19
@native("C19")
def deltas(c):
    f = ex.fn("cepstral", "deltas", "utils")
    x = mat(c)
    h = c["w"] // 2
    m = c["m"]
    want = np.zeros(x.shape)
    for t in range(m):
        for k in range(-h, h + 1):
            want[:, t] += k * x[:, min(max(t + k, 0), m - 1)]
    got = f(x, c["w"]) if c["w"] != 9 or c["seed"] % 2 else f(x)
    tol = 1e-9 * (1 + float(np.abs(x).max())) * (1 + h * h)
    e = close("deltas", got, want, 1e-9, tol)
    if e:
        return e
    y = x + np.arange(1, c["n"] + 1)[:, None]
    return close("deltas of x + constant rows", f(y, c["w"]), want, 1e-9, tol * c["n"])


gen("C19", "deltas")(lambda g: [{"n": g.int(1, 6), "m": g.int(1, 25), "w": g.pick([9, 1, 2, 3, 4, 5, g.int(1, 21)]), "seed": k, "int": k % 4 == 3} for k in range(400)])


# ------------------------------------------------------------------ C20
@native("C20")
@_guard
def lpc(c):
    k = ex.kwargs("lpcc", c)
    k.pop("lifter", None), k.pop("normalize", None)
    A, E = ex.fn("lpc", "lpc")(signal(c["sig"]), **k)
    w = ref.windowed(signal(c["sig"]), c["fs"], c["win"], c["pre"], c["coeff"])
    p = c["nceps"] - 1
    if np.shape(A) != (len(w), p + 1):
        return "lpc returns shape %s, expected %s" % (np.shape(A), (len(w), p + 1))
    if np.size(E) != len(w):
        return "lpc returns %d errors for %d frames" % (np.size(E), len(w))
    if np.asarray(A).dtype.kind != "f" or np.asarray(E).dtype.kind != "f":
        return "lpc result is not floating point: %s, %s" % (np.asarray(A).dtype, np.asarray(E).dtype)
    E = np.asarray(E).ravel()
    for i, fr in enumerate(w):
        a, e, r, R = ref.lpc_frame(fr, p)
        cd = np.linalg.cond(R) if p else 1.0
        if not cd < 1e9:
            continue
        m = first(close("lpc coefficients of frame %d" % i, A[i], a, 1e-13 * cd + 1e-9), close("lpc error of frame %d" % i, E[i], e, 1e-12 * cd + 1e-9, (1e-12 * cd + 1e-9) * abs(r[0])))
        if m:
            return m
    return None


@gen("C20", "lpc")
def _(g):
    for k in range(250):
        c = ex.base_case(g, "lpcc", plain=True, kinds=["noise", "mix", "int16", "large", "f32", "noise"], frames=(1, 5))
        if k % 5 == 0:
            c["nceps"] = g.pick([2, 3, 20, 26])
        if k % 11 == 0:       # order at or above the frame length
            c["win"] = [(10.5) / c["fs"], (5.5) / c["fs"], "hamming"]
            c["sig"]["n"] = 25
            c["nceps"] = g.pick([9, 10, 11, 12, 14])
        yield c


# ------------------------------------------------------------------ C21
@native("C21")
def lpc2lpcc(c):
    r = np.random.default_rng(c["seed"])
    a = np.concatenate(([1.0], r.uniform(-0.9, 0.9, c["p"] - 1)))
    e = c["e"]
    got = ex.fn("lpc", "lpc2lpcc")(a, e, c["n"])
    if len(got) != c["n"]:
        return "lpc2lpcc returns %d cepstra, expected %d" % (len(got), c["n"])
    return close("lpc2lpcc", np.array([float(v) for v in got]), ref.lpc2lpcc(a, e, c["n"]), 1e-9)


gen("C21", "lpc2lpcc")(lambda g: [{"p": g.int(1, 14), "n": g.pick([1, 2, g.int(1, 20), g.int(1, 40)]), "seed": k, "e": g.pick([0.0, 1.0, g.real(1e-9, 10, 0), 1e5])} for k in range(400)])


@native("C21", "lpcc")
@_guard
def lpcc(c):
    got = ex.call("lpcc", c)
    m = ex.compare("lpcc", c, got)
    if m:
        return m
    k = ex.kwargs("lpcc", c)
    k.pop("lifter", None), k.pop("normalize", None)
    A, E = ex.fn("lpc", "lpc")(signal(c["sig"]), **k)
    want = np.array([ref.lpc2lpcc(a, float(e), c["nceps"]) for a, e in zip(A, np.asarray(E).ravel())])
    return close("lpcc vs conversion of lpc", got, want, 1e-6)


@gen("C21", "lpcc")
def _(g):
    for k in range(200):
        c = ex.base_case(g, "lpcc", plain=True, kinds=["noise", "mix", "int16", "large", "f32", "small"], frames=(1, 5))
        yield c


# ------------------------------------------------------------------ C22
def pn(n):
    return ex.fn("pncc", n)


@native("C22")
def stages(c):
    x = mat(c, True)
    st = c["stage"]
    if st == "medium":
        M = c["M"]
        return close("medium_time_power_calculation(M=%d)" % M, pn("medium_time_power_calculation")(x, M), ref.medium_power(x, M), 1e-10)
    if st == "alf":
        return close("asymmetric_lowpass_filtering(%r, %r)" % (c["la"], c["lb"]), pn("asymmetric_lowpass_filtering")(x, c["la"], c["lb"]), ref.alf(x, c["la"], c["lb"]), 1e-9)
    if st == "tm":
        return close("temporal_masking(%r, %r)" % (c["la"], c["lb"]), pn("temporal_masking")(x, c["la"], c["lb"]), ref.tmask(x, c["la"], c["lb"]), 1e-9)
    if st == "ws":
        q = np.abs(np.random.default_rng(c["seed"] + 1).standard_normal(x.shape)) + 1e-3
        if c.get("zeros"):
            q[np.random.default_rng(c["seed"] + 2).random(q.shape) < 0.2] = 0
        return close("weight_smoothing(N=%d)" % c["M"], pn("weight_smoothing")(x, q, c["m"], c["M"]), ref.wsmooth(x, q, c["M"]), 1e-9)
    if st == "mpn":
        return close("mean_power_normalization", pn("mean_power_normalization")(x, c["la"], c["m"], c["k"]), ref.mpn(x, c["la"], c["k"]), 1e-9)
    if st == "dflt":
        return first(close("medium_time_power_calculation()", pn("medium_time_power_calculation")(x), ref.medium_power(x, 2), 1e-10),
                     close("asymmetric_lowpass_filtering()", pn("asymmetric_lowpass_filtering")(x), ref.alf(x), 1e-9), close("temporal_masking()", pn("temporal_masking")(x), ref.tmask(x), 1e-9),
                     close("weight_smoothing()", pn("weight_smoothing")(x, x + 1, nfilts=c["m"]), ref.wsmooth(x, x + 1), 1e-9),
                     close("mean_power_normalization()", pn("mean_power_normalization")(x, nfilts=c["m"]), ref.mpn(x), 1e-9))
    if st == "ans":
        return close("asymmetric_noise_suppression_with_temporal_masking", pn("asymmetric_noise_suppression_with_temporal_masking")(x), ref.anstm(x), 1e-9)
    # causality: a change of the last frames leaves the earlier output alone
    y = x.copy()
    k = max(1, c["n"] // 2)
    y[k:] = y[k:] * 3 + 1
    for nm, f in (("asymmetric_lowpass_filtering", pn("asymmetric_lowpass_filtering")), ("temporal_masking", pn("temporal_masking")), ("mean_power_normalization", lambda z: pn("mean_power_normalization")(z, nfilts=c["m"])),
                  ("weight_smoothing", lambda z: pn("weight_smoothing")(z, z + 1, nfilts=c["m"])), ("noise suppression", pn("asymmetric_noise_suppression_with_temporal_masking"))):
        a, b = f(x), f(y)
        if (np.asarray(a) < 0).any() or np.shape(a) != x.shape:
            return "%s: negative value or wrong shape" % nm
        m = close("%s: earlier frames after changing later ones" % nm, b[:k], a[:k], 0, 0)
        if m:
            return m
    return None


@gen("C22", "stages")
def _(g):
    for k in range(100):
        for st in ("medium", "alf", "tm", "ws", "mpn", "ans", "caus", "dflt"):
            yield {"stage": st, "n": g.int(1, 12), "m": g.int(1, 14), "seed": g.int(0, 10 ** 6, 0), "M": g.int(0, 6), "la": g.pick([0.999, 0.9, 0.5, g.real(0.01, 0.99, 0.1)]), "lb": g.pick([0.5, 0.2, g.real(0.01, 0.99, 0.1)]),
                   "k": g.pick([1, 2, 0.5]), "zeros": g.maybe(0.4), "zrow": g.pick([None, None, 0, 1, 2])}
        yield {"stage": "tm", "n": g.int(2, 8), "m": g.int(1, 6), "seed": g.int(0, 10 ** 6, 0), "M": 0, "la": g.pick([0.5, 0.25]), "lb": g.pick([0.25, 0.125]), "k": 1, "dyadic": True}


@native("C22", "pncc")
def pncc(c):
    return ex.compare("pncc", c, ex.call("pncc", c))


@gen("C22", "pncc")
def _(g):
    for k in range(80):
        yield case_for(g, "pncc", plain=True, frames=(1, 10), nffthi=300, nfhi=20)


# ------------------------------------------------------------------ C23
@native("C23")
def rasta(c):
    x = mat(c)
    f = ex.fn("filters", "rasta_filter", "utils")
    m = close("rasta_filter", f(x), ref.rasta(x), 1e-8)
    if m:
        return m
    i = c["seed"] % c["n"]
    y = x + 7.0
    y[i] = x[i]
    return close("rasta_filter row %d after changing the other rows" % i, f(y)[i], ref.rasta(x)[i], 1e-8)


gen("C23", "rasta")(lambda g: [{"n": g.int(1, 6), "m": g.pick([4, 5, 6, g.int(5, 40)]), "seed": k} for k in range(300)])


@native("C23", "plp", 2.0)
@_guard
def plp(c):
    return ex.compare(c["ext"], c, ex.call(c["ext"], c))


@gen("C23", "plp")
def _(g):
    for k in range(150):
        c = case_for(g, ["plp", "rplp"][k % 2], plain=True, kinds=["noise", "mix", "int16", "large", "gap"] if k % 2 else ["noise", "mix", "int16", "large"], frames=(1, 5), nffthi=400, nfhi=24)
        if c["ext"] == "plp":
            # the loudness curve of unscaled signals is tiny: use signals of audible level
            c["sig"]["kind"] = g.pick(["large", "int16", "noise"])
        yield c


# ------------------------------------------------------------------ C24
def ff(n):
    return ex.fn("fundamental_frequencies", n, "frequencies")


@native("C24")
def yin_parts(c):
    x = signal(c["sig"])
    n = len(x)
    tm = min(c["tau"], n)
    d = ff("compute_difference")(x, tm)
    dw = ref.difference(x, tm)
    sc = float(np.sum(np.asarray(x, float) ** 2))
    m = close("compute_difference", d, dw, 1e-9, 1e-11 * sc)
    if m:
        return m
    if tm > 1 and (dw[1:].cumsum() > 1e-6 * sc).all() and sc > 0:
        m = close("compute_cmnd", ff("compute_cmnd")(dw, tm), ref.cmnd(dw), 1e-9)
        if m:
            return m
    r = np.random.default_rng(c["sig"]["seed"])
    for _ in range(20):
        cm = np.abs(r.standard_normal(tm + 5)) * 0.3 + r.uniform(0, 0.2)
        if r.random() < 0.3:
            cm = np.round(cm, 1)
        a = int(r.integers(1, tm + 1))
        b = int(r.integers(a, tm + 3))
        thr = float(r.choice([0.1, 0.05, 0.3, 0.01, 0.15]))
        got, want = ff("get_pitch")(cm, a, b, thr), ref.pitch(cm, a, b, thr)
        if int(got) != want:
            return "get_pitch(%s, %d, %d, %r) = %r, expected %r" % ([float(v) for v in cm], a, b, thr, got, want)
    cm = np.linspace(0.2, 0.05, 20)
    if int(ff("get_pitch")(cm, 3, 18)) != ref.pitch(cm, 3, 18, 0.1):
        return "get_pitch default threshold"
    return None


@gen("C24", "yin_parts")
def _(g):
    for k in range(200):
        yield {"sig": g.sig(g.int(1, 200), ["noise", "tone", "mix", "int16", "f32", "gap", "silence"]), "tau": g.int(1, 80)}


@native("C24", "tracker", 2.0)
def yin(c):
    x = signal(c["sig"])
    fs, wl, wh, lo, hi, thr = c["fs"], c["wl"], c["wh"], c["low"], c["high"], c["thr"]
    P, Hr, Am, Tm = ff("compute_yin")(x, fs, wl, wh, lo, hi, thr)
    a, b = int(fs / hi), int(fs / lo)
    L, H = int(wl * fs), int(wh * fs)
    starts = list(range(0, len(x) - L, H))
    m = first(close("yin times", Tm, np.array(starts) / fs, 1e-12), *(["yin %s: shape %s, expected %s" % (nm, np.shape(v), (len(starts),)) for nm, v in (("pitches", P), ("rates", Hr), ("argmins", Am)) if np.shape(v) != (len(starts),)]))
    if m:
        return m
    for i, s in enumerate(starts):
        fr = np.asarray(x[s:s + L], float)
        d = ref.difference(fr, b)
        sc = float(np.sum(fr ** 2))
        cum = d[1:].cumsum()
        if not (cum > 1e-7 * sc).all() or sc == 0:
            continue
        cm = ref.cmnd(d)
        # decisions within rounding are left out
        seg = cm[a:b]
        if np.min(np.abs(seg - thr)) < 1e-7 or (np.abs(np.diff(seg)) < 1e-9).any():
            continue
        p = ref.pitch(cm, a, b, thr)
        want = fs / p if p else 0.0
        if not abs(P[i] - want) <= 1e-9 * max(1, want):
            return "yin pitch of hop %d: %r, expected %r" % (i, float(P[i]), want)
        hr = cm[p] if p else cm.min()
        if not abs(Hr[i] - hr) <= 1e-6 * max(1.0, abs(hr)):
            return "yin normalised difference of hop %d: %r, expected %r" % (i, float(Hr[i]), hr)
    return None


@gen("C24", "tracker")
def _(g):
    for k in range(150):
        fs = g.pick([8000, 16000, 11025, 4000])
        lo = g.pick([50, 80.0, 100, 150])
        b = int(fs / lo)
        L = b + g.int(1, 60)
        H = g.int(L // 3 + 1, L)
        hi = g.pick([3000, 1000, 500.0, 400])
        if int(fs / hi) < 1:
            hi = fs / 3.5
        n = L + H * g.int(1, 6) + g.int(0, H)
        s = g.sig(n, ["harm", "harm", "noise", "mix", "int16", "tone"])
        s["f"] = g.real(lo * 1.2, 400, 0) / fs
        s["eps"] = g.pick([0.0, 0.01, 0.3])
        yield {"fs": fs, "low": lo, "high": hi, "wl": (L + 0.5) / fs, "wh": (H + 0.5) / fs, "thr": g.pick([0.1, 0.2, 0.05, 0.4]), "sig": s}


# ------------------------------------------------------------------ C25
@native("C25")
def dominant(c):
    f = ex.fn("dominant_frequencies", "get_dominant_frequencies", "frequencies")
    x = signal(c["sig"])
    wl, wh, wt = c["win"] or ref.DEFWIN
    k = {} if c["win"] is None else {"win_len": wl, "win_hop": wh, "win_type": wt}
    got = np.asarray(f(x, c["fs"], nfft=c["nfft"], only_positive=c["pos"], **k))
    w = ref.windowed(x, c["fs"], [wl, wh, wt])
    P = np.abs(ref.fft_half(w, c["nfft"])) ** 2
    if got.shape != (len(w),):
        return "%s dominant frequencies for %d frames" % (got.shape, len(w))
    if (got < 0).any() or (got > c["fs"] / 2 + 1e-3).any():
        return "dominant frequency outside [0, fs/2]: %r" % got[:5]
    for i in range(len(w)):
        b = int(np.argmax(P[i]))
        srt = np.sort(P[i])
        if len(srt) > 1 and srt[-1] > 0 and srt[-2] > srt[-1] * (1 - 1e-9):
            continue
        want = b * c["fs"] / c["nfft"]
        if not abs(got[i] - want) <= 5.001e-4:
            return "dominant frequency of frame %d: %r, expected %r (bin %d of a %d-point FFT)" % (i, float(got[i]), want, b, c["nfft"])
        if abs(got[i] * 1000 - round(got[i] * 1000)) > 1e-4:
            return "dominant frequency %r not rounded to three decimals" % float(got[i])
    return None


@gen("C25", "dominant")
def _(g):
    for k in range(300):
        fs = g.fs()
        win = g.window(fs, 0.02)
        L, H = int((win or ref.DEFWIN)[0] * fs), int((win or ref.DEFWIN)[1] * fs)
        s = g.sig(L + H * g.int(0, 5) + g.int(0, H - 1, 0), ["tone", "mix", "noise", "int16", "puretone", "silence", "const"])
        s["f"] = g.pick([0.49, 0.5, 0.25, 0.1, g.real(0.0, 0.5, 0)])
        yield {"fs": fs, "win": win, "nfft": g.nfft(16, 700), "pos": k % 2 == 0, "sig": s}


# ------------------------------------------------------------------ C26
def _alone(steps):
    """the outcome of the last of the given calls, made in this order in a process in which the library has not been called before"""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            for s in steps:
                r = attempt(_step, s)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(r, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("exc", "died", "")


def _step(s):
    if "ext" in s:
        return np.asarray(_run(s["ext"], s))
    for nm, f, args in _helpers(s):
        if nm == s["fn"]:
            return np.asarray(f(*args))
    return None


@native("C26", "history", 1.5)
def history(c):
    a, b = _alone([c["target"]]), _alone(c["before"] + [c["target"]])
    same = a[0] == b[0] and (a[1:] == b[1:] if a[0] == "exc" else np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind in "fc"))
    if not same:
        return "%s returns something else after %s" % (c["target"].get("ext") or c["target"]["fn"], [s.get("ext") or s["fn"] for s in c["before"]])
    return None


def _hcase(g, fn):
    return {"fn": fn, "n": g.int(2, 6), "m": g.int(4, 9), "seed": g.int(0, 99), "sig": g.sig(g.int(40, 60), ["noise", "mix"]), "norm": g.pick(["mvn", "ms", "vn", "mn"]), "lift": g.pick([0, 3, -22, 11, 1]), "wt": g.wtype(), "scale": g.scale(), "zeros": True}


@gen("C26", "history")
def _(g):
    ns = all_names()
    hs = ["normalize_ceps", "lifter_ceps", "windowing", "framing", "stride_trick", "deltas", "rasta_filter", "pre_emphasis", "zero_handling", "medium_time_power_calculation", "compute_difference",
          "compute_constant_qtransform", "get_dominant_frequencies", "compute_yin", "extract_feats", "weight_smoothing", "lpc2lpcc"] + list(ex.BANKS)
    for k in range(400):
        if k % 2:
            mk = lambda: _hcase(g, hs[(k // 2) % len(hs)])
            keys = ["n", "m", "seed", "sig", "norm", "lift", "wt", "scale"]
        else:
            nm = ns[(k // 2) % len(ns)]
            mk = lambda: case_for(g, nm, frames=(1, 3), nffthi=150, nfhi=10, kinds=["noise", "int16", "gap"])
            keys = None
        c = mk()
        if c is None:
            continue
        before = []
        # the same call with one argument different: what a result remembered under too coarse a key needs
        for _ in range(3):
            o = mk()
            if o is None:
                continue
            q = dict(c)
            if keys is None and c.get("win") and o.get("win") and g.maybe(0.5):
                q["win"] = c["win"][:2] + o["win"][2:]
            else:
                f = g.pick(keys or [z for z in c if z in o and z not in ("ext",) and o[z] != c[z]] or ["sig"])
                q[f] = o[f]
            before.append(q)
        o = mk()
        if o is not None:
            before.append(o)
        yield {"target": c, "before": before}


@native("C26")
@_guard
def purity(c):
    name = c["ext"]
    x = signal(c["sig"])
    x0 = x.copy()
    K = c["nfft"] // 2 + 1
    w = ex.sw(c["win"])
    w0 = copy.copy(w)

    def one(x):
        if name.startswith("spec:"):
            k = {}
            sn = name[5:]
            for a, b in {"fs": "fs", "pre": "pre_emph", "coeff": "pre_emph_coeff", "nfilts": "nfilts", "nfft": "nfft", "low": "low_freq", "high": "high_freq", "scale": "scale"}.items():
                k[b] = c[a]
            if w is not None:
                k["window"] = w
            if bank is not None:
                k["fbanks"] = bank
            return np.hstack(ex.fn(*ex.SPECS[sn][:2])(x, **k))
        k = ex.kwargs({"lpc": "lpcc", "cqt": "cqcc"}.get(name, name), c)
        if w is not None:
            k["window"] = w
        if "fbanks" in k:
            k["fbanks"] = bank
        if name == "lpc":
            k.pop("lifter", None), k.pop("normalize", None)
            return np.hstack(ex.fn("lpc", "lpc")(x, **k))
        if name == "cqt":
            for z in ("lifter", "normalize", "num_ceps", "dct_type", "resampling_ratio"):
                k.pop(z, None)
            return ex.fn("cqcc", "cqt_spectrogram")(x, **k)
        return ex.fn(*ex.CEPS[name][:2])(x, **k)
    bank = ex.user_bank(c["bank"], K)
    b0 = None if bank is None else bank.copy()
    r1 = np.asarray(one(x))
    keep = r1.copy()
    if not np.array_equal(x, x0) or x.dtype != x0.dtype:
        return name + " changes the signal passed to it"
    if w is not None and w != w0:
        return name + " changes the window object passed to it: %r" % w
    if bank is not None and not np.array_equal(bank, b0):
        return name + " changes the filter bank passed to it"
    if r1.flags.writeable:
        r1 += 1
    # other calls in between
    for o in c["others"]:
        attempt(_run, o["ext"], o)
    r2 = np.asarray(one(x0.copy()))
    if not np.array_equal(keep, r2, equal_nan=True):
        return name + ": second call with equal arguments returns something else after %s" % [o["ext"] for o in c["others"]]
    if not np.array_equal(x, x0):
        return name + ": changing the result changes the signal"
    return None


@gen("C26", "purity")
def _(g):
    ns = all_names()
    for k in range(25 * len(ns)):
        c = case_for(g, ns[k % len(ns)], frames=(1, 4), nffthi=200, nfhi=12, kinds=["noise", "mix", "int16", "gap"])
        if c is None:
            continue
        o = case_for(g, g.pick(ns), frames=(1, 3), nffthi=200, nfhi=12, kinds=["noise", "int16"])
        o2 = case_for(g, ns[k % len(ns)], frames=(1, 3), nffthi=200, nfhi=12, kinds=["noise", "int16"])
        c["others"] = [z for z in (o, o2) if z]
        if g.maybe(0.3):
            same = {q: v for q, v in c.items() if q != "others"}
            same = dict(same, sig=dict(c["sig"], seed=c["sig"]["seed"] + 1))
            c["others"].append(same)
        yield c


def _helpers(c):
    """(name, function, list of array arguments, other arguments)"""
    x = np.abs(mat(c, True)) + 0.01
    v = signal(c["sig"])
    H = ex.fn
    return [("normalize_ceps", lambda a: H("cepstral", "normalize_ceps", "utils")(a, c["norm"]), [x]), ("lifter_ceps", lambda a: H("cepstral", "lifter_ceps", "utils")(a, c["lift"]), [x]),
            ("deltas", lambda a: H("cepstral", "deltas", "utils")(a, 5), [x]), ("zero_handling", H("preprocessing", "zero_handling", "utils"), [x * (x > 0.5)]),
            ("pre_emphasis", H("preprocessing", "pre_emphasis", "utils"), [v]), ("framing", lambda a: H("preprocessing", "framing", "utils")(a, 1, 8, 3)[0], [v]),
            ("stride_trick", lambda a: H("preprocessing", "stride_trick", "utils")(a, 8, 3), [v]),
            ("windowing", lambda a: H("preprocessing", "windowing", "utils")(a, a.shape[1], c["wt"]), [x]), ("rasta_filter", H("filters", "rasta_filter", "utils"), [np.hstack([x] * 6)]),
            ("intensity_power_law", H("bfcc", "intensity_power_law"), [x]), ("medium_time_power_calculation", pn("medium_time_power_calculation"), [x]),
            ("asymmetric_lowpass_filtering", pn("asymmetric_lowpass_filtering"), [x]), ("temporal_masking", pn("temporal_masking"), [x]), ("weight_smoothing", lambda a, b: pn("weight_smoothing")(a, b, nfilts=a.shape[1]), [x, x * (x > 0.5)]),
            ("mean_power_normalization", lambda a: pn("mean_power_normalization")(a, nfilts=a.shape[1]), [x]), ("asymmetric_noise_suppression_with_temporal_masking", pn("asymmetric_noise_suppression_with_temporal_masking"), [x]),
            ("lpc2lpcc", lambda a: np.array([float(q) for q in H("lpc", "lpc2lpcc")(a, 0.0, 9)]), [np.concatenate(([1.0], x[0] / 10))]),
            ("compute_difference", lambda a: ff("compute_difference")(a, 5), [v]), ("compute_cmnd", lambda a: ff("compute_cmnd")(a, len(a)), [np.concatenate(([0.0], x[0]))]),
            ("get_pitch", lambda a: np.array(ff("get_pitch")(a, 1, len(a), 0.3)), [x[0]]), ("compute_yin", lambda a: np.vstack(ff("compute_yin")(a, 40, 0.55, 0.2, 4, 15)), [v]),
            ("get_dominant_frequencies", lambda a: H("dominant_frequencies", "get_dominant_frequencies", "frequencies")(a, 100, nfft=32, win_len=0.1, win_hop=0.05), [v]),
            ("compute_constant_qtransform", lambda a: H("spectral", "compute_constant_qtransform", "utils")(a, fs=8000, nfft=256, number_of_octaves=3, number_of_bins_per_octave=6, f0=500, low_freq=100, win_type=c["wt"]), [np.vstack([v[:20], v[20:40]])])] + [
            (nm, (lambda f: lambda a: np.array(f(a)))(f), [np.abs(v) + 0.1]) for nm, f in (("spectral_centroid", lambda a: H("spfeats", "spectral_centroid")(100, a)), ("spectral_flatness", H("spfeats", "spectral_flatness")),
                                                                             ("spectral_flux", H("spfeats", "spectral_flux")), ("spectral_rolloff", H("spfeats", "spectral_rolloff")), ("spectral_spread", lambda a: H("spfeats", "spectral_spread")(a, 100, a)),
                                                                             ("spectral_skewness", lambda a: H("spfeats", "spectral_skewness")(a, 100, a)), ("spectral_kurtosis", lambda a: H("spfeats", "spectral_kurtosis")(a, 100, a)), ("spectral_entropy", H("spfeats", "spectral_entropy")))] + [
            ("extract_feats", lambda a: np.array(list(H("spfeats", "extract_feats")(a, 100, 64).values())), [v])] + [
            (nm, (lambda nm: lambda *a: np.hstack([np.ravel(z) for z in ex.bank_call(nm, {"nfilts": c["m"] + 2, "nfft": 64, "fs": 8000, "low": 10.0, "high": 3500.0, "scale": c["scale"]})]))(nm), []) for nm in ex.BANKS]


@native("C26", "functions")
def functions(c):
    for nm, f, args in _helpers(c):
        a0 = [a.copy() for a in args]
        st, *r1 = attempt(f, *args)
        if st != "ok":
            continue
        r1 = r1[0]
        keep = np.array(r1, copy=True)
        for a, b in zip(args, a0):
            if not np.array_equal(a, b):
                return nm + " changes its argument"
        # other shapes, layouts and types of the same data
        for q in (lambda a: a[0] if a.ndim == 2 else np.vstack([a, a]), lambda a: np.asfortranarray(a), lambda a: np.floor(a * 10).astype(np.int64), lambda a: a.astype(np.float32), lambda a: np.repeat(a, 2, axis=-1)[..., ::2], lambda a: a * (a > np.median(a))):
            va = [q(a) for a in a0]
            vb = [a.copy() for a in va]
            attempt(f, *va)
            for a, b in zip(va, vb):
                if not np.array_equal(a, b):
                    return "%s changes its argument (shape %s, dtype %s)" % (nm, a.shape, a.dtype)
        # a lifter of 0 or above 10 documents returning the matrix unchanged
        if not (nm == "lifter_ceps" and (c["lift"] == 0 or c["lift"] > 10)):
            if isinstance(r1, np.ndarray) and r1.flags.writeable and r1.size:
                r1 += 1
                for a, b in zip(args, a0):
                    if not np.array_equal(a, b):
                        return nm + ": changing the result changes the argument"
        # another call with different arrays in between
        attempt(f, *[np.roll(a, 1, axis=-1) * 2 for a in a0])
        r2 = f(*[a.copy() for a in a0])
        if not np.array_equal(keep, np.asarray(r2), equal_nan=True):
            return nm + ": second call with equal arguments returns something else"
    return None


gen("C26", "functions")(lambda g: [{"n": g.int(2, 6), "m": g.int(4, 9), "seed": k, "sig": g.sig(g.int(40, 60), ["noise", "mix"]), "norm": g.pick(["mvn", "ms", "vn", "mn"]), "lift": g.pick([0, 3, -22, 11, 1]), "wt": g.wtype(), "scale": g.scale(), "zeros": True} for k in range(25)])


# ------------------------------------------------------------------ C27
@native("C27")
def cqt(c):
    x = signal(c["sig"])
    n = ex.cq_pitches(c)
    w = ref.windowed(x, c["fs"], c["win"], c["pre"], c["coeff"])
    wt = (c["win"] or ref.DEFWIN)[2]
    f = ex.fn("spectral", "compute_constant_qtransform", "utils")
    got = np.asarray(f(w, c["fs"], c["low"], c["high"], c["nfft"], c["octs"], c["bpo"], wt, c["thr"], c["f0"], c["q"]))
    if got.shape != (n, len(w)):
        return "constant-Q transform has shape %s, expected %s" % (got.shape, (n, len(w)))
    want = ref.cqt(w, c["fs"], c["low"], c["high"], c["nfft"], c["octs"], c["bpo"], wt, c["thr"], c["f0"], c["q"])
    m = close("constant-Q transform", got, want, 1e-7)
    if m:
        return m
    k = ex.kwargs("cqcc", c)
    for z in ("lifter", "normalize", "num_ceps", "dct_type", "resampling_ratio"):
        k.pop(z, None)
    m = close("cqt_spectrogram", ex.fn("cqcc", "cqt_spectrogram")(x, **k), want, 1e-7)
    if m:
        return m
    if (np.abs(want) ** 2 < 1e-16 * (np.abs(want) ** 2).max()).any():
        return None
    return ex.compare("cqcc", c, ex.call("cqcc", c))


@gen("C27", "cqt")
def _(g):
    for k in range(120):
        c = case_for(g, "cqcc", plain=True, kinds=["noise", "mix", "int16", "tone"], frames=(1, 5))
        if c is None:
            continue
        if k % 3 == 0:      # frames longer than the FFT
            c["win"] = [(c["nfft"] + 20.5) / c["fs"], (100.5) / c["fs"], g.wtype()]
            c["sig"]["n"] = c["nfft"] + 20 + 100 * g.int(0, 3) + 30
            c["ratio"] = 1.0
        yield c


@native("C27", "edges", 0.3)
def cqt_edges(c):
    """band edges that are pitches (whole octaves above f0, exact in floating point) belong to the band"""
    Q = c["q"] / (2 ** (1.0 / c["bpo"]) - 1)
    n = 0
    for i in range(c["octs"] * c["bpo"]):
        v = Q * c["fs"] / (c["f0"] * 2 ** (i / c["bpo"]))
        if abs(v - round(v)) < 1e-9 * v:
            return None
        n += c["a"] * c["bpo"] <= i <= c["b"] * c["bpo"] and math.ceil(v) <= c["nfft"]
    if not n:
        return None
    r = np.asarray(ex.fn("spectral", "compute_constant_qtransform", "utils")(np.ones((1, 30)), fs=c["fs"], low_freq=c["f0"] * 2 ** c["a"], high_freq=c["f0"] * 2 ** c["b"], nfft=c["nfft"], number_of_octaves=c["octs"], number_of_bins_per_octave=c["bpo"], f0=c["f0"], q_rate=c["q"]))
    if r.shape != (n, 1):
        return "%d pitches between %r and %r Hz (both pitches themselves), expected %d" % (len(r), c["f0"] * 2 ** c["a"], c["f0"] * 2 ** c["b"], n)
    return None


@gen("C27", "edges")
def _(g):
    for k in range(40):
        a = g.int(0, 2)
        b = a + g.int(0, 2)
        yield {"fs": g.pick([8000, 16000]), "f0": g.pick([100.0, 125.0, 250.0, float(g.int(60, 400, 0))]), "a": a, "b": b, "octs": b + g.int(1, 2), "bpo": g.int(1, 8), "nfft": g.int(100, 600, 0), "q": g.pick([1.0, 0.5, 0.3])}


# ------------------------------------------------------------------ C28
def sf(n):
    return ex.fn("spfeats", n)


@native("C28")
def descriptors(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    s = r.standard_normal(n) + (1j * r.standard_normal(n) if c["cplx"] else 0)
    if c.get("zero"):
        s[r.integers(0, n)] = 0
    fs = c["fs"]
    m = np.abs(s)
    k = np.arange(n)
    fr = np.where(k <= (n - 1) // 2, k, n - k) * fs / n
    if m.sum() == 0 or np.sum(m * fr) == 0:
        return None
    cen = lambda i: np.sum(m * fr ** i) / m.sum()
    mu1, mu2 = cen(1), cen(2)
    want = {"centroid1": mu1, "centroid2": mu2, "centroid3": cen(3), "skewness": np.sum(m * (fr - mu1) ** 3) / m.sum() / mu2 ** 3, "kurtosis": np.sum(m * (fr - mu1) ** 4) / m.sum() / mu2 ** 4,
            "spread": np.sqrt(np.sum(m * (fr - mu1) ** 2) / m.sum()), "flatness": (np.exp(np.mean(np.log(m))) if (m > 0).all() else 0.0) / m.mean(), "flux": np.sum(np.abs(np.diff(m)) ** c["p"]) ** (1 / c["p"]),
            "flux2": np.sqrt(np.sum(np.diff(m) ** 2)), "rolloff": c["k"] * m.sum(), "rolloff85": 0.85 * m.sum()}

    def got(s):
        return {"centroid1": sf("spectral_centroid")(fs, s), "centroid2": sf("spectral_centroid")(fs, s, 2), "centroid3": sf("spectral_centroid")(fs, s, i=3), "skewness": sf("spectral_skewness")(None, fs, s),
                "kurtosis": sf("spectral_kurtosis")(None, fs, s), "spread": sf("spectral_spread")(None, fs, s), "flatness": sf("spectral_flatness")(s), "flux": sf("spectral_flux")(s, c["p"]), "flux2": sf("spectral_flux")(s),
                "rolloff": sf("spectral_rolloff")(s, c["k"]), "rolloff85": sf("spectral_rolloff")(s)}
    a = got(s)
    b = got(s * c["g"])
    for q in want:
        tol = 1e-8 * abs(want[q]) + (1e-8 * (fs ** 3 / mu2 ** 3 if q == "skewness" else fs ** 4 / mu2 ** 4 if q == "kurtosis" else 0)) + (1e-7 * fs if q == "spread" else 0) + 1e-300
        if np.ndim(a[q]) != 0 or not abs(a[q] - want[q]) <= tol:
            return "spectral %s = %r, expected %r" % (q, a[q], float(want[q]))
        if q in ("centroid1", "centroid2", "skewness", "kurtosis", "spread", "flatness") and not abs(b[q] - want[q]) <= tol * 10:
            return "spectral %s changes from %r to %r when the spectrum is multiplied by %r" % (q, float(want[q]), float(b[q]), c["g"])
    return None


gen("C28", "descriptors")(lambda g: [{"n": g.pick([2, 3, g.int(2, 200), g.int(2, 200)]), "seed": k, "cplx": k % 3 > 0, "fs": g.fs(), "p": g.pick([1, 2, 3, 1.5]), "k": g.pick([0.85, 0.5, 0.95]), "g": g.pick([0.5, 10.0, 1e3, 0.01, 1e-11, 1e9]), "zero": k % 10 == 9} for k in range(400)])


@native("C28", "extract_feats")
def feats(c):
    x = signal(c["sig"])
    d = sf("extract_feats")(x, c["fs"], c["nfft"]) if c["nfft"] != 512 or c["sig"]["seed"] % 2 else sf("extract_feats")(x, c["fs"])
    s = np.fft.rfft(x, c["nfft"])
    fs = c["fs"]
    want = {"spectral_centroid": sf("spectral_centroid")(fs, s), "spectral_skewness": sf("spectral_skewness")(x, fs, s), "spectral_kurtosis": sf("spectral_kurtosis")(x, fs, s), "spectral_spread": sf("spectral_spread")(x, fs, s),
            "spectral_flatness": sf("spectral_flatness")(s), "spectral_rolloff": sf("spectral_rolloff")(s), "spectral_flux": sf("spectral_flux")(s)}
    for q, v in want.items():
        if q not in d:
            return "extract_feats has no %s" % q
        if np.ndim(d[q]) != 0 or not abs(d[q] - v) <= 1e-9 * abs(v):
            return "extract_feats[%r] = %r, the function gives %r" % (q, d[q], v)
    return None


gen("C28", "extract_feats")(lambda g: [{"sig": g.sig(g.int(20, 900), ["noise", "mix", "int16", "tone"]), "fs": g.fs(), "nfft": g.pick([512, 256, g.nfft(16, 700)])} for k in range(150)])
