"""Native cross-check of the properties: runs the real code of /repo on concrete inputs against an independent reference.

It never decides a property on its own: it turns a failed obligation into a concrete failing input, and stands in (labelled
bounded) for functions the verifier cannot reach.
"""
import ast
import json
import math
import os
import random
import sys
import warnings
import numpy as np

REPO = os.environ.get("VF_REPO", "/repo")
CHECKS = {}


def native(prop, name=None, weight=1.0):
    """decorates gen-producing class-like pair: fn(case) -> None | message; fn.gen set by @gen"""
    def deco(fn):
        CHECKS.setdefault(prop, []).append(Check(prop, name or fn.__name__, fn, weight))
        return fn
    return deco


class Check:
    def __init__(self, prop, name, fn, weight):
        self.prop, self.name, self.fn, self.weight = prop, name, fn, weight
        self.gen = None


def gen(prop, name):
    def deco(g):
        for c in CHECKS[prop]:
            if c.name == name:
                c.gen = g
        return g
    return deco


# ------------------------------------------------------------------ constants of the source, used as parameter values
def harvest(repo=None):
    out = set()
    warnings.simplefilter("ignore")
    for root, dirs, files in os.walk(os.path.join(repo or REPO, "spafe")):
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(root, f), encoding="utf8").read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        v = n.value
                        if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
                            continue
                        if abs(v) <= 200000:
                            out.add(float(v))
    return out


BASE_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "baseline_consts.json")


def pools(hints=()):
    cur = harvest()
    try:
        base = set(json.load(open(BASE_FILE)))
    except Exception:
        base = cur
    novel = sorted(cur - base)
    return sorted(cur), novel, list(hints)


class Gen:
    """parameter generator; with some probability takes a number found in the source (novel ones first) or in a counterexample"""

    def __init__(self, seed, tier="quick", hints=(), k=0):
        self.r = random.Random(seed * 1000003 + k)
        self.tier = tier
        self.pool, self.novel, self.hints = _pool_cache(tuple(hints))

    def num(self, lo, hi, integer, p=0.35):
        """a number in [lo, hi], sometimes from the pools"""
        r = self.r
        if r.random() < p:
            src = None
            q = r.random()
            if self.novel and q < 0.6:
                src = self.novel
            elif self.hints and q < 0.8:
                src = self.hints
            else:
                src = self.pool
            v = r.choice(src) + r.choice([0, 0, 0, -1, 1])
            if integer:
                v = int(round(v))
            if lo <= v <= hi:
                return v
        if integer:
            return r.randint(int(lo), int(hi))
        return r.uniform(lo, hi)

    def int(self, lo, hi, p=0.35):
        return int(self.num(lo, hi, True, p))

    def real(self, lo, hi, p=0.35):
        return float(self.num(lo, hi, False, p))

    def pick(self, xs):
        return self.r.choice(list(xs))

    def maybe(self, p):
        return self.r.random() < p

    # ---------------------------------------------------------- domain values
    def fs(self):
        return self.pick([8000, 16000, 11025, 22050, 44100, 48000, 16000, 8000, 12000]) if not (self.novel and self.maybe(0.25)) else self.int(4000, 48000)

    def nfft(self, lo=16, hi=1024):
        r = self.r.random()
        if r < 0.45:
            return self.pick([n for n in (16, 32, 64, 128, 256, 512, 1024) if lo <= n <= hi])
        if r < 0.6:
            return self.pick([n for n in (33, 65, 101, 129, 255, 257, 511, 513) if lo <= n <= hi] or [lo])
        return self.int(lo, hi)

    def scale(self):
        return self.pick(["constant", "ascendant", "descendant"])

    def wtype(self):
        return self.pick(["hamming", "hanning", "bartlet", "kaiser", "blackman"])

    def window(self, fs, maxlen=None, nonover=False):
        """[win_len, win_hop, win_type] or None; lengths in samples are exact (safe from float truncation)"""
        if self.maybe(0.15) and not nonover and (maxlen is None or maxlen >= 0.025):
            return None
        hi = int((maxlen or 0.05) * fs)
        L = self.int(max(8, min(40, hi // 2)), max(9, hi), 0.2)
        H = L if nonover else self.int(max(1, L // 4), L, 0.2)
        if not nonover and self.maybe(0.15):
            H = L
        return [(L + 0.5) / fs, (H + 0.5) / fs, self.wtype()]

    def sig(self, n, kinds=None):
        k = self.pick(kinds or ["noise", "noise", "tone", "mix", "int16", "small", "large", "gap", "f32", "impulse"])
        return {"kind": k, "n": int(n), "seed": self.r.randint(0, 10 ** 6)}

    def band(self, fs, lo0=True):
        """low, high (high None = omitted), valid"""
        low = 0.0 if self.maybe(0.4) and lo0 else self.real(1.0, fs / 4)
        high = None if self.maybe(0.3) else self.real(low + fs / 10.0, fs / 2)
        if high is not None and self.maybe(0.2):
            high = fs / 2
        if self.maybe(0.3):
            low = float(int(low))
            high = None if high is None else float(int(high))
        return low, high


_PC = {}


def _pool_cache(hints):
    if hints not in _PC:
        _PC[hints] = pools(hints)
    return _PC[hints]


def signal(s):
    """materialise a signal description"""
    r = np.random.default_rng(s["seed"])
    n = s["n"]
    k = s["kind"]
    t = np.arange(n)
    if k == "noise":
        return r.standard_normal(n)
    if k == "tone":
        f = r.uniform(0.01, 0.45)
        return np.sin(2 * np.pi * f * t + r.uniform(0, 6)) + 1e-3 * r.standard_normal(n)
    if k == "puretone":
        return np.sin(2 * np.pi * s.get("f", 0.1) * t)
    if k == "mix":
        x = np.zeros(n)
        for _ in range(4):
            x += r.uniform(0.1, 1) * np.sin(2 * np.pi * r.uniform(0.005, 0.49) * t + r.uniform(0, 6))
        return x + 0.01 * r.standard_normal(n)
    if k == "int16":
        return (r.standard_normal(n) * 8000).clip(-32768, 32767).astype(np.int16)
    if k == "small":
        return 1e-6 * r.standard_normal(n)
    if k == "large":
        return 3e4 * r.standard_normal(n)
    if k == "gap":
        x = r.standard_normal(n)
        a = int(r.integers(0, max(1, n // 2)))
        x[a:a + n // 3] = 0
        return x
    if k == "silence":
        return np.zeros(n)
    if k == "isilence":
        return np.zeros(n, dtype=np.int16)
    if k == "const":
        return np.full(n, 0.3)
    if k == "f32":
        return r.standard_normal(n).astype(np.float32)
    if k == "impulse":
        x = 1e-3 * r.standard_normal(n)
        x[int(r.integers(0, n))] += 1
        return x
    if k == "harm":
        f = s.get("f", 0.02)
        return sum(np.sin(2 * np.pi * f * h * t + h) / h for h in range(1, 5)) + s.get("eps", 0.0) * r.standard_normal(n)
    raise ValueError(k)


def close(name, a, b, rtol=1e-7, atol=None):
    """None or a message: compare arrays (b is the reference)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "%s: shape %s, expected %s" % (name, a.shape, b.shape)
    if a.size == 0:
        return None
    if a.dtype.kind not in "fciub":
        return "%s: element type %s" % (name, a.dtype)
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all():
        i = np.argwhere(fa != fb)[0]
        return "%s: element %s is %r, expected %r" % (name, tuple(int(q) for q in i), a[tuple(i)], b[tuple(i)])
    sc = float(np.max(np.abs(np.where(fb, b, 0)))) if b.size else 0.0
    tol = rtol * np.abs(b) + (atol if atol is not None else rtol * sc)
    bad = fb & ~(np.abs(a - b) <= tol)
    if bad.any():
        i = np.argwhere(bad)[0]
        return "%s: element %s is %r, expected %r" % (name, tuple(int(q) for q in i), a[tuple(i)].item(), b[tuple(i)].item())
    return None


def first(*ms):
    for m in ms:
        if m:
            return m
    return None


def attempt(fn, *a, **k):
    """-> ('ok', value) or ('exc', name, text)"""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def load_spafe():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import importlib
    for m in ("fbanks.bark_fbanks", "fbanks.gammatone_fbanks", "fbanks.linear_fbanks", "fbanks.mel_fbanks", "utils.cepstral", "utils.converters", "utils.exceptions", "utils.filters",
              "utils.preprocessing", "utils.spectral", "features.bfcc", "features.cqcc", "features.gfcc", "features.lfcc", "features.lpc", "features.mfcc", "features.msrcc",
              "features.ngcc", "features.pncc", "features.psrcc", "features.rplp", "features.spfeats", "frequencies.dominant_frequencies", "frequencies.fundamental_frequencies"):
        importlib.import_module("spafe." + m)
