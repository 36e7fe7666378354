"""Independent reference (numpy, written from the documented definitions, not from the code)."""
import math
import numpy as np
from scipy.fftpack import dct as _dct
from scipy.signal import resample as _resample

EPS = np.finfo(float).eps
DEFWIN = [0.025, 0.01, "hamming"]
WINS = {"hanning": np.hanning, "bartlet": np.bartlett, "kaiser": lambda L: np.kaiser(L, 14), "blackman": np.blackman, "hamming": np.hamming}

# ------------------------------------------------------------------ scales
def log10(x):
    return np.log(x) / math.log(10)


def hz2mel(f, ap="Oshaghnessy"):
    a, b = {"Oshaghnessy": (2595.0, 700.0), "Lindsay": (2410.0, 625.0)}[ap]
    return a * log10(1 + np.asarray(f) / b)


def mel2hz(m, ap="Oshaghnessy"):
    a, b = {"Oshaghnessy": (2595.0, 700.0), "Lindsay": (2410.0, 625.0)}[ap]
    return b * (np.exp(math.log(10) * np.asarray(m) / a) - 1)


ERB_A = 1000 * math.log(10) / (24.7 * 4.37)


def hz2erb(f):
    return ERB_A * log10(1 + np.asarray(f) * 0.00437)


def erb2hz(e):
    return (np.exp(math.log(10) * np.asarray(e) / ERB_A) - 1) / 0.00437


def hz2bark(f, ap="Wang"):
    f = np.asarray(f, float)
    if ap == "Wang":
        return 6 * np.arcsinh(f / 600)
    if ap == "Tjomov":
        return 6.7 * np.arcsinh((f + 20) / 600)
    if ap == "Schroeder":
        return 7 * np.arcsinh(f / 650)
    if ap == "Terhardt":
        return 13.3 * np.arctan(0.75 * f / 1000)
    if ap == "Zwicker":
        return 8.7 + 14.2 * log10(f / 1000)
    if ap == "Traunmueller":
        z = 26.81 * f / (1960 + f) - 0.53
        return np.where(z < 2, z + 0.15 * (2 - z), np.where(z > 20.1, z + 0.22 * (z - 20.1), z))
    raise KeyError(ap)


def bark2hz(b, ap="Wang"):
    b = np.asarray(b, float)
    if ap == "Wang":
        return 600 * np.sinh(b / 6)
    if ap == "Tjomov":
        return 600 * np.sinh(b / 6.7) - 20
    if ap == "Schroeder":
        return 650 * np.sinh(b / 7)
    if ap == "Terhardt":
        return 1000 / 0.75 * np.tan(b / 13.3)
    if ap == "Zwicker":
        return 10.0 ** ((b - 8.7) / 14.2 + 3)
    z = np.where(b < 2, (b - 0.3) / 0.85, np.where(b > 20.1, (b + 4.422) / 1.22, b))
    return 1960 * (z + 0.53) / (26.28 - z)


BARK = ["Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller"]
MEL = ["Oshaghnessy", "Lindsay"]


# ------------------------------------------------------------------ preprocessing
def preemph(x, a):
    x = np.asarray(x, float)
    y = x.copy()
    y[1:] = x[1:] - a * x[:-1]
    return y


def frames(x, fs, wl, wh):
    L, H = int(wl * fs), int(wh * fs)
    n = (len(x) - L) // H + 1
    return np.array([np.asarray(x)[i * H:i * H + L] for i in range(n)]), L


def windowed(x, fs, win, pre=False, coeff=0.97):
    wl, wh, wt = win or DEFWIN
    if pre:
        x = preemph(x, coeff)
    fr, L = frames(x, fs, wl, wh)
    return fr * WINS[wt](L)[None, :]


def nozero(x):
    x = np.array(x, float)
    x[x == 0] = EPS
    return x


# ------------------------------------------------------------------ banks
def ramp(scale, n):
    return {"ascendant": np.arange(1, n + 1) / n, "descendant": np.arange(n, 0, -1) / n, "constant": np.ones(n)}[scale]


def tri_bank(nf, nfft, fs, low, high, scale, kind="mel", ap="Oshaghnessy"):
    high = fs / 2 if high is None else high
    if kind == "mel":
        em = np.linspace(hz2mel(low, ap), hz2mel(high, ap), nf + 2)
        e = mel2hz(em, ap)
    else:
        em = e = np.linspace(low, high, nf + 2)
    K = nfft // 2 + 1
    fr = np.linspace(low, high, K)
    B = np.zeros((nf, K))
    for j in range(nf):
        up = (fr - e[j]) / (e[j + 1] - e[j])
        dn = (e[j + 2] - fr) / (e[j + 2] - e[j + 1])
        B[j] = np.maximum(0, np.minimum(up, dn))
    return B * ramp(scale, nf)[:, None], em[1:-1], e


OPP = {"ascendant": "descendant", "descendant": "ascendant", "constant": "constant"}


def imel_bank(nf, nfft, fs, low, high, scale, ap="Oshaghnessy"):
    high = fs / 2 if high is None else high
    B, c, e = tri_bank(nf, nfft, fs, low, high, OPP[scale], "mel", ap)
    return B[:, ::-1], hz2mel(low + high - mel2hz(c, ap), ap), e


def crit(d):
    if d < -1.3 or d > 2.5:
        return 0.0
    if d <= -0.5:
        return 10 ** (2.5 * (d + 0.5))
    if d < 0.5:
        return 1.0
    return 10 ** (0.5 - d)


def bark_bank(nf, nfft, fs, low, high, scale, ap="Wang"):
    high = fs / 2 if high is None else high
    c = np.linspace(hz2bark(low, ap), hz2bark(high, ap), nf)
    K = nfft // 2 + 1
    B = np.zeros((nf, K))
    top = high if nf > 1 else low
    i0, i1 = math.floor((nfft + 1) * low / fs), math.floor((nfft + 1) * top / fs)
    for i in range(i0, i1):
        fb = hz2bark(i * fs / (nfft + 1), ap)
        for j in range(nf):
            B[j, i] = crit(fb - c[j])
    return B * ramp(scale, nf)[:, None], c


def gamma_centres(nf, low, high):
    c = 9.26449 * 24.7
    j = np.arange(nf)
    return (high + c) * ((low + c) / (high + c)) ** ((nf - j) / nf) - c


def gamma_bank(nf, nfft, fs, low, high, scale, order=4):
    high = fs / 2 if high is None else high
    fc = gamma_centres(nf, low, high)
    K = nfft // 2 + 1
    erb = ((fc / 9.26449) ** order + 24.7 ** order) ** (1.0 / order)
    b = 1.019 * 2 * np.pi * erb
    T = 1.0 / fs
    B = np.zeros((nf, K))
    z = np.exp(2j * np.pi * np.arange(K) / nfft)
    for j in range(nf):
        k = math.exp(b[j] * T)
        th = 2 * np.pi * fc[j] * T
        num = np.ones(K, complex)
        for s in (math.sqrt(3 + 2 ** 1.5), -math.sqrt(3 + 2 ** 1.5), math.sqrt(3 - 2 ** 1.5), -math.sqrt(3 - 2 ** 1.5)):
            num = num * (z - (math.cos(th) + s * math.sin(th)) / k)
        p = np.exp(1j * th) / k
        h = np.abs(num) / np.abs((z - p) * (z - np.conj(p))) ** 4
        B[j] = h / h.max()
    return B * ramp(scale, nf)[:, None], hz2erb(fc), fc


def bank(kind, nf, nfft, fs, low, high, scale, ap):
    if kind == "mel":
        return tri_bank(nf, nfft, fs, low, high, scale, "mel", ap)[0]
    if kind == "imel":
        return imel_bank(nf, nfft, fs, low, high, scale, ap)[0]
    if kind == "lin":
        return tri_bank(nf, nfft, fs, low, high, scale, "lin")[0]
    if kind == "bark":
        return bark_bank(nf, nfft, fs, low, high, scale, ap)[0]
    return gamma_bank(nf, nfft, fs, low, high, scale)[0]


# ------------------------------------------------------------------ spectra, cepstra
def fft_half(w, nfft):
    return np.fft.fft(w, nfft)[:, :nfft // 2 + 1]


def ipl(w):
    E = (w ** 2 + 56.8e6) * w ** 4 / ((w ** 2 + 6.3e6) * (w ** 2 + 0.38e9) * (w ** 6 + 9.58e26))
    return E ** (1.0 / 3)


def odct(x, ty, n):
    return _dct(x, type=ty, axis=1, norm="ortho")[:, :n]


def lifter(c, lift):
    i = np.arange(c.shape[1])
    if lift == 0 or lift > 10:
        return c
    if lift > 0:
        return c * np.where(i == 0, 1.0, np.maximum(i, 1).astype(float) ** lift)
    L = int(-lift)
    return c * (1 + L / 2.0 * np.sin(np.pi * (i + 1) / L))


def normalise(x, k):
    if k == "mvn":
        return (x - x.mean(0)) / x.std()
    if k == "ms":
        return x - x.mean(0)
    if k == "vn":
        return x / x.std()
    return (x - x.mean()) / (x.max() - x.min())


def post(c, lift, norm):
    if lift:
        c = lifter(c, lift)
    if norm:
        c = normalise(c, norm)
    return c


# ------------------------------------------------------------------ LPC
def lpc_frame(f, p):
    """a[0..p], e"""
    n = len(f)
    r = np.array([float(np.dot(f[:n - k], f[k:])) if k < n else 0.0 for k in range(p + 1)])
    R = np.array([[r[abs(i - j)] for j in range(p)] for i in range(p)])
    a = np.concatenate(([1.0], np.linalg.solve(R, -r[1:]) if p else []))
    return a, abs(float(np.dot(r, a))), r, R


def lpc2lpcc(a, e, n):
    p = len(a)
    A = lambda j: a[j] if j < p else 0.0
    c = np.zeros(n)
    c[0] = math.log(e if e != 0 else EPS)
    for m in range(1, n):
        c[m] = A(m) + sum(k / m * c[k] * A(m - k) for k in range(1, m))
    return c


# ------------------------------------------------------------------ PNCC stages
def medium_power(P, M=2):
    T = P.shape[0]
    return np.array([P[max(0, m - M):min(T, m + M + 1)].sum(0) / (2 * M + 1) for m in range(T)])


def alf(Q, la=0.999, lb=0.5):
    o = np.zeros(Q.shape)
    o[0] = 0.9 * Q[0]
    for m in range(1, len(Q)):
        for l in range(Q.shape[1]):
            lam = la if Q[m, l] >= o[m - 1, l] else lb
            o[m, l] = lam * o[m - 1, l] + (1 - lam) * Q[m, l]
    return o


def tmask(Q, lt=0.85, mu=0.2):
    o = np.zeros(Q.shape)
    pk = np.array(Q[0], float)
    o[0] = Q[0]
    for m in range(1, len(Q)):
        o[m] = np.where(Q[m] >= lt * pk, Q[m], mu * pk)
        pk = np.maximum(lt * pk, Q[m])
    return o


def anstm(Q, thr=0):
    le = alf(Q)
    d = Q - le
    q0 = np.where(d < thr, 0.0, d)
    return np.where(Q >= 2 * le, tmask(q0), alf(q0))


def wsmooth(Rt, Qt, N=4):
    L = Rt.shape[1]
    Qz = nozero(Qt)
    o = np.zeros(Rt.shape)
    for l in range(L):
        a, b = max(0, l - N), min(L - 1, l + N)
        o[:, l] = (Rt[:, a:b + 1] / Qz[:, a:b + 1]).mean(1)
    return o


def mpn(T, lam=0.999, k=1):
    mu = 0.0001
    o = np.zeros(T.shape)
    for m in range(len(T)):
        if m:
            mu = lam * mu + (1 - lam) * T[m].mean()
        o[m] = k * T[m] / mu
    return o


# ------------------------------------------------------------------ RASTA
def rasta(x):
    b = np.array([0.2, 0.1, 0.0, -0.1, -0.2])
    y = np.zeros(x.shape)
    for i in range(x.shape[0]):
        row = x[i]
        n = len(row)
        # FIR part continues from the state of the first 4 values (constant row[0] before them never matters after 4 samples: 5 taps)
        for t in range(4, n):
            fir = sum(b[q] * row[t - q] for q in range(5))
            y[i, t] = fir + (0.94 * y[i, t - 1] if t > 4 else 0.0)
    return y


# ------------------------------------------------------------------ YIN
def difference(x, tmax):
    x = np.asarray(x, float)
    n = len(x)
    return np.array([np.sum((x[:n - t] - x[t:]) ** 2) for t in range(tmax)])


def cmnd(d):
    o = np.ones(len(d))
    s = 0.0
    for t in range(1, len(d)):
        s += d[t]
        o[t] = d[t] * t / s if s != 0 else np.nan
    return o


def pitch(c, a, b, thr):
    t = a
    while t < b and not c[t] < thr:
        t += 1
    if t >= b:
        return 0
    while t + 1 < b and c[t + 1] < c[t]:
        t += 1
    return t


# ------------------------------------------------------------------ CQT
def cqt(fr, fs, low, high, nfft, octs, bpo, wt, thr, f0, q):
    high = fs / 2 if high is None else high
    Q = q / (2 ** (1.0 / bpo) - 1)
    ps = [f0 * 2 ** (i / bpo) for i in range(octs * bpo)]
    ps = [(f, math.ceil(Q * fs / f)) for f in ps if low <= f <= high]
    ps = [(f, n) for f, n in ps if n <= nfft]
    out = np.zeros((len(ps), len(fr)), complex)
    X = np.array([np.fft.fft(x[:nfft], nfft) for x in fr])
    for k, (f, N) in enumerate(ps):
        a = np.zeros(nfft, complex)
        s = (nfft - N) // 2
        a[s:s + N] = WINS[wt](N) * np.exp(2j * np.pi * f / fs * np.arange(N)) / N
        K = np.fft.fft(a)
        K[np.abs(K) <= thr] = 0
        out[k] = (X * np.conj(K)[None, :]).sum(1) / nfft
    return out


def resample(x, n):
    return _resample(x, n)
