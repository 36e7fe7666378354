"""C12: spectrogram functions."""
from .ex import *


@theorem("C12", cases=[dict(kind=k, bank=b, emph=e, window=w) for k in SPECTRO for b in ("built", "given") for e in (True, False) for w in ("given", "default")])
def spectrogram(h, kind, bank, emph, window):
    "features[i, m] = sum_k |X_i[k]|^2 / nfft * bank[m, k], second result |X_i[k]|, X_i the nfft-point DFT of the windowed frame"
    s = Setup(h, kind, window=window, emph=emph, bank=bank, high="omitted" if bank == "built" and emph else "given", wtype="hanning", scale="ascendant" if emph else "constant")
    o = h.call(SPECTRO[kind], s.sig, **s.kw)
    if not o.ok:
        h.fail("no exception", str(o.exc))
        return
    h.equal("features", o.v[0], (s.nf, s.nfilts), lambda i, m: s.feat(i, m), defined=False)
    h.equal("transform", o.v[1], (s.nf, s.K), lambda i, k: s.mag(i, k), defined=False)
