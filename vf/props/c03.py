"""C03 framing, C04/C05 building blocks (pre_emphasis, windowing), zero handling."""
from ..harness import theorem, Num, nt, t, asnum, plain
from ..spec import *


def framing_inputs(h, dt="f"):
    n = h.int("n", lo=1)
    sig = h.arr("sig", (n,), dt)
    fs = h.real("fs", pos=True)
    wl, wh = h.real("win_len", pos=True), h.real("win_hop", pos=True)
    L, H = floor_(wl * fs), floor_(wh * fs)
    h.assume(t.le(t.ONE, H.t), t.le(t.ONE, L.t), t.le(L.t, n.t))
    return n, sig, fs, wl, wh, L, H


@theorem("C03", cases=[{"dt": "f"}, {"dt": "i"}])
def frames_are_slices(h, dt):
    "framing(sig) = the floor((n-L)/H)+1 slices sig[iH : iH+L], reading inside the signal only; ParameterError iff win_len < win_hop"
    n, sig, fs, wl, wh, L, H = framing_inputs(h, dt)
    o = h.call(PP + "framing", sig, fs, wl, wh)
    h.raises_iff("framing", o, "ParameterError", t.lt(wl.t, wh.t))
    if not o.ok:
        return
    frames, length = o.v
    h.prove("returned frame length", t.eq(nt(length), L.t))
    f = fn_of(sig)
    h.equal("frames", frames, (nframes(n, L, H), L), lambda i, j: f(i * H + j))
    h.prove("frames do not alias the signal", t.TRUE if not aliases(frames, sig) else t.FALSE)


def aliases(a, b):
    """does array a share memory with b"""
    x = a.buf
    seen = 0
    while x is not None and seen < 50:
        if x is b.buf:
            return True
        x = x.alias if getattr(x, "alias_shared", True) else None
        seen += 1
    return False


@theorem("C04", cases=[{"dt": "f"}, {"dt": "i"}])
def filter_equation(h, dt):
    "y[0] = x[0], y[t] = x[t] - a x[t-1]"
    n = h.int("n", lo=1)
    x = h.arr("x", (n,), dt)
    a = h.real("a")
    y = h.value(PP + "pre_emphasis", x, a)
    f = fn_of(x)
    h.equal("pre_emphasis", y, (n,), lambda k: ite(t.eq(k.t, t.ZERO), f(0), f(k) - a * f(k - 1)), dt="f")


@theorem("C05", cases=[{"name": w} for w in WINDOWS])
def multiplies_by_window(h, name):
    "windowing(frames, L, name)[i, j] = frames[i, j] * numpy window(L)[j]"
    n, L = h.int("nframes", lo=1), h.int("L", lo=1)
    x = h.arr("frames", (n, L))
    y = h.value(PP + "windowing", x, L, name)
    f = fn_of(x)
    h.equal("windowing", y, (n, L), lambda i, j: f(i, j) * window_value(name, L, j))


@theorem("C05")
def unknown_window(h):
    "an unknown window name is rejected"
    n, L = h.int("nframes", lo=1), h.int("L", lo=1)
    x = h.arr("frames", (n, L))
    s = h.string("win_type")
    o = h.call(PP + "windowing", x, L, s)
    h.raises_iff("windowing", o, "KeyError", t.and_(*[t.not_(t.eq(s.t, V.str_term(w))) for w in WINDOWS]))


@theorem("C18")
def zero_handling_contract(h):
    "zero_handling replaces zeros by eps and nothing else, so its result never vanishes"
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    x = h.arr("x", (n, m))
    y = h.value(PP + "zero_handling", x)
    f = fn_of(x)
    h.equal("zero_handling", y, (n, m), lambda i, j: ite(t.eq(f(i, j).t, t.ZERO), F(1, 2 ** 52), f(i, j)))
