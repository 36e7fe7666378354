"""C16 lifter_ceps, C17 normalize_ceps, C19 deltas, C10 scale_fbank: function contracts."""
from ..harness import theorem, Num, nt, t, asnum
from ..spec import *


def lifter_spec(lift, i, x):
    """documented lifter on coefficient i with value x; lift is a Num"""
    lt, it = nt(lift), I_(i)
    pw = ite(t.eq(it, t.ZERO), 1, Num(t.power(it, lt), t.TRUE, "f", True))
    L = t.floor(t.neg(lt))
    sn = Num(t.add(t.ONE, t.mul(t.div(L, t.num(2)), t.fun1("sin", t.div(t.mul2(t.PI, t.add(it, t.ONE)), L)))), t.TRUE, "f", True)
    return ite(t.or_(t.eq(lt, t.ZERO), t.lt(t.num(10), lt)), x, ite(t.lt(t.ZERO, lt), x * pw, x * sn))


@theorem("C16", cases=[{"dt": "i"}, {"dt": "f"}])
def lifter_formula(h, dt):
    "lifter_ceps equals its documented formula for every lift (0, positive, above 10, <= -1)"
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    x = h.arr("ceps", (n, m))
    lift = h.int("lift") if dt == "i" else h.real("lift")
    h.assume(t.or_(t.le(t.ZERO, lift.t), t.le(lift.t, t.num(-1))))
    y = h.value(CP + "lifter_ceps", x, lift)
    f = fn_of(x)
    h.equal("lifter_ceps", y, (n, m), lambda i, j: lifter_spec(lift, j, f(i, j)))


def norm_spec(kind, n, m, f):
    """-> (i, j) -> value of the documented normalisation of an n x m matrix"""
    tot = t.mul2(I_(n), I_(m))
    cmean = lambda j: mean(n, lambda k: f(k, j))
    omean = Num(t.div(ssum(n, lambda a: ssum(m, lambda b: f(a, b))).t, tot), t.TRUE, "f", True)
    var = Num(t.div(ssum(n, lambda a: ssum(m, lambda b: (f(a, b) - omean) * (f(a, b) - omean))).t, tot), t.TRUE, "f", True)
    std = Num(t.sqrt(var.t), t.TRUE, "f", True)
    return cmean, omean, std, var


@theorem("C17", cases=[{"kind": k} for k in ("mvn", "ms", "vn", "mn")])
def normalisation_formula(h, kind):
    "normalize_ceps equals its documented formula"
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    x = h.arr("x", (n, m))
    f = fn_of(x)
    cmean, omean, std, var = norm_spec(kind, n, m, f)
    mx, mn = R["numpy.max"](x), R["numpy.min"](x)
    h.assume(t.lt(mn.t, mx.t) if kind == "mn" else t.lt(t.ZERO, var.t))      # not a constant matrix
    y = h.value(CP + "normalize_ceps", x, kind)
    spec = {"mvn": lambda i, j: (f(i, j) - cmean(j)) / std, "ms": lambda i, j: f(i, j) - cmean(j), "vn": lambda i, j: f(i, j) / std,
            "mn": lambda i, j: (f(i, j) - omean) / (mx - mn)}[kind]
    h.equal("normalize_ceps " + kind, y, (n, m), spec)


@theorem("C17", cases=[{"kind": k} for k in ("mvn", "ms")])
def zero_mean_columns(h, kind):
    "mvn and ms give columns of mean zero"
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    x = h.arr("x", (n, m))
    f = fn_of(x)
    h.assume(t.lt(t.ZERO, norm_spec(kind, n, m, f)[3].t))
    y = h.shape("result", h.value(CP + "normalize_ceps", x, kind), (n, m))
    g = fn_of(y)
    h.forall("column means are zero", (m,), lambda j: t.eq(mean(n, lambda k: g(k, j)).t, t.ZERO))


@theorem("C17")
def overall_mean_zero(h):
    "mn gives overall mean zero"
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    x = h.arr("x", (n, m))
    mx, mn = R["numpy.max"](x), R["numpy.min"](x)
    h.assume(t.lt(mn.t, mx.t))
    y = h.shape("result", h.value(CP + "normalize_ceps", x, "mn"), (n, m))
    g = fn_of(y)
    h.prove("overall mean is zero", t.eq(ssum(n, lambda a: ssum(m, lambda b: g(a, b))).t, t.ZERO))


@theorem("C17")
def unit_std(h):
    "vn gives overall standard deviation one"
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    x = h.arr("x", (n, m))
    f = fn_of(x)
    h.assume(t.lt(t.ZERO, norm_spec("vn", n, m, f)[3].t))
    y = h.shape("result", h.value(CP + "normalize_ceps", x, "vn"), (n, m))
    g = fn_of(y)
    var = norm_spec("vn", n, m, g)
    om = var[1]
    v2 = t.div(ssum(n, lambda a: ssum(m, lambda b: (g(a, b) - om) * (g(a, b) - om))).t, t.mul2(I_(n), I_(m)))
    h.prove("overall variance is one", t.eq(v2, t.ONE))


@theorem("C19", cases=[{"dt": "f"}, {"dt": "i"}])
def deltas_formula(h, dt):
    "deltas(x, w)[r, t] = sum over k=-h..h of k * x[r, clamp(t+k)], h = floor(w/2)"
    n, m, w = h.int("rows", lo=1), h.int("cols", lo=1), h.int("w", lo=1)
    x = h.arr("x", (n, m), dt)
    f = fn_of(x)
    y = h.value(CP + "deltas", x, w)
    hl = floor_(w / 2)

    def clamp(c):
        return ite(c < 0, 0, ite(c >= m, m - 1, c))
    h.equal("deltas", y, (n, m), lambda r, c: ssum(2 * hl + 1, lambda q: (q - hl) * f(r, clamp(c + q - hl))))


@theorem("C19")
def deltas_of_constant(h):
    "adding a constant to a row changes no delta; a constant row has zero deltas"
    n, m, w = h.int("rows", lo=1), h.int("cols", lo=1), h.int("w", lo=1)
    x = h.arr("x", (n, m))
    c = h.arr("c", (n,))
    f, cf = fn_of(x), fn_of(c)
    x2 = SymArray.make(x._shape, lambda idx: f(*idx) + cf(idx[0]), "f")
    y = h.value(CP + "deltas", x, w)
    y2 = h.value(CP + "deltas", x2, w)
    h.same("deltas(x + c) == deltas(x)", y2, y)


@theorem("C10", cases=[{"scale": s} for s in ("ascendant", "descendant", "constant")])
def ramp(h, scale):
    "scale_fbank returns the documented ramp as an n x 1 column"
    n = h.int("n", lo=1)
    y = h.value(FL + "scale_fbank", scale, n)
    spec = {"ascendant": lambda j, z: (j + 1) / n, "descendant": lambda j, z: (n - j) / n, "constant": lambda j, z: 1}[scale]
    h.equal("ramp", y, (n, 1), spec)


@theorem("C10")
def unknown_scale(h):
    "any other scaling name is rejected with KeyError"
    n = h.int("n", lo=1)
    s = h.string("scale")
    o = h.call(FL + "scale_fbank", s, n)
    h.raises_iff("scale_fbank", o, "KeyError", t.and_(*[t.not_(t.eq(s.t, V.str_term(w))) for w in ("ascendant", "descendant", "constant")]))


@theorem("C17")
def unit_range(h):
    "mn gives values whose maximum and minimum are one apart"
    n, m = h.int("n", lo=1), h.int("m", lo=1)
    x = h.arr("x", (n, m))
    mx, mn = R["numpy.max"](x), R["numpy.min"](x)
    h.assume(t.lt(mn.t, mx.t))
    y = h.shape("result", h.value(CP + "normalize_ceps", x, "mn"), (n, m))
    h.cx.affine = True
    h.prove("range is one", t.eq(t.sub(R["numpy.max"](y).t, R["numpy.min"](y).t), t.ONE))
