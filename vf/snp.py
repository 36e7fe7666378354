"""Models (assumed contracts) of the numpy / scipy functions used by spafe, over symbolic values.

Every function here is part of the trusted base: it states, as a defining equation in exact arithmetic, what the
library function returns, when it raises, and what it may not be applied to.  Functions that are left uninterpreted
('opaque': dct, resample, matrix inverse, window shapes, angle) are functions of their arguments only.
"""
from fractions import Fraction
from . import terms as t
from .ctx import ctx, PyExc, Unsupported
from .values import *
from . import values as V
from .sarray import *
from . import sarray as SA

R = {}          # qualified name -> python callable


def reg(*names):
    def d(f):
        for n in names:
            R[n] = f
        return f
    return d


def note(s):
    cx = ctx()
    if cx is not None:
        cx.notes.add(s)


def dts(dtype):
    """dtype argument -> code or None"""
    if dtype is None:
        return None
    if isinstance(dtype, DType):
        return dtype.c
    if dtype is float or dtype == "float":
        return "f"
    if dtype is int or dtype == "int":
        return "i"
    if dtype is bool or dtype == "bool":
        return "b"
    if dtype is complex or dtype == "complex":
        return "c"
    if isinstance(dtype, str):
        if dtype.startswith("float"):
            return "f"
        if dtype.startswith("int") or dtype.startswith("uint"):
            return "i"
        if dtype.startswith("complex"):
            return "c"
        if dtype in ("d", "f8", "f4"):
            return "f"
    if isinstance(dtype, TypeName):
        return dtype.dt
    raise Unsupported("dtype %r" % (dtype,))


class TypeName:
    """float64, int64, ... : callable casts and dtype names"""

    def __init__(self, name, dt):
        self.name, self.dt = name, dt

    def __call__(self, x=0):
        if isinstance(x, SymArray):
            return astype(x, self)
        v = asnum(x)
        return cast_eager(v, self.dt)


def cast_eager(v, dt):
    if dt == "i" and v.dt in "fc":
        if v.dt == "c":
            raise PyExc("TypeError", "int of complex")
        return Num(trunc_t(v.t, True), v.ok, "i", v.np)
    return SA.cast(v, dt)


for _n in ("float64", "float32", "float16", "double", "float_", "longdouble"):
    R["numpy." + _n] = TypeName(_n, "f")
for _n in ("int64", "int32", "int16", "int8", "uint8", "uint32", "intp", "int_", "uint64"):
    R["numpy." + _n] = TypeName(_n, "i")
for _n in ("complex128", "complex64", "complex_"):
    R["numpy." + _n] = TypeName(_n, "c")
R["numpy.bool_"] = TypeName("bool_", "b")
R["numpy.pi"] = Num(t.PI, dt="f")
R["numpy.e"] = Num(t.exp(t.ONE), dt="f")
R["numpy.newaxis"] = None
R["math.pi"] = R["numpy.pi"]
EPS = Num(t.num(Fraction(1, 2 ** 52)), dt="f", np=True)
# numpy.inf / nan are undefined values (ok = False)
R["numpy.inf"] = Num(t.app("inf", ()), t.FALSE, "f")
R["numpy.nan"] = Num(t.app("nan", ()), t.FALSE, "f")


class FInfo:
    eps = EPS


@reg("numpy.finfo")
def finfo(dtype=float):
    if dts(dtype) != "f" or (isinstance(dtype, TypeName) and dtype.name not in ("float64", "double", "float_")) or dtype == "float32":
        raise Unsupported("finfo of %r" % (dtype,))
    return FInfo()


# ------------------------------------------------------------------ element-wise
for _n, _o in [("log", "log"), ("log10", "log10"), ("log2", "log2"), ("log1p", "log1p"), ("exp", "exp"), ("expm1", "expm1"),
               ("sqrt", "sqrt"), ("cbrt", "cbrt"), ("square", "square"), ("sin", "sin"), ("cos", "cos"), ("sinh", "sinh"),
               ("arcsinh", "arcsinh"), ("tan", "tan"), ("arctan", "arctan"), ("floor", "floor"), ("ceil", "ceil"),
               ("trunc", "trunc"), ("fix", "trunc"), ("abs", "abs"), ("absolute", "abs"), ("fabs", "abs"), ("conj", "conj"),
               ("conjugate", "conj"), ("real", "real"), ("isnan", "isnan"), ("isinf", "isinf"), ("isfinite", "isfinite"),
               ("logical_not", "~"), ("invert", "~"), ("negative", "neg"), ("rint", "round")]:
    def _mk(o):
        def f(x=None, **kw):
            if x is None and "x" in kw:
                x = kw["x"]
            if kw:
                raise Unsupported("ufunc keyword")
            if o in ("isnan", "isinf", "isfinite") and isinstance(x, SymArray):
                r = all_defined(x)
                if r:
                    return SymArray.make(x._shape, lambda idx: Num(t.TRUE if o == "isfinite" else t.FALSE, t.TRUE, "b", True), "b")
            r = unop(o, x)
            if isinstance(r, (Num,)):
                return Num(r.t, r.ok, r.dt, True)
            return r
        return f
    R["numpy." + _n] = _mk(_o)


def all_defined(x):
    """are all elements of the array provably defined (finite)"""
    cx = ctx()
    vs = [t.fresh("e") for _ in x._shape]
    ok = x.get(*vs).ok
    if ok is t.TRUE:
        return True
    hs = cx.hyps + [c for v, n in zip(vs, x._shape) for c in (t.le(t.ZERO, v), t.lt(v, n))]
    key = (t.lam(vs, ok).id, frozenset(h.id for h in cx.hyps), tuple(n.id for n in x._shape))
    memo = cx.__dict__.setdefault("_all_defined", {})
    if key not in memo:
        memo[key] = cx.prover.proved(hs, ok, 3, 2)
    return memo[key]


for _n, _o in [("log", "log"), ("log10", "log10"), ("log2", "log2"), ("log1p", "log1p"), ("exp", "exp"), ("expm1", "expm1"),
               ("sqrt", "sqrt"), ("sin", "sin"), ("cos", "cos"), ("sinh", "sinh"), ("asinh", "arcsinh"), ("tan", "tan"),
               ("atan", "arctan"), ("fabs", "abs")]:
    def _mkm(o):
        def f(x):
            if not isscalar(x):
                raise Unsupported("math function of an array")
            v = asnum(x)
            r = sun(o, v)
            if r.ok is not v.ok:
                ctx().safe("ValueError", t.implies(v.ok, r.ok), "math domain")
            return Num(r.t, v.ok, r.dt, False)
        return f
    R["math." + _n] = _mkm(_o)


@reg("math.floor")
def m_floor(x):
    return ival(t.floor(nt(x)))


@reg("math.ceil")
def m_ceil(x):
    return ival(t.neg(t.floor(t.neg(nt(x)))))


@reg("math.trunc")
def m_trunc(x):
    return ival(trunc_t(nt(x), True))


@reg("math.pow")
def m_pow(a, b):
    return binop("**", a, b)


for _n, _o in [("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"),
               ("float_power", "**"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%"), ("less", "<"), ("less_equal", "<="),
               ("equal", "=="), ("not_equal", "!="), ("logical_and", "&"), ("logical_or", "|"), ("bitwise_and", "&"), ("bitwise_or", "|")]:
    def _mk2(o):
        def f(a, b):
            if isscalar(a) and isscalar(b):
                a = asnum(a)
                a = Num(a.t, a.ok, a.dt, True)
            if o in "&|":
                a, b = boolify(a), boolify(b)
            return binop(o, a, b)
        return f
    R["numpy." + _n] = _mk2(_o)


def boolify(x):
    if isinstance(x, SymArray) and x.dt == "b" or isinstance(x, bool) or isinstance(x, Num) and x.dt == "b":
        return x
    return binop("!=", x, 0)


@reg("numpy.greater")
def greater(a, b):
    return binop("<", b, a)


@reg("numpy.greater_equal")
def greater_equal(a, b):
    return binop("<=", b, a)


@reg("numpy.maximum", "numpy.fmax")
def maximum(a, b):
    return elementwise(lambda x, y: max_num(x, y), a, b)


@reg("numpy.minimum", "numpy.fmin")
def minimum(a, b):
    return elementwise(lambda x, y: min_num(x, y), a, b)


@reg("numpy.clip")
def clip(a, a_min=None, a_max=None, **kw):
    if a_min is not None:
        a = maximum(a, a_min)
    if a_max is not None:
        a = minimum(a, a_max)
    return a


@reg("numpy.where")
def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    c = boolify(c)
    return elementwise(lambda m, x, y: ite_num_where(m, x, y), c, a, b)


def ite_num_where(m, x, y):
    r = ite_num(m.t, x, y)
    return Num(r.t, t.and_(m.ok, r.ok), promote(x.dt, y.dt), True)


@reg("numpy.nonzero")
def nonzero(c):
    c = boolify(toarray(c))
    if c.nd != 1:
        raise Unsupported("nonzero of a matrix")
    n = c._shape[0]
    l = mask_lam(c.snap())
    cnt, pk = mask_pick(n, l)
    return (SymArray.make((cnt,), lambda idx: Num(pk(idx[0]), dt="i"), "i"),)


@reg("numpy.flatnonzero")
def flatnonzero(c):
    return nonzero(c)[0]


@reg("numpy.angle")
def angle(z, deg=False):
    if truth(deg):
        return unop("angle_deg", z)
    return unop("angle", z)


def truth(x):
    return bool(x)


@reg("numpy.round", "numpy.around", "numpy.round_")
def round_(a, decimals=0):
    if not isinstance(decimals, int):
        raise Unsupported("round decimals")
    k = 10 ** decimals if decimals >= 0 else Fraction(1, 10 ** -decimals)
    if decimals == 0:
        return unop("round", a)
    f = lambda x: Num(t.scale(t.app("rint", (t.scale(nt(x), k),), True), Fraction(1) / k), x.ok, "f", True)
    if isscalar(a):
        return f(asnum(a))
    return elementwise(f, a)


# ------------------------------------------------------------------ creation
def shape_arg(s):
    if isinstance(s, (list, tuple)):
        out = [dim_arg(x) for x in s]
    elif isinstance(s, SymArray):
        n = t.constval(s._shape[0]) if s.nd == 1 else None
        if n is None:
            raise Unsupported("symbolic shape")
        out = [dim_arg(s[i]) for i in range(int(n))]
    else:
        out = [dim_arg(s)]
    return tuple(out)


def dim_arg(x):
    v = asnum(x)
    if v.dt not in ("i", "b"):
        raise PyExc("TypeError", "'float' object cannot be interpreted as an integer")
    i = I_(v)
    ctx().safe("ValueError", t.le(t.ZERO, i), "negative dimensions are not allowed")
    return i


def const_arr(shape, v, dt):
    v = asnum(v)
    if dt is None:
        dt = v.dt
    v = SA.cast(v, dt)
    return SymArray.make(shape, lambda idx: v, dt)


@reg("numpy.zeros")
def zeros(shape, dtype=float, order="C"):
    return const_arr(shape_arg(shape), 0, dts(dtype) or "f")


@reg("numpy.ones")
def ones(shape, dtype=float, order="C"):
    return const_arr(shape_arg(shape), 1, dts(dtype) or "f")


@reg("numpy.full")
def full(shape, fill_value, dtype=None):
    return const_arr(shape_arg(shape), fill_value, dts(dtype))


@reg("numpy.empty")
def empty(shape, dtype=float, order="C"):
    nm = "uninit!%d" % next(t._fresh)
    d = dts(dtype) or "f"
    return SymArray.make(shape_arg(shape), lambda idx: Num(t.app(nm, idx), t.FALSE, d), d)


@reg("numpy.zeros_like")
def zeros_like(a, dtype=None):
    a = toarray(a)
    return const_arr(a._shape, 0, dts(dtype) or a.dt)


@reg("numpy.ones_like")
def ones_like(a, dtype=None):
    a = toarray(a)
    return const_arr(a._shape, 1, dts(dtype) or a.dt)


@reg("numpy.full_like")
def full_like(a, v, dtype=None):
    a = toarray(a)
    return const_arr(a._shape, v, dts(dtype) or a.dt)


@reg("numpy.empty_like")
def empty_like(a, dtype=None):
    a = toarray(a)
    return empty(a.shape, dtype or DType(a.dt))


@reg("numpy.eye", "numpy.identity")
def eye(n, M=None, dtype=float):
    a = dim_arg(n)
    b = a if M is None else dim_arg(M)
    return SymArray.make((a, b), lambda idx: Num(t.ite(t.eq(idx[0], idx[1]), t.ONE, t.ZERO), dt="f"), "f")


@reg("numpy.array")
def array(x, dtype=None, copy=True, ndmin=0):
    a = toarray(x)
    r = astype(a, dtype) if dtype is not None else a.copy()
    if isscalar(x):
        r = SymArray.make((), r.snap(), r.dt)
    return r


@reg("numpy.copy")
def copy_(a):
    return toarray(a).copy()


@reg("numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.asfarray")
def asarray(x, dtype=None):
    if isinstance(x, SymArray) and not x.islist and (dtype is None or dts(dtype) == x.dt):
        return x
    a = toarray(x)
    if dtype is not None:
        return astype(a, dtype)
    return a.copy() if a.islist else a


@reg("numpy.atleast_1d")
def atleast_1d(x):
    a = toarray(x)
    return reshape(a, (1,)) if a.nd == 0 else a


def astype(a, dtype, copy=True):
    d = dts(dtype)
    if d == a.dt:
        return a.copy()
    f = a.snap()
    if d == "i" and a.dt in "f":
        return SymArray.make(a._shape, lambda idx: SA.cast(f(idx), "i"), "i")
    return SymArray.make(a._shape, lambda idx: SA.cast(f(idx), d), d)


@reg("numpy.arange")
def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    s, e, k = asnum(start), asnum(stop), asnum(step)
    d = dts(dtype) or promote(s.dt, e.dt, k.dt)
    kc = t.constval(k.t)
    if kc is None or kc == 0:
        if ctx().implied(t.lt(t.ZERO, k.t)) or ctx().implied(t.lt(k.t, t.ZERO)):
            pass
        else:
            raise Unsupported("arange with a symbolic step")
    n = t.neg(t.floor(t.neg(t.div(t.sub(e.t, s.t), k.t))))
    return SymArray.make((pos_dim(n),), lambda idx: Num(t.add(s.t, t.mul2(k.t, idx[0])), dt=d), d)


@reg("numpy.linspace")
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    s, e = asnum(start), asnum(stop)
    n = dim_arg(num)
    if truth(retstep):
        raise Unsupported("linspace retstep")
    d = t.sub(n, t.ONE) if truth(endpoint) else n
    ok = t.and_(s.ok, e.ok)
    cx = ctx()
    one = t.eq(d, t.ZERO)
    if cx.implied(t.not_(one)):
        one = t.FALSE
    elif cx.implied(one):
        one = t.TRUE

    def fn(idx):
        v = s.t if one is t.TRUE else t.ite(one, s.t, t.add(s.t, t.mul(idx[0], t.sub(e.t, s.t), t.recip(d))))
        return Num(v, ok, "f")
    return SymArray.make((n,), fn, "f")


# ------------------------------------------------------------------ shape
@reg("numpy.reshape")
def reshape(a, *shape, **kw):
    a = toarray(a)
    if "newshape" in kw:
        shape = (kw["newshape"],)
    if "shape" in kw:
        shape = (kw["shape"],)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    tot = t.mul(*a._shape) if a._shape else t.ONE
    sh = []
    unk = None
    for i, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            unk = i
            sh.append(None)
        else:
            sh.append(I_(s))
    if unk is not None:
        p = t.mul(*[x for x in sh if x is not None]) if len(sh) > 1 else t.ONE
        q = t.div(tot, p)
        sh[unk] = q
    new = tuple(sh)
    if t.mul(*new) is not tot:
        ctx().safe("ValueError", t.eq(t.mul(*new) if new else t.ONE, tot), "reshape size")
    src = a._shape
    f = a.snap()
    # drop/insert unit axes
    s1 = [k for k, s in enumerate(src) if t.constval(s) != 1]
    d1 = [k for k, s in enumerate(new) if t.constval(s) != 1]
    cx = ctx()
    if len(s1) == len(d1) and all(src[p] is new[q] or cx.implied(t.eq(src[p], new[q])) for p, q in zip(s1, d1)):
        def fn(idx):
            out = [t.ZERO] * len(src)
            for p, q in zip(s1, d1):
                out[p] = idx[q]
            return f(tuple(out))
        return SymArray.make(new, fn, a.dt)
    if len(s1) > len(d1) and len(d1) == 1 and len(s1) == 2:
        # ravel of a matrix
        w = src[s1[1]]

        def fn(idx):
            i = idx[d1[0]]
            q = t.floor(t.div(i, w))
            out = [t.ZERO] * len(src)
            out[s1[0]], out[s1[1]] = q, t.sub(i, t.mul2(w, q))
            return f(tuple(out))
        return SymArray.make(new, fn, a.dt)
    if len(s1) == 1 and len(d1) == 2:
        w = new[d1[1]]

        def fn(idx):
            out = [t.ZERO] * len(src)
            out[s1[0]] = t.add(t.mul2(idx[d1[0]], w), idx[d1[1]])
            return f(tuple(out))
        return SymArray.make(new, fn, a.dt)
    if len(s1) == 0 and len(d1) <= 1 or len(d1) == 0:
        # one side symbolic size equal to one element
        return SymArray.make(new, lambda idx: f(tuple(t.ZERO for _ in src)), a.dt)
    raise Unsupported("reshape")


@reg("numpy.ravel")
def ravel(a, order="C"):
    a = toarray(a)
    if a.nd == 1:
        return a
    return reshape(a, (-1,))


@reg("numpy.transpose")
def transpose(a, axes=None):
    a = toarray(a)
    if axes is not None:
        raise Unsupported("transpose axes")
    return a.T


@reg("numpy.squeeze")
def squeeze(a, axis=None):
    a = toarray(a)
    return reshape(a, tuple(ival(s) for k, s in enumerate(a._shape) if t.constval(s) != 1 or (axis is not None and k != axis % a.nd)))


@reg("numpy.expand_dims")
def expand_dims(a, axis):
    a = toarray(a)
    axis = axis % (a.nd + 1)
    return a[(slice(None),) * axis + (None,)]


@reg("numpy.flip")
def flip(a, axis=None):
    a = toarray(a)
    ax = range(a.nd) if axis is None else [axis % a.nd]
    return a[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.nd))]


@reg("numpy.roll")
def roll(a, shift, axis=None):
    a = toarray(a)
    if axis is None and a.nd != 1:
        raise Unsupported("roll of a matrix without an axis")
    ax = 0 if axis is None else axis % a.nd
    f, n, k = a.snap(), a._shape[ax], I_(shift)
    v = t.fresh("q")
    cx = ctx()
    h = cx.hyps + [t.le(t.ZERO, v), t.lt(v, n)]
    p = t.sub(v, k)
    if k is t.ZERO:
        return a.copy()
    if cx.prover.proved(h, t.and_(t.le(t.neg(n), p), t.lt(p, t.scale(n, 2))), 1, 1):
        w = lambda i: t.ite(t.lt(t.sub(i, k), t.ZERO), t.add(t.sub(i, k), n), t.ite(t.lt(t.sub(i, k), n), t.sub(i, k), t.sub(t.sub(i, k), n)))
    else:
        w = lambda i: t.sub(t.sub(i, k), t.mul2(n, t.floor(t.div(t.sub(i, k), n))))
    return SymArray.make(a._shape, lambda idx: f(tuple(w(x) if j == ax else x for j, x in enumerate(idx))), a.dt)


@reg("numpy.sign")
def sign(a):
    return elementwise(lambda x: ite_num(t.lt(t.ZERO, nt(x)), asnum(1), ite_num(t.lt(nt(x), t.ZERO), asnum(-1), asnum(0))), a)


@reg("numpy.take")
def take(a, i, axis=None):
    a = toarray(a)
    if axis is None and a.nd != 1:
        raise Unsupported("take of a matrix without an axis")
    ax = 0 if axis is None else axis % a.nd
    return a[tuple(i if j == ax else slice(None) for j in range(a.nd))]


@reg("numpy.shape")
def shape_of(a):
    return toarray(a).shape


@reg("numpy.ndim")
def ndim_of(a):
    return toarray(a).nd


@reg("numpy.size")
def size_of(a):
    return toarray(a).size


@reg("numpy.rad2deg", "numpy.degrees")
def rad2deg(a):
    return binop("*", a, Num(t.div(t.num(180), t.PI), dt="f"))


@reg("numpy.deg2rad", "numpy.radians")
def deg2rad(a):
    return binop("*", a, Num(t.div(t.PI, t.num(180)), dt="f"))


@reg("numpy.inner")
def inner(a, b):
    a, b = toarray(a), toarray(b)
    return dot(a, b.T if b.nd == 2 else b)


@reg("numpy.swapaxes")
def swapaxes(a, i, j):
    a = toarray(a)
    if a.nd != 2 or {i % 2, j % 2} != {0, 1}:
        raise Unsupported("swapaxes")
    return a.T


@reg("numpy.broadcast_to")
def broadcast_to(a, shape):
    if toarray(a).dt != "f":
        raise Unsupported("broadcast_to of non-float values")
    return binop("*", a, R["numpy.ones"](shape))


@reg("numpy.atleast_2d")
def atleast_2d(a):
    a = toarray(a)
    return a[None, :] if a.nd == 1 else a


@reg("numpy.fromiter")
def fromiter(it, dtype=None, count=-1):
    return R["numpy.array"](it, dtype)


@reg("numpy.flipud")
def flipud(a):
    return flip(a, 0)


@reg("numpy.fliplr")
def fliplr(a):
    return flip(a, 1)


@reg("numpy.concatenate")
def concatenate(xs, axis=0):
    if isinstance(xs, (SymList, SymArray)):
        raise Unsupported("concatenate of a symbolic list")
    arrs = [toarray(x) for x in xs]
    if axis is None:
        arrs, axis = [ravel(a) for a in arrs], 0
    return concat(arrs, axis % arrs[0].nd)


@reg("numpy.hstack")
def hstack(xs):
    arrs = [atleast_1d(x) for x in xs]
    return concat(arrs, 0 if arrs[0].nd == 1 else 1)


@reg("numpy.vstack", "numpy.row_stack")
def vstack(xs):
    if isinstance(xs, SymList):
        return toarray(xs)
    arrs = [toarray(x) for x in xs]
    return concat([a[None, :] if a.nd == 1 else a for a in arrs], 0)


@reg("numpy.column_stack")
def column_stack(xs):
    arrs = [toarray(x) for x in xs]
    return concat([a[:, None] if a.nd == 1 else a for a in arrs], 1)


@reg("numpy.stack")
def stack(xs, axis=0):
    if isinstance(xs, SymList):
        r = toarray(xs)
        if axis in (0,):
            return r
        if axis in (1, -1) and r.nd == 2:
            return r.T
        raise Unsupported("stack axis")
    arrs = [toarray(x) for x in xs]
    axis = axis % (arrs[0].nd + 1)
    return concat([expand_dims(a, axis) for a in arrs], axis)


@reg("numpy.append")
def append(arr, values, axis=None):
    if axis is None:
        return concat([ravel(atleast_1d(arr)), ravel(atleast_1d(values))], 0)
    arr = toarray(arr)
    return concat([arr, values], axis % arr.nd)


@reg("numpy.insert")
def insert(arr, obj, values, axis=None):
    a = toarray(arr)
    if a.nd != 1 or not isinstance(obj, int) or not isscalar(values):
        raise Unsupported("insert")
    v = SA.cast(asnum(values), a.dt)
    one = SymArray.make((t.ONE,), lambda idx: v, a.dt)
    if obj == 0:
        return concat([one, a])
    return concat([a[:obj], one, a[obj:]])


@reg("numpy.tile")
def tile(a, reps):
    a = toarray(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    nd = max(a.nd, len(reps))
    while len(reps) < nd:
        reps = [1] + reps
    sh = (t.ONE,) * (nd - a.nd) + a._shape
    f = a.snap()
    off = nd - a.nd
    out = []
    for s, r in zip(sh, reps):
        r = I_(asnum(r))
        r = t.ZERO if ctx().implied(t.le(r, t.ZERO)) else r
        out.append(pos_dim(t.mul2(s, r)))

    def fn(idx):
        j = []
        for k in range(off, nd):
            s = sh[k]
            if t.constval(s) == 1:
                j.append(t.ZERO)
            elif isinstance(reps[k], int) and reps[k] == 1:
                j.append(idx[k])
            else:
                j.append(t.sub(idx[k], t.mul2(s, t.floor(t.div(idx[k], s)))))
        return f(tuple(j))
    return SymArray.make(tuple(out), fn, a.dt)


@reg("numpy.repeat")
def repeat(a, repeats, axis=None):
    a = toarray(a)
    r = I_(asnum(repeats))
    if axis is None:
        a, axis = ravel(a) if a.nd else reshape(a, (1,)), 0
    axis = axis % a.nd
    f = a.snap()
    sh = a._shape[:axis] + (pos_dim(t.mul2(a._shape[axis], r)),) + a._shape[axis + 1:]
    if t.constval(a._shape[axis]) == 1:
        return SymArray.make(sh, lambda idx: f(idx[:axis] + (t.ZERO,) + idx[axis + 1:]), a.dt)
    return SymArray.make(sh, lambda idx: f(idx[:axis] + (t.floor(t.div(idx[axis], r)),) + idx[axis + 1:]), a.dt)


@reg("numpy.pad")
def pad(a, pad_width, mode="constant", constant_values=0):
    a = toarray(a)
    if isinstance(pad_width, int) or isinstance(pad_width, Num):
        pw = [(pad_width, pad_width)] * a.nd
    else:
        pw = [p if isinstance(p, (tuple, list)) else None for p in pad_width]
        if any(p is None for p in pw):
            if len(pad_width) == 2 and a.nd == 1:
                pw = [tuple(pad_width)]
            else:
                raise Unsupported("pad")
        if len(pw) == 1:
            pw = pw * a.nd
    f = a.snap()
    lo = [dim_arg(p[0]) for p in pw]
    hi = [dim_arg(p[1]) for p in pw]
    sh = tuple(t.add(s, l, h) for s, l, h in zip(a._shape, lo, hi))
    cv = SA.cast(asnum(constant_values), a.dt) if isscalar(constant_values) else None

    def fn(idx):
        js = [t.sub(i, l) for i, l in zip(idx, lo)]
        if mode == "edge":
            js = [j if (l is t.ZERO and h is t.ZERO) else t.ite(t.lt(j, t.ZERO), t.ZERO, t.ite(t.lt(j, s), j, t.sub(s, t.ONE)))
                  for j, s, l, h in zip(js, a._shape, lo, hi)]
            return f(tuple(js))
        inb = t.and_(*[c for j, s, l, h in zip(js, a._shape, lo, hi) if not (l is t.ZERO and h is t.ZERO) for c in (t.le(t.ZERO, j), t.lt(j, s))])
        return ite_num(inb, f(tuple(js)), cv)
    if mode not in ("edge", "constant") or (mode == "constant" and cv is None):
        raise Unsupported("pad mode")
    return SymArray.make(sh, fn, a.dt)


@reg("numpy.diag")
def diag(v, k=0):
    a = toarray(v)
    if k != 0:
        raise Unsupported("diag offset")
    f = a.snap()
    if a.nd == 1:
        return SymArray.make((a._shape[0], a._shape[0]), lambda idx: ite_num(t.eq(idx[0], idx[1]), f((idx[1],)), asnum(0)), a.dt)
    n = a._shape[0]
    if a._shape[0] is not a._shape[1]:
        raise Unsupported("diag of a rectangular matrix")
    return SymArray.make((n,), lambda idx: f((idx[0], idx[0])), a.dt)


@reg("numpy.meshgrid")
def meshgrid(*a, **k):
    raise Unsupported("meshgrid")


class RClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (slice, str)) for k in key):
            raise Unsupported("np.r_ with slices")
        return concat([atleast_1d(k) for k in key], 0)


R["numpy.r_"] = RClass()


@reg("numpy.lib.stride_tricks.as_strided")
def as_strided(x, shape=None, strides=None, writeable=True):
    a = toarray(x)
    if a.nd != 1 or not all(d[0] == "s" for d in a.dims):
        raise Unsupported("as_strided of a matrix")
    item = itemsize(a)
    base_step = a.dims[0][2]
    sh = []
    for s in shape:
        i = I_(s)
        ctx().safe("ValueError", t.le(t.ZERO, i), "as_strided shape non-negative")
        sh.append(i)
    st = []
    for s in strides:
        q = t.div(I_(s), item)
        if q.fv & item.fv:
            raise Unsupported("strides not a multiple of the item size")
        st.append(t.div(q, base_step))
    f = a.snap()
    n = a._shape[0]
    vs = [t.fresh("i") for _ in sh]
    off = t.add(*[t.mul2(v, s) for v, s in zip(vs, st)])
    cx = ctx()
    h0 = list(cx.hyps)
    cx.hyps += [c for v, s in zip(vs, sh) for c in (t.le(t.ZERO, v), t.lt(v, s))]
    try:
        cx.safe("OutOfBounds", t.and_(t.le(t.ZERO, off), t.lt(off, n)), "strided view stays inside the array")
    finally:
        cx.hyps = h0
    r = SymArray.make(tuple(sh), lambda idx: f((t.add(*[t.mul2(v, s) for v, s in zip(idx, st)]),)), a.dt)
    r.buf.alias = a.buf
    r.ro = True
    return r


def itemsize(a):
    return t.var("itemsize!", True)


@reg("numpy.lib.stride_tricks.sliding_window_view")
def sliding_window_view(x, window_shape, axis=None):
    a = toarray(x)
    if isinstance(window_shape, (tuple, list)):
        (window_shape,) = window_shape
    w = I_(window_shape)
    if a.nd != 1:
        raise Unsupported("sliding_window_view of a matrix")
    n = a._shape[0]
    ctx().safe("ValueError", t.and_(t.le(t.ZERO, w), t.le(w, n)), "sliding_window_view window")
    f = a.snap()
    r = SymArray.make((t.add(t.sub(n, w), t.ONE), w), lambda idx: f((t.add(idx[0], idx[1]),)), a.dt)
    r.buf.alias = a.buf
    r.ro = True
    return r


# ------------------------------------------------------------------ reductions
def rsum(n, g):
    v = t.fresh("s")
    b = g(v)
    return Num(t.sum_(n, [v], nt(b)), t.forall_(n, [v], b.ok), "i" if b.dt in "bi" else b.dt, True)


def rprod(n, g):
    raise Unsupported("product")


def rext(name):
    def f(n, g):
        ctx_nonempty(n, name)
        v = t.fresh("s")
        b = g(v)
        if not nt(b).isreal:
            raise Unsupported("%s of complex values" % name)
        c = t.constval(n)
        if c == 1:
            return g(t.ZERO)
        if c is not None and 1 < c <= 6:
            xs = [g(t.num(i)) for i in range(int(c))]
            if all(nt(x).isreal for x in xs):
                r = nt(xs[0])
                for x in xs[1:]:
                    r = t.max2(r, nt(x)) if name == "max" else t.min2(r, nt(x))
                return Num(r, t.and_(*[x.ok for x in xs]), b.dt, True)
        if v not in nt(b).fv:
            return Num(nt(b), t.forall_(n, [v], b.ok), b.dt, True)
        if getattr(ctx(), "affine", False):
            # max(p * x + q) = p * max(x) + q for p > 0 that does not depend on the index
            it = list(t._poly_items(nt(b)))
            q = t._from_dict({m: c for m, c in it if not any(v in a.fv for a, e in m)})
            it = [(m, c) for m, c in it if any(v in a.fv for a, e in m)]
            p = t.ONE
            for a, e in it[0][0]:
                if v not in a.fv and all((a, e) in m for m, c in it):
                    p = t.mul2(p, t.ipow(a, e))
            if (p is not t.ONE or q is not t.ZERO) and ctx().prover.proved(ctx().hyps, t.lt(t.ZERO, p), 2, 2):
                x = t.div(t._from_dict(dict(it)), p)
                return Num(t.add(q, t.mul2(p, t.bop(name, (n,), (t.lam([v], x),)))), t.forall_(n, [v], b.ok), b.dt, True)
        return Num(t.bop(name, (n,), (t.lam([v], nt(b)),), b.dt == "i"), t.forall_(n, [v], b.ok), b.dt, True)
    return f


def rarg(name):
    def f(n, g):
        ctx_nonempty(n, name)
        v = t.fresh("s")
        b = order_core(nt(g(v)), v)
        return Num(t.bop(name, (n,), (t.lam([v], b),), True), t.TRUE, "i", True)
    return f


def order_core(x, v):
    """a simpler term in the same order over v: positive factors that do not depend on v dropped, powers of a non-negative term reduced"""
    it = list(t._poly_items(x))
    cx = ctx()
    if len(it) != 1 or cx is None or it[0][1] <= 0:
        return x
    keep = []
    for a, e in it[0][0]:
        if v in a.fv:
            keep.append((a, e))
        elif not (e % 2 == 0 and cx.implied(t.not_(t.eq(a, t.ZERO))) or cx.implied(t.lt(t.ZERO, a))):
            return x
    if len(keep) == 1 and keep[0][1] > 0 and (keep[0][0].op in ("cabs", "abs") or cx.implied(t.le(t.ZERO, keep[0][0]))):
        return keep[0][0]
    return t._from_dict({tuple(keep): Fraction(1)}) if keep else x


def ctx_nonempty(n, name):
    # called eagerly only (reductions evaluate one generic element at construction)
    cx = ctx()
    if cx is not None and not getattr(cx, "lazy", 0):
        cx.safe("ValueError", t.lt(t.ZERO, n), "%s of a non-empty array" % name)


def reduce_(a, axis, keepdims, fn, dt=None):
    a = toarray(a)
    f = a.snap()
    sh = a._shape
    if axis is None:
        axes = list(range(len(sh)))
    elif isinstance(axis, (tuple, list)):
        axes = sorted(x % len(sh) for x in axis)
    else:
        if not isinstance(axis, int):
            raise Unsupported("symbolic axis")
        if axis >= len(sh) or axis < -len(sh):
            raise PyExc("AxisError", "axis out of bounds")
        axes = [axis % len(sh)]
    rest = [k for k in range(len(sh)) if k not in axes]

    def value(ridx):
        def go(k, idx):
            if k == len(axes):
                return f(tuple(idx))

            def g(v):
                j = list(idx)
                j[axes[k]] = v
                return go(k + 1, j)
            return fn(sh[axes[k]], g)
        idx = [None] * len(sh)
        for p, q in zip(rest, ridx):
            idx[p] = q
        return go(0, idx)
    cx = ctx()
    if truth(keepdims):
        osh = tuple(t.ONE if k in axes else sh[k] for k in range(len(sh)))
        probe = value([t.fresh("p") for _ in rest])
        return lazy_arr(osh, lambda idx: value([idx[k] for k in rest]), probe.dt)
    if not rest:
        r = value([])
        return Num(r.t, r.ok, r.dt, True)
    probe = value([t.fresh("p") for _ in rest])
    return lazy_arr(tuple(sh[k] for k in rest), value, probe.dt)


def lazy_arr(sh, fn, dt):
    def g(idx):
        cx = ctx()
        if cx is None:
            return fn(idx)
        cx.lazy = getattr(cx, "lazy", 0) + 1
        try:
            return fn(idx)
        finally:
            cx.lazy -= 1
    return SymArray.make(sh, g, dt)


@reg("numpy.sum", "numpy.nansum")
def sum_(a, axis=None, dtype=None, keepdims=False):
    return reduce_(a, axis, keepdims, rsum)


def count_of(a, axis):
    if axis is None:
        return t.mul(*a._shape) if a._shape else t.ONE
    if isinstance(axis, (tuple, list)):
        return t.mul(*[a._shape[x % a.nd] for x in axis])
    return a._shape[axis % a.nd]


@reg("numpy.mean", "numpy.average", "numpy.nanmean")
def mean(a, axis=None, keepdims=False, weights=None):
    if weights is not None:
        raise Unsupported("weighted average")
    a = toarray(a)
    s = sum_(a, axis, None, keepdims)
    return binop("/", s, Num(count_of(a, axis), dt="f", np=True))


@reg("numpy.var")
def var(a, axis=None, ddof=0, keepdims=False):
    a = toarray(a)
    m = mean(a, axis, True)
    d = unop("abs", binop("-", a, m))
    s = sum_(binop("*", d, d), axis, None, keepdims)
    return binop("/", s, Num(t.sub(count_of(a, axis), I_(ddof)), dt="f", np=True))


@reg("numpy.std")
def std(a, axis=None, ddof=0, keepdims=False):
    # the radicand is a mean of squares: defined whenever the variance is
    return elementwise(lambda v: Num(t.sqrt(asnum(v).t), asnum(v).ok, "f", True), var(a, axis, ddof, keepdims))


@reg("numpy.max", "numpy.amax")
def max_(a, axis=None, keepdims=False):
    return reduce_(a, axis, keepdims, rext("max"))


@reg("numpy.min", "numpy.amin")
def min_(a, axis=None, keepdims=False):
    return reduce_(a, axis, keepdims, rext("min"))


@reg("numpy.ptp")
def ptp(a, axis=None):
    return binop("-", max_(a, axis), min_(a, axis))


@reg("numpy.argmax")
def argmax(a, axis=None):
    a = toarray(a)
    if a.nd > 1 and axis is None:
        raise Unsupported("argmax of a matrix")
    return reduce_(a, axis, False, rarg("argmax"))


@reg("numpy.argmin")
def argmin(a, axis=None):
    a = toarray(a)
    if a.nd > 1 and axis is None:
        raise Unsupported("argmin of a matrix")
    return reduce_(a, axis, False, rarg("argmin"))


@reg("numpy.any")
def any_(a, axis=None):
    a = boolify(toarray(a))
    return reduce_(a, axis, False, lambda n, g: rbool(n, g, True))


@reg("numpy.all")
def all_(a, axis=None):
    a = boolify(toarray(a))
    return reduce_(a, axis, False, lambda n, g: rbool(n, g, False))


def rbool(n, g, ex):
    v = t.fresh("s")
    b = g(v)
    if ex:
        return Num(t.not_(t.forall_(n, [v], t.not_(b.t))), t.TRUE, "b", True)
    return Num(t.forall_(n, [v], b.t), t.TRUE, "b", True)


@reg("numpy.count_nonzero")
def count_nonzero(a, axis=None):
    return sum_(boolify(toarray(a)), axis)


@reg("numpy.cumsum")
def cumsum(a, axis=None, dtype=None):
    a = toarray(a)
    if axis is None:
        if a.nd != 1:
            raise Unsupported("cumsum of a matrix")
        axis = 0
    axis = axis % a.nd
    f = a.snap()
    return SymArray.make(a._shape, lambda idx: rsum(t.add(idx[axis], t.ONE), lambda v: f(idx[:axis] + (v,) + idx[axis + 1:])), "i" if a.dt in "bi" else a.dt)


@reg("numpy.diff")
def diff(a, n=1, axis=-1):
    a = toarray(a)
    if n != 1:
        raise Unsupported("diff order")
    axis = axis % a.nd
    f = a.snap()
    sh = a._shape[:axis] + (pos_dim(t.sub(a._shape[axis], t.ONE)),) + a._shape[axis + 1:]
    return SymArray.make(sh, lambda idx: sbin("-", npnum(f(idx[:axis] + (t.add(idx[axis], t.ONE),) + idx[axis + 1:])), npnum(f(idx))), a.dt)


def npnum(v):
    return v if v.np else Num(v.t, v.ok, v.dt, True)


@reg("numpy.dot", "numpy.matmul", "numpy.inner1")
def dot(a, b):
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        return sparse_dot(a, b)
    a, b = toarray(a), toarray(b)
    if a.nd == 0 or b.nd == 0:
        return binop("*", a, b)
    fa, fb = a.snap(), b.snap()
    n, m = a._shape[-1], b._shape[-2 if b.nd > 1 else 0]
    if n is not m:
        e = t.eq(n, m)
        if e is t.FALSE:
            raise PyExc("ValueError", "shapes not aligned")
        ctx().safe("ValueError", e, "dot: shapes aligned")
    dt = promote(a.dt, b.dt)
    if a.nd == 1 and b.nd == 1:
        return rsum(n, lambda v: sbin("*", npnum(fa((v,))), npnum(fb((v,)))))
    if a.nd == 2 and b.nd == 1:
        return SymArray.make((a._shape[0],), lambda idx: rsum(n, lambda v: sbin("*", npnum(fa((idx[0], v))), npnum(fb((v,))))), dt)
    if a.nd == 1 and b.nd == 2:
        return SymArray.make((b._shape[1],), lambda idx: rsum(n, lambda v: sbin("*", npnum(fa((v,))), npnum(fb((v, idx[0]))))), dt)
    if a.nd == 2 and b.nd == 2:
        return SymArray.make((a._shape[0], b._shape[1]), lambda idx: rsum(n, lambda v: sbin("*", npnum(fa((idx[0], v))), npnum(fb((v, idx[1]))))), dt)
    raise Unsupported("dot of %d-d arrays" % a.nd)


@reg("numpy.outer")
def outer(a, b):
    a, b = toarray(a), toarray(b)
    return binop("*", a[:, None], b[None, :])


@reg("numpy.einsum")
def einsum(spec, *ops):
    if not isinstance(spec, str) or "->" not in spec:
        raise Unsupported("einsum")
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    arrs = [toarray(o) for o in ops]
    size = {}
    for s, a in zip(ins, arrs):
        for c, d in zip(s, a._shape):
            if c in size and size[c] is not d:
                ctx().safe("ValueError", t.eq(size[c], d), "einsum")
            size.setdefault(c, d)
    red = [c for c in size if c not in out]
    fs = [a.snap() for a in arrs]

    def fn(idx):
        env = dict(zip(out, idx))

        def go(k):
            if k == len(red):
                r = asnum(1)
                for s, f in zip(ins, fs):
                    r = sbin("*", npnum(r), npnum(f(tuple(env[c] for c in s))))
                return r

            def g(v):
                env[red[k]] = v
                return go(k + 1)
            return rsum(size[red[k]], g)
        return go(0)
    dt = promote(*[a.dt for a in arrs])
    if not out:
        return fn(())
    return SymArray.make(tuple(size[c] for c in out), fn, dt)


# ------------------------------------------------------------------ FFT
def _fft_axis(a, n, axis):
    a = toarray(a)
    axis = axis % a.nd
    L = a._shape[axis]
    n = L if n is None else I_(n)
    ctx().safe("ValueError", t.lt(t.ZERO, n), "FFT length positive")
    cx = ctx()
    m = L if cx.implied(t.le(L, n)) else n if cx.implied(t.le(n, L)) else t.min2(L, n)
    return a, axis, n, m


def dft(f, m, n, k, sign, pre, post):
    """sum_{j<m} f(j) exp(sign*2*pi*I*j*k/n)"""
    def g(j):
        x = npnum(f(pre + (j,) + post))
        w = t.exp(t.mul(t.I, t.num(2 * sign), t.PI, j, k, t.recip(n)))
        return Num(t.mul2(nt(x), w), x.ok, "c", True)
    return rsum(m, g)


@reg("numpy.fft.fft", "scipy.fft.fft", "scipy.fftpack.fft")
def fft(a=None, n=None, axis=-1, x=None, norm=None):
    a = x if a is None else a
    a, axis, n, m = _fft_axis(a, n, axis)
    f = a.snap()
    sh = a._shape[:axis] + (n,) + a._shape[axis + 1:]
    return SymArray.make(sh, lambda idx: dft(f, m, n, idx[axis], -1, idx[:axis], idx[axis + 1:]), "c")


@reg("numpy.fft.rfft", "scipy.fft.rfft")
def rfft(a=None, n=None, axis=-1, x=None, norm=None):
    a = x if a is None else a
    a, axis, n, m = _fft_axis(a, n, axis)
    if a.dt == "c":
        raise PyExc("TypeError", "rfft of complex input")
    f = a.snap()
    h = t.add(t.floor(t.div(n, t.num(2))), t.ONE)
    sh = a._shape[:axis] + (h,) + a._shape[axis + 1:]
    return SymArray.make(sh, lambda idx: dft(f, m, n, idx[axis], -1, idx[:axis], idx[axis + 1:]), "c")


@reg("numpy.fft.ifft", "scipy.fft.ifft", "scipy.fftpack.ifft")
def ifft(a=None, n=None, axis=-1, x=None, norm=None):
    a = x if a is None else a
    a, axis, n, m = _fft_axis(a, n, axis)
    f = a.snap()
    sh = a._shape[:axis] + (n,) + a._shape[axis + 1:]

    def fn(idx):
        r = dft(f, m, n, idx[axis], 1, idx[:axis], idx[axis + 1:])
        return Num(t.mul2(r.t, t.recip(n)), r.ok, "c", True)
    return SymArray.make(sh, fn, "c")


@reg("numpy.fft.rfftfreq")
def rfftfreq(n, d=1.0):
    n = I_(n)
    d = asnum(d)
    h = t.add(t.floor(t.div(n, t.num(2))), t.ONE)
    ok = t.and_(d.ok, t.not_(t.eq(t.mul2(n, d.t), t.ZERO)))
    return SymArray.make((pos_dim(h),), lambda idx: Num(t.div(idx[0], t.mul2(n, d.t)), ok, "f"), "f")


@reg("numpy.fft.fftfreq")
def fftfreq(n, d=1.0):
    n = I_(n)
    d = asnum(d)
    h = t.add(t.floor(t.div(t.sub(n, t.ONE), t.num(2))), t.ONE)
    ok = t.and_(d.ok, t.not_(t.eq(t.mul2(n, d.t), t.ZERO)))
    return SymArray.make((pos_dim(n),), lambda idx: Num(t.div(t.ite(t.lt(idx[0], h), idx[0], t.sub(idx[0], n)), t.mul2(n, d.t)), ok, "f"), "f")


# ------------------------------------------------------------------ windows (opaque shapes)
def _win(name):
    def f(M, beta=None):
        n = I_(M)
        if name == "kaiser":
            if beta is None:
                raise PyExc("TypeError", "kaiser beta")
            b = nt(beta)
            return SymArray.make((pos_dim(n),), lambda idx: Num(t.app("win_kaiser", (n, b, idx[0])), dt="f"), "f")
        return SymArray.make((pos_dim(n),), lambda idx: Num(t.app("win_" + name, (n, idx[0])), dt="f"), "f")
    return f


for _n in ("hanning", "hamming", "blackman", "bartlett", "kaiser"):
    R["numpy." + _n] = _win(_n)


# ------------------------------------------------------------------ scipy.signal
def _coeffs(b):
    """filter coefficients -> (length term, getter)"""
    b = atleast_1d(b)
    return b._shape[0], b.snap(), b


@reg("scipy.signal.lfilter")
def lfilter(b, a, x, axis=-1, zi=None):
    nb, fb, _ = _coeffs(b)
    na, fa, _ = _coeffs(a)
    x = toarray(x)
    if x.nd == 0:
        raise PyExc("ValueError", "lfilter input")
    axis = axis % x.nd
    f = x.snap()
    a0 = fa((t.ZERO,))
    n = x._shape[axis]
    dt = promote("f", x.dt)
    fir = t.constval(na) == 1
    if not fir and t.constval(na) is None:
        raise Unsupported("symbolic recursive filter order")
    norm = t.recip(nt(a0))
    zf = toarray(zi).snap() if zi is not None else None
    zsh = toarray(zi)._shape if zi is not None else None
    if zi is not None:
        if x.nd != 1:
            raise Unsupported("lfilter zi for matrices")
        M = t.sub(t.max2(na, nb), t.ONE)
        if zsh[0] is not M:
            ctx().safe("ValueError", t.eq(zsh[0], M), "lfilter zi length")
        if nt(a0) is not t.ONE:
            raise Unsupported("unnormalised filter with state")
        for arr, ln in ((fb, nb), (fa, na)):
            if t.constval(ln) is None:
                raise Unsupported("symbolic filter order with state")

    def firpart(idx):
        i = idx[axis]

        def g(k):
            xv = npnum(f(idx[:axis] + (t.sub(i, k),) + idx[axis + 1:]))
            r = sbin("*", npnum(fb((k,))), xv)
            c = t.le(k, i)
            return Num(t.ite(c, nt(r), t.ZERO), t.or_(t.not_(c), r.ok), r.dt, True)
        r = rsum(nb, g)
        return Num(t.mul2(r.t, norm), r.ok, dt, True)

    if fir and zi is None:
        return SymArray.make(x._shape, firpart, dt)
    if x.nd != 1 and not fir:
        # recursion along the axis, other axes are parameters
        pass
    A, B = int(t.constval(na)), int(t.constval(nb)) if t.constval(nb) is not None else None

    def body(idx, selfv):
        i = idx[axis]
        r = firpart(idx)
        tm, ok = r.t, r.ok
        if zf is not None:
            Mz = max(A, B) - 1
            for j in range(Mz):
                tm = t.add(tm, t.ite(t.eq(i, t.num(j)), nt(zf((t.num(j),))), t.ZERO))
        for k in range(1, A):
            c = t.le(t.num(k), i)
            ak = t.mul2(nt(fa((t.num(k),))), norm)
            tm = t.sub(tm, t.ite(c, t.mul2(ak, selfv(idx[:axis] + (t.sub(i, t.num(k)),) + idx[axis + 1:])), t.ZERO))
        return Num(tm, ok, dt, True)

    if fir:
        y = SymArray.make(x._shape, lambda idx: body(idx, None), dt)
    else:
        y = rec_array(x._shape, body, dt)
    if zi is None:
        return y
    # final state (direct form II transposed): z_j = sum_{k>j} b_k x[n-k+j] - a_k y[n-k+j], plus zi[j+n] while n < order
    Mz = max(A, B) - 1
    yf = y.snap()

    def zfn(idx):
        j = idx[0]
        cj = t.constval(j)
        if cj is None:
            return pick([zfn((t.num(q),)) for q in range(Mz)], j)
        cj = int(cj)
        acc = t.ZERO
        for k in range(cj + 1, Mz + 1):
            p = t.add(n, t.num(cj - k))
            v = t.ZERO
            if k < B:
                v = t.add(v, t.mul2(nt(fb((t.num(k),))), nt(f((p,)))))
            if k < A:
                v = t.sub(v, t.mul2(nt(fa((t.num(k),))), nt(yf((p,)))))
            acc = t.add(acc, t.ite(t.le(t.ZERO, p), v, t.ZERO))
        for q in range(cj, Mz):
            # n == q - cj samples seen: zi[q] still pending
            acc = t.add(acc, t.ite(t.eq(n, t.num(q - cj)), nt(zf((t.num(q),))), t.ZERO))
        return Num(acc, dt=dt)
    return y, SymArray.make((t.num(Mz),), zfn, dt)


def rec_close(tag, vs, body):
    """close a recurrence body over the index variables vs; self references carry `tag`"""
    l1 = t.lam(vs, t.replace(body, lambda x: t.selfref("?", x.args[1]) if x.op == "self" and x.args[0] == tag else None))
    nid = ("rec", l1.id)
    return t.lam(vs, t.replace(body, lambda x: t.selfref(nid, x.args[1]) if x.op == "self" and x.args[0] == tag else None)), nid


def rec_term(l, idx, isreal=True):
    return t.bop("rec", tuple(idx), (l,), False, isreal)


def rec_array(shape, body, dt):
    """array defined by recursion: body(idx, self) -> Num; self(idx) -> term"""
    tag = ("tmp", next(t._fresh))
    vs = tuple(t.fresh("r") for _ in shape)
    b = body(vs, lambda idx: t.selfref(tag, idx))
    l, _ = rec_close(tag, vs, b.t)
    return SymArray.make(shape, lambda idx: Num(rec_term(l, idx), t.TRUE, dt, True), dt)


@reg("scipy.signal.lfilter_zi")
def lfilter_zi(b, a):
    nb, fb, _ = _coeffs(b)
    na, fa, _ = _coeffs(a)
    if t.constval(na) != 1 or t.constval(nb) is None:
        raise Unsupported("lfilter_zi of a recursive filter")
    B = int(t.constval(nb))
    norm = t.recip(nt(fa((t.ZERO,))))
    vals = [Num(t.mul2(norm, t.add(*[nt(fb((t.num(k),))) for k in range(j + 1, B)])), dt="f") for j in range(B - 1)]
    return SymArray.make((t.num(B - 1),), lambda idx: pick(vals, idx[0]), "f")


def _conv(fx, nx, fy, ny, i):
    """sum_k x[k] y[i-k]"""
    z = t.ZERO
    lo = t.ite(t.lt(t.sub(i, ny), t.num(-1)), z, t.add(t.sub(i, ny), t.ONE))
    hi = t.ite(t.lt(i, nx), i, t.sub(nx, t.ONE))
    cnt = t.add(t.sub(hi, lo), t.ONE)

    def g(v):
        k = t.add(v, lo)
        return sbin("*", npnum(fx((k,))), npnum(fy((t.sub(i, k),))))
    return rsum(cnt, g)


@reg("scipy.signal.fftconvolve", "scipy.signal.convolve", "numpy.convolve")
def convolve(a, b, mode="full"):
    a, b = toarray(a), toarray(b)
    if a.nd != 1 or b.nd != 1 or mode not in ("full", "same", "valid"):
        raise Unsupported("convolve")
    fa, fb, na, nb = a.snap(), b.snap(), a._shape[0], b._shape[0]
    n = t.sub(t.add(na, nb), t.ONE)
    full_ = SymArray.make((pos_dim(n),), lambda idx: _conv(fa, na, fb, nb, idx[0]), promote("f", a.dt, b.dt))
    if mode == "full":
        return full_
    raise Unsupported("convolve mode")


@reg("numpy.correlate", "scipy.signal.correlate")
def correlate(a, v, mode="valid", method=None):
    a, v = toarray(a), toarray(v)
    if a.nd != 1 or mode != "full":
        raise Unsupported("correlate mode")
    fa, fv, na, nv = a.snap(), v.snap(), a._shape[0], v._shape[0]
    ctx().safe("ValueError", t.and_(t.lt(t.ZERO, na), t.lt(t.ZERO, nv)), "correlate of non-empty arrays")
    n = t.sub(t.add(na, nv), t.ONE)

    def fn(idx):
        tau = t.add(t.sub(idx[0], nv), t.ONE)
        lo = t.ite(t.lt(tau, t.ZERO), t.neg(tau), t.ZERO)
        hi = t.ite(t.lt(t.sub(na, tau), nv), t.sub(na, tau), nv)

        def g(w):
            k = t.add(w, lo)
            y = npnum(fv((k,)))
            return sbin("*", npnum(fa((t.add(k, tau),))), Num(t.conj(nt(y)), y.ok, y.dt, True))
        return rsum(t.sub(hi, lo), g)
    return SymArray.make((pos_dim(n),), fn, promote(a.dt, v.dt))


@reg("scipy.signal.resample")
def resample(x, num, t_=None, axis=0, window=None):
    note("scipy.signal.resample: uninterpreted function of the resampled axis, its length and the new length")
    x = toarray(x)
    n = I_(num)
    axis = axis % x.nd
    L = x._shape[axis]
    ctx().safe("ValueError", t.lt(t.ZERO, n), "resample length positive")
    f = x.snap()

    def fn(idx):
        v = t.fresh("s")
        b = f(idx[:axis] + (v,) + idx[axis + 1:])
        return Num(t.bop("resample", (L, n, idx[axis]), (t.lam([v], nt(b)),)), t.forall_(L, [v], b.ok), "f", True)
    return SymArray.make(x._shape[:axis] + (n,) + x._shape[axis + 1:], fn, "f")


@reg("scipy.signal.butter")
def butter(*a, **k):
    raise Unsupported("butter")


@reg("scipy.fftpack.dct", "scipy.fft.dct")
def dct(x, type=2, n=None, axis=-1, norm=None, overwrite_x=False, **kw):
    note("scipy.fftpack.dct: uninterpreted function of (type, norm, length, coefficient index, input row)")
    a = toarray(x)
    axis = axis % a.nd
    if n is not None:
        raise Unsupported("dct n")
    if norm not in (None, "ortho"):
        raise Unsupported("dct norm")
    ty = I_(asnum(type))
    ctx().safe("ValueError", t.and_(t.le(t.ONE, ty), t.le(ty, t.num(4))), "dct type in 1..4")
    N = a._shape[axis]
    ctx().safe("ValueError", t.and_(t.lt(t.ZERO, N), t.or_(t.not_(t.eq(ty, t.ONE)), t.le(t.num(2), N))), "dct length")
    f = a.snap()
    nrm = t.ONE if norm == "ortho" else t.ZERO

    def fn(idx):
        v = t.fresh("s")
        b = f(idx[:axis] + (v,) + idx[axis + 1:])
        return Num(t.bop("dct", (ty, N, nrm, idx[axis]), (t.lam([v], nt(b)),)), t.forall_(N, [v], b.ok), "f", True)
    return SymArray.make(a._shape, fn, "f")


# ------------------------------------------------------------------ linear algebra
def inv_term(n, M, i, j):
    u, v = t.fresh("s"), t.fresh("s")
    b = M((u, v))
    return t.bop("matinv", (n, i, j), (t.lam([u, v], nt(b)),))


@reg("scipy.linalg.inv", "numpy.linalg.inv")
def linv(a):
    note("scipy.linalg.inv: uninterpreted inverse of a non-singular matrix (singular input raises, outside the contracts)")
    a = toarray(a)
    if a.nd != 2:
        raise PyExc("ValueError", "expected square matrix")
    if a._shape[0] is not a._shape[1]:
        ctx().safe("ValueError", t.eq(a._shape[0], a._shape[1]), "square matrix")
    f = a.snap()
    n = a._shape[0]
    return SymArray.make(a._shape, lambda idx: Num(inv_term(n, f, idx[0], idx[1]), dt="f"), "f")


@reg("scipy.linalg.solve", "numpy.linalg.solve")
def lsolve(a, b, **kw):
    return dot(linv(a), b)


@reg("scipy.linalg.toeplitz")
def toeplitz(c, r=None):
    c = toarray(c)
    f = c.snap()
    n = c._shape[0]
    if r is not None:
        raise Unsupported("toeplitz with a row")
    return SymArray.make((n, n), lambda idx: f((t.rabs(t.sub(idx[0], idx[1])),)), c.dt)


@reg("scipy.linalg.solve_toeplitz")
def solve_toeplitz(c, b, **kw):
    if isinstance(c, (tuple, list)):
        raise Unsupported("solve_toeplitz with a row")
    return dot(linv(toeplitz(c)), b)


@reg("scipy.stats.mstats.gmean", "scipy.stats.gmean")
def gmean(a, axis=0):
    a = toarray(a)
    l = unop("log", a)
    return unop("exp", mean(l, axis))


# ------------------------------------------------------------------ sparse
class Sparse:
    __array_priority__ = 5000

    def __init__(self, m):
        self.m = m

    @property
    def T(self):
        return Sparse(self.m.T)

    @property
    def shape(self):
        return self.m.shape

    def conjugate(self):
        return Sparse(unop("conj", self.m))

    conj = conjugate

    def transpose(self):
        return self.T

    def getH(self):
        return self.T.conjugate()

    def toarray(self):
        return self.m.copy()

    todense = toarray

    def multiply(self, o):
        return Sparse(binop("*", self.m, o))

    def __truediv__(self, o):
        return Sparse(binop("/", self.m, o))

    def __mul__(self, o):
        if isscalar(o):
            return Sparse(binop("*", self.m, o))
        return dot(self.m, o.m if isinstance(o, Sparse) else o)

    def __rmul__(self, o):
        if isscalar(o):
            return Sparse(binop("*", self.m, o))
        return dot(o, self.m)

    __matmul__ = __mul__
    __rmatmul__ = __rmul__

    def dot(self, o):
        return dot(self.m, o)


def sparse_dot(a, b):
    r = dot(a.m if isinstance(a, Sparse) else a, b.m if isinstance(b, Sparse) else b)
    return Sparse(r) if isinstance(a, Sparse) and isinstance(b, Sparse) else r


@reg("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix")
def csr_matrix(a):
    note("scipy.sparse.csr_matrix: same entries as the dense matrix; * is the matrix product")
    return Sparse(toarray(a).copy())


# ------------------------------------------------------------------ array methods
METHODS = {
    "sum": sum_, "mean": mean, "std": std, "var": var, "max": max_, "min": min_, "argmax": argmax, "argmin": argmin,
    "cumsum": cumsum, "dot": dot, "astype": astype, "reshape": reshape, "ravel": ravel, "flatten": lambda a: ravel(a).copy(),
    "conj": R["numpy.conj"], "conjugate": R["numpy.conj"], "transpose": transpose, "squeeze": squeeze, "any": any_, "all": all_,
    "copy": lambda a: a.copy(), "round": round_, "clip": clip, "repeat": repeat, "nonzero": nonzero, "ptp": ptp,
    "tolist": lambda a: _tolist(a),
}


def _tolist(a):
    if a.nd != 1:
        raise Unsupported("tolist of a matrix")
    return SymArray.make(a._shape, a.snap(), a.dt, None, True)


def fill(a, v):
    a[tuple(slice(None) for _ in range(a.nd))] = v


METHODS["fill"] = fill


def arr_attr(a, name):
    """attribute of a symbolic array as the interpreter sees it"""
    if name in ("shape", "ndim", "size", "dtype", "T"):
        return getattr(a, name)
    if name == "real":
        return unop("real", a) if a.dt == "c" else a
    if name == "strides":
        it = itemsize(a)
        out = []
        for k in range(a.nd):
            d = [x for x in a.dims if x[0] == "s" and x[3] == k]
            if len(d) != 1:
                raise Unsupported("strides")
            pos = a.dims.index(d[0])
            w = t.mul(d[0][2], *[s for s in a.buf.shape[pos + 1:]])
            out.append(ival(t.mul2(w, it)))
        return tuple(out)
    if name == "itemsize":
        return ival(itemsize(a))
    if name in METHODS:
        f = METHODS[name]
        return lambda *p, **k: f(a, *p, **k)
    raise Unsupported("array attribute %s" % name)
