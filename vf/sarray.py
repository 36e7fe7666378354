"""Symbolic numpy arrays: buffers with functional contents, basic-slicing views, element-wise operations."""
from fractions import Fraction
from . import terms as t
from .terms import T
from .ctx import ctx, PyExc, Unsupported
from .values import *
from . import values as V


def memo(fn):
    m = {}

    def g(idx):
        k = tuple(i.id for i in idx)
        r = m.get(k)
        if r is None:
            r = m[k] = fn(idx)
        return r
    return g


class Buffer:
    __slots__ = ("fn", "shape", "dt", "ext", "uid", "alias")
    n = 0

    def __init__(self, fn, shape, dt, ext=None):
        self.fn, self.shape, self.dt, self.ext = memo(fn), tuple(shape), dt, ext
        Buffer.n += 1
        self.uid = Buffer.n
        self.alias = None

    def set(self, fn):
        old = self.fn
        cx = ctx()
        if self.ext is not None:
            cx.writes.append((self.ext, cx.loc(), list(cx.hyps)))
        def back(self=self, old=old):
            self.fn = old
        cx.undo.append(back)
        if cx.touched is not None:
            cx.touched[self.uid] = self
        self.fn = memo(fn)


class DType:
    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, DType) and o.c == self.c

    def __hash__(self):
        return hash(self.c)


class SymArray:
    __array_priority__ = 2000

    def __init__(self, buf, dims, shape, ro=False, islist=False):
        self.buf, self.dims, self._shape, self.ro, self.islist = buf, dims, tuple(shape), ro, islist

    # ---- construction
    @staticmethod
    def make(shape, fn, dt, ext=None, islist=False):
        shape = tuple(I_(s) for s in shape)
        return SymArray(Buffer(fn, shape, dt, ext), [("s", t.ZERO, t.ONE, k) for k in range(len(shape))], shape, False, islist)

    @property
    def dt(self):
        return self.buf.dt

    @property
    def nd(self):
        return len(self._shape)

    def bidx(self, idx):
        out = []
        for d in self.dims:
            if d[0] == "i":
                out.append(d[1])
            else:
                out.append(t.add(d[1], t.mul2(d[2], idx[d[3]])))
        return tuple(out)

    def get(self, *idx):
        return self.buf.fn(self.bidx(tuple(I_(i) for i in idx)))

    def snap(self):
        """immutable element function of the present contents"""
        f, dims = self.buf.fn, self.dims
        ident = len(dims) == self.nd and all(d[0] == "s" and d[1] is t.ZERO and d[2] is t.ONE and d[3] == k for k, d in enumerate(dims))
        if ident:
            return f
        bi = self.bidx
        return lambda idx: f(bi(idx))

    def copy(self, dt=None):
        return SymArray.make(self._shape, self.snap(), dt or self.dt)

    # ---- python protocol (used by specifications and the interpreter)
    def __repr__(self):
        return "SymArray%s" % (tuple(t.show(s, 3) for s in self._shape),)

    def __len__(self):
        raise Unsupported("len() of a symbolic array outside the interpreter")

    def __bool__(self):
        if self.islist:
            return ctx().decide(t.lt(t.ZERO, self._shape[0]))
        c = [t.constval(s) for s in self._shape]
        if all(x == 1 for x in c):
            return bool(self.get(*[0] * self.nd))
        raise PyExc("ValueError", "truth value of an array is ambiguous")

    def __iter__(self):
        c = t.constval(self._shape[0])
        if c is None:
            raise Unsupported("iteration over a symbolic array outside the interpreter")
        return iter([self[int(i)] for i in range(int(c))])

    __hash__ = object.__hash__

    def __add__(self, o):
        if self.islist:
            return concat([self, o], islist=True)
        return binop("+", self, o)

    def __radd__(self, o):
        if self.islist:
            return concat([o, self], islist=True)
        return binop("+", o, self)

    def __mul__(self, o):
        if self.islist:
            n = t.mul2(self._shape[0], I_(o))
            if t.constval(self._shape[0]) == 1:
                f = self.snap()
                return SymArray.make((pos_dim(n),), lambda idx: f((t.ZERO,)), self.dt, None, True)
            raise Unsupported("list repetition")
        return binop("*", self, o)

    def __rmul__(self, o): return self.__mul__(o) if self.islist else binop("*", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __rtruediv__(self, o): return binop("/", o, self)
    def __floordiv__(self, o): return binop("//", self, o)
    def __mod__(self, o): return binop("%", self, o)
    def __rmod__(self, o): return binop("%", o, self)
    def __rfloordiv__(self, o): return binop("//", o, self)
    def __pow__(self, o): return binop("**", self, o)
    def __rpow__(self, o): return binop("**", o, self)
    def __neg__(self): return unop("neg", self)
    def __pos__(self): return self
    def __abs__(self): return unop("abs", self)
    def __invert__(self): return unop("~", self)
    def __lt__(self, o): return binop("<", self, o)
    def __le__(self, o): return binop("<=", self, o)
    def __gt__(self, o): return binop("<", o, self)
    def __ge__(self, o): return binop("<=", o, self)
    def __eq__(self, o): return binop("==", self, o)
    def __ne__(self, o): return binop("!=", self, o)
    def __and__(self, o): return binop("&", self, o)
    def __rand__(self, o): return binop("&", o, self)
    def __or__(self, o): return binop("|", self, o)
    def __ror__(self, o): return binop("|", o, self)

    def __matmul__(self, o):
        from .snp import dot
        return dot(self, o)

    # ---- shape
    @property
    def shape(self):
        return tuple(ival(s) for s in self._shape)

    @property
    def ndim(self):
        return self.nd

    @property
    def size(self):
        return ival(t.mul(*self._shape))

    @property
    def dtype(self):
        return DType(self.dt)

    @property
    def T(self):
        n = self.nd
        dims = [d if d[0] == "i" else ("s", d[1], d[2], n - 1 - d[3]) for d in self.dims]
        return SymArray(self.buf, dims, self._shape[::-1], self.ro)

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)


def pos_dim(n):
    """a dimension computed from n: max(n, 0), simplified by the path condition"""
    c = t.constval(n)
    if c is not None:
        return t.num(max(c, 0))
    cx = ctx()
    if cx is None or cx.implied(t.le(t.ZERO, n)):
        return n
    if cx.implied(t.le(n, t.ZERO)):
        return t.ZERO
    return t.ite(t.lt(t.ZERO, n), n, t.ZERO)


def asarray_like(x):
    return isinstance(x, (list, tuple, SymRange, SymList))


def unwrap(x):
    """contents of an interpreted python list"""
    if type(x).__name__ == "ListV":
        x = x.v
        if isinstance(x, list):
            x = [unwrap(y) for y in x]
    return x


def toarray(x, dt=None):
    """np.asarray"""
    if isinstance(x, SymArray):
        return x
    if isscalar(x):
        v = asnum(x)
        return SymArray.make((), lambda idx: v, v.dt)
    if isinstance(x, SymRange):
        n = x.length()
        return SymArray.make((n,), lambda idx: asnum(x.item(idx[0])), "i")
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, SymList):
        it0 = x.item
        it = lambda k: unwrap(it0(k))
        probe = it(t.fresh("p"))
        if isscalar(probe):
            p = asnum(probe)
            return SymArray.make((x.n,), lambda idx: asnum(it(idx[0])), p.dt)
        if isinstance(probe, (list, tuple, SymList, SymRange)):
            pa = toarray(probe)
            return SymArray.make((x.n,) + pa._shape, lambda idx: toarray(it(idx[0])).get(*idx[1:]), pa.dt)
        if isinstance(probe, SymArray):
            return SymArray.make((x.n,) + probe._shape, lambda idx: it(idx[0]).get(*idx[1:]), probe.dt)
        raise Unsupported("array of %r" % type(probe))
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return SymArray.make((t.ZERO,), lambda idx: asnum(0), "f")
        items = [asnum(v) if isscalar(v) else toarray(v) for v in x]
        if all(isinstance(v, Num) for v in items):
            dt = promote(*[v.dt for v in items])
            return SymArray.make((t.num(len(items)),), lambda idx: pick(items, idx[0]), dt)
        if any(isinstance(v, Num) for v in items):
            if all(isinstance(v, Num) or v.nd == 0 for v in items):
                items = [v if isinstance(v, Num) else v.get() for v in items]
                dt = promote(*[v.dt for v in items])
                return SymArray.make((t.num(len(items)),), lambda idx: pick(items, idx[0]), dt)
            raise PyExc("ValueError", "inhomogeneous array")
        sh = items[0]._shape
        for v in items[1:]:
            if len(v._shape) != len(sh):
                raise PyExc("ValueError", "inhomogeneous array")
            for p, q in zip(v._shape, sh):
                if p is not q:
                    ctx().safe("ValueError", t.eq(p, q), "array of equal rows")
        fs = [v.snap() for v in items]
        dt = promote(*[v.dt for v in items])

        def fn(idx):
            c = t.constval(idx[0])
            if c is not None and 0 <= c < len(fs):
                return fs[int(c)](idx[1:])
            return pick([f(idx[1:]) for f in fs], idx[0])
        return SymArray.make((t.num(len(items)),) + sh, fn, dt)
    raise Unsupported("cannot make an array from %r" % (type(x),))


def pick(items, i):
    c = t.constval(i)
    if c is not None and 0 <= c < len(items):
        return asnum(items[int(c)])
    r = asnum(items[-1])
    for k in range(len(items) - 2, -1, -1):
        r = ite_num(t.eq(i, t.num(k)), items[k], r)
    return r


# ------------------------------------------------------------------ broadcasting
def bshape(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(nd):
        dims = []
        for s in shapes:
            j = k - (nd - len(s))
            if j >= 0:
                dims.append(s[j])
        r = None
        for d in dims:
            if t.constval(d) == 1:
                continue
            if r is None:
                r = d
            elif r is not d:
                cx = ctx()
                e = t.eq(r, d)
                if e is t.FALSE:
                    raise PyExc("ValueError", "operands could not be broadcast together")
                if cx.implied(e):
                    continue
                if cx.implied(t.eq(d, t.ONE)):
                    continue
                if cx.implied(t.eq(r, t.ONE)):
                    r = d
                    continue
                cx.safe("ValueError", e, "broadcast")
        out.append(r if r is not None else t.ONE)
    return tuple(out)


def bidx(shape, idx):
    """index into an operand of the given shape from a broadcast index"""
    off = len(idx) - len(shape)
    return tuple(t.ZERO if t.constval(s) == 1 else idx[off + k] for k, s in enumerate(shape))


def elementwise(f, *xs):
    ops = []
    for x in xs:
        if isinstance(x, SymArray):
            ops.append((x._shape, x.snap()))
        elif isscalar(x):
            v = asnum(x)
            if len(xs) > 1:
                v = Num(v.t, v.ok, v.dt, True)
            ops.append(((), (lambda v: lambda idx: v)(v)))
        elif asarray_like(x):
            x = toarray(x)
            ops.append((x._shape, x.snap()))
        elif x is None:
            raise PyExc("TypeError", "operand None")
        else:
            raise Unsupported("array operand %r" % (type(x),))
    sh = bshape([o[0] for o in ops])

    def npn(v):
        return v if v.np else Num(v.t, v.ok, v.dt, True)

    def fn(idx):
        return f(*[npn(g(bidx(s, idx))) for s, g in ops])
    probe = fn(tuple(t.fresh("p") for _ in sh))
    if not sh:
        return fn(())
    return SymArray.make(sh, fn, probe.dt)


# ------------------------------------------------------------------ indexing
def norm_index(i, n, label="index"):
    """python index -> non-negative index term with a bounds obligation"""
    i = I_(i)
    cx = ctx()
    c = t.constval(i)
    if c is not None and c < 0:
        r = t.add(n, i)
        cx.safe("IndexError", t.le(t.ZERO, r), label)
        return r
    if c is not None or cx.implied(t.le(t.ZERO, i)):
        cx.safe("IndexError", t.lt(i, n), label)
        return i
    if cx.implied(t.lt(i, t.ZERO)):
        r = t.add(n, i)
        cx.safe("IndexError", t.le(t.ZERO, r), label)
        return r
    r = t.ite(t.lt(i, t.ZERO), t.add(n, i), i)
    cx.safe("IndexError", t.and_(t.le(t.ZERO, r), t.lt(r, n)), label)
    return r


def clamp_slice(s, n):
    """-> (start, step, length) terms"""
    cx = ctx()
    step = 1 if s.step is None else s.step
    if isinstance(step, Num):
        step = simple(step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")

    def as_i(x):
        if x is None:
            return None
        if isinstance(x, Num) and x.dt not in ("i", "b"):
            raise PyExc("TypeError", "slice indices must be integers")
        return I_(x)

    def wrap(x):
        c = t.constval(x)
        if c is not None:
            return t.add(x, n) if c < 0 else x
        if cx.implied(t.le(t.ZERO, x)):
            return x
        if cx.implied(t.lt(x, t.ZERO)):
            return t.add(x, n)
        return t.ite(t.lt(x, t.ZERO), t.add(x, n), x)

    def mx(a, b):
        if cx.implied(t.le(b, a)):
            return a
        if cx.implied(t.le(a, b)):
            return b
        return t.max2(a, b)

    def mn(a, b):
        if cx.implied(t.le(a, b)):
            return a
        if cx.implied(t.le(b, a)):
            return b
        return t.min2(a, b)
    a, b = as_i(s.start), as_i(s.stop)
    if step > 0:
        a = t.ZERO if a is None else mn(mx(wrap(a), t.ZERO), n)
        b = n if b is None else mn(mx(wrap(b), t.ZERO), n)
        ln = t.sub(b, a)
        if step != 1:
            ln = t.neg(t.floor(t.neg(t.div(ln, t.num(step)))))
    else:
        top = t.sub(n, t.ONE)
        a = top if a is None else mn(mx(wrap(a), t.num(-1)), top)
        b = t.num(-1) if b is None else mn(mx(wrap(b), t.num(-1)), top)
        ln = t.sub(a, b)
        if step != -1:
            ln = t.neg(t.floor(t.neg(t.div(ln, t.num(-step)))))
    return a, t.num(step), pos_dim(ln)


def _expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    for k in key:
        if isinstance(k, SymArray) and k.dt == "b" and k.nd > 1:
            n_real += k.nd - 1
    if any(k is Ellipsis for k in key):
        i = [k is Ellipsis for k in key].index(True)
        key = key[:i] + (slice(None),) * (a.nd - n_real) + key[i + 1:]
    else:
        key = key + (slice(None),) * (a.nd - n_real)
    if n_real > a.nd:
        raise PyExc("IndexError", "too many indices for array")
    return key


def is_basic(k):
    return k is None or isinstance(k, slice) or (isscalar(k) and not isinstance(k, bool) and asnum(k).dt == "i")


def basic_view(a, key):
    """view of a for a key of ints, slices and newaxis; key already expanded"""
    ax = 0
    new = {}          # axis -> ('i', term) | ('s', start, step, newaxis)
    shape = []
    for k in key:
        if k is None:
            shape.append(t.ONE)
            continue
        n = a._shape[ax]
        if isinstance(k, slice):
            st, sp, ln = clamp_slice(k, n)
            new[ax] = ("s", st, sp, len(shape))
            shape.append(ln)
        else:
            new[ax] = ("i", norm_index(k, n))
        ax += 1
    dims = []
    for d in a.dims:
        if d[0] == "i":
            dims.append(d)
        else:
            m = new[d[3]]
            if m[0] == "i":
                dims.append(("i", t.add(d[1], t.mul2(d[2], m[1]))))
            else:
                dims.append(("s", t.add(d[1], t.mul2(d[2], m[1])), t.mul2(d[2], m[2]), m[3]))
    return SymArray(a.buf, dims, shape, a.ro, a.islist)


def getitem(a, key):
    if isinstance(key, list) or isinstance(key, (SymRange, SymList, range)):
        key = toarray(key)
    if isinstance(key, tuple):
        key = tuple(toarray(k) if isinstance(k, (list, SymRange, SymList, range)) else k for k in key)
    key = _expand_key(a, key)
    key = tuple(k.get() if isinstance(k, SymArray) and k.nd == 0 else k for k in key)
    if all(is_basic(k) for k in key):
        v = basic_view(a, key)
        if v.nd == 0:
            n = v.get()
            if a.islist:
                return V.simple_if(n)
            return Num(n.t, n.ok, n.dt, True)
        if a.islist:
            return v.copy() if False else SymArray.make(v._shape, v.snap(), v.dt, None, True)
        return v
    for k in key:
        if isscalar(k) and asnum(k).dt == "f":
            raise PyExc("IndexError", "only integers, slices...")
    # one advanced index, the rest basic
    adv = [(i, k) for i, k in enumerate(key) if isinstance(k, SymArray)]
    if len(adv) != 1:
        if len(adv) == 2 and len(key) == 2 and adv[0][1].nd == 1 and adv[1][1].nd == 1 and adv[0][1].dt == "i" and adv[1][1].dt == "i":
            f = a.snap()
            k1, k2 = adv[0][1].snap(), adv[1][1].snap()
            sh = bshape([adv[0][1]._shape, adv[1][1]._shape])
            return SymArray.make(sh, lambda idx: f((k1(idx).t, k2(idx).t)), a.dt)
        raise Unsupported("advanced indexing")
    pos, k = adv[0]
    if k.dt == "b" and k.nd > 1:
        # boolean mask over several axes: flattened selection, used only for stores/reductions
        raise Unsupported("multi-dimensional mask read")
    nb = sum(1 for x in key[:pos] if x is not None and not isinstance(x, slice))
    pre = basic_view(a, tuple(x if j != pos else slice(None) for j, x in enumerate(key)))
    axis = sum(1 for x in key[:pos] if x is None or isinstance(x, slice))
    f = pre.snap()
    n = pre._shape[axis]
    if k.dt == "b":
        if k._shape[0] is not n:
            ctx().safe("IndexError", t.eq(k._shape[0], n), "boolean index length")
        kf = k.snap()
        l = mask_lam(kf)
        cnt, pk = mask_pick(n, l)
        sh = pre._shape[:axis] + (cnt,) + pre._shape[axis + 1:]
        return SymArray.make(sh, lambda idx: f(idx[:axis] + (pk(idx[axis]),) + idx[axis + 1:]), a.dt)
    if k.dt == "i":
        kf = k.snap()
        kd = k.nd
        sh = pre._shape[:axis] + k._shape + pre._shape[axis + 1:]
        vs = tuple(t.fresh("q") for _ in range(kd))
        probe = kf(vs).t
        hs = [h for v, s in zip(vs, k._shape) for h in (t.le(t.ZERO, v), t.lt(v, s))]
        cx = ctx()
        h0 = list(cx.hyps)
        cx.hyps += hs
        try:
            cx.safe("IndexError", t.and_(t.le(t.neg(n), probe), t.lt(probe, n)), "integer array index")
            nonneg = cx.implied(t.le(t.ZERO, probe))
        finally:
            cx.hyps = h0

        def fn(idx):
            i = kf(idx[axis:axis + kd]).t
            if not nonneg:
                i = t.ite(t.lt(i, t.ZERO), t.add(i, n), i)
            return f(idx[:axis] + (i,) + idx[axis + kd:])
        return SymArray.make(sh, fn, a.dt)
    raise PyExc("IndexError", "arrays used as indices must be of integer (or boolean) type")


def mask_lam(kf):
    v = t.fresh("m")
    return t.lam([v], kf((v,)).t)


def all_true(n, l):
    """the mask holds everywhere"""
    cx = ctx()
    v = t.fresh("m")
    b = t.lam_apply(l, (v,))
    return b is t.TRUE or (cx is not None and cx.prover.proved(cx.hyps + [t.le(t.ZERO, v), t.lt(v, n)], b, 1, 1, 1500))


def mask_pick(n, l):
    """(number of true entries, index of the i-th true entry as a function of i)"""
    if all_true(n, l):
        return n, lambda i: i
    c = count_lam(n, l)
    k = mask_tail(n, l)
    if k:
        # the entries that are true form the tail (k = 1) or the head (k = -1) of the array
        off = t.sub(n, c) if k == 1 else t.ZERO
        w = t.fresh("m")
        ctx().hyps += [t.le(t.ZERO, c), t.le(c, n)]
        ctx().hyps.append(t.forall_(c, [w], t.lam_apply(l, (t.add(off, w),))))
        return c, lambda i: t.add(off, i)
    return c, lambda i: t.sel(n, l, i)


def mask_tail(n, l):
    cx = ctx()
    if cx is None:
        return 0
    v = t.fresh("m")
    a, b = t.lam_apply(l, (v,)), t.lam_apply(l, (t.add(v, t.ONE),))
    h = cx.hyps + [t.le(t.ZERO, v), t.lt(t.add(v, t.ONE), n)]
    if cx.prover.proved(h + [a], b, 1, 1, 1500):
        return 1
    if cx.prover.proved(h + [b], a, 1, 1, 1500):
        return -1
    return 0


def count_lam(n, l):
    v = t.fresh("m")
    return t.sum_(n, [v], t.ite(t.lam_apply(l, (v,)), t.ONE, t.ZERO))


def inv_dims(a, p):
    """buffer index p -> (membership condition, local index tuple) for view a"""
    conds, loc = [], [None] * a.nd
    for d, q in zip(a.dims, p):
        if d[0] == "i":
            conds.append(t.eq(q, d[1]))
        else:
            c = t.constval(d[2])
            off = t.sub(q, d[1])
            if c == 1:
                l = off
            elif c == -1:
                l = t.neg(off)
            else:
                l = t.floor(t.div(off, d[2]))
                conds.append(t.eq(t.mul2(l, d[2]), off))
            n = a._shape[d[3]]
            full = d[1] is t.ZERO and c == 1
            if not (full and _is_full(a, d)):
                conds.append(t.le(t.ZERO, l))
                conds.append(t.lt(l, n))
            loc[d[3]] = l
    loc = tuple(x if x is not None else t.ZERO for x in loc)
    return t.and_(*conds), loc


def _is_full(a, d):
    # the view axis spans the whole buffer axis (indices are always in range there)
    k = a.dims.index(d)
    return a._shape[d[3]] is a.buf.shape[k]


def cast(v, dt):
    if dt == v.dt or ORD[dt] >= ORD[v.dt]:
        return Num(nt(v), v.ok, dt, v.np) if v.t.sort == "b" and dt != "b" else (v if dt == v.dt else Num(v.t, v.ok, dt, v.np))
    if dt == "i":
        return Num(trunc_t(v.t), v.ok, "i", v.np)
    if dt == "b":
        return Num(t.not_(t.eq(nt(v), t.ZERO)), v.ok, "b", v.np)
    if dt == "f" and v.dt == "c":
        return Num(t.repart(v.t), v.ok, "f", v.np)
    raise Unsupported("cast")


def setitem(a, key, val):
    if a.ro:
        raise Unsupported("store into a strided view")
    if isinstance(key, (list, SymRange, SymList, range)):
        key = toarray(key)
    if isinstance(key, tuple):
        key = tuple(toarray(k) if isinstance(k, (list, SymRange, SymList, range)) else k for k in key)
    key = _expand_key(a, key)
    key = tuple(k.get() if isinstance(k, SymArray) and k.nd == 0 else k for k in key)
    dt = a.dt
    old = a.buf.fn
    if isinstance(val, (list, tuple, SymRange, SymList, range)) and not a.islist:
        val = toarray(val)
    if a.islist and not isscalar(val) and isinstance(val, SymArray) and val.nd == 0:
        val = val.get()
    if isinstance(val, SymArray):
        vsh, vf = val._shape, val.snap()
    elif isscalar(val):
        vn = asnum(val)
        vsh, vf = (), lambda idx: vn
    else:
        raise Unsupported("store of %r" % (type(val),))
    if a.islist and isscalar(val) and ORD[asnum(val).dt] > ORD[dt]:
        dt = asnum(val).dt
        a.buf.dt = dt          # python lists are untyped
    if all(is_basic(k) for k in key):
        v = basic_view(a, key)
        tgt = v._shape
        _check_assign(tgt, vsh)

        def fn(p):
            c, loc = inv_dims(v, p)
            if c is t.FALSE:
                return old(p)
            nv = cast(vf(bidx(vsh, (t.ZERO,) * max(0, len(vsh) - len(loc)) + loc)), dt)
            return ite_num(c, nv, old(p))
        a.buf.set(fn)
        return
    if len(key) == 1 and isinstance(key[0], SymArray) and key[0].dt == "b" and key[0].nd == a.nd and a.nd > 1:
        k = key[0]
        kf = k.snap()
        if vsh not in ((),):
            raise Unsupported("multi-dimensional mask store")

        def fn(p):
            c, loc = inv_dims(a, p)
            return ite_num(t.and_(c, kf(loc).t), cast(vf(()), dt), old(p))
        a.buf.set(fn)
        return
    adv = [(i, k) for i, k in enumerate(key) if isinstance(k, SymArray)]
    if len(adv) != 1:
        raise Unsupported("advanced store")
    pos, k = adv[0]
    pre = basic_view(a, tuple(x if j != pos else slice(None) for j, x in enumerate(key)))
    axis = sum(1 for x in key[:pos] if x is None or isinstance(x, slice))
    n = pre._shape[axis]
    if k.dt == "b":
        if k._shape[0] is not n:
            ctx().safe("IndexError", t.eq(k._shape[0], n), "boolean index length")
        kf = k.snap()
        l = mask_lam(kf)
        cnt = count_lam(n, l)
        tgt = pre._shape[:axis] + (cnt,) + pre._shape[axis + 1:]
        _check_assign(tgt, vsh)

        def fn(p):
            c, loc = inv_dims(pre, p)
            m = kf((loc[axis],)).t
            cc = t.and_(c, m)
            if cc is t.FALSE:
                return old(p)
            l2 = loc[:axis] + (t.rank(n, l, loc[axis]),) + loc[axis + 1:]
            nv = cast(vf(bidx(vsh, (t.ZERO,) * max(0, len(vsh) - len(l2)) + l2)), dt)
            return ite_num(cc, nv, old(p))
        a.buf.set(fn)
        return
    if k.dt == "i" and k.nd == 1:
        # only arithmetic-progression index arrays (ranges)
        kf = k.snap()
        v = t.fresh("q")
        e = kf((v,)).t
        c1 = t.sub(t.subst(e, {v: t.add(v, t.ONE)}), e)
        st = t.constval(c1)
        if st != 1:
            raise Unsupported("integer array store")
        start = t.subst(e, {v: t.ZERO})
        ctx().safe("IndexError", t.or_(t.le(k._shape[0], t.ZERO), t.and_(t.le(t.ZERO, start), t.le(t.add(start, k._shape[0]), n))), "integer array store")
        tgt = pre._shape[:axis] + k._shape + pre._shape[axis + 1:]
        _check_assign(tgt, vsh)

        def fn(p):
            c, loc = inv_dims(pre, p)
            r = t.sub(loc[axis], start)
            cc = t.and_(c, t.le(t.ZERO, r), t.lt(r, k._shape[0]))
            l2 = loc[:axis] + (r,) + loc[axis + 1:]
            nv = cast(vf(bidx(vsh, (t.ZERO,) * max(0, len(vsh) - len(l2)) + l2)), dt)
            return ite_num(cc, nv, old(p))
        a.buf.set(fn)
        return
    raise Unsupported("store index")


def _check_assign(tgt, vsh):
    v = list(vsh)
    while len(v) > len(tgt) and t.constval(v[0]) == 1:
        v = v[1:]
    if len(v) > len(tgt):
        raise PyExc("ValueError", "could not broadcast input array")
    off = len(tgt) - len(v)
    for k, d in enumerate(v):
        if t.constval(d) == 1 or d is tgt[off + k]:
            continue
        e = t.eq(d, tgt[off + k])
        if e is t.FALSE:
            raise PyExc("ValueError", "could not broadcast input array")
        ctx().safe("ValueError", e, "assignment shape")


# ------------------------------------------------------------------ concatenation
def concat(xs, axis=0, islist=False):
    arrs = [toarray(x) for x in xs]
    nd = arrs[0].nd
    if nd == 0:
        raise PyExc("ValueError", "zero-dimensional arrays cannot be concatenated")
    for a in arrs:
        if a.nd != nd:
            raise PyExc("ValueError", "all the input array dimensions must match")
        for k in range(nd):
            if k != axis and a._shape[k] is not arrs[0]._shape[k]:
                ctx().safe("ValueError", t.eq(a._shape[k], arrs[0]._shape[k]), "concatenate")
    starts = []
    pos = t.ZERO
    for a in arrs:
        starts.append(pos)
        pos = t.add(pos, a._shape[axis])
    sh = arrs[0]._shape[:axis] + (pos,) + arrs[0]._shape[axis + 1:]
    fs = [a.snap() for a in arrs]
    dt = promote(*[a.dt for a in arrs])

    def fn(idx):
        i = idx[axis]
        r = None
        c = t.constval(i)
        for k in range(len(fs) - 1, -1, -1):
            if t.constval(arrs[k]._shape[axis]) == 0:
                continue
            if r is not None:
                lim = t.add(starts[k], arrs[k]._shape[axis])
                cond = t.lt(i, lim)
                if cond is t.FALSE:
                    continue
                v = fs[k](idx[:axis] + (t.sub(i, starts[k]),) + idx[axis + 1:])
                r = ite_num(cond, v, r)
                if r.t.op == "ite" and r.ok is t.TRUE:
                    r = Num(t.drop_empty(r.t), r.ok, r.dt, r.np)
            else:
                r = fs[k](idx[:axis] + (t.sub(i, starts[k]),) + idx[axis + 1:])
        return r if r is not None else asnum(0)
    return SymArray.make(sh, fn, dt, None, islist)
