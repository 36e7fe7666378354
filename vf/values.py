"""Symbolic values: scalars (Num), arrays (SymArray over Buffers with views), lists, ranges, strings, objects."""
from fractions import Fraction
from . import terms as t
from .terms import T
from .ctx import ctx, PyExc, Unsupported

ORD = {"b": 0, "i": 1, "f": 2, "c": 3}


def promote(*ds):
    return max(ds, key=lambda d: ORD[d])


class Num:
    """a scalar: term, definedness condition, dtype (b,i,f,c), whether it is a numpy scalar"""
    __slots__ = ("t", "ok", "dt", "np")
    __array_priority__ = 1000

    def __init__(self, term, ok=t.TRUE, dt=None, np=False):
        self.t = term
        self.ok = ok
        if dt is None:
            dt = "b" if term.sort == "b" else "i" if term.isint else "f" if term.isreal else "c"
        self.dt = dt
        self.np = np

    def __repr__(self):
        return "Num(%s%s)" % (t.show(self.t, 5), "" if self.ok is t.TRUE else " | ok=" + t.show(self.ok, 4))

    def __bool__(self):
        if self.t.sort == "b":
            return ctx().decide(self.t)
        return ctx().decide(t.not_(t.eq(self.t, t.ZERO)))

    def __hash__(self):
        return hash(self.t.id)

    def __index__(self):
        c = t.constval(self.t)
        if c is None or c.denominator != 1:
            raise Unsupported("symbolic value used as a concrete index")
        return int(c)

    def _b(self, o, f, r=False):
        return binop(f, o, self) if r else binop(f, self, o)

    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __mul__(self, o): return binop("*", self, o)
    def __rmul__(self, o): return binop("*", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __rtruediv__(self, o): return binop("/", o, self)
    def __floordiv__(self, o): return binop("//", self, o)
    def __rfloordiv__(self, o): return binop("//", o, self)
    def __mod__(self, o): return binop("%", self, o)
    def __rmod__(self, o): return binop("%", o, self)
    def __pow__(self, o): return binop("**", self, o)
    def __rpow__(self, o): return binop("**", o, self)
    def __neg__(self): return binop("*", -1, self)
    def __pos__(self): return self
    def __abs__(self): return unop("abs", self)
    def __lt__(self, o): return binop("<", self, o)
    def __le__(self, o): return binop("<=", self, o)
    def __gt__(self, o): return binop("<", o, self)
    def __ge__(self, o): return binop("<=", o, self)
    def __eq__(self, o): return binop("==", self, o)
    def __ne__(self, o): return binop("!=", self, o)
    def __and__(self, o): return binop("&", self, o)
    def __rand__(self, o): return binop("&", o, self)
    def __or__(self, o): return binop("|", self, o)
    def __ror__(self, o): return binop("|", o, self)
    def __invert__(self): return unop("~", self)


def asnum(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(t.TRUE if x else t.FALSE, dt="b")
    if isinstance(x, int):
        return Num(t.num(x), dt="i")
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return Num(t.app("nonfinite", ()), t.FALSE, "f")
        return Num(t.num(x), dt="f")
    if isinstance(x, Fraction):
        return Num(t.num(x), dt="f")
    if isinstance(x, complex):
        return Num(t.add(t.num(x.real), t.mul(t.I, t.num(x.imag))), dt="c")
    if isinstance(x, T):
        return Num(x)
    raise Unsupported("not a scalar: %r" % (type(x),))


def isscalar(x):
    return isinstance(x, (Num, int, float, complex, bool, Fraction))


def I_(x):
    """integer term of an int-like value"""
    if isinstance(x, T):
        return x
    x = asnum(x)
    if x.t.sort == "b":
        return t.ite(x.t, t.ONE, t.ZERO)
    return x.t


def nt(x):
    """numeric term (booleans become 0/1)"""
    x = asnum(x)
    if x.t.sort == "b":
        return t.ite(x.t, t.ONE, t.ZERO)
    return x.t


def simple(n):
    """Num -> python int when it is a constant integer"""
    if isinstance(n, Num) and n.dt == "i":
        c = t.constval(n.t)
        if c is not None and c.denominator == 1:
            return int(c)
    return n


def ival(term):
    """integer term -> python int or Num"""
    c = t.constval(term)
    if c is not None and c.denominator == 1:
        return int(c)
    return Num(term, dt="i")


# ------------------------------------------------------------------ scalar operations
def pow_ok(x, y, dtx):
    c = t.constval(y)
    if c is not None and c.denominator == 1:
        return t.TRUE if c >= 0 else t.not_(t.eq(x, t.ZERO))
    b = t.constval(x)
    if b is not None and b > 0:
        return t.TRUE
    if c is not None and c > 0:
        return t.le(t.ZERO, x)
    return t.or_(t.lt(t.ZERO, x), t.and_(t.eq(x, t.ZERO), t.lt(t.ZERO, y)))


def sbin(op, a, b):
    """scalar binary operation on Nums"""
    ok = t.and_(a.ok, b.ok)
    np_ = a.np or b.np
    if op in ("&", "|") and a.t.sort == "b" and b.t.sort == "b":
        return Num(t.and_(a.t, b.t) if op == "&" else t.or_(a.t, b.t), ok, "b", np_)
    if op in ("==", "!=") and a.t.sort == "b" and b.t.sort == "b":
        r = t.iff(a.t, b.t)
        return Num(r if op == "==" else t.not_(r), ok, "b", np_)
    x, y = nt(a), nt(b)
    da, db = ("i" if a.dt == "b" else a.dt), ("i" if b.dt == "b" else b.dt)
    dt = promote(da, db)
    if op == "+":
        return Num(t.add(x, y), ok, dt, np_)
    if op == "-":
        return Num(t.sub(x, y), ok, dt, np_)
    if op == "*":
        return Num(t.mul2(x, y), ok, dt, np_)
    if op == "/":
        nz = t.not_(t.eq(y, t.ZERO))
        if not np_ and nz is not t.TRUE:
            ctx().safe("ZeroDivisionError", nz, "division")
            nz = t.TRUE
        return Num(t.div(x, y), t.and_(ok, nz), promote(dt, "f"), np_)
    if op in ("//", "%"):
        nz = t.not_(t.eq(y, t.ZERO))
        if not np_ and nz is not t.TRUE:
            ctx().safe("ZeroDivisionError", nz, "division")
            nz = t.TRUE
        q = t.floor(t.div(x, y))
        r = q if op == "//" else t.sub(x, t.mul2(y, q))
        if op == "%" and x.isint and y.isint:
            dt = "i"
        return Num(r, t.and_(ok, nz), dt, np_)
    if op == "**":
        if dt == "c":
            c = t.constval(y)
            if c is not None and c.denominator == 1:
                return Num(t.ipow(x, int(c)), t.and_(ok, t.TRUE if c >= 0 else t.not_(t.eq(x, t.ZERO))), "c", np_)
            raise Unsupported("complex power")
        c = t.constval(y)
        if da == "i" and db == "i":
            if c is not None and c >= 0:
                return Num(t.power(x, y), ok, "i", np_)
            dt = "f" if not np_ else dt
            if np_ and c is not None and c < 0:
                raise Unsupported("integer to negative power")
        return Num(t.power(x, y), t.and_(ok, pow_ok(x, y, a.dt)), dt if dt != "i" else ("i" if t.power(x, y).isint else "f"), np_)
    if op in ("<", "<=", "==", "!="):
        if not x.isreal or not y.isreal:
            if op in ("==", "!="):
                r = t.eq(x, y)
                return Num(r if op == "==" else t.not_(r), ok, "b", np_)
            raise Unsupported("ordering of complex numbers")
        r = {"<": t.lt, "<=": t.le, "==": t.eq, "!=": lambda p, q: t.not_(t.eq(p, q))}[op](x, y)
        # comparisons with an undefined operand: no claim (ok is carried)
        return Num(r, ok, "b", np_)
    raise Unsupported("operator %s" % op)


def binop(op, a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return simple_if(sbin(op, a, b))
    from .sarray import SymArray, elementwise, asarray_like
    if isinstance(a, SymArray) or isinstance(b, SymArray) or asarray_like(a) or asarray_like(b):
        return elementwise(lambda x, y: sbin(op, x, y), a, b)
    if isinstance(a, SymStr) or isinstance(b, SymStr) or isinstance(a, str) or isinstance(b, str):
        if op in ("==", "!="):
            r = str_eq(a, b)
            return r if op == "==" else notv(r)
        raise Unsupported("string operator %s" % op)
    if a is None or b is None:
        if op == "==":
            return a is b
        if op == "!=":
            return a is not b
        raise PyExc("TypeError", "operand None")
    return simple_if(sbin(op, asnum(a), asnum(b)))


def simple_if(n):
    if n.dt == "i" and not n.np:
        return simple(n)
    if n.dt == "b" and not n.np:
        if n.t is t.TRUE:
            return True
        if n.t is t.FALSE:
            return False
    return n


def notv(r):
    if isinstance(r, bool):
        return not r
    return Num(t.not_(r.t), dt="b")


def sun(op, a):
    x = a.t
    if op == "~":
        return Num(t.not_(x), a.ok, "b", a.np)
    x = nt(a)
    dt = promote(a.dt, "f")
    if op == "abs":
        return Num(t.cabs(x), a.ok, "i" if a.dt in "ib" else "f", a.np)
    if op == "neg":
        return Num(t.neg(x), a.ok, a.dt, a.np)
    if op == "log":
        return Num(t.log(x), t.and_(a.ok, t.lt(t.ZERO, x)), "f", True)
    if op == "log10":
        return Num(t.div(t.log(x), t.log(t.num(10))), t.and_(a.ok, t.lt(t.ZERO, x)), "f", True)
    if op == "log2":
        return Num(t.div(t.log(x), t.log(t.num(2))), t.and_(a.ok, t.lt(t.ZERO, x)), "f", True)
    if op == "log1p":
        x = t.add(t.ONE, x)
        return Num(t.log(x), t.and_(a.ok, t.lt(t.ZERO, x)), "f", True)
    if op == "expm1":
        return Num(t.sub(t.exp(x), t.ONE), a.ok, dt, True)
    if op == "exp":
        return Num(t.exp(x), a.ok, dt, True)
    if op == "sqrt":
        return Num(t.sqrt(x), t.and_(a.ok, t.le(t.ZERO, x)), "f", True)
    if op == "cbrt":
        return Num(t.power(x, t.num(Fraction(1, 3))), t.and_(a.ok, t.le(t.ZERO, x)), "f", True)
    if op == "square":
        return Num(t.mul2(x, x), a.ok, a.dt, True)
    if op in ("sin", "cos", "sinh", "arcsinh", "tan", "arctan"):
        if a.dt == "c":
            raise Unsupported("complex %s" % op)
        return Num(t.fun1(op, x), a.ok, "f", True)
    if op == "floor":
        return Num(t.floor(x), a.ok, "f", True)
    if op == "ceil":
        return Num(t.neg(t.floor(t.neg(x))), a.ok, "f", True)
    if op == "trunc":
        return Num(trunc_t(x), a.ok, "f", True)
    if op == "conj":
        return Num(t.conj(x), a.ok, a.dt, True)
    if op == "angle":
        return Num(t.angle(x), a.ok, "f", True)
    if op == "angle_deg":
        return Num(t.mul(t.angle(x), t.num(180), t.recip(t.PI)), a.ok, "f", True)
    if op == "real":
        return Num(t.repart(x), a.ok, "f", True)
    if op == "isnan":
        return Num(t.FALSE if a.ok is t.TRUE else t.and_(t.not_(a.ok), t.bapp("isnan!", (x,))), t.TRUE, "b", True)
    if op == "isinf":
        return Num(t.FALSE if a.ok is t.TRUE else t.and_(t.not_(a.ok), t.not_(t.bapp("isnan!", (x,)))), t.TRUE, "b", True)
    if op == "isfinite":
        return Num(a.ok, t.TRUE, "b", True)
    if op == "round":
        return Num(x if x.isint else t.app("rint", (x,), True), a.ok, dt, True)
    raise Unsupported("function %s" % op)


def unop(op, a):
    from .sarray import SymArray, elementwise, asarray_like
    if isinstance(a, SymArray) or asarray_like(a):
        return elementwise(lambda x: sun(op, x), a)
    return simple_if(sun(op, asnum(a)))


def trunc_t(x, eager=False):
    """truncation towards zero; eager: may use the present path condition (never inside element closures)"""
    if x.isint:
        return x
    c = ctx()
    if eager and c is not None and c.implied(t.le(t.ZERO, x)):
        return t.floor(x)
    if x.op == "floor" or x.isint:
        return x
    return t.ite(t.le(t.ZERO, x), t.floor(x), t.neg(t.floor(t.neg(x))))


def ite_num(c, a, b):
    """c: Bool term"""
    if c is t.TRUE:
        return a
    if c is t.FALSE:
        return b
    a, b = asnum(a), asnum(b)
    if a.t.sort != b.t.sort:
        x, y = nt(a), nt(b)
    else:
        x, y = a.t, b.t
    return Num(t.ite(c, x, y), t.ite(c, a.ok, b.ok), promote(a.dt, b.dt), a.np or b.np)


def max_num(a, b, eager=False):
    a, b = asnum(a), asnum(b)
    c = t.le(nt(b), nt(a))
    cx = ctx() if eager else None
    if cx is not None and c not in (t.TRUE, t.FALSE):
        if cx.implied(c):
            c = t.TRUE
        elif cx.implied(t.not_(c)):
            c = t.FALSE
    r = ite_num(c, a, b)
    return Num(r.t, t.and_(a.ok, b.ok), r.dt, r.np)


def min_num(a, b, eager=False):
    a, b = asnum(a), asnum(b)
    c = t.le(nt(a), nt(b))
    cx = ctx() if eager else None
    if cx is not None and c not in (t.TRUE, t.FALSE):
        if cx.implied(c):
            c = t.TRUE
        elif cx.implied(t.not_(c)):
            c = t.FALSE
    r = ite_num(c, a, b)
    return Num(r.t, t.and_(a.ok, b.ok), r.dt, r.np)


# ------------------------------------------------------------------ strings
class SymStr:
    """an unknown string; compared with literals by an integer code"""
    codes = {}

    def __init__(self, term):
        self.t = term

    def __bool__(self):
        return ctx().decide(t.not_(t.eq(self.t, t.num(strcode("")))))

    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        return notv(str_eq(self, o))

    def __hash__(self):
        return hash(self.t.id)

    def __repr__(self):
        return "SymStr(%s)" % t.show(self.t)


def strcode(s):
    if s not in SymStr.codes:
        SymStr.codes[s] = len(SymStr.codes) + 1
    return SymStr.codes[s]


def str_term(s):
    return s.t if isinstance(s, SymStr) else t.num(strcode(s))


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
        return False
    r = t.eq(str_term(a), str_term(b))
    return simple_if(Num(r, dt="b"))


def concretise_str(s, options):
    """fork a symbolic string over the given literals; returns the literal or None (another string)"""
    if isinstance(s, str):
        return s if s in options else None
    for o in options:
        if ctx().decide(t.eq(s.t, t.num(strcode(o)))):
            return o
    return None


class Obj:
    """instance of a plain (data) class"""

    def __init__(self, cls, attrs, external=None):
        self.cls, self.attrs, self.external = cls, attrs, external

    def __getattr__(self, n):
        a = object.__getattribute__(self, "attrs")
        if n in a:
            return a[n]
        raise AttributeError(n)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        s, e = I_(self.start), I_(self.stop)
        st = self.step
        cx = ctx()
        if st == 1:
            n = t.sub(e, s)
        elif st == -1:
            n = t.sub(s, e)
        else:
            k = I_(st)
            if isinstance(st, int):
                d = t.sub(e, s) if st > 0 else t.sub(s, e)
                n = t.neg(t.floor(t.neg(t.div(d, t.num(abs(st))))))
            else:
                if not cx.implied(t.lt(t.ZERO, k)):
                    cx.safe("ValueError", t.lt(t.ZERO, k), "range() step positive")
                n = t.neg(t.floor(t.neg(t.div(t.sub(e, s), k))))
        if cx.implied(t.le(t.ZERO, n)):
            return n
        return t.ite(t.lt(t.ZERO, n), n, t.ZERO)

    def item(self, k):
        return ival(t.add(I_(self.start), t.mul2(I_(self.step), k)))


class SymList:
    """immutable list of symbolic length with items given by index term"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def item(self, k):
        return self.fn(k)
