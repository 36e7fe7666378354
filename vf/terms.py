"""Hash-consed term DAG with polynomial normal form.

Numeric terms denote complex numbers (the imaginary unit I is an atom with I*I = -1); terms built from real
inputs without I denote reals.  Floating point is treated as exact arithmetic (stated in DESIGN.md).

Normal form: a numeric term is either an *atom* or a `poly`, a sum of coeff * prod(atom ** int exponent).
Binders are `lam` nodes whose bound variables have canonical names (by height), so alpha-equal terms are identical.
"""
from fractions import Fraction
import itertools

F0, F1 = Fraction(0), Fraction(1)


class T:
    __slots__ = ("op", "args", "id", "fv", "h", "isint", "isreal", "sort", "size", "__weakref__")

    def __repr__(self):
        return show(self)

    # identity hashing (hash-consed)


_table = {}
_ids = itertools.count()
_empty = frozenset()


def _mk(op, args, key, fv, h, isint, isreal, sort, size):
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op, t.args, t.fv, t.h, t.isint, t.isreal, t.sort, t.size = op, args, fv, h, isint, isreal, sort, size
    t.id = next(_ids)
    _table[key] = t
    return t


def _union(ts):
    fv = _empty
    for t in ts:
        if t.fv and not (t.fv <= fv):
            fv = fv | t.fv if fv else t.fv
    return fv


def _node(op, data, ts, isint=False, isreal=True, sort="n"):
    """generic node: data = hashable non-term payload, ts = tuple of terms"""
    key = (op, data, tuple(t.id for t in ts), isint, isreal, sort)
    t = _table.get(key)
    if t is not None:
        return t
    return _mk(op, (data, tuple(ts)), key, _union(ts), max([t.h for t in ts], default=0), isint, isreal, sort,
               1 + sum(t.size for t in ts))


# ------------------------------------------------------------------ variables and constants
def var(name, isint=False):
    key = ("var", name, isint)
    t = _table.get(key)
    if t is None:
        t = _mk("var", (name, ()), key, None, 0, isint, True, "n", 1)
        t.fv = frozenset([t])
    return t


def bvar(name):
    key = ("bvar", name)
    t = _table.get(key)
    if t is None:
        t = _mk("bvar", (name, ()), key, None, 0, False, True, "b", 1)
        t.fv = frozenset([t])
    return t


_fresh = itertools.count()


def fresh(prefix="t", isint=True):
    return var("%s!%d" % (prefix, next(_fresh)), isint)


def canon(h, i, isint=True):
    return var("#%d.%d" % (h, i), isint)


I = _mk("I", (None, ()), ("I",), _empty, 0, False, False, "n", 1)
PI = _mk("pi", (None, ()), ("pi",), _empty, 0, False, True, "n", 1)
TRUE = _mk("true", (None, ()), ("true",), _empty, 0, False, True, "b", 1)
FALSE = _mk("false", (None, ()), ("false",), _empty, 0, False, True, "b", 1)


# ------------------------------------------------------------------ polynomials
def _poly_items(t):
    """dict mono -> coeff of a numeric term"""
    if t.op == "poly":
        return t.args[1]
    return ((((t, 1),), F1),)


def _from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    items = tuple(items)
    key = ("poly", tuple((tuple((a.id, e) for a, e in m), c) for m, c in items))
    t = _table.get(key)
    if t is not None:
        return t
    atoms = [a for m, _ in items for a, _ in m]
    isint = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m) for m, c in items)
    isreal = all(a.isreal for a in atoms)
    return _mk("poly", (None, items), key, _union(atoms), max([a.h for a in atoms], default=0), isint, isreal, "n",
               1 + sum(a.size for a in atoms))


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise ValueError("non-finite constant")
        x = Fraction(repr(x))
    x = Fraction(x)
    return _from_dict({(): x} if x else {})


ZERO, ONE = num(0), num(1)


def isconst(t):
    return t.op == "poly" and (not t.args[1] or (len(t.args[1]) == 1 and t.args[1][0][0] == ()))


def constval(t):
    if t.op == "poly":
        if not t.args[1]:
            return F0
        if len(t.args[1]) == 1 and t.args[1][0][0] == ():
            return t.args[1][0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _poly_items(t):
            d[m] = d.get(m, F0) + c
    return _from_dict(d)


def scale(t, k):
    k = Fraction(k)
    if k == 0:
        return ZERO
    if k == 1:
        return t
    return _from_dict({m: c * k for m, c in _poly_items(t)})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """product of monomials -> (coeff, mono) (I*I = -1)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    c = F1
    if I in d:
        e = d.pop(I) % 4
        if e in (2, 3):
            c = -c
        if e in (1, 3):
            d[I] = 1
    return c, tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


EXPAND = 400


def mul2(a, b):
    pa, pb = _poly_items(a), _poly_items(b)
    if not pa or not pb:
        return ZERO
    if len(pa) > 1 and len(pb) == 1:
        r = _cancel(a, b)
        if r is not None:
            return r
    elif len(pb) > 1 and len(pa) == 1:
        r = _cancel(b, a)
        if r is not None:
            return r
    if len(pa) * len(pb) > EXPAND:
        if len(pa) > 1:
            a = _opq(a)
        if len(pb) > 1 and len(_poly_items(a)) * len(pb) > EXPAND:
            b = _opq(b)
        pa, pb = _poly_items(a), _poly_items(b)
    d = {}
    for m1, c1 in pa:
        for m2, c2 in pb:
            c, m = _mono_mul(m1, m2)
            d[m] = d.get(m, F0) + c * c1 * c2
    t = _from_dict(d)
    return _fix_inv(t)


def _cancel(p, mo):
    """p * mo where the monomial mo contains inv(q) and p is a multiple of q"""
    m, c = _poly_items(mo)[0]
    for a, e in m:
        if a.op == "inv" and e > 0:
            q = a.args[1][0]
            if len(_poly_items(q)) == len(_poly_items(p)):
                k = _poly_items(p)[0][1] / _poly_items(q)[0][1]
                if scale(q, k) is p:
                    rest = tuple((x, y) if x is not a else (x, y - 1) for x, y in m)
                    return _fix_inv(_from_dict({tuple((x, y) for x, y in rest if y): c * k}))
    return None


def _opq(t):
    """an unexpanded polynomial as an atom ('big'), to stop blow-up"""
    if t.op != "poly":
        return t
    return _node("big", None, (t,), t.isint, t.isreal)


def _whole(a, e):
    c = constval(a.args[1][1])
    return c is not None and (c * e).denominator == 1 and abs(c * e) <= 16


def _fix_inv(t):
    """inv(p) atoms raised to negative powers become p again"""
    if t.op != "poly":
        if t.op == "inv":
            return t
        return t
    bad = False
    for m, c in t.args[1]:
        for a, e in m:
            if a.op == "inv" and e < 0 or a.op == "powr" and _whole(a, e) or a.op == "abs" and (e > 1 or e < -1):
                bad = True
    if not bad:
        return t
    out = ZERO
    for m, c in t.args[1]:
        x = num(c)
        for a, e in m:
            if a.op == "inv" and e < 0:
                x = mul2(x, ipow(a.args[1][0], -e))
            elif a.op == "abs" and (e > 1 or e < -1):
                # |y| ** e: even part without the absolute value
                h = e // 2 * 2 if e > 0 else -(-e // 2 * 2)
                x = mul2(x, ipow(a.args[1][0], h))
                if e != h:
                    x = mul2(x, _from_dict({((a, e - h),): F1}))
            elif a.op == "powr" and _whole(a, e):
                # (y ** (p/q)) ** e with e*p/q whole: y ** (e*p/q); the value only matters where the root is defined (y >= 0)
                x = mul2(x, ipow(a.args[1][0], int(constval(a.args[1][1]) * e)))
            else:
                x = mul2(x, _from_dict({((a, e),): F1}))
        out = add(out, x)
    return out


def mul(*ts):
    r = ONE
    for t in ts:
        r = mul2(r, t)
    return r


def ipow(t, n):
    if n < 0:
        return ipow(recip(t), -n)
    r = ONE
    base = t
    while n:
        if n & 1:
            r = mul2(r, base)
        n >>= 1
        if n:
            base = mul2(base, base)
    return r


def recip(t):
    """1/t; t = 0 is a definedness question handled by the caller"""
    it = _poly_items(t)
    if len(it) == 0:
        return app("inv0", ())
    if len(it) == 1:
        m, c = it[0]
        co, mm = _mono_mul(tuple((a, -e) for a, e in m), ())
        return _fix_inv(_from_dict({mm: co / c}))
    # common monomial content + monic normalisation
    lead = it[0][1]
    t2 = scale(t, 1 / lead)
    # pull out atoms common to every monomial
    common = None
    for m, c in _poly_items(t2):
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm and (e > 0) == (dm[a] > 0)}
            common = {a: e for a, e in common.items()}
    # negative exponents: take min over all (missing = 0) so that the rest is a true polynomial
    negs = {}
    for m, c in _poly_items(t2):
        for a, e in m:
            if e < 0:
                negs[a] = min(negs.get(a, 0), e)
    content = dict(negs)
    for a, e in (common or {}).items():
        if e > 0:
            content[a] = e
    content.pop(I, None)
    if content:
        inv_content = _from_dict({tuple(sorted(((a, -e) for a, e in content.items()), key=lambda ae: ae[0].id)): F1})
        rest = mul2(t2, inv_content)
        if rest is not t2 and rest.op == "poly":
            return scale(mul2(recip(rest), inv_content), 1 / lead)
        return scale(mul2(recip(rest), inv_content), 1 / lead)
    return scale(_node("inv", None, (t2,), False, t2.isreal), 1 / lead)


def div(a, b):
    return mul2(a, recip(b))


def var_exponents(t):
    return None


# ------------------------------------------------------------------ scalar functions
REALFUN = {"log", "powr", "sin", "cos", "sinh", "cosh", "arcsinh", "tan", "arctan", "floor", "cabs", "angle", "conj"}


def app(f, args, isint=False, isreal=True):
    return _node("app", f, tuple(args), isint, isreal)


def log(x):
    c = constval(x)
    if c == 1:
        return ZERO
    if x.op == "exp":
        return x.args[1][0]
    return _node("log", None, (x,))


def exp(x):
    if constval(x) == 0:
        return ONE
    pre = ONE
    for m, c in _poly_items(x):
        # exp(n*log(c) + r) = c**n * exp(r) for a constant c > 0
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log" and c.denominator == 1 and abs(c) <= 16:
            b = constval(m[0][0].args[1][0])
            if b is not None and b > 0:
                pre = scale(pre, b ** int(c))
                x = sub(x, _from_dict({m: c}))
    if pre is not ONE:
        return mul2(pre, exp(x))
    return _node("exp", None, (x,), False, x.isreal)


def fun1(name, x):
    """sin cos sinh arcsinh tan arctan"""
    c = constval(x)
    if c == 0 and name in ("sin", "sinh", "arcsinh", "tan", "arctan"):
        return ZERO
    if c == 0 and name == "cos":
        return ONE
    pair = {"sinh": "arcsinh", "arcsinh": "sinh", "tan": "arctan"}
    if name in pair and x.op == pair[name]:
        return x.args[1][0]
    if name.startswith("mono-inv:") and x.op == "mono:" + name[9:]:
        return x.args[1][0]
    return _node(name, None, (x,))


def power(x, y):
    """x ** y for real x"""
    c = constval(y)
    if c is not None and c.denominator == 1 and abs(c) <= 64:
        return ipow(x, int(c))
    b = constval(x)
    if b is not None and b > 0:
        return exp(mul2(y, log(x)))
    if x is PI or x.op == "exp" and x.isreal:
        return exp(mul2(y, log(x)))
    if c == Fraction(1, 2):
        q = _root(x)
        if q is not None:
            return rabs(q)
    return _node("powr", None, (x, y))


def _root(x):
    """q with q*q = x, for small polynomials over real atoms"""
    import math
    it = list(_poly_items(x))
    if not x.isreal or len(it) > 10:
        return None
    sq = []
    for m, c in it:
        n, d = c.numerator, c.denominator
        if c > 0 and all(e % 2 == 0 for a, e in m) and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            sq.append(_from_dict({tuple((a, e // 2) for a, e in m): Fraction(math.isqrt(n), math.isqrt(d))}))
    if not sq or len(sq) > 4 or (len(sq) == 1 and len(it) > 1):
        return None
    for mask in range(1 << (len(sq) - 1)):
        q = add(sq[0], *[neg(y) if mask >> i & 1 else y for i, y in enumerate(sq[1:])])
        if mul2(q, q) is x:
            return q
    return None


def sqrt(x):
    return power(x, num(Fraction(1, 2)))


def floor(x):
    if x.isint:
        return x
    c = constval(x)
    if c is not None:
        return num(c.numerator // c.denominator)
    if x.op == "poly":
        ip, fp = {}, {}
        for m, co in x.args[1]:
            ok = all(a.isint and e > 0 for a, e in m)
            if ok:
                k = co.numerator // co.denominator
                if co.denominator == 1:
                    ip[m] = co
                elif m == ():
                    if k:
                        ip[m] = Fraction(k)
                    fp[m] = co - k
                else:
                    # keep the whole coefficient on the fractional side unless |co| >= 1
                    if abs(co) >= 1:
                        ip[m] = Fraction(k)
                        fp[m] = co - k
                    else:
                        fp[m] = co
            else:
                fp[m] = co
        if ip:
            return add(_from_dict(ip), floor(_from_dict(fp)))
    return _node("floor", None, (x,), True)


def cabs(z):
    if z.isreal:
        return rabs(z)
    it = _poly_items(z)
    if len(it) == 1:
        m, co = it[0]
        re = tuple((a, e) for a, e in m if a.isreal)
        if re or co != 1:
            cp = tuple((a, e) for a, e in m if not a.isreal)
            return mul2(scale(rabs(_from_dict({re: F1})), abs(co)), cabs(_from_dict({cp: F1})))
    return _node("cabs", None, (z,))


def rabs(x):
    c = constval(x)
    if c is not None:
        return num(abs(c))
    if x.op in ("cabs", "exp") or (x.op == "abs"):
        return x
    it = _poly_items(x)
    if len(it) == 1:
        m, co = it[0]
        if all(a.op in ("cabs", "abs", "pi") or (a.op == "exp" and a.isreal) or e % 2 == 0 for a, e in m):
            return scale(_from_dict({m: F1}), abs(co))
        if co != 1:
            return scale(rabs(_from_dict({m: F1})), abs(co))
    else:
        lead = it[0][1]
        if lead < 0:
            x = neg(x)
    return _node("abs", None, (x,), x.isint)


def angle(z):
    return _node("angle", None, (z,))


def conj(z):
    if z.isreal:
        return z
    if z is I:
        return neg(I)
    if z.op == "poly":
        out = ZERO
        for m, c in z.args[1]:
            x = num(c)
            for a, e in m:
                ca = conj(a)
                x = mul2(x, ipow(ca, e))
            out = add(out, x)
        return out
    if z.op == "exp":
        return exp(conj(z.args[1][0]))
    if z.op == "ite":
        c, a, b = z.args[1]
        return ite(c, conj(a), conj(b))
    if z.op == "sum":
        n, lam_ = z.args[1]
        v = fresh("c")
        return sum_(n, [v], conj(lam_apply(lam_, (v,))))
    if z.op == "inv":
        return recip(conj(z.args[1][0]))
    if z.op == "conj":
        return z.args[1][0]
    return _node("conj", None, (z,), False, False)


def repart(z):
    if z.isreal:
        return z
    if z.op == "poly":
        d, rest = {}, []
        for m, c in z.args[1]:
            if all(a.isreal for a, e in m):
                d[m] = c
            elif len([1 for a, e in m if not a.isreal]) == 1 and any(a is I for a, e in m):
                pass
            else:
                rest.append((m, c))
        out = _from_dict(d)
        if rest:
            out = add(out, _node("re", None, (_from_dict(dict(rest)),)))
        return out
    return _node("re", None, (z,))


# ------------------------------------------------------------------ booleans
def _cmp(kind, p):
    """kind in '<','<=','==' applied to p vs 0"""
    c = constval(p)
    if c is not None:
        return TRUE if ((c < 0) if kind == "<" else (c <= 0) if kind == "<=" else c == 0) else FALSE
    it = _poly_items(p)
    # positive rescale; integer tightening
    lead = it[0][1]
    if kind == "==":
        p = scale(p, 1 / lead)
    else:
        if p.isint and kind == "<":
            return _cmp("<=", add(p, ONE))
        p = scale(p, 1 / abs(lead))
    if kind in ("<", "<=") and len(_poly_items(p)) == 1:
        # sign-definite single monomials
        m, co = _poly_items(p)[0]
        if all(a.op == "exp" and a.isreal or a.op == "pi" for a, e in m):
            return FALSE if co > 0 else TRUE
    return _node("cmp", kind, (p,), False, True, "b")


def lt(a, b):
    return _cmp("<", sub(a, b))


def le(a, b):
    return _cmp("<=", sub(a, b))


def eq(a, b):
    if a.sort == "b" or b.sort == "b":
        return iff(a, b)
    return _cmp("==", sub(a, b))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return or_(and_(a, b), and_(not_(a), not_(b)))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[1][0]
    if b.op == "cmp" and b.args[0] == "<":
        return _cmp("<=", neg(b.args[1][0]))
    if b.op == "cmp" and b.args[0] == "<=":
        return _cmp("<", neg(b.args[1][0]))
    if b.op == "and":
        return or_(*[not_(x) for x in b.args[1]])
    if b.op == "or":
        return and_(*[not_(x) for x in b.args[1]])
    return _node("not", None, (b,), False, True, "b")


def and_(*bs):
    out = []
    seen = set()
    for b in bs:
        for x in (b.args[1] if b.op == "and" else (b,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
    for x in out:
        if not_(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _node("and", None, tuple(out), False, True, "b")


def or_(*bs):
    out = []
    seen = set()
    for b in bs:
        for x in (b.args[1] if b.op == "or" else (b,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
    for x in out:
        nx = not_(x) if x.op in ("cmp", "not", "bvar", "all", "app", "bop", "self") else None
        if nx is not None and nx.id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if all(x.op == "and" for x in out):
        # common conjuncts are factored out
        common = set(y.id for y in out[0].args[1])
        for x in out[1:]:
            common &= set(y.id for y in x.args[1])
        if common:
            com = [y for y in out[0].args[1] if y.id in common]
            return and_(*(com + [or_(*[and_(*[y for y in x.args[1] if y.id not in common]) for x in out])]))
    out.sort(key=lambda t: t.id)
    return _node("or", None, tuple(out), False, True, "b")


def implies(a, b):
    return or_(not_(a), b)


def bapp(f, args):
    return _node("app", f, tuple(args), False, True, "b")


def drop_empty(x):
    """ite(n <= 0, 0, sum over n) is the sum: an empty sum is 0 anyway"""
    if x.op == "ite":
        c, a, b = x.args[1]
        if c.op == "cmp" and c.args[0] == "<=" and a is ZERO and b.op == "sum" and b.args[1][0] is c.args[1][0]:
            return b
    return x


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "b":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[1][0], b, a)
    if c.op == "or" and all(x.op in ("not",) for x in c.args[1]):
        return ite(not_(c), b, a)
    if c.op == "cmp" and c.args[0] in ("<", "<="):
        p = c.args[1][0]
        # minimum / maximum: strictness and argument order do not matter
        d = sub(a, b)
        kind = None
        one = num(1)
        if d is p or (c.args[0] == "<=" and d.isint and d is sub(p, one)):
            kind = "min"
        elif d is neg(p) or (c.args[0] == "<=" and d.isint and neg(d) is sub(p, one)):
            kind = "max"
        if kind:
            x, y = (a, b) if (a.size, a.id) < (b.size, b.id) else (b, a)
            c = _cmp("<=", sub(x, y) if kind == "min" else sub(y, x))
            if c is TRUE:
                return x
            if c is FALSE:
                return y
            return _node("ite", None, (c, x, y), a.isint and b.isint, a.isreal and b.isreal)
        lead = None
        for m, co in _poly_items(p):
            if m:
                lead = co
                break
        if lead is not None and lead < 0:
            c2 = not_(c)
            if c2.op == "cmp":
                c, a, b = c2, b, a
    # nested same-condition
    if a.op == "ite" and a.args[1][0] is c:
        a = a.args[1][1]
    if b.op == "ite" and b.args[1][0] is c:
        b = b.args[1][2]
    if a is b:
        return a
    return _node("ite", None, (c, a, b), a.isint and b.isint, a.isreal and b.isreal)


def max2(a, b):
    return ite(le(b, a), a, b)


def min2(a, b):
    return ite(le(a, b), a, b)


# ------------------------------------------------------------------ binders
def lam(vs, body):
    """abstract the (fresh, integer) variables vs from body"""
    h = body.h + 1
    m = {v: canon(h, i, v.isint) for i, v in enumerate(vs)}
    b2 = subst(body, m)
    key = ("lam", len(vs), b2.id, h)
    t = _table.get(key)
    if t is not None:
        return t
    fv = b2.fv - frozenset(m.values())
    return _mk("lam", ((len(vs), h, tuple(v.isint for v in vs)), (b2,)), key, fv, h, b2.isint, b2.isreal, b2.sort, 1 + b2.size)


def lam_vars(l):
    n, h, ints = l.args[0]
    return [canon(h, i, ints[i]) for i in range(n)]


def lam_apply(l, args):
    return subst(l.args[1][0], dict(zip(lam_vars(l), args)))


def sum_(n, vs, body):
    """sum over v in 0..n-1 of body (0 when n <= 0), linear normal form"""
    (v,) = vs
    cn = constval(n)
    if cn is not None and cn <= 0:
        return ZERO
    if cn is not None and cn <= 8:
        return add(*[subst(body, {v: num(k)}) for k in range(int(cn))])
    if v not in body.fv:
        return mul2(body, _cnt(n))
    out = ZERO
    for m, c in _poly_items(body):
        dep = [(a, e) for a, e in m if v in a.fv]
        ind = [(a, e) for a, e in m if v not in a.fv]
        k = _from_dict({tuple(ind): c})
        if not dep:
            out = add(out, mul2(k, _cnt(n)))
            continue
        if len(dep) == 1 and dep[0][0] is v and dep[0][1] in (1, 2):
            p = _cnt(n)
            q = scale(mul2(p, sub(p, ONE)), Fraction(1, 2))
            if dep[0][1] == 2:
                q = scale(mul2(q, sub(scale(p, 2), ONE)), Fraction(1, 3))
            out = add(out, mul2(k, q))
            continue
        b = _from_dict({tuple(dep): F1})
        out = add(out, mul2(k, _sum1(n, v, b)))
    return out


def _cnt(n):
    # number of iterations: max(n, 0); kept symbolic as pos(n)
    c = constval(n)
    if c is not None:
        return num(max(c, 0))
    return _node("pos", None, (n,), True)


def _sum1(n, v, b):
    # ite splitting on conditions independent of v; Kronecker delta
    it = _poly_items(b)
    if len(it) == 1 and len(it[0][0]) >= 1:
        m = it[0][0]
        for a, e in m:
            if a.op == "ite" and e == 1:
                c, x, y = a.args[1]
                rest = _from_dict({tuple((a2, e2) for a2, e2 in m if a2 is not a): F1})
                if v not in c.fv:
                    return ite(c, sum_(n, [v], mul2(x, rest)), sum_(n, [v], mul2(y, rest)))
                if c.op == "cmp" and (c.args[0] == "==" or c is le(v, ZERO)):
                    p = c.args[1][0]
                    s = solve_linear(p, v)
                    if s is not None and s.isint:
                        inb = and_(le(ZERO, s), lt(s, n))
                        hit = subst(mul2(sub(x, y), rest), {v: s})
                        return add(ite(inb, hit, ZERO), sum_(n, [v], mul2(y, rest)))
    l = lam([v], b)
    return _node("sum", None, (n, l), l.isint, l.isreal)


def solve_linear(p, v):
    """p == 0 solved for v when p = c*v + r with v not in r, c = +-1"""
    c, rest = None, {}
    for m, co in _poly_items(p):
        if m == ((v, 1),):
            c = co
        elif any(v in a.fv for a, e in m):
            return None
        else:
            rest[m] = co
    if c is None or abs(c) != 1:
        return None
    return scale(_from_dict(rest), -1 / c)


def bop(name, params, lams, isint=False, isreal=True, sort="n"):
    """opaque operator: params = scalar terms, lams = lam terms (closures)"""
    return _node("bop", (name, len(params)), tuple(params) + tuple(lams), isint, isreal, sort)


def bop_parts(t):
    name, k = t.args[0]
    return name, t.args[1][:k], t.args[1][k:]


def forall_(n, vs, body):
    (v,) = vs
    if body is TRUE:
        return TRUE
    cn = constval(n)
    if cn is not None and cn <= 8:
        return and_(*[subst(body, {v: num(k)}) for k in range(int(max(cn, 0)))])
    if v not in body.fv:
        return or_(le(n, ZERO), body)
    if body.op == "and":
        return and_(*[forall_(n, [v], x) for x in body.args[1]])
    return _node("all", None, (n, lam([v], body)), False, True, "b")


# rec nodes: value at index i of a 1-D course-of-values recurrence with parameters folded into the definition.
# defn lam over (i) whose body may contain selfref(k) = value at k; base handled inside body by ite(i < start, init, ...)
def selfref(tag, idx):
    return _node("self", tag, tuple(idx))


# ------------------------------------------------------------------ rebuild / substitution
def rebuild(t, ts):
    """same operator as t over new children (smart constructors)"""
    op, data = t.op, t.args[0]
    if op == "inv":
        return recip(ts[0])
    if op == "big":
        return _opq(ts[0]) if ts[0].op == "poly" and len(ts[0].args[1]) > 1 else ts[0]
    if op == "log":
        return log(ts[0])
    if op == "exp":
        return exp(ts[0])
    if op in ("sin", "cos", "sinh", "cosh", "arcsinh", "tan", "arctan") or op.startswith("mono"):
        return fun1(op, ts[0])
    if op == "powr":
        return power(ts[0], ts[1])
    if op == "floor":
        return floor(ts[0])
    if op == "cabs":
        return cabs(ts[0])
    if op == "abs":
        return rabs(ts[0])
    if op == "angle":
        return angle(ts[0])
    if op == "conj":
        return conj(ts[0])
    if op == "re":
        return repart(ts[0])
    if op == "cmp":
        return _cmp(data, ts[0])
    if op == "not":
        return not_(ts[0])
    if op == "and":
        return and_(*ts)
    if op == "or":
        return or_(*ts)
    if op == "ite":
        return ite(*ts)
    if op == "pos":
        return _cnt(ts[0])
    if op == "sum":
        n, l = ts
        v = fresh("s")
        return sum_(n, [v], lam_apply(l, (v,)))
    if op == "all":
        n, l = ts
        v = fresh("s")
        return forall_(n, [v], lam_apply(l, (v,)))
    if op == "bop":
        name, k = data
        return bop_smart(name, ts[:k], ts[k:], t)
    if op in ("app", "self"):
        return _node(op, data, tuple(ts), t.isint, t.isreal, t.sort)
    raise AssertionError(op)


def bop_smart(name, params, lams, like):
    if name == "sel":
        return sel(params[0], lams[0], params[1])
    return bop(name, params, lams, like.isint, like.isreal, like.sort)


def sel(n, mask, i):
    """index of the i-th true entry of mask (a lam) in 0..n-1"""
    if i.op == "bop":
        nm, ps, ls = bop_parts(i)
        if nm == "rank" and ls[0] is mask and ps[0] is n:
            return ps[1]
    return bop("sel", (n, i), (mask,), True)


def rank(n, mask, p):
    return bop("rank", (n, p), (mask,), True)


def subst(t, m):
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in ("var", "bvar"):
            r = m.get(t, t)
        elif t.op == "poly":
            r = ZERO
            acc = []
            for mo, c in t.args[1]:
                if not any(a.fv & keys for a, e in mo):
                    acc.append(_from_dict({mo: c}))
                    continue
                x = num(c)
                for a, e in mo:
                    x = mul2(x, ipow(go(a), e)) if (a.fv & keys) else mul2(x, _from_dict({((a, e),): F1}))
                acc.append(x)
            r = add(*acc)
        elif t.op == "lam":
            vs = lam_vars(t)
            tmp = [fresh("l", v.isint) for v in vs]
            b = subst(t.args[1][0], {**{k: v for k, v in m.items() if k not in vs}, **dict(zip(vs, tmp))})
            r = lam(tmp, b)
        else:
            r = rebuild(t, tuple(go(x) for x in t.args[1]))
        memo[t.id] = r
        return r

    return go(t)


def replace(t, fn):
    """bottom-up rewrite: fn(node) -> term or None, applied to rebuilt nodes (not below lambdas' canonical vars)"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in ("var", "bvar", "I", "pi", "true", "false"):
            r = t
        elif t.op == "poly":
            acc = []
            for mo, c in t.args[1]:
                x = num(c)
                for a, e in mo:
                    x = mul2(x, ipow(go(a), e))
                acc.append(x)
            r = add(*acc)
        elif t.op == "lam":
            vs = lam_vars(t)
            tmp = [fresh("l", v.isint) for v in vs]
            r = lam(tmp, go(subst(t.args[1][0], dict(zip(vs, tmp)))))
        else:
            ts = tuple(go(x) for x in t.args[1])
            r = t if all(a is b for a, b in zip(ts, t.args[1])) else rebuild(t, ts)
        r2 = fn(r)
        if r2 is not None:
            r = r2
        memo[t.id] = r
        return r

    return go(t)


def children(t):
    if t.op == "poly":
        return [a for m, c in t.args[1] for a, e in m]
    return list(t.args[1])


def subterms(ts, under_lam=False):
    seen = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        if t.op == "lam" and not under_lam:
            continue
        st.extend(children(t))
    return list(seen.values())


def contains(t, pred):
    return any(pred(x) for x in subterms([t], True))


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    if t.op in ("var", "bvar"):
        return t.args[0]
    if t.op in ("I", "pi", "true", "false"):
        return t.op
    if t.op == "poly":
        if not t.args[1]:
            return "0"
        out = []
        for m, c in t.args[1]:
            fs = [("%s^%d" % (s(a), e) if e != 1 else s(a)) for a, e in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if t.op == "lam":
        return "\\%s. %s" % (",".join(v.args[0] for v in lam_vars(t)), s(t.args[1][0]))
    if t.op == "cmp":
        return "(%s %s 0)" % (s(t.args[1][0]), t.args[0])
    name = t.op if t.args[0] is None else "%s" % (t.args[0] if t.op == "app" else "%s[%s]" % (t.op, t.args[0]))
    return "%s(%s)" % (name, ", ".join(s(x) for x in t.args[1]))
