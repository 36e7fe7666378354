"""Discharges  hyps |- goal  over vf.terms with z3 (cvc5 as second back end).

Binder nodes are abstracted to constants; what the abstraction loses is given back by instantiated lemmas:
congruence of binders (bodies proved pointwise equal), sign of sums, unfolding of recurrences, floor bounds,
monotonicity / inverse laws of log, exp, sinh, arcsinh, tan, arctan, and declared facts on input arrays.
"""
import time
from fractions import Fraction
import z3
from . import terms as t
from .terms import T


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.by = {"normaliser": 0, "z3": 0, "cvc5": 0, "induction": 0}
        self.axioms = set()


STATS = Stats()
TIMEOUT = 4000          # ms per query
DEADLINE = [None]


class OutOfTime(Exception):
    pass


class Facts:
    """declared facts on uninterpreted arrays/functions: name -> fn(args) -> [Bool terms]"""

    def __init__(self):
        # rounding to the nearest integer: between floor and ceiling, at most 1/2 away
        self.by_name = {"rint": [lambda x: [t.le(t.floor(x), t.app("rint", (x,), True)), t.le(t.app("rint", (x,), True), t.neg(t.floor(t.neg(x)))),
                                            t.le(t.sub(t.app("rint", (x,), True), x), t.num(Fraction(1, 2))), t.le(t.sub(x, t.app("rint", (x,), True)), t.num(Fraction(1, 2)))]]}
        self.by_op = {}

    def declare(self, name, fn):
        self.by_name.setdefault(name, []).append(fn)


def zf(x):
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)


_ZFUN = {}


def zfun(name, sig):
    k = (name, sig)
    if k not in _ZFUN:
        _ZFUN[k] = z3.Function(name + "/" + sig, *[z3.IntSort() if c == "i" else z3.RealSort() if c == "r" else z3.BoolSort() for c in sig])
    return _ZFUN[k]


class Tr:
    """translation of one query"""

    def __init__(self, facts):
        self.facts = facts
        self.memo = {}
        self.imemo = {}
        self.ax = []
        self.nodes = []          # binder nodes met
        self.applied = {}        # op -> list of (arg T, z3 value) for scalar functions
        self.apps = []           # UF applications met (T)
        self.doing = []

    def real(self, x):
        if x.id in self.memo:
            return self.memo[x.id]
        r = z3.ToReal(self.int(x)) if x.isint else self._real(x)
        if x.isint and t.isconst(x):
            r = z3.RealVal(int(t.constval(x)))
        self.memo[x.id] = r
        return r

    def int(self, x):
        if x.id in self.imemo:
            return self.imemo[x.id]
        r = self._int(x)
        self.imemo[x.id] = r
        return r

    def _mono(self, m, c, conv):
        r = None
        for a, e in m:
            if e > 0:
                v = conv(a)
                for _ in range(e):
                    r = v if r is None else r * v
            else:
                v = self.invof(a)
                for _ in range(-e):
                    r = v if r is None else r * v
        return r

    def invof(self, a):
        key = ("inv", a.id)
        if key in self.memo:
            return self.memo[key]
        r = z3.Real("inv!%d" % a.id)
        self.memo[key] = r
        d = self.real(a)
        self.ax.append(z3.Implies(d != 0, d * r == 1))
        self.ax.append(z3.Implies(d > 0, r > 0))
        self.ax.append(z3.Implies(d < 0, r < 0))
        return r

    def _int(self, x):
        if x.op == "poly":
            s = None
            for m, c in x.args[1]:
                r = self._mono(m, c, self.int)
                k = z3.IntVal(int(c))
                r = k if r is None else (r if c == 1 else k * r)
                s = r if s is None else s + r
            return z3.IntVal(0) if s is None else s
        if x.op == "var":
            return z3.Int(x.args[0])
        if x.op == "ite":
            c, a, b = x.args[1]
            return z3.If(self.bool(c), self.int(a), self.int(b))
        if x.op == "floor":
            q = z3.Int("floor!%d" % x.id)
            v = self.real(x.args[1][0])
            self.ax += [z3.ToReal(q) <= v, v < z3.ToReal(q) + 1]
            return q
        if x.op == "abs":
            v = self.int(x.args[1][0])
            return z3.If(v >= 0, v, -v)
        if x.op == "pos":
            v = self.int(x.args[1][0])
            return z3.If(v > 0, v, 0)
        if x.op == "app":
            return self._app(x, "i")
        q = z3.Int("%s!%d" % (x.op, x.id))
        self.node(x)
        return q

    def _app(self, x, res):
        args = x.args[1]
        self.apps.append(x)
        lams = [a for a in args if a.op == "lam"]
        if lams:
            self.node(x)
            return {"i": z3.Int, "r": z3.Real, "b": z3.Bool}[res]("app!%d" % x.id)
        sig = "".join("b" if a.sort == "b" else "i" if a.isint else "r" for a in args) + res
        zs = [self.bool(a) if a.sort == "b" else self.int(a) if a.isint else self.real(a) for a in args]
        f = zfun(x.args[0], sig)
        return f(*zs) if zs else {"i": z3.Int, "r": z3.Real, "b": z3.Bool}[res](x.args[0])

    def _real(self, x):
        op = x.op
        if op == "poly":
            s = None
            for m, c in x.args[1]:
                r = self._mono(m, c, self.real)
                k = zf(c)
                r = k if r is None else (r if c == 1 else k * r)
                s = r if s is None else s + r
            return z3.RealVal(0) if s is None else s
        if op == "var":
            return z3.Real(x.args[0])
        if op == "pi":
            r = z3.Real("pi")
            self.ax += [r > zf(Fraction("3.14159265")), r < zf(Fraction("3.14159266"))]
            return r
        if op == "ite":
            c, a, b = x.args[1]
            return z3.If(self.bool(c), self.real(a), self.real(b))
        if op == "inv":
            return self.invof(x.args[1][0])
        if op == "big":
            return self.real(x.args[1][0])
        if op == "abs":
            v = self.real(x.args[1][0])
            return z3.If(v >= 0, v, -v)
        if op in ("log", "exp", "sin", "cos", "sinh", "cosh", "arcsinh", "tan", "arctan") and x.isreal or op.startswith("mono"):
            a = x.args[1][0]
            r = zfun(op, "rr")(self.real(a))
            self.applied.setdefault(op, []).append((a, x, r))
            return r
        if op == "powr":
            a, e = x.args[1]
            r = zfun("powr", "rrr")(self.real(a), self.real(e))
            self.applied.setdefault(op, []).append((a, e, r))
            return r
        if op == "cabs":
            r = z3.Real("cabs!%d" % x.id)
            self.ax.append(r >= 0)
            self.node(x)
            return r
        if op == "app":
            return self._app(x, "r")
        r = z3.Real("%s!%d" % (op, x.id))
        self.node(x)
        return r

    def bool(self, b):
        k = ("b", b.id)
        if k in self.memo:
            return self.memo[k]
        r = self._bool(b)
        self.memo[k] = r
        return r

    def _bool(self, b):
        op = b.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bvar":
            return z3.Bool(b.args[0])
        if op == "not":
            return z3.Not(self.bool(b.args[1][0]))
        if op == "and":
            return z3.And(*[self.bool(x) for x in b.args[1]])
        if op == "or":
            return z3.Or(*[self.bool(x) for x in b.args[1]])
        if op == "cmp":
            p = b.args[1][0]
            if p.isint:
                # clear nothing: integer polynomial
                v, z = self.int(p), z3.IntVal(0)
            else:
                p = _clear_int(p)
                v, z = (self.int(p), z3.IntVal(0)) if p.isint else (self.real(p), z3.RealVal(0))
            return {"<": v < z, "<=": v <= z, "==": v == z}[b.args[0]]
        if op == "all":
            r = z3.Bool("all!%d" % b.id)
            self.node(b)
            n, l = b.args[1]
            sk = t.var("wit!%d" % b.id, True)
            body = t.lam_apply(l, (sk,))
            self.ax.append(z3.Or(r, z3.And(self.bool(t.le(t.ZERO, sk)), self.bool(t.lt(sk, n)), z3.Not(self.bool(body)))))
            return r
        if op == "app":
            return self._app(b, "b")
        r = z3.Bool("%s!%d" % (op, b.id))
        self.node(b)
        return r

    def node(self, x):
        self.nodes.append(x)


def _clear_int(p):
    """multiply a comparison polynomial by the lcm of denominators when that makes it integral"""
    if p.op != "poly":
        return p
    l = 1
    for m, c in p.args[1]:
        if not all(a.isint and e > 0 for a, e in m):
            return p
        d = c.denominator
        import math
        l = l * d // math.gcd(l, d)
    return t.scale(p, l)


class Prover:
    def __init__(self, facts=None):
        self.facts = facts or Facts()
        self.cache = {}
        self.simp_cache = {}
        self.cong_cache = {}
        self.sign_cache = {}
        self.rec_defs = {}
        self._nocong = 0

    # ---------------------------------------------------------------- public
    def prove(self, hyps, goal, depth=3, timeout=None, effort=2):
        """-> ('proved'|'refuted'|'unknown', model or reason)"""
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            raise OutOfTime()
        if goal is t.TRUE:
            STATS.by["normaliser"] += 1
            return "proved", None
        hs = []
        for h in hyps:
            if h is goal:
                return "proved", None
            if h is t.FALSE:
                return "proved", None
            if h.op == "and":
                hs.extend(h.args[1])
            elif h is not t.TRUE:
                hs.append(h)
        key = (goal.id, frozenset(h.id for h in hs), depth, effort, self._nocong > 0)
        r = self.cache.get(key)
        if r is None:
            r = self._prove(hs, goal, depth, timeout or TIMEOUT, effort)
            self.cache[key] = r
        return r

    def proved(self, hyps, goal, depth=1, effort=1, timeout=None):
        return self.prove(hyps, goal, depth, timeout, effort)[0] == "proved"

    def feasible(self, hyps):
        """False only if the hypotheses are contradictory"""
        return not self.proved(hyps, t.FALSE, 1, 1)

    # ---------------------------------------------------------------- core
    def _prove(self, hyps, goal, depth, timeout, effort):
        if goal.op == "and":
            for g in goal.args[1]:
                r = self.prove(hyps, g, depth, timeout, effort)
                if r[0] != "proved":
                    return r
            return "proved", None
        if goal.op == "all":
            n, l = goal.args[1]
            k = t.fresh("k")
            return self.prove(hyps + [t.le(t.ZERO, k), t.lt(k, n)], t.lam_apply(l, (k,)), depth, timeout, effort)
        if goal.op == "or" and any(g.op == "all" for g in goal.args[1]):
            al = [g for g in goal.args[1] if g.op == "all"]
            rest = [g for g in goal.args[1] if g.op != "all"]
            if len(al) == 1:
                return self.prove(hyps + [t.not_(g) for g in rest], al[0], depth, timeout, effort)
        if goal.op == "or" and len(goal.args[1]) == 2 and goal.size > 20 and all(g.op == "and" for g in goal.args[1]):
            A, B = goal.args[1]
            for c in A.args[1]:
                nc = t.not_(c)
                if any(d is nc for d in B.args[1]):
                    r = self.prove(hyps + [c], A, depth, timeout, effort)
                    if r[0] != "proved":
                        return r
                    return self.prove(hyps + [nc], B, depth, timeout, effort)
        if effort >= 2 and goal.op == "cmp" and goal.args[0] == "==" and goal.size > 60 and not self._nocong:
            if self.struct_goal(hyps, goal):
                STATS.by["normaliser"] += 1
                return "proved", None
        # complex equalities
        if goal.op == "cmp" and goal.args[0] == "==" and not goal.args[1][0].isreal:
            return self._prove_complex(hyps, goal, depth, timeout, effort)
        last = ("unknown", "effort")
        r = self._attempt(hyps, goal, depth, min(timeout, 1500) if effort else timeout, lemmas=False)
        if r[0] == "proved" or effort < 1:
            return r
        last = r
        if effort >= 2:
            hs2 = self._simp_hyps(hyps)
            g2 = self.simp(hs2, goal)
            if g2 is t.TRUE:
                STATS.by["normaliser"] += 1
                return "proved", None
            if g2 is not goal or hs2 is not hyps:
                r = self.prove(hs2, g2, depth, timeout, effort)
                if r[0] == "proved" or g2 is not goal:
                    return r
        if effort >= 2 and depth > 0 and goal.op == "cmp" and goal.args[0] == "==" and not getattr(self, "_in_comb", False):
            r = self._sum_combine(hyps, goal, depth, timeout)
            if r is not None:
                return r
        if effort >= 2 and depth > 0 and goal.op == "or" and len(goal.args[1]) <= 4:
            for g in goal.args[1]:
                if g.op == "cmp" and g.args[0] in ("<", "<="):
                    nh = hyps + [t.not_(x) for x in goal.args[1] if x is not g]
                    if self.proved(nh, g, depth - 1, effort):
                        return "proved", None
        if effort >= 1 and goal.op == "cmp" and goal.args[0] == "<":
            p = goal.args[1][0]
            nz = t.not_(t.eq(p, t.ZERO))
            if any(h is nz for h in hyps) and self.proved(hyps, t.le(p, t.ZERO), depth, effort):
                return "proved", None
        if effort >= 1 and goal.op == "cmp" and goal.args[0] in ("<", "<="):
            r = self._by_factors(hyps, goal, depth, effort)
            if r is not None:
                return r
        if effort >= 1 and depth > 0 and goal.op == "cmp" and goal.args[0] == "<=" and not getattr(self, "_in_comb", False):
            if self._sum_nonneg(hyps, goal, depth, effort):
                STATS.by["normaliser"] += 1
                return "proved", None
        if effort >= 1 and goal.op == "cmp" and goal.args[0] == "<=":
            it = list(t._poly_items(goal.args[1][0]))
            if len(it) == 1 and it[0][1] < 0 and len(it[0][0]) == 1 and it[0][0][0][1] == 1:
                a = it[0][0][0][0]
                if a.op == "bop" and a.args[0][0] == "rec" and self._rec_nonneg(hyps, a, max(depth - 1, 1)):
                    STATS.by["induction"] += 1
                    return "proved", None
        if effort >= 1:
            a = _pos_atom(goal)
            if a is not None and a.op == "bop" and a.args[0][0] == "rec" and self._rec_nonneg(hyps, a, max(depth - 1, 1), True):
                STATS.by["induction"] += 1
                return "proved", None
        if effort >= 2 and depth > 0 and goal.op == "cmp" and not getattr(self, "_unf", 0) >= 2:
            g2 = self._unfold_goal(hyps, goal)
            if g2 is not None:
                self._unf = getattr(self, "_unf", 0) + 1
                try:
                    g2 = self.simp(hyps, g2)
                    r = self.prove(hyps, g2, depth, timeout, effort)
                finally:
                    self._unf -= 1
                if r[0] == "proved":
                    return r
        if effort >= 2 and goal.op == "cmp" and depth > 0:
            g2 = self._clear_den(hyps, goal)
            if g2 is not None:
                r = self.prove(hyps, g2, depth, timeout, effort)
                if r[0] == "proved":
                    return r
        if effort >= 1:
            if depth > 0 and not self._nocong and any(x.op == "cabs" or (x.op == "bop" and x.args[0][0] in ("max", "min")) for x in t.subterms([goal])):
                self._nocong += 1
                try:
                    r = self._attempt(hyps, goal, depth, min(timeout, 1500), lemmas=True)
                finally:
                    self._nocong -= 1
                if r[0] == "proved":
                    return r
            r = self._attempt(hyps, goal, depth, timeout, lemmas=True)
            if r[0] == "proved":
                return r
            if r[0] == "refuted":
                last = r
        if effort >= 2 and depth > 0:
            # case split on the conditions of ite nodes at the surface
            c = self._split_cond(goal)
            if c is not None and depth > 0:
                r1 = self.prove(hyps + [c], self.simp(hyps + [c], goal), depth - 1, timeout, effort)
                if r1[0] == "proved":
                    r2 = self.prove(hyps + [t.not_(c)], self.simp(hyps + [t.not_(c)], goal), depth - 1, timeout, effort)
                    if r2[0] == "proved":
                        return r2
                    last = r2
                else:
                    last = r1
        return last

    def _by_factors(self, hyps, goal, depth, effort):
        """a sum of monomials of one sign, factor by factor"""
        strict = goal.args[0] == "<"
        items = list(t._poly_items(goal.args[1][0]))
        if not items or len(items) > 4 or any(c > 0 for m, c in items):
            return None
        if len(items) == 1 and len(items[0][0]) <= 1 and all(e == 1 for a, e in items[0][0]):
            return None
        ok = False
        for m, c in items:
            pos = True
            for a, e in m:
                if not a.isreal:
                    return None
                if a.op == "exp" or a.op == "pi":
                    continue
                if strict and pos and not self.proved(hyps, t.lt(t.ZERO, a), depth - 1 if depth else 0, 1):
                    pos = False
                    if len(items) == 1:
                        return None
                if not (strict and pos) and e % 2 and a.op not in ("cabs", "abs") and not self.proved(hyps, t.le(t.ZERO, a), depth - 1 if depth else 0, 1):
                    return None
            ok = ok or pos
        if strict and not ok:
            return None
        STATS.by["normaliser"] += 1
        return "proved", None

    def _sum_nonneg(self, hyps, goal, depth, effort):
        """sum_k f1(k)*c1 + sum_k f2(k)*c2 + ... <= 0 because the combined terms are"""
        p = goal.args[1][0]
        groups = []
        rest = t.ZERO
        for m, c in t._poly_items(p):
            ss = [(a, e) for a, e in m if a.op == "sum"]
            if len(ss) != 1 or ss[0][1] != 1:
                rest = t.add(rest, t._from_dict({m: c}))
                continue
            a = ss[0][0]
            if not a.isreal:
                return False
            co = t._from_dict({tuple((b, e) for b, e in m if b is not a): c})
            for g in groups:
                if g[0] is a.args[1][0]:
                    g[1].append((co, a))
                    break
            else:
                groups.append((a.args[1][0], [(co, a)]))
        if not any(len(g[1]) > 1 for g in groups):
            return False
        if rest is not t.ZERO and not self.proved(hyps, t.le(rest, t.ZERO), depth - 1, 1):
            return False
        for n, ss in groups:
            k = t.fresh("k")
            body = t.add(*[t.mul2(co, t.lam_apply(a.args[1][1], (k,))) for co, a in ss])
            hs = hyps + [t.le(t.ZERO, k), t.lt(k, n)]
            body = self.case_simp(hs, body, surface=False)
            if not self._leaves(hs, body, lambda hh, x: self.proved(hh, t.le(x, t.ZERO), depth - 1, 1)):
                return False
        return True

    def _zero_mono(self, hyps, x):
        """every monomial of x has a factor known to vanish"""
        for m, c in t._poly_items(x):
            if not any(e > 0 and a.isreal and self.proved(hyps, t.eq(a, t.ZERO), 1, 0, 1500) for a, e in m):
                return False
        return True

    def _leaves(self, hyps, x, f):
        if x.op == "ite":
            c, a, b = x.args[1]
            return self._leaves(hyps + [c], a, f) and self._leaves(hyps + [t.not_(c)], b, f)
        return f(hyps, x)

    def _clear_den(self, hyps, goal):
        """the comparison multiplied by denominators known to be positive"""
        p = goal.args[1][0]
        den = {}
        for m, c in t._poly_items(p):
            for a, e in m:
                if not a.isreal:
                    return None
                if e < 0:
                    den[a.id] = (a, max(den.get(a.id, (a, 0))[1], -e))
                elif a.op == "inv":
                    den[a.id] = (a, max(den.get(a.id, (a, 0))[1], e))
        if not den or len(den) > 6:
            return None
        ch = False
        for a, e in den.values():
            d = a.args[1][0] if a.op == "inv" else a
            if not d.isreal or d.op == "cabs":
                continue
            self._nocong += 1
            try:
                if not self.proved(hyps, t.lt(t.ZERO, d), 2, 1):
                    continue
            finally:
                self._nocong -= 1
            ch = True
            p = t.mul2(p, t.ipow(d, e)) if a.op != "inv" else _mul_inv(p, a, d, e)
        if not ch:
            return None
        p = self.simp_t(hyps, p)
        z = t.ZERO
        return {"<": t.lt, "<=": t.le, "==": t.eq}[goal.args[0]](p, z)

    def _simp_hyps(self, hyps):
        """hypotheses with max(n, 0) dimensions resolved (the plain hypotheses decide them)"""
        mm = lambda h: h.op in ("cmp", "not") and t.contains(h, lambda x: x.op == "bop" and x.args[0][0] in ("max", "min"))
        if any(mm(h) for h in hyps):
            base = [h for h in hyps if not t.contains(h, lambda x: x.op in ("pos", "sum", "bop"))]
            new = [self.simp(base, h) if mm(h) else h for h in hyps]
            if any(a is not b for a, b in zip(new, hyps)):
                return new
        if not any(h.op == "cmp" and t.contains(h, lambda x: x.op == "pos") for h in hyps):
            return hyps
        base = [h for h in hyps if not t.contains(h, lambda x: x.op in ("pos", "sum", "bop"))]
        out, ch = [], False
        for h in hyps:
            if h.op == "cmp" and t.contains(h, lambda x: x.op == "pos"):
                h2 = self.simp(base, h)
                ch = ch or h2 is not h
                h = h2
            out.append(h)
        return out if ch else hyps

    # ---------------------------------------------------------------- equations between sums
    def case_simp(self, hyps, x, fuel=24, surface=None):
        """x simplified under hyps, ite conditions split so that equal branches merge"""
        x = self.simp_t(hyps, x)
        if fuel <= 0 or not _has_ite_node(x):
            return self._merge_apps(hyps, x)
        sf = [a for m, _ in t._poly_items(x) for a, e in m if a.op == "ite"] if surface is not None else []
        c = min(sf, key=lambda a: (a.size, a.id)).args[1][0] if sf else None if surface else self._split_cond(x)
        if c is None:
            return self._merge_apps(hyps, x)
        a = self.case_simp(hyps + [c], x, fuel // 2, surface if surface is None else bool(sf))
        b = self.case_simp(hyps + [t.not_(c)], x, fuel // 2, surface if surface is None else bool(sf))
        if a is b:
            return a
        return t.ite(c, a, b)

    def struct_goal(self, hyps, goal):
        """equality of two terms of the same shape by descending into them"""
        p = goal.args[1][0]
        pos = t._from_dict({m: c for m, c in t._poly_items(p) if c > 0})
        neg = t._from_dict({m: -c for m, c in t._poly_items(p) if c < 0})
        if pos is t.ZERO or neg is t.ZERO:
            return False
        return self.struct_eq(hyps, pos, neg, 12)

    def struct_eq(self, hyps, x, y, fuel):
        if x is y:
            return True
        if fuel <= 0 or x.sort != y.sort:
            return False
        key = ("se", min(x.id, y.id), max(x.id, y.id), frozenset(h.id for h in hyps))
        r = self.cong_cache.get(key)
        if r is None:
            self.cong_cache[key] = False
            r = self.cong_cache[key] = self._struct_eq(hyps, x, y, fuel)
        return r

    def _prv(self, hyps, c):
        """a condition decided by the plain (small) hypotheses"""
        if c.size > 200:
            return False
        self._nocong += 1
        try:
            return self.proved([h for h in hyps if h.size <= 120], c, 1, 1, 1500)
        finally:
            self._nocong -= 1

    def _dec(self, hyps, c):
        return t.TRUE if self._prv(hyps, c) else t.FALSE if self._prv(hyps, t.not_(c)) else None

    def _struct_eq(self, hyps, x, y, fuel):
        if x.sort == "b":
            if x.op != y.op or x.args[0] != y.args[0] or len(x.args[1]) != len(y.args[1]):
                return False
            if x.op in ("and", "or"):
                ys = list(y.args[1])
                for a in x.args[1]:
                    for b in ys:
                        if self.struct_eq(hyps, a, b, fuel - 1):
                            ys.remove(b)
                            break
                    else:
                        return False
                return True
            if x.op == "all":
                return self._struct_args(hyps, x, y, fuel)
            return all(self.struct_eq(hyps, a, b, fuel - 1) for a, b in zip(x.args[1], y.args[1]))
        if x is t.ZERO or y is t.ZERO:
            z = y if x is t.ZERO else x
            if z.op == "sum":
                return self.proved(hyps, t.le(z.args[1][0], t.ZERO), 1, 1, 1500)
        if (x.op == "ite") != (y.op == "ite"):
            if x.op != "ite":
                x, y = y, x
            c, a, b = x.args[1]
            h1, h2 = hyps + [c], hyps + [t.not_(c)]
            return self._sides(h1, a, y, fuel) and self._sides(h2, b, y, fuel)
        if x.op == y.op == "ite":
            (c, a, b), (c2, a2, b2) = x.args[1], y.args[1]
            d = self._dec(hyps, c)
            if d is not None:
                return self.struct_eq(hyps, a if d is t.TRUE else b, y, fuel - 1)
            d = self._dec(hyps, c2)
            if d is not None:
                return self.struct_eq(hyps, x, a2 if d is t.TRUE else b2, fuel - 1)
            if c is not c2 and c.size < 60 and c2.size < 60 and not (t.eq(a, t.ZERO) is c or t.eq(b, t.ZERO) is c):
                iff = self._prv(hyps + [c], c2) and self._prv(hyps + [c2], c)
                if iff:
                    return self.struct_eq(hyps + [c], a, a2, fuel - 1) and self.struct_eq(hyps + [t.not_(c)], b, b2, fuel - 1)
                return self._sides(hyps + [c], a, y, fuel) and self._sides(hyps + [t.not_(c)], b, y, fuel)
            if c is c2:
                return self.struct_eq(hyps + [c], a, a2, fuel - 1) and self.struct_eq(hyps + [t.not_(c)], b, b2, fuel - 1)
            if self.struct_eq(hyps, a, a2, fuel - 1) and self.struct_eq(hyps, b, b2, fuel - 1):
                if any(t.eq(u, t.ZERO) is c and t.eq(v, t.ZERO) is c2 for u, v in ((a, a2), (b, b2))):
                    return True
                return self.struct_eq(hyps, c, c2, fuel - 1)
            return False
        if x.op == y.op and x.op not in ("poly", "var", "lam") and x.args[0] == y.args[0]:
            if self._struct_args(hyps, x, y, fuel):
                return True
        xi, yi = list(t._poly_items(x)), list(t._poly_items(y))
        ax = {a.id: a for m, c in xi for a, e in m}
        ay = {a.id: a for m, c in yi for a, e in m}
        ox = [a for i, a in ax.items() if i not in ay]
        oy = [a for i, a in ay.items() if i not in ax]
        if not ox or not oy or len(ox) * len(oy) > 36 or (len(ox) == 1 and ox[0] is x and oy[0] is y):
            return self._comb(hyps, x, y, xi, yi)
        rep = {}
        for a in ox:
            for b in oy:
                if a.op == b.op and a.args[0] == b.args[0] and a.op not in ("var", "poly") and self.struct_eq(hyps, a, b, fuel - 1):
                    rep[a.id] = b
                    break
        if not rep:
            return self._comb(hyps, x, y, xi, yi)
        out = t.ZERO
        for m, c in xi:
            z = t.num(c)
            for a, e in m:
                z = t.mul2(z, t.ipow(rep.get(a.id, a), e))
            out = t.add(out, z)
        return out is y or self._comb(hyps, x, y, xi, yi)

    def _comb(self, hyps, x, y, xi, yi):
        if any(a.op == "sum" for it in (xi, yi) for m, c in it for a, e in m) and not getattr(self, "_in_comb", False):
            r = self._sum_combine(hyps, t.eq(x, y), 1, 1500)
            return r is not None and r[0] == "proved"
        return False

    def _sides(self, hyps, x, y, fuel):
        light = [h for h in hyps if h.size <= 80]
        if self.proved(light, t.FALSE, 1, 0, 1500):
            return True
        return self.struct_eq(hyps, x, y, fuel - 1)

    def _struct_args(self, hyps, x, y, fuel):
        if len(x.args[1]) != len(y.args[1]):
            return False
        for a, b in zip(x.args[1], y.args[1]):
            if a is b:
                continue
            if a.op == "lam" or b.op == "lam":
                if a.op != b.op or a.args[0][0] != b.args[0][0]:
                    return False
                vs = [t.fresh("k", i) for i in a.args[0][2]]
                hs = list(hyps)
                if x.op in ("sum", "all"):
                    hs += [t.le(t.ZERO, vs[0]), t.lt(vs[0], x.args[1][0])]
                elif x.op == "bop" and x.args[0][0] in LAM_RANGE:
                    for v, n in zip(vs, LAM_RANGE[x.args[0][0]](x)):
                        hs += [t.le(t.ZERO, v), t.lt(v, n)]
                if x.op == "bop" and x.args[0][0] == "rec":
                    hs, xa, xb = self._rec_bodies(hs, x, a, b)
                else:
                    xa, xb = t.lam_apply(a, vs), t.lam_apply(b, vs)
                if not self.struct_eq(hs, xa, xb, fuel - 1):
                    return False
                continue
            if a.isint and b.isint and a.sort == "n":
                if self.proved(hyps, t.eq(a, b), 1, 1, 1500):
                    continue
                return False
            if x.op == "ite":
                pass
            if not self.struct_eq(hyps, a, b, fuel - 1):
                return False
        return True

    def _merge_apps(self, hyps, x):
        """array elements at provably equal indices replaced by one of them"""
        if x.op != "poly" or x.size > 4000:
            return x
        apps = {}
        for m, c in t._poly_items(x):
            for a, e in m:
                if a.op == "app" and a.args[1] and not any(y.op == "lam" for y in a.args[1]):
                    apps.setdefault(a.args[0], {})[a.id] = a
        rep = {}
        for L in apps.values():
            L = sorted(L.values(), key=lambda a: (a.size, a.id))
            if len(L) > 5:
                continue
            for i, a in enumerate(L):
                for b in L[:i]:
                    if b.id in rep:
                        continue
                    if all(u is v or (u.sort == v.sort == "n" and self.proved(hyps, t.eq(u, v), 1, 1, 1500)) for u, v in zip(a.args[1], b.args[1])):
                        rep[a.id] = b
                        break
        return t.replace(x, lambda y: rep.get(y.id)) if rep else x

    def _sum_combine(self, hyps, goal, depth, timeout):
        """sum_k f1(k)*c1 + sum_k f2(k)*c2 + ... == 0 by combining sums over the same range (reversing some of them)"""
        p = goal.args[1][0]
        groups, rest = [], []
        for m, c in t._poly_items(p):
            ss = [(a, e) for a, e in m if a.op == "sum"]
            if len(ss) == 1 and ss[0][1] == 1:
                a = ss[0][0]
                co = t._from_dict({tuple((b, e) for b, e in m if b is not a): c})
                n = a.args[1][0]
                for g in groups:
                    if g[0] is n or self.proved(hyps, t.eq(g[0], n), 1, 1):
                        g[1].append((co, a))
                        break
                else:
                    groups.append((n, [(co, a)]))
            else:
                rest.append((m, c))
        groups = self._prefix_diff(hyps, groups)
        groups_big = [g for g in groups if len(g[1]) >= 1]
        if not groups_big or not any(len(g[1]) > 1 or _has_ite_node(g[1][0][1].args[1][1].args[1][0]) for g in groups_big):
            return None
        base = t._from_dict(dict(rest))
        self._in_comb = True
        try:
            variants = [()]
            tot = [(gi, si) for gi, g in enumerate(groups_big) for si in range(len(g[1]))]
            if 1 < len(tot) <= 5:
                import itertools as it_
                others = tot[1:]
                for r in range(1, len(others) + 1):
                    variants += list(it_.combinations(others, r))
            for flips in variants:
                out = base
                for gi, (n, ss) in enumerate(groups_big):
                    k = t.fresh("k")
                    body = t.ZERO
                    for si, (co, a) in enumerate(ss):
                        kk = t.sub(t.sub(n, t.ONE), k) if (gi, si) in flips else k
                        body = t.add(body, t.mul2(co, t.lam_apply(a.args[1][1], (kk,))))
                    hs = hyps + [t.le(t.ZERO, k), t.lt(k, n)]
                    body = self.case_simp(hs, body, surface=False)
                    if body.op == "ite" and self._leaves(hs, body, lambda hh, x: x is t.ZERO or self._zero_mono(hh, x)):
                        body = t.ZERO
                    out = t.add(out, t.sum_(n, [k], body))
                out = self.simp_t(hyps, out)
                if out is t.ZERO:
                    STATS.by["normaliser"] += 1
                    return "proved", None
                if out is not p and out.isreal:
                    r = self._attempt(hyps, t.eq(out, t.ZERO), depth, min(timeout, 1500), lemmas=False)
                    if r[0] == "proved":
                        return r
            return None
        finally:
            self._in_comb = False

    def _prefix_diff(self, hyps, groups):
        """c sum_{k<n} f(k) - c sum_{k<m} f(k) = c sum_{k<n-m} f(k+m) for 0 <= m <= n"""
        if len(groups) < 2:
            return groups
        flat = [(n, co, a) for n, ss in groups for co, a in ss]
        extra = []
        done = set()
        for i, (n, co, a) in enumerate(flat):
            for j, (m, c2, b) in enumerate(flat):
                if i in done or j in done or i == j or a.args[1][1] is not b.args[1][1] or t.add(co, c2) is not t.ZERO:
                    continue
                if self.proved(hyps, t.and_(t.le(t.ZERO, m), t.le(m, n)), 1, 1):
                    k = t.fresh("k")
                    z = t.sum_(t.sub(n, m), [k], t.lam_apply(a.args[1][1], (t.add(k, m),)))
                    if z.op == "sum":
                        done |= {i, j}
                        extra.append((co, z))
        if not done:
            return groups
        out = []
        for n, co, a in [f for q, f in enumerate(flat) if q not in done] + [(z.args[1][0], co, z) for co, z in extra]:
            for g in out:
                if g[0] is n or self.proved(hyps, t.eq(g[0], n), 1, 1):
                    g[1].append((co, a))
                    break
            else:
                out.append((n, [(co, a)]))
        return out

    def _split_cond(self, goal):
        best = None
        for x in t.subterms([goal]):
            if x.op == "ite":
                if best is None or x.size < best.size:
                    best = x
        return best.args[1][0] if best is not None else None

    def _prove_complex(self, hyps, goal, depth, timeout, effort):
        p = goal.args[1][0]
        p2 = self.simp_t(hyps, p)
        if p2 is t.ZERO:
            return "proved", None
        if p2.isreal:
            return self.prove(hyps, t.eq(p2, t.ZERO), depth - 1 if depth else 0, timeout, effort)
        if not getattr(self, "_in_comb", False) and any(x.op == "sum" for m, c in t._poly_items(p2) for x, e in m):
            r = self._sum_combine(hyps, t.eq(p2, t.ZERO), depth, timeout)
            if r is not None and r[0] == "proved":
                return r
        # unify congruent binder nodes / exponentials
        q = self._merge_congruent(hyps, p2, depth)
        if q is t.ZERO:
            return "proved", None
        re, im, rest = {}, {}, False
        for m, c in t._poly_items(q):
            cx = [a for a, e in m if not a.isreal]
            if not cx:
                re[m] = c
            elif cx == [t.I]:
                im[tuple((a, e) for a, e in m if a is not t.I)] = c
            else:
                rest = True
        if rest:
            # abstract every complex atom by its real and imaginary parts
            sub = {}
            def absx(x):
                if x.op in ("var", "I"):
                    return None
                if not x.isreal and x.op != "poly" and x.op != "lam":
                    return t.add(t.app("re!", (t.num(x.id),)), t.mul(t.I, t.app("im!", (t.num(x.id),))))
                return None
            out = t.ZERO
            for m, c in t._poly_items(q):
                x = t.num(c)
                for a, e in m:
                    if not a.isreal and a is not t.I:
                        if e < 0:
                            return "unknown", "complex reciprocal"
                        a = absx(a)
                    x = t.mul2(x, t.ipow(a, e))
                out = t.add(out, x)
            re, im = {}, {}
            for m, c in t._poly_items(out):
                if any(a is t.I for a, e in m):
                    im[tuple((a, e) for a, e in m if a is not t.I)] = c
                else:
                    re[m] = c
        g = t.and_(t.eq(t._from_dict(re), t.ZERO), t.eq(t._from_dict(im), t.ZERO))
        return self.prove(hyps, g, depth - 1 if depth else 0, timeout, effort)

    def _merge_congruent(self, hyps, p, depth):
        atoms = [a for a in t.subterms([p]) if a.op in ("sum", "bop", "app", "exp", "cabs", "angle", "self", "inv")]
        classes = []
        m = {}
        for a in sorted(atoms, key=lambda x: x.size):
            for b in classes:
                if b.op == a.op and b is not a and self.congruent(hyps, a, b, depth - 1):
                    m[a.id] = b
                    break
            else:
                classes.append(a)
        if not m:
            return p
        return t.replace(p, lambda x: m.get(x.id))

    def _attempt(self, hyps, goal, depth, timeout, lemmas):
        STATS.queries += 1
        tr = Tr(self.facts)
        try:
            zg = tr.bool(goal)
            zh = [tr.bool(h) for h in hyps]
            extra = self._instantiate(tr, hyps, goal, depth, lemmas)
        except z3.Z3Exception as e:
            return "unknown", "translation: %s" % e
        s = z3.Solver()
        # the deciding limit is z3's deterministic resource count; the clock only guards against a stuck query
        s.set("rlimit", timeout * 600)
        s.set("timeout", timeout * 5 // 2)
        for h in zh:
            s.add(h)
        for e in extra:
            s.add(e)
        for a in tr.ax:
            s.add(a)
        s.add(z3.Not(zg))
        t0 = time.time()
        r = s.check()
        STATS.z3_time += time.time() - t0
        if r == z3.unsat:
            STATS.by["z3"] += 1
            return "proved", None
        if r == z3.sat:
            return "refuted", self._model(s.model())
        return "unknown", s.reason_unknown()

    def _model(self, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                n = d.name()
                v = m[d]
                try:
                    if z3.is_int_value(v):
                        out[n] = v.as_long()
                    elif z3.is_rational_value(v):
                        out[n] = float(v.as_fraction())
                    elif z3.is_algebraic_value(v):
                        out[n] = float(v.approx(10).as_fraction())
                    elif z3.is_bool(v):
                        out[n] = bool(v)
                except Exception:
                    pass
        return out

    # ---------------------------------------------------------------- lemmas
    def _instantiate(self, tr, hyps, goal, depth, lemmas):
        out = []
        done_apps, done_nodes, done_pairs = set(), set(), set()
        for _round in range(3):
            n0 = len(out)
            # declared facts on arrays
            for x in list(tr.apps):
                if x.id in done_apps:
                    continue
                done_apps.add(x.id)
                for fn in self.facts.by_name.get(x.args[0], ()):
                    for f in fn(*x.args[1]):
                        out.append(tr.bool(f))
            # node facts
            for x in list(tr.nodes):
                if x.id in done_nodes:
                    continue
                done_nodes.add(x.id)
                for f in self.node_facts(hyps, x, depth, lemmas, tr):
                    out.append(tr.bool(f))
            # all-quantified atoms used as hypotheses: instantiate on integer index terms in sight
            alls = [x for x in tr.nodes if x.op == "all"]
            if alls:
                cands = self._cands(tr, goal, hyps)
                for x in alls:
                    n, l = x.args[1]
                    for c in cands + self._matches(tr, l):
                        k = (x.id, c.id)
                        if k in done_pairs:
                            continue
                        done_pairs.add(k)
                        body = t.lam_apply(l, (c,))
                        out.append(z3.Implies(z3.And(tr.bool(x), tr.bool(t.le(t.ZERO, c)), tr.bool(t.lt(c, n))), tr.bool(body)))
            # selected indices increase
            sels = [x for x in tr.nodes if x.op == "bop" and x.args[0][0] == "sel"]
            for i, a in enumerate(sels):
                for b in sels[:i]:
                    k = ("sel", a.id, b.id)
                    if k in done_pairs:
                        continue
                    done_pairs.add(k)
                    (_, (n, p), (l,)), (_, (n2, q), (l2,)) = t.bop_parts(a), t.bop_parts(b)
                    if n is n2 and l is l2:
                        c = self.count(n, l)
                        ok = t.and_(t.le(t.ZERO, p), t.lt(p, c), t.le(t.ZERO, q), t.lt(q, c))
                        out.append(tr.bool(t.implies(ok, t.and_(t.implies(t.lt(p, q), t.lt(a, b)), t.implies(t.lt(q, p), t.lt(b, a))))))
            # the extreme value is taken at the index of the extreme value
            args = [x for x in tr.nodes if x.op == "bop" and x.args[0][0] in ("argmax", "argmin")]
            for x in args:
                _, (n,), (l,) = t.bop_parts(x)
                for y in list(tr.nodes):
                    if y.op != "bop" or "arg" + y.args[0][0] != x.args[0][0] or ("arg", x.id, y.id) in done_pairs:
                        continue
                    done_pairs.add(("arg", x.id, y.id))
                    _, (n2,), (l2,) = t.bop_parts(y)
                    if n is n2 and l is l2:
                        out.append(tr.bool(t.implies(t.lt(t.ZERO, n), t.eq(t.lam_apply(l, (x,)), y))))
            # congruence between binder nodes
            if lemmas and depth > 0 and not self._nocong:
                nodes = [x for x in tr.nodes if x.op in ("sum", "bop", "cabs", "angle", "self", "app", "re")]
                for i, a in enumerate(nodes):
                    for b in nodes[:i]:
                        k = (a.id, b.id)
                        if a is b or k in done_pairs or a.op != b.op:
                            continue
                        done_pairs.add(k)
                        if self.congruent(hyps, a, b, depth - 1):
                            if a.sort == "b":
                                out.append(tr.bool(a) == tr.bool(b))
                            else:
                                out.append(tr.real(a) == tr.real(b))
            if len(out) == n0:
                break
        out += self._fun_axioms(tr)
        return out

    def _matches(self, tr, l):
        """arguments of the closure at which one of its array elements is an element in sight"""
        v = t.fresh("v")
        b = t.lam_apply(l, (v,))
        out = {}
        sels = [x for x in tr.nodes if x.op == "bop" and x.args[0][0] == "sel"]
        for x in t.subterms([b]):
            if x.op == "bop" and x.args[0][0] == "sel" and v in x.fv:
                (n, p), (m,) = t.bop_parts(x)[1:]
                d = t.sub(p, v)
                for g in sels:
                    (n2, q), (m2,) = t.bop_parts(g)[1:]
                    c = t.sub(q, d)
                    if m is m2 and n is n2 and v not in d.fv and v not in c.fv and c.isint:
                        out[c.id] = c
            if x.op != "app" or v not in x.fv:
                continue
            for g in tr.apps:
                if g.args[0] != x.args[0] or len(g.args[1]) != len(x.args[1]):
                    continue
                for p, q in zip(x.args[1], g.args[1]):
                    if p.sort != "n" or q.sort != "n" or v not in p.fv:
                        continue
                    d = t.sub(p, v)
                    if v not in d.fv:
                        c = t.sub(q, d)
                    else:
                        d = t.add(p, v)
                        if v in d.fv:
                            continue
                        c = t.sub(d, q)
                    if c.isint and v not in c.fv:
                        out[c.id] = c
        return list(out.values())[:8]

    def _cands(self, tr, goal, hyps):
        c = {}
        for x in t.subterms([goal] + list(hyps)):
            if x.op == "app":
                for a in x.args[1]:
                    if a.isint and a.op != "lam" and a.sort == "n":
                        c[a.id] = a
            if x.op == "var" and x.isint and "!" in x.args[0]:
                c[x.id] = x
        for x in tr.apps:
            for a in x.args[1]:
                if a.isint and a.op != "lam" and a.sort == "n":
                    c[a.id] = a
        return list(c.values())[:12]

    def node_facts(self, hyps, x, depth, lemmas, tr):
        """sound facts about an abstracted node"""
        op = x.op
        if op == "sum":
            n, l = x.args[1]
            fs = [t.or_(t.lt(t.ZERO, n), t.eq(x, t.ZERO))] if x.isreal else []
            if lemmas and x.isreal and depth > 0:
                s = self.sum_sign(hyps, x, depth - 1)
                if s == 1:
                    fs.append(t.le(t.ZERO, x))
                elif s == 2:
                    fs.append(t.le(t.ZERO, x))
                    fs.append(t.or_(t.le(n, t.ZERO), t.lt(t.ZERO, x)))
            return fs
        if op == "bop":
            name, ps, ls = t.bop_parts(x)
            if name in ("argmax", "argmin"):
                n = ps[0]
                return [t.le(t.ZERO, x), t.or_(t.le(n, t.ZERO), t.lt(x, n))]
            if name in ("max", "min"):
                n = ps[0]
                l = ls[0]
                sgn = (lambda a, b: t.le(a, b)) if name == "max" else (lambda a, b: t.le(b, a))
                w = t.var("wit!%d" % x.id, True)
                fs = [t.or_(t.le(n, t.ZERO), t.and_(t.le(t.ZERO, w), t.lt(w, n), t.eq(x, t.lam_apply(l, (w,)))))]
                if lemmas and depth > 0:
                    sg = self.sum_sign(hyps, x, depth - 1)
                    if sg:
                        fs.append(t.or_(t.le(n, t.ZERO), t.le(t.ZERO, x) if sg == 1 else t.lt(t.ZERO, x)))
                if lemmas:
                    for c in [y for y in self._int_vars(hyps)][:8]:
                        fs.append(t.or_(t.lt(c, t.ZERO), t.le(n, c), sgn(t.lam_apply(l, (c,)), x)))
                return fs
            if name == "sel":
                n, i = ps
                l = ls[0]
                return [t.implies(t.and_(t.le(t.ZERO, i), t.lt(i, self.count(n, l))),
                                  t.and_(t.le(t.ZERO, x), t.lt(x, n), t.lam_apply(l, (x,))))]
            if name == "first":
                # least index in [0, hi) with pred, else max(hi, 0)
                hi = ps[0]
                l = ls[0]
                fs = [t.le(t.ZERO, x), t.or_(t.lt(hi, t.ZERO), t.le(x, hi)), t.or_(t.le(hi, x), t.lam_apply(l, (x,)))]
                if lemmas:
                    for c in [y for y in self._int_vars(hyps)][:8] + self._matches(tr, l):
                        fs.append(t.or_(t.lt(c, t.ZERO), t.le(x, c), t.not_(t.lam_apply(l, (c,)))))
                return fs
            fn = self.facts.by_op.get(name)
            if fn:
                return fn(self, hyps, x, ps, ls)
        if op == "angle":
            return [t.lt(t.neg(t.PI), x), t.le(x, t.PI)]
        return []

    def count(self, n, l):
        v = t.fresh("c")
        return t.sum_(n, [v], t.ite(t.lam_apply(l, (v,)), t.ONE, t.ZERO))

    def _int_vars(self, hyps):
        seen = {}
        for h in hyps:
            for v in h.fv:
                if v.op == "var" and v.isint and "!" in v.args[0]:
                    seen[v.id] = v
        return list(seen.values())

    def sum_sign(self, hyps, x, depth):
        key = (x.id, frozenset(h.id for h in hyps))
        if key in self.sign_cache:
            return self.sign_cache[key]
        n, l = x.args[1]
        k = t.fresh("k")
        hs = hyps + [t.le(t.ZERO, k), t.lt(k, n)]
        body = t.lam_apply(l, (k,))
        self.sign_cache[key] = 0
        r = 0
        if self.proved(hs, t.le(t.ZERO, body), depth, 1):
            self._nocong += 1
            try:
                r = 2 if self.proved(hs, t.lt(t.ZERO, body), depth, 1) else 1
            finally:
                self._nocong -= 1
        self.sign_cache[key] = r
        return r

    def congruent(self, hyps, a, b, depth):
        """a and b (same operator) provably equal because their arguments are"""
        if a is b:
            return True
        if depth < 0 or a.op != b.op or a.args[0] != b.args[0]:
            return False
        key = (min(a.id, b.id), max(a.id, b.id), frozenset(h.id for h in hyps))
        r = self.cong_cache.get(key)
        if r is None:
            act = self.__dict__.setdefault("_active", set())
            if key[:2] in act and a.op in ("angle", "cabs"):
                return False
            self.cong_cache[key] = False
            act.add(key[:2])
            try:
                r = self._congruent(hyps, a, b, depth)
            finally:
                act.discard(key[:2])
            self.cong_cache[key] = r
        return r

    def _congruent(self, hyps, a, b, depth):
        xs, ys = a.args[1], b.args[1]
        if len(xs) != len(ys):
            return False
        if a.op in ("poly", "var"):
            return False
        ranges = []
        for x, y in zip(xs, ys):
            if x.op == "lam" or y.op == "lam":
                continue
            if x is y:
                ranges.append(x)
                continue
            if not self._eq(hyps, x, y, depth):
                return False
            ranges.append(x)
        for x, y in zip(xs, ys):
            if x.op != "lam":
                continue
            if x is y:
                continue
            if y.op != "lam" or x.args[0][0] != y.args[0][0]:
                return False
            vs = [t.fresh("k", i) for i in x.args[0][2]]
            hs = list(hyps)
            if a.op == "sum" or (a.op == "bop" and a.args[0][0] in LAM_RANGE):
                for v, n in zip(vs, self._lam_ranges(a)):
                    hs += [t.le(t.ZERO, v), t.lt(v, n)]
            if a.op == "bop" and a.args[0][0] == "rec":
                hs, xa, xb = self._rec_bodies(hs, a, x, y)
            else:
                xa, xb = t.lam_apply(x, vs), t.lam_apply(y, vs)
            if not self._eq(hs, xa, xb, depth):
                return False
        return True

    def _lam_ranges(self, a):
        if a.op == "sum":
            return [a.args[1][0]]
        return LAM_RANGE[a.args[0][0]](a)

    def _eq(self, hyps, x, y, depth):
        if x.sort != y.sort:
            return False
        g = t.eq(x, y)
        if g is t.TRUE:
            return True
        if g is t.FALSE:
            return False
        return self.proved(hyps, g, depth, 2 if depth > 0 else 1)

    # ---------------------------------------------------------------- simplification under hypotheses
    def simp(self, hyps, b):
        return self.simp_t(hyps, b)

    def simp_t(self, hyps, x):
        key = (x.id, frozenset(h.id for h in hyps))
        r = self.simp_cache.get(key)
        if r is None:
            r = self._simp(hyps, x, {})
            self.simp_cache[key] = r
        return r

    def _heavy(self, x):
        """analytic atoms of x (hypotheses about other ones cannot help to decide a condition)"""
        m = self.__dict__.setdefault("_heavy_memo", {})
        r = m.get(x.id)
        if r is None:
            r = m[x.id] = frozenset(y.id for y in t.subterms([x]) if y.op in ("angle", "cabs")) if x.size > 30 else frozenset()
        return r

    def decide(self, hyps, c):
        if c is t.TRUE or c is t.FALSE:
            return c
        hv = self._heavy(c)
        hyps = [h for h in hyps if self._heavy(h) <= hv]
        if self.proved(hyps, c, 1, 1, 1500):
            return t.TRUE
        if self.proved(hyps, t.not_(c), 1, 1, 1500):
            return t.FALSE
        return None

    def _simp(self, hyps, x, memo):
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op in ("var", "bvar", "I", "pi", "true", "false"):
            r = x
        elif op == "poly":
            acc = []
            for m, c in x.args[1]:
                y = t.num(c)
                for a, e in m:
                    y = t.mul2(y, t.ipow(self._simp(hyps, a, memo), e))
                acc.append(y)
            r = self._cancel(hyps, t.add(*acc))
        elif op == "ite":
            c, a, b = x.args[1]
            c2 = self._simp(hyps, c, memo)
            d = self.decide(hyps, c2)
            if d is t.TRUE:
                r = self._simp(hyps, a, memo)
            elif d is t.FALSE:
                r = self._simp(hyps, b, memo)
            else:
                r = t.ite(c2, self._simp(hyps + [c2], a, {}), self._simp(hyps + [t.not_(c2)], b, {}))
        elif op in ("sum", "all") or (op == "bop" and x.args[0][0] in LAM_RANGE):
            ts = list(x.args[1])
            lams = [i for i, y in enumerate(ts) if y.op == "lam"]
            for i, y in enumerate(ts):
                if i not in lams:
                    ts[i] = self._simp(hyps, y, memo)
            rng = [ts[0]] if op in ("sum", "all") else LAM_RANGE[x.args[0][0]](x)
            for i in lams:
                l = ts[i]
                vs = [t.fresh("k", q) for q in l.args[0][2]]
                hs = list(hyps)
                for v, n in zip(vs, rng):
                    hs += [t.le(t.ZERO, v), t.lt(v, n)]
                body = t.lam_apply(l, vs)
                b2 = self._simp(hs, body, {}) if _has_ite(body) else body
                ts[i] = l if b2 is body else t.lam(vs, b2)
            r = t.rebuild(x, tuple(ts)) if any(a is not b for a, b in zip(ts, x.args[1])) else x
            if r.op == "bop" and r.args[0][0] in ("max", "min"):
                r = self._pull(hyps, r)
            if r.op == "sum":
                r = self._trim(hyps, r)
        elif op == "lam":
            vs = [t.fresh("k", q) for q in x.args[0][2]]
            body = t.lam_apply(x, vs)
            b2 = self._simp(hyps, body, {}) if _has_ite(body) else body
            r = x if b2 is body else t.lam(vs, b2)
        elif op == "pos":
            n = self._simp(hyps, x.args[1][0], memo)
            r = n if self.proved(hyps, t.le(t.ZERO, n), 1, 1) else t._cnt(n)
        elif op == "abs":
            a = self._simp(hyps, x.args[1][0], memo)
            if self.proved(hyps, t.le(t.ZERO, a), 2, 1):
                r = a
            elif self.proved(hyps, t.le(a, t.ZERO), 2, 1):
                r = t.neg(a)
            else:
                r = t.rabs(a)
        else:
            ts = tuple(self._simp(hyps, y, memo) for y in x.args[1])
            r = x if all(a is b for a, b in zip(ts, x.args[1])) else t.rebuild(x, ts)
            if r.op == "bop" and r.args[0][0] == "rec":
                b = self._rec_base(hyps, r)
                if b is not None:
                    r = self._simp(hyps, b, memo)
            if r.op == "log" and r.args[1][0].op == "poly":
                it = list(t._poly_items(r.args[1][0]))
                if len(it) == 1 and len(it[0][0]) > 1:
                    out = t.ZERO
                    for a, e in it[0][0]:
                        base = a.args[1][0] if a.op == "abs" else a
                        if base.op == "var" and "!" not in base.args[0] and "#" not in base.args[0] and self.proved(hyps, t.lt(t.ZERO, a), 1, 1):
                            rest = t.div(r.args[1][0], t.ipow(a, e)) if out is t.ZERO else t.div(rest, t.ipow(a, e))
                            out = t.add(out, t.scale(t.log(self._simp(hyps, a, memo)), e))
                    if out is not t.ZERO and self.proved(hyps, t.lt(t.ZERO, rest), 2, 2):
                        r = t.add(out, t.log(rest))
            if r.op == "exp" and r.isreal:
                arg, pre = r.args[1][0], t.ONE
                for m, c in t._poly_items(arg):
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log" and c.denominator == 1 and abs(c) <= 16:
                        a = m[0][0].args[1][0]
                        if self.proved(hyps, t.lt(t.ZERO, a), 2, 1):
                            pre = t.mul2(pre, t.ipow(a, int(c)))
                            arg = t.sub(arg, t._from_dict({m: c}))
                if pre is not t.ONE:
                    r = t.mul2(pre, t.exp(arg))
        memo[x.id] = r
        return r

    # ---------------------------------------------------------------- recursive definitions (loops)
    def _rec_bodies(self, hyps, x, a, b):
        """the bodies of two recursive definitions with their self references identified (induction over the first index): element x of
        the first depends on elements of smaller first index only, so the bodies need to agree for indices 0..x only; an index that
        every self reference passes on unchanged keeps its value"""
        idx = x.args[1][:-1]
        vs = [t.fresh("k", i) for i in a.args[0][2]]
        tags = {rec_tag(a), rec_tag(b)}
        xa, xb = t.lam_apply(a, vs), t.lam_apply(b, vs)
        selfs = [y for y in t.subterms([xa, xb], True) if y.op == "self" and y.args[0] in tags]
        hs = list(hyps)
        down = True
        for y in selfs:
            if len(y.args[1]) != len(vs):
                down = False
                continue
            d = t.constval(t.sub(y.args[1][0], vs[0]))
            if d is None or d >= 0:
                down = False
        if down and len(idx) == len(vs):
            hs.append(t.le(vs[0], idx[0]))
            m = {v: i for k, (v, i) in enumerate(zip(vs, idx)) if k and all(y.args[1][k] is v for y in selfs)}
            if m:
                xa, xb = t.subst(xa, m), t.subst(xb, m)
                vs = [v for v in vs if v not in m]
        if all(self.proved(hyps, t.le(t.ZERO, i), 1, 1, 1500) for i in idx):
            hs += [t.le(t.ZERO, v) for v in vs]
        tag = ("rec", "=", a.id, b.id)
        return hs, rec_retag(a, xa, tag), rec_retag(b, xb, tag)

    def _rec_base(self, hyps, x):
        """the value of a recursively defined element at an index where its definition does not recurse"""
        lam, idx = x.args[1][-1], x.args[1][:-1]
        if lam.op != "lam":
            return None
        b = t.lam_apply(lam, idx)
        tag = rec_tag(lam)
        for _ in range(6):
            if not t.contains(b, lambda y: y.op == "self" and y.args[0] == tag):
                return b
            if b.op != "ite":
                return None
            d = self.decide(hyps, b.args[1][0])
            if d is None:
                return None
            b = b.args[1][1] if d is t.TRUE else b.args[1][2]
        return None

    def _surface_recs(self, x):
        """recursively defined elements of the term that are not below a binder"""
        out, seen = [], set()

        def go(y):
            if y.id in seen:
                return
            seen.add(y.id)
            if y.op == "bop" and y.args[0][0] == "rec":
                out.append(y)
                return
            if y.op == "poly":
                for m, c in t._poly_items(y):
                    for a, e in m:
                        go(a)
                return
            for z in y.args[1] if y.op not in ("var", "lam", "pi", "I") else ():
                if isinstance(z, t.T) and z.op != "lam":
                    go(z)
        go(x)
        return out

    def _unfold_goal(self, hyps, goal):
        recs = self._surface_recs(goal)
        if not recs or len(recs) > 8:
            return None
        pick = []
        for r in recs:
            for q in recs:
                if q is not r and q.args[1][-1] is r.args[1][-1]:
                    d = t.constval(t.sub(q.args[1][0], r.args[1][0]))
                    if d is not None and d > 0:
                        break
            else:
                pick.append(r)
        if not pick:
            return None
        m = {r.id: rec_unfold(r) for r in pick}
        return t.replace(goal, lambda y: m.get(y.id))

    def _rec_nonneg(self, hyps, x, depth, strict=False):
        """0 <= x(i) (or 0 < x(i)) by induction over the recursion"""
        lam, idx = x.args[1][-1], x.args[1][:-1]
        tag = rec_tag(lam)
        key = ("rn", strict, x.id, frozenset(h.id for h in hyps))
        if key in self.cong_cache:
            return self.cong_cache[key]
        self.cong_cache[key] = False
        rel = t.lt if strict else t.le
        vs = [t.fresh("m", i.isint) for i in idx]
        name = "ih!%d!%d" % (strict, lam.id)
        self.facts.declare(name, lambda *a: [rel(t.ZERO, t.app(name, a))])
        b = t.lam_apply(lam, vs)
        selfs = [y for y in t.subterms([b], True) if y.op == "self" and y.args[0] == tag]
        hs = hyps + [t.le(t.ZERO, v) for v in vs]
        down = [t.constval(t.sub(y.args[1][0], vs[0])) for y in selfs]
        if all(d is not None and d < 0 for d in down):
            hs.append(t.le(vs[0], idx[0]))
            m = {v: i for k, (v, i) in enumerate(zip(vs, idx)) if k and all(y.args[1][k] is v for y in selfs)}
            b = t.subst(b, m) if m else b
        b = t.replace(b, lambda y: t.app(name, y.args[1]) if y.op == "self" and y.args[0] == tag else None)
        r = self._leaves(hs, b, lambda hh, y: self.proved(hh, rel(t.ZERO, y), depth, 2))
        self.cong_cache[key] = r
        return r

    def _trim(self, hyps, x, fuel=3):
        """sum of terms that vanish outside v >= s (or v < s): summed over that range only"""
        n, l = x.args[1]
        v = t.fresh("k")
        it = list(t._poly_items(t.lam_apply(l, (v,))))
        if len(it) != 1 or fuel <= 0:
            return x
        for a, e in it[0][0]:
            if a.op != "ite" or e != 1:
                continue
            c, p, q = a.args[1]
            if c.op != "cmp" or c.args[0] not in ("<", "<=") or (p is not t.ZERO and q is not t.ZERO):
                continue
            co = [(m, k) for m, k in t._poly_items(c.args[1][0]) if any(b is v for b, _ in m)]
            if len(co) != 1 or co[0][0] != ((v, 1),):
                continue
            k = co[0][1]
            if any(v in b.fv for m, _ in t._poly_items(c.args[1][0]) for b, _ in m if b is not v):
                continue
            u = t.scale(t.sub(c.args[1][0], t.scale(v, k)), 1 / k)        # c: k (v + u) < 0 or <= 0
            if not u.isint:
                continue
            low = k > 0                                                   # condition true for small v
            if low:
                s = t.neg(u) if c.args[0] == "<" else t.sub(t.ONE, u)     # true iff v < s
            else:
                s = t.sub(t.ONE, u) if c.args[0] == "<" else t.neg(u)     # true iff v >= s
            head = low == (q is t.ZERO)                                   # the non-zero branch holds for v < s
            if not (self.proved(hyps, t.le(t.ZERO, s), 1, 1, 1500) and self.proved(hyps, t.le(s, n), 1, 1, 1500)):
                continue
            body = t.mul2(t._from_dict({tuple((b, z) for b, z in it[0][0] if b is not a): it[0][1]}), p if q is t.ZERO else q)
            y = t.sum_(s, [v], body) if head else t.sum_(t.sub(n, s), [v], t.subst(body, {v: t.add(v, s)}))
            return self._trim(hyps, y, fuel - 1) if y.op == "sum" else y
        return x

    def _pull(self, hyps, x):
        """max(c f) = c max(f) for a factor c >= 0 that does not depend on the index"""
        n, l = x.args[1]
        v = t.fresh("k")
        b = t.lam_apply(l, (v,))
        it = t._poly_items(b)
        com = None
        for m, c in it:
            f = {a: e for a, e in m if v not in a.fv}
            com = f if com is None else {a: e for a, e in com.items() if f.get(a) == e}
        if not com:
            return x
        for a, e in com.items():
            if not a.isreal or (e % 2 and not self.proved(hyps, t.le(t.ZERO, a), 2, 1)):
                continue
            g = t.ipow(a, e)
            b2 = t._from_dict({tuple((q, z) for q, z in m if q is not a): c for m, c in t._poly_items(b)})
            y = t.rebuild(x, (n, t.lam([v], b2)))
            return t.mul2(g, self._pull(hyps, y) if y.op == "bop" and y.args[0][0] == x.args[0][0] else y)
        return x

    def _cancel(self, hyps, x):
        """v * inv(a + b v) -> 1/b - a/b * inv(a + b v) where the denominator is known not to vanish"""
        for _ in range(12):
            out, ch = [], False
            for m, c in t._poly_items(x):
                hit = None
                for a, e in m:
                    if a.op == "inv" and e >= 1:
                        p = a.args[1][0]
                        lin = [(mm[0][0], cc) for mm, cc in t._poly_items(p) if len(mm) == 1 and mm[0][1] == 1]
                        lin = [(v, cc) for v, cc in lin if sum(1 for mm, _ in t._poly_items(p) for b, _ in mm if b is v) == 1]
                        if not lin:
                            continue
                        v, cc = min(lin, key=lambda q: q[0].id)
                        ev = dict(m).get(v, 0)
                        if ev >= 1 and (self.proved(hyps, t.not_(t.eq(p, t.ZERO)), 1, 1, 1000)):
                            hit = (a, e, p, v, cc, ev)
                            break
                if hit is None:
                    out.append(t._from_dict({m: c}))
                    continue
                a, e, p, v, cc, ev = hit
                ch = True
                rest = t._from_dict({tuple((b, q - 1) if b is v or b is a else (b, q) for b, q in m if not ((b is v or b is a) and q == 1)): c})
                q = t.sub(p, t.scale(v, cc))                # p = q + cc v
                out.append(t.scale(rest, 1 / cc))
                out.append(t.neg(t.scale(t.mul2(t.mul2(rest, q), a), 1 / cc)))
            if not ch:
                return x
            x = t.add(*out)
        return x

    # ---------------------------------------------------------------- axioms on scalar functions
    def _fun_axioms(self, tr):
        out = []
        R = z3.RealVal
        ap = tr.applied
        # make inverse-composition arguments visible, e.g. exp(k*log x)
        for a, x, r in list(ap.get("exp", [])):
            out.append(r > 0)
            za = tr.real(a)
            out += [z3.Implies(za >= 0, r >= 1), z3.Implies(za > 0, r > 1), z3.Implies(za <= 0, r <= 1), z3.Implies(za < 0, r < 1), r >= 1 + za]
            if a.op == "log":
                y = tr.real(a.args[1][0])
                out.append(z3.Implies(y > 0, r == y))
        E_, L_ = ap.get("exp", []), ap.get("log", [])
        if len(E_) * len(L_) <= 24:
            for a, x, r in list(E_):
                for b, y, q in list(L_):
                    if not t.constval(b):
                        za, zb = tr.real(a), tr.real(b)
                        out += [z3.Implies(z3.And(zb > 0, za <= q), r <= zb), z3.Implies(z3.And(zb > 0, za >= q), r >= zb), z3.Implies(z3.And(zb > 0, za < q), r < zb), z3.Implies(z3.And(zb > 0, za > q), r > zb)]
        for a, x, r in list(ap.get("log", [])):
            za = tr.real(a)
            out += [z3.Implies(za > 1, r > 0), z3.Implies(za == 1, r == 0), z3.Implies(z3.And(za > 0, za < 1), r < 0)]
        for f in ("sinh", "arcsinh", "arctan"):
            for a, x, r in ap.get(f, []):
                za = tr.real(a)
                out += [z3.Implies(za > 0, r > 0), z3.Implies(za == 0, r == 0), z3.Implies(za < 0, r < 0)]
                if f == "arctan":
                    pi = tr.real(t.PI)
                    out += [r < pi / 2, r > -pi / 2]
        for a, x, r in ap.get("tan", []):
            za, pi = tr.real(a), tr.real(t.PI)
            out += [z3.Implies(z3.And(za > 0, za < pi / 2), r > 0)]
        for f in ("sin", "cos"):
            for a, x, r in ap.get(f, []):
                out += [r >= -1, r <= 1]
        # monotonicity
        for f, dom in (("exp", None), ("sinh", None), ("arcsinh", None), ("arctan", None), ("log", "pos"), ("tan", "half")) + tuple((f, None) for f in ap if f.startswith("mono:")):
            L = ap.get(f, [])
            if len(L) > 10:
                L = L[:10]
            for i, (a, x, r) in enumerate(L):
                for b, y, q in L[:i]:
                    za, zb = tr.real(a), tr.real(b)
                    g = True
                    if dom == "pos":
                        g = z3.And(za > 0, zb > 0)
                    elif dom == "half":
                        pi = tr.real(t.PI)
                        g = z3.And(za > -pi / 2, za < pi / 2, zb > -pi / 2, zb < pi / 2)
                    out.append(z3.Implies(z3.And(g, za < zb), r < q))
                    out.append(z3.Implies(z3.And(g, zb < za), q < r))
        for a, e, r in ap.get("powr", []):
            za, ze = tr.real(a), tr.real(e)
            out += [z3.Implies(za > 0, r > 0), z3.Implies(za >= 0, r >= 0), z3.Implies(z3.And(za == 0, ze > 0), r == 0)]
            if t.constval(e) == Fraction(1, 2):
                out.append(z3.Implies(za >= 0, r * r == za))
            out += [z3.Implies(z3.And(za > 1, ze > 0), r > 1), z3.Implies(z3.And(za > 0, za < 1, ze > 0), r < 1)]
        P = ap.get("powr", [])[:8]
        for i, (a, e, r) in enumerate(P):
            for b, f, q in P[:i]:
                if e is f:
                    za, zb, ze = tr.real(a), tr.real(b), tr.real(e)
                    out.append(z3.Implies(z3.And(za >= 0, za < zb, ze > 0), r < q))
                    out.append(z3.Implies(z3.And(zb >= 0, zb < za, ze > 0), q < r))
        return out


def _pos_atom(goal):
    """a when the goal is 0 < c a (c > 0) or a != 0"""
    if goal.op == "not" and goal.args[1][0].op == "cmp" and goal.args[1][0].args[0] == "==":
        p, sign = goal.args[1][0].args[1][0], 0
    elif goal.op == "cmp" and goal.args[0] == "<":
        p, sign = goal.args[1][0], -1
    else:
        return None
    it = list(t._poly_items(p))
    if len(it) == 1 and len(it[0][0]) == 1 and it[0][0][0][1] == 1 and it[0][1] * sign >= 0:
        return it[0][0][0][0]
    return None


_TAGS = {}


def rec_tag(lam):
    """the tag of the self references that belong to this recursive definition (not to one nested in it)"""
    r = _TAGS.get(lam.id)
    if r is None:
        found = set()
        seen = set()

        def go(y):
            if y.id in seen:
                return
            seen.add(y.id)
            if y.op == "self" and isinstance(y.args[0], tuple) and y.args[0][0] == "rec":
                found.add(y.args[0])
            if y.op == "poly":
                for m, c in t._poly_items(y):
                    for a, e in m:
                        go(a)
                return
            if y.op in ("var", "bvar", "pi", "I", "true", "false"):
                return
            for z in y.args[1]:
                if y.op == "bop" and y.args[0][0] == "rec" and z.op == "lam":
                    continue
                go(z)
        go(lam.args[1][0])
        r = _TAGS[lam.id] = next(iter(found)) if len(found) == 1 else ("rec?", lam.id)
    return r


def rec_unfold(x):
    """one step of a recursively defined element"""
    lam, idx = x.args[1][-1], x.args[1][:-1]
    tag = rec_tag(lam)
    b = t.lam_apply(lam, idx)
    return t.replace(b, lambda y: t.rebuild(x, tuple(y.args[1]) + (lam,)) if y.op == "self" and y.args[0] == tag else None)


def rec_retag(lam, body, tag):
    old = rec_tag(lam)
    return t.replace(body, lambda y: t._node("self", tag, y.args[1], y.isint, y.isreal, y.sort) if y.op == "self" and y.args[0] == old else None)


def _mul_inv(p, a, d, e):
    """p * d**e where a = inv(d)"""
    out = []
    for m, c in t._poly_items(p):
        q = dict(m).get(a, 0)
        r = t._from_dict({tuple((b, z) for b, z in m if b is not a): c})
        out.append(t.mul2(r, t.ipow(d, e - q)) if q <= e else t.mul2(r, t.ipow(a, q - e)))
    return t.add(*out)


def _has_ite_node(x):
    return any(y.op == "ite" for y in t.subterms([x]))


def _has_ite(x):
    return any(y.op in ("ite", "abs", "pos", "exp") for y in t.subterms([x], True))


# ranges of the closure arguments of opaque operators (used as hypotheses for their bodies)
LAM_RANGE = {
    "max": lambda a: [a.args[1][0]],
    "min": lambda a: [a.args[1][0]],
    "argmax": lambda a: [a.args[1][0]],
    "argmin": lambda a: [a.args[1][0]],
    "dct": lambda a: [a.args[1][1]],
    "rank": lambda a: [a.args[1][0]],
    "sel": lambda a: [a.args[1][0]],
    "first": lambda a: [a.args[1][0]],
    "resample": lambda a: [a.args[1][0]],
    "mtp": lambda a: [a.args[1][0], a.args[1][1]],
    "ans": lambda a: [a.args[1][0], a.args[1][1]],
    "wsm": lambda a: [a.args[1][0], a.args[1][1]],
    "alf": lambda a: [a.args[1][0], a.args[1][1]],
    "tmask": lambda a: [a.args[1][0], a.args[1][1]],
    "mpn": lambda a: [a.args[1][0], a.args[1][1]],
    "rasta": lambda a: [a.args[1][0]],
    "lpa": lambda a: [a.args[1][0]],
    "lpe": lambda a: [a.args[1][0]],
    "lpc2lpcc": lambda a: [a.args[1][0]],
    "matinv": lambda a: [a.args[1][0], a.args[1][0]],
}
