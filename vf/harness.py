"""Theorems over the interpreted source: each runs the real functions symbolically and states goals about the result."""
import itertools
import time
import traceback
from fractions import Fraction
from . import terms as t
from . import prover as P
from .ctx import Ctx, PyExc, Unsupported, Infeasible, Obligation
from .values import *
from . import values as V
from .sarray import *
from . import sarray as SA
from . import snp
from .interp import Interp, ListV, DictV, plain, Sparse

REGISTRY = {}      # property -> list of Theorem


class Theorem:
    def __init__(self, prop, name, fn, doc, tier, cover):
        self.prop, self.name, self.fn, self.doc, self.tier, self.cover = prop, name, fn, doc, tier, cover


def theorem(prop, name=None, tier="quick", cases=None):
    """register a theorem; cases: list of dicts of keyword arguments (one theorem per case)"""
    def deco(fn):
        for c in (cases or [{}]):
            nm = (name or fn.__name__) + ("[%s]" % ",".join("%s=%s" % kv for kv in c.items()) if c else "")
            REGISTRY.setdefault(prop, []).append(Theorem(prop, nm, (lambda h, fn=fn, c=c: fn(h, **c)), (fn.__doc__ or "").strip(), tier, True))
        return fn
    return deco


class Out:
    def __init__(self, kind, v=None, exc=None):
        self.kind, self.v, self.exc = kind, v, exc

    @property
    def ok(self):
        return self.kind == "ok"


class Harness:
    def __init__(self, name):
        self.name = name
        self.cx = Ctx()
        Ctx.cur = self.cx
        self.I = Interp()
        self.inputs = {}
        self.covered = 0

    # ---------------------------------------------------------- inputs
    def assume(self, *cs):
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    raise Infeasible()
                continue
            c = c.t if isinstance(c, Num) else c
            self.cx.assume(c)

    def int(self, name, lo=None, hi=None):
        v = t.var(name, True)
        if lo is not None:
            self.assume(t.le(I_(lo), v))
        if hi is not None:
            self.assume(t.le(v, I_(hi)))
        return Num(v, dt="i")

    def real(self, name, lo=None, hi=None, pos=False):
        v = t.var(name, False)
        if pos:
            self.assume(t.lt(t.ZERO, v))
        if lo is not None:
            self.assume(t.le(nt(lo), v))
        if hi is not None:
            self.assume(t.le(v, nt(hi)))
        return Num(v, dt="f")

    def arr(self, name, shape, dt="f", nonneg=False, pos=False, ext=True):
        shape = tuple(I_(s) for s in shape)
        if nonneg or pos:
            self.cx.facts.declare(name, (lambda *idx: [t.lt(t.ZERO, t.app(name, idx, dt == "i"))]) if pos else (lambda *idx: [t.le(t.ZERO, t.app(name, idx, dt == "i"))]))
        return SymArray.make(shape, lambda idx: Num(t.app(name, idx, dt == "i", dt != "c"), t.TRUE, dt, True), dt, "input %s" % name if ext else None)

    def choice(self, name, opts):
        """one of several python values (forks)"""
        for i, o in enumerate(opts[:-1]):
            if self.cx.decide(t.bvar("%s=%d" % (name, i))):
                return o
        return opts[-1]

    def flag(self, name):
        return Num(t.bvar(name), dt="b")

    def string(self, name):
        return SymStr(t.var("str:" + name, True))

    # ---------------------------------------------------------- running code
    def func(self, qual):
        return self.I.func(qual)

    def call(self, qual, *args, **kw):
        f = self.I.func(qual) if isinstance(qual, str) else qual
        try:
            return Out("ok", self.I.call(f, list(args), kw))
        except PyExc as e:
            return Out("raise", exc=e)

    def value(self, qual, *args, **kw):
        """call that must not raise"""
        o = self.call(qual, *args, **kw)
        if not o.ok:
            self.fail("no-exception:%s" % (qual if isinstance(qual, str) else qual.qual), "raises %s" % o.exc)
            raise Infeasible()
        return o.v

    def use(self, qual, handler):
        self.I.contracts[qual] = handler

    # ---------------------------------------------------------- goals
    def fail(self, label, why):
        # only reachable states count
        st, info = self.cx.prover.prove(self.cx.hyps, t.FALSE, 2, None, 1)
        self.cx.obls.append(Obligation("goal", label, "proved" if st == "proved" else st, {"why": why, "model": info}, list(self.cx.hyps), t.FALSE))

    def prove(self, label, goal, depth=3, hyps=()):
        if isinstance(goal, bool):
            goal = t.TRUE if goal else t.FALSE
        if isinstance(goal, Num):
            if goal.ok is not t.TRUE:
                self.prove(label + " (defined)", goal.ok, depth, hyps)
            goal = goal.t
        self.covered += 1
        hs = self.cx.hyps + list(hyps)
        st, info = self.cx.prover.prove(hs, goal, depth)
        if st != "proved":
            g2 = self.cx.prover.simp(hs, goal)
            info = {"goal": t.show(g2, 8), "model": info}
        self.cx.obls.append(Obligation("goal", label, st, info, hs if st != "proved" else None, goal))
        return st == "proved"

    def raises_iff(self, label, out, exc, cond):
        """out raises exc exactly when cond holds"""
        if isinstance(cond, Num):
            cond = cond.t
        if out.ok:
            self.prove(label + ": accepted only when allowed", t.not_(cond))
        elif out.exc.name == exc:
            self.prove(label + ": rejected only when %s" % exc, cond)
        else:
            self.fail(label + ": raises %s" % out.exc.name, str(out.exc))

    def shape(self, label, a, shape):
        if isinstance(a, ListV):
            a = toarray(plain(a))
        if isinstance(a, Sparse):
            a = a.m
        if not isinstance(a, SymArray):
            self.fail(label + ": is an array", type(a).__name__)
            raise Infeasible()
        if a.nd != len(shape):
            self.fail(label + ": number of dimensions", "%d != %d" % (a.nd, len(shape)))
            raise Infeasible()
        for k, (x, y) in enumerate(zip(a._shape, shape)):
            self.prove("%s: length of axis %d" % (label, k), t.eq(x, I_(y)))
        return a

    def index(self, shape, base="i"):
        vs = tuple(t.fresh(base) for _ in shape)
        hs = []
        for v, n in zip(vs, shape):
            hs += [t.le(t.ZERO, v), t.lt(v, I_(n))]
        return vs, hs

    def equal(self, label, a, shape, spec, depth=4, dt=None, defined=True):
        """array a has the given shape and elements spec(*idx)"""
        a = self.shape(label, a, shape)
        vs, hs = self.index(shape)
        h0 = list(self.cx.hyps)
        self.cx.hyps = h0 + hs
        try:
            x = a.get(*vs)
            if dt and a.dt not in dt:
                self.fail(label + ": element type", a.dt)
            if x.ok is not t.TRUE and defined:
                self.prove(label + ": elements are defined", x.ok, depth)
            y = asnum(spec(*[Num(v, dt="i") for v in vs]))
            if x.t.sort == "b" or y.t.sort == "b":
                self.prove(label + ": elements", t.iff(x.t, y.t), depth)
            else:
                self.prove(label + ": elements", t.eq(x.t, y.t), depth)
        finally:
            self.cx.hyps = h0

    def same(self, label, a, b, depth=4, defined=False):
        """two values are equal (arrays, scalars, tuples)"""
        a, b = unlist(a), unlist(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                self.fail(label, "tuple lengths differ")
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self.same("%s[%d]" % (label, k), x, y, depth, defined)
            return
        if isscalar(a) and isscalar(b):
            self.prove(label, t.eq(nt(a), nt(b)), depth)
            return
        if isinstance(a, SymArray) and isinstance(b, SymArray):
            f = b.snap()
            self.equal(label, a, b._shape, lambda *i: f(tuple(I_(x) for x in i)), depth, None, defined)
            return
        if type(a) is type(b) and (a is None or isinstance(a, str)):
            self.prove(label, t.TRUE if a == b else t.FALSE)
            return
        self.fail(label, "different kinds of result: %s, %s" % (type(a).__name__, type(b).__name__))

    def forall(self, label, shape, goal, depth=4):
        vs, hs = self.index(shape)
        h0 = list(self.cx.hyps)
        self.cx.hyps = h0 + hs
        try:
            self.prove(label, goal(*[Num(v, dt="i") for v in vs]), depth)
        finally:
            self.cx.hyps = h0

    def defined(self, label, a, depth=4):
        """every element of the result is defined (no log of 0, division by 0, ...)"""
        a = unlist(a)
        if isinstance(a, tuple):
            for k, x in enumerate(a):
                self.defined("%s[%d]" % (label, k), x, depth)
            return
        if isscalar(a):
            self.prove(label, asnum(a).ok, depth)
            return
        vs, hs = self.index(a._shape)
        h0 = list(self.cx.hyps)
        self.cx.hyps = h0 + hs
        try:
            self.prove(label, a.get(*vs).ok, depth)
        finally:
            self.cx.hyps = h0


def unlist(a):
    if isinstance(a, ListV):
        if isinstance(a.v, list) and not all(isscalar(x) for x in a.v):
            return tuple(unlist(x) for x in a.v)
        return toarray(plain(a))
    if isinstance(a, Sparse):
        return a.m
    if isinstance(a, tuple):
        return tuple(unlist(x) for x in a)
    if isinstance(a, SymArray) and a.nd == 0:
        return a.get()
    return a


def run_theorem(th, deadline=None):
    """-> dict(status, obligations, ...)"""
    P.DEADLINE[0] = time.time() + deadline if deadline else None
    t0 = time.time()
    P.STATS.__init__()
    h = Harness(th.name)
    res = {"theorem": th.name, "property": th.prop, "doc": th.doc, "obligations": [], "status": "ok", "reason": None}

    def body():
        th.fn(h)
        return None
    paths = 0
    try:
        paths = len(h.cx.explore(body))
    except Unsupported as e:
        res["status"], res["reason"] = "unsupported", "%s%s" % (h.cx.loc(), e)
    except P.OutOfTime:
        res["status"], res["reason"] = "timeout", "time limit"
    except RecursionError:
        res["status"], res["reason"] = "unsupported", "recursion depth"
    except Exception as e:
        res["status"], res["reason"] = "error", "".join(traceback.format_exception(e))[-1500:]
    seen = {}
    for o in h.cx.obls:
        key = (o.kind, o.label, o.status)
        if o.status == "proved":
            d = seen.get(key)
            if d is not None:
                d["n"] += 1
                continue
        d = {"kind": o.kind, "label": o.label, "status": o.status, "n": 1}
        if o.status != "proved":
            d["info"] = repr(o.info)[:1500]
            d["path"] = [t.show(x, 5) for x in (o.path or [])][:12]
            d["cond"] = t.show(o.cond, 6) if o.cond is not None else None
            d["model"] = o.info.get("model") if isinstance(o.info, dict) else (o.info if isinstance(o.info, dict) else None)
            if isinstance(o.info, dict) and "model" not in o.info and "why" not in o.info:
                d["model"] = o.info
        seen[key] = d
        res["obligations"].append(d)
    if res["status"] == "ok":
        if paths == 0 and not h.cx.obls:
            res["status"], res["reason"] = "vacuous", "no feasible path"
        elif not any(o.kind == "goal" for o in h.cx.obls):
            res["status"], res["reason"] = "vacuous", "no goal reached"
        elif any(o.status != "proved" for o in h.cx.obls):
            res["status"] = "failed"
            res["reason"] = "; ".join("%s %s" % (o.label, o.status) for o in h.cx.obls if o.status != "proved")[:600]
    res["paths"] = paths
    res["funcs"] = sorted(h.cx.used_funcs)
    res["contracts"] = sorted(h.cx.used_contracts)
    res["notes"] = sorted(str(x) for x in h.cx.notes)
    res["wall"] = round(time.time() - t0, 3)
    res["solver"] = {"queries": P.STATS.queries, "z3_s": round(P.STATS.z3_time, 3), "by": dict(P.STATS.by)}
    return res
