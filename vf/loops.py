"""Exact summaries of loops: closed forms, sums, recurrences, `first` for early exits.  Nothing is unrolled.

State at the start of iteration k is written self[tag](k, idx...).  One symbolic execution of the body gives the state
after the iteration as terms over those self references; the recurrences are then solved (unchanged, last value,
accumulator, write pinned to one iteration) or kept as course-of-values recurrences (`rec` nodes)."""
import itertools
from . import terms as t
from .ctx import ctx, PyExc, Unsupported, Infeasible
from .values import *
from . import values as V
from .sarray import SymArray, Buffer, concat, toarray, pos_dim, memo
from .snp import Sparse


_loopid = itertools.count()


class LoopFrame:
    def __init__(self, start):
        self.start = start
        self.id = next(_loopid)
        self.appended = {}
        self.nolist = set()


def sref(tag, idx, dt):
    return t._node("self", tag, tuple(idx), dt == "i", dt != "c", "b" if dt == "b" else "n")


def has_self(x, tags=None):
    return t.contains(x, lambda y: y.op == "self" and (y.args[0] in tags if tags is not None else isinstance(y.args[0], tuple) and y.args[0][0] == "loop"))


def self_tags(x):
    return {y.args[0] for y in t.subterms([x], True) if y.op == "self" and isinstance(y.args[0], tuple) and y.args[0][0] == "loop"}


def first_(n, k, stop):
    return t.bop("first", (n,), (t.lam([k], stop),), True)


class St:
    """one piece of loop state"""

    def __init__(self, kind, key, tag):
        self.kind, self.key, self.tag = kind, key, tag    # kind: 'var' | 'arr' | 'buf'
        self.v0 = None        # idx -> Num
        self.shape = ()
        self.dt = "f"
        self.np = False
        self.nv = None        # (vs, Num) next value
        self.S = None         # closed form: (k, idx) -> Num
        self.obj = None


class LoopSummary:
    def __init__(self, interp, n, body, names, env, target):
        self.I, self.n, self.body, self.names, self.env, self.target = interp, n, body, set(names), env, set(target)
        self.pos_p = None

    def own(self, x):
        return any(tag[1] == self.frame.id for tag in self_tags(x))

    # ------------------------------------------------------------------ driver
    def run(self):
        from . import interp as IN
        cx = ctx()
        if not hasattr(cx, "loops"):
            cx.loops = []
        self.cx = cx
        n = self.n
        if n is not None:
            n = pos_dim(n)
            if t.contains(n, lambda y: y.op == "ite"):
                n = cx.prover.simp_t(cx.hyps, n)
                if n.op == "ite":
                    n = cx.prover.case_simp(cx.hyps, n, 8)
        self.k = k = t.fresh("k")
        outer_touched = cx.touched
        frame = LoopFrame(Buffer.n + 1)
        self.frame = frame
        bufs = {}             # uid -> Buffer touched
        known = {}            # name -> (k -> Num) closed form used instead of a placeholder
        dts = {}              # name/uid -> dt
        arrs = set()          # array variables rebound by the body
        nolist = set()
        env = self.env
        saved_env = dict(env.vars)
        saved_glob = set(env.globals_)
        o0, w0 = len(cx.obls), len(cx.writes)
        for _attempt in range(60):
            del cx.obls[o0:]
            del cx.writes[w0:]
            states, res = self.one_pass(n, bufs, known, dts, arrs, nolist, saved_env)
            env.vars = dict(saved_env)
            again = False
            # hoist conditions independent of the iteration
            hoist = None
            for r in res:
                for c in r["conds"]:
                    if k not in c.fv and not self.own(c):
                        hoist = c
                        break
                if hoist is not None:
                    break
            if hoist is not None:
                del cx.obls[o0:]
                del cx.writes[w0:]
                cx.decide(hoist)
                continue
            for r in res:
                for uid, b in r["touched"].items():
                    if uid < frame.start and uid not in bufs:
                        if isinstance(b, IN.ListV):
                            if uid in nolist or b.uid in getattr(self, "conv", set()):
                                raise Unsupported("list rebuilt in a loop")
                            self.conv = getattr(self, "conv", set()) | {uid}
                            if isinstance(b.v, list) and b.v and all(isscalar(x) for x in b.v):
                                a = toarray(b.v)
                                b.set(SymArray.make(a._shape, a.snap(), a.dt, None, True))
                            else:
                                raise Unsupported("list modified in a loop")
                        else:
                            bufs[uid] = b
                        again = True
                for uid in r["appended"]:
                    if uid not in nolist:
                        nolist.add(uid)
                        again = True
                if r["kind"] == "normal":
                    for nm, v in r["env"].items():
                        if nm in self.names and nm in saved_env and nm not in self.target:
                            v0 = saved_env[nm]
                            if isinstance(v0, SymArray) and nm not in arrs and v is not v0:
                                arrs.add(nm)
                                again = True
                            if isscalar(v0) and isscalar(v) and nm not in known:
                                d = asnum(v).dt
                                cur = dts.get(nm, asnum(v0).dt)
                                if promote(d, cur) != cur:
                                    dts[nm] = promote(d, cur)
                                    again = True
                    for uid, b in bufs.items():
                        pass
            if again:
                continue
            normal = [r for r in res if r["kind"] == "normal"]
            stops = [r for r in res if r["kind"] != "normal"]
            self.next_values(states, normal)
            new = self.find_counters(states, known, normal, saved_env)
            if new:
                known.update(new)
                continue
            if n is None:
                n = self.find_bound(normal, stops, known)
                continue
            break
        else:
            raise Unsupported("loop summary does not stabilise")
        cx.touched = outer_touched
        return self.finish(n, states, normal, stops, known, saved_env, nolist)

    # ------------------------------------------------------------------ one symbolic execution of the body
    def one_pass(self, n, bufs, known, dts, arrs, nolist, saved_env):
        from . import interp as IN
        cx, k, env = self.cx, self.k, self.env
        states = {}
        h0 = list(cx.hyps)
        cx.hyps = h0 + [t.le(t.ZERO, k)] + ([t.lt(k, n)] if n is not None else [])
        start_vars = dict(saved_env)
        for nm in sorted(self.names):
            if nm in self.target or nm not in saved_env:
                if nm in saved_env:
                    start_vars[nm] = IN.Poison("loop target %s read before assignment" % nm)
                continue
            v0 = saved_env[nm]
            if nm in known:
                start_vars[nm] = known[nm](k)
                continue
            tag = ("loop", self.frame.id, nm)
            if isscalar(v0):
                st = St("var", nm, tag)
                a = asnum(v0)
                st.dt = dts.get(nm, a.dt)
                st.v0 = lambda idx, a=a: a
                st.np = a.np
                states[tag] = st
                start_vars[nm] = Num(sref(tag, (k,), st.dt), t.TRUE, st.dt, a.np)
            elif isinstance(v0, SymArray):
                if nm in arrs:
                    st = St("arr", nm, tag)
                    st.dt, st.shape = v0.dt, v0._shape
                    st.v0 = v0.snap()
                    states[tag] = st
                    start_vars[nm] = SymArray.make(v0._shape, lambda idx, tag=tag, d=v0.dt: Num(sref(tag, (k,) + tuple(idx), d), t.TRUE, d, True), v0.dt)
            elif isinstance(v0, IN.ListV):
                pass
            else:
                start_vars[nm] = IN.Poison("loop-carried value %s" % nm)
        for uid, b in bufs.items():
            tag = ("loop", self.frame.id, uid)
            st = St("buf", uid, tag)
            st.dt, st.shape, st.obj = b.dt, b.shape, b
            st.v0 = b.fn
            states[tag] = st
        self.frame.nolist = set(nolist)
        cx.loops.append(self.frame)
        res = []

        def runner():
            self.frame.appended = {}
            tv = cx.touched
            cx.touched = {}
            env.vars = dict(start_vars)
            for uid, b in bufs.items():
                tag = ("loop", self.frame.id, uid)
                old = b.fn
                cx.undo.append(lambda b=b, old=old: setattr(b, "fn", old))
                b.fn = memo(lambda idx, tag=tag, d=b.dt: Num(sref(tag, (k,) + tuple(idx), d), t.TRUE, d, True))
            kind = "normal"
            try:
                try:
                    self.body(k, env)
                except IN.Cont:
                    pass
                except IN.Brk:
                    kind = "break"
                except IN.Ret:
                    kind = "return"
                except PyExc:
                    kind = "raise"
                out = {"kind": kind, "touched": dict(cx.touched), "appended": dict(self.frame.appended), "env": {}, "frozen": {}, "bufs": {}}
                if kind == "normal":
                    for nm in self.names:
                        if nm in env.vars:
                            out["env"][nm] = env.vars[nm]
                            out["frozen"][nm] = IN.freeze(env.vars[nm]) if not isinstance(env.vars[nm], IN.ListV) else env.vars[nm]
                    for uid, b in bufs.items():
                        out["bufs"][uid] = b.fn
                    out["appended"] = {u: (l, [IN.freeze(x) for x in xs]) for u, (l, xs) in self.frame.appended.items()}
                return out
            finally:
                if tv is not None:
                    tv.update({u: b for u, b in cx.touched.items()})
                cx.touched = tv
        try:
            for conds, r in cx.explore(runner):
                r["conds"] = conds
                res.append(r)
        finally:
            cx.loops.pop()
            cx.hyps = h0
            env.vars = dict(saved_env)
        return states, res

    # ------------------------------------------------------------------ next-state terms
    def next_values(self, states, normal):
        from . import interp as IN
        if not normal:
            return
        for st in states.values():
            if st.kind == "buf":
                vs = tuple(t.fresh("p") for _ in st.shape)
                val = IN.merge_paths([(r["conds"], r["bufs"][st.key](vs)) for r in normal])
                st.nv = (vs, asnum(val))
            else:
                val = IN.merge_paths([(r["conds"], r["frozen"].get(st.key, IN.Poison("unbound"))) for r in normal])
                st.val = val
                if st.kind == "var":
                    st.nv = ((), asnum(val)) if isscalar(val) else None
                elif isinstance(val, SymArray) and val.nd == len(st.shape):
                    vs = tuple(t.fresh("p") for _ in st.shape)
                    st.nv = (vs, val.get(*vs))
                else:
                    st.nv = None

    def find_counters(self, states, known, normal, saved_env):
        """scalars whose closed form is cheap and worth knowing while the body runs: unchanged ones and counters"""
        new = {}
        for tag, st in states.items():
            if st.kind != "var" or st.nv is None or st.key in known:
                continue
            me = sref(tag, (self.k,), st.dt)
            nvt = nt(st.nv[1]) if st.nv[1].dt != "b" else st.nv[1].t
            v0 = st.v0(())
            if nvt is me:
                new[st.key] = lambda k, v=saved_env[st.key]: v
                continue
            if st.dt == "b" or v0.dt == "b":
                continue
            d = t.sub(nvt, me)
            if t.constval(d) is not None and st.nv[1].ok is t.TRUE:
                new[st.key] = lambda k, v0=v0, d=d, st=st: V.simple_if(Num(t.add(nt(v0), t.mul2(d, k)), v0.ok, st.dt, st.np))
        return new

    def find_bound(self, normal, stops, known):
        """bound on the iterations of a while loop from conditions linear in k"""
        k = self.k
        if not normal:
            return t.ONE
        best = None
        cands = None
        for r in normal:
            bs = {}
            for c in r["conds"]:
                if c.op == "cmp" and c.args[0] in ("<", "<=") and not self.own(c):
                    p = c.args[1][0]
                    co, rest = None, {}
                    bad = False
                    for m, cc in t._poly_items(p):
                        if m == ((k, 1),):
                            co = cc
                        elif any(k in a.fv for a, e in m):
                            bad = True
                        else:
                            rest[m] = cc
                    if bad or co is None or co <= 0:
                        continue
                    r_ = t._from_dict(rest)
                    q = t.scale(r_, -1 / co)
                    if c.args[0] == "<=":
                        b = t.add(t.floor(q), t.ONE)
                    else:
                        b = t.neg(t.floor(t.neg(q)))
                    bs[b.id] = b
            cands = bs if cands is None else {i: b for i, b in cands.items() if i in bs}
        if not cands:
            raise Unsupported("while loop without an iteration bound the summary can find")
        best = min(cands.values(), key=lambda b: (b.size, b.id))
        return pos_dim(best)

    # ------------------------------------------------------------------ solving the recurrences
    def close(self, x, done):
        return t.replace(x, lambda y: self._one(y, done))

    def _one(self, y, done):
        if y.op == "self" and y.args[0] in done:
            st = done[y.args[0]]
            v = st.S(y.args[1][0], y.args[1][1:])
            return v.t
        return None

    def solve(self, n, states):
        done = {}
        todo = dict(states)
        while todo:
            progress = False
            for tag, st in list(todo.items()):
                if st.nv is None:
                    continue
                tags = self_tags(st.nv[1].t) | self_tags(st.nv[1].ok)
                tags = {x for x in tags if x[1] == self.frame.id}
                if tags <= set(done) | {tag}:
                    vs, v = st.nv
                    v = Num(self.close(v.t, done), self.close(v.ok, done), v.dt, v.np)
                    self.solve_one(n, st, vs, v)
                    done[tag] = st
                    del todo[tag]
                    progress = True
            if not progress:
                bad = [st for st in todo.values() if st.nv is not None]
                if bad:
                    raise Unsupported("mutually recursive loop state %s" % ",".join(str(s.key) for s in bad))
                # not expressible: fine unless something depends on it
                for tag, st in list(todo.items()):
                    def S(k, idx, st=st):
                        raise Unsupported("loop-carried value %s" % st.key)
                    st.S = S
                    done[tag] = st
                    del todo[tag]
        return done

    def solve_one(self, n, st, vs, v):
        k, tag, cx = self.k, st.tag, self.cx
        me = sref(tag, (k,) + vs, st.dt)
        vt = v.t
        if st.dt != "b" and vt.sort == "b":
            vt = t.ite(vt, t.ONE, t.ZERO)
        v0 = st.v0
        dt, np_ = st.dt, (v.np or st.kind != "var")

        def init(idx):
            a = v0(tuple(idx))
            if st.dt != "b":
                return Num(nt(a), a.ok, dt, np_)
            return a
        if vt is me and v.ok is t.TRUE:
            st.S = lambda kk, idx: init(idx)
            return
        mine = {tag}
        if not has_self(vt, mine) and not has_self(v.ok, mine):
            def S(kk, idx):
                m = dict(zip(vs, idx))
                c = t.eq(kk, t.ZERO)
                m[k] = t.sub(kk, t.ONE)
                if c is t.TRUE:
                    return init(idx)
                nv = Num(t.subst(vt, m), t.subst(v.ok, m), dt, np_)
                if c is t.FALSE or kk is self.pos_p:
                    return nv
                return ite_num(t.lt(t.ZERO, kk), nv, init(idx))
            st.S = S
            st.last = True
            return
        # split into the write condition and the written value
        W, Vt = split_write(vt, me)
        if W is not None and st.kind in ("buf", "arr"):
            s = self.pin(W, k)
            if s is not None and vs:
                self.solve_pinned(n, st, vs, v, W, Vt, s, init, dt, np_)
                return
            if k not in W.fv and not has_self(W, mine) and not has_self(Vt, mine) and not has_self(v.ok, mine):
                def S(kk, idx):
                    m = dict(zip(vs, idx))
                    m[k] = t.sub(kk, t.ONE)
                    nv = Num(t.subst(Vt, m), t.subst(v.ok, m), dt, np_)
                    return ite_num(t.and_(t.lt(t.ZERO, kk), t.subst(W, m)), nv, init(idx))
                st.S = S
                return
        d = leaf_diff(vt, me) if dt != "b" else None
        if d is not None and not has_self(d, mine) and not has_self(v.ok, mine):
            def S(kk, idx):
                m = dict(zip(vs, idx))
                j = t.fresh("j")
                dd = t.subst(d, {**m, k: j})
                ok = t.subst(v.ok, {**m, k: j})
                i0 = init(idx)
                return Num(t.add(i0.t, t.sum_(kk, [j], dd)), t.and_(i0.ok, t.forall_(kk, [j], ok)), dt, np_)
            st.S = S
            return
        # general recurrence over (iteration, index)
        i0 = init(vs)
        h0 = list(cx.hyps)
        cx.hyps = h0 + [t.le(t.ZERO, k), t.lt(k, n)]
        for q, d_ in zip(vs, st.shape):
            cx.hyps += [t.le(t.ZERO, q), t.lt(q, d_)]
        try:
            cx.safe("Undefined", i0.ok, "initial value of %s" % st.key)
            cx.safe("Undefined", v.ok, "value of %s in every iteration" % st.key)
        finally:
            cx.hyps = h0
        j = t.fresh("j")
        body = t.ite(t.le(j, t.ZERO), i0.t, t.subst(vt, {k: t.sub(j, t.ONE)})) if dt != "b" else \
            t.or_(t.and_(t.le(j, t.ZERO), i0.t), t.and_(t.lt(t.ZERO, j), t.subst(vt, {k: t.sub(j, t.ONE)})))
        l = close_rec(tag, (j,) + vs, body)
        st.S = lambda kk, idx: Num(t.bop("rec", (kk,) + tuple(idx), (l,), dt == "i", dt != "c", "b" if dt == "b" else "n"), t.TRUE, dt, np_)

    def pin(self, W, k):
        s = self.pins(W, k)
        return min(s.values(), key=lambda x: x.id) if s else None

    def pins(self, W, k):
        """terms x with W implying k == x"""
        if W.op == "cmp" and W.args[0] == "==":
            x = t.solve_linear(W.args[1][0], k)
            return {x.id: x} if x is not None and x.isint else {}
        if W.op == "and":
            r = {}
            for c in W.args[1]:
                r.update(self.pins(c, k))
            return r
        if W.op == "or":
            r = None
            for c in W.args[1]:
                q = self.pins(c, k)
                r = q if r is None else {i: x for i, x in r.items() if i in q}
            return r or {}
        return {}

    def solve_pinned(self, n, st, vs, v, W, Vt, s, init, dt, np_):
        """element p is written only in iteration s(p)"""
        k, tag, cx = self.k, st.tag, self.cx
        mine = {tag}
        if has_self(s, mine):
            raise Unsupported("self-referential write position")

        def s_at(idx):
            return t.subst(s, dict(zip(vs, idx)))
        Wk = t.subst(W, {k: s})
        written = t.and_(t.le(t.ZERO, s), t.lt(s, n), Wk)
        reads = [y for x in (Vt, W, v.ok) for y in t.subterms([x], True) if y.op == "self" and y.args[0] == tag]
        final_tag = ("loop", self.frame.id, ("final", st.key))

        def conv(x):
            # self at the start of iteration kk, element q
            def f(y):
                if y.op == "self" and y.args[0] == tag:
                    kk, q = y.args[1][0], y.args[1][1:]
                    early = t.lt(s_at(q), kk)
                    if early is t.FALSE:
                        return nt(init(q)) if dt != "b" else init(q).t
                    me = sref(final_tag, q, dt)
                    if early is t.TRUE:
                        return me
                    return t.ite(early, me, init(q).t)
                return None
            return t.replace(x, f)
        Vs = conv(t.subst(Vt, {k: s}))
        wr = conv(written)
        ok = conv(t.subst(v.ok, {k: s}))
        i0 = init(vs)
        rec = any(has_self(x, {final_tag}) for x in (Vs, wr, ok))
        if rec or reads:
            h0 = list(cx.hyps)
            cx.hyps = h0 + [h for q, d_ in zip(vs, st.shape) for h in (t.le(t.ZERO, q), t.lt(q, d_))]
            try:
                for y in reads:
                    if not all(i.op != "var" or True for i in y.args[1]):
                        continue
                    q = tuple(t.subst(i, {k: s}) for i in y.args[1][1:])
                    iq = init(q)
                    if iq.ok is not t.TRUE:
                        cx.safe("Undefined", t.or_(t.not_(written), t.lt(s_at(q), s), iq.ok), "element read before it is set")
                if rec:
                    cx.safe("Undefined", t.or_(t.not_(wr), ok), "value stored in %s" % st.key)
                    cx.safe("Undefined", t.or_(wr, i0.ok), "initial value")
                    ok, iok = t.TRUE, t.TRUE
            finally:
                cx.hyps = h0
        if rec:
            body = t.ite(wr, Vs, i0.t)
            l = close_rec(final_tag, vs, body)

            def final(idx):
                return Num(t.bop("rec", tuple(idx), (l,), dt == "i", dt != "c", "b" if dt == "b" else "n"), t.TRUE, dt, np_)
        else:
            def final(idx):
                m = dict(zip(vs, idx))
                return ite_num(t.subst(wr, m), Num(t.subst(Vs, m), t.subst(ok, m), dt, np_), init(idx))

        def S(kk, idx):
            if kk is n:
                return final(idx)
            c = t.lt(s_at(idx), kk)
            return ite_num(c, final(idx), init(idx))
        st.S = S

    # ------------------------------------------------------------------ final state
    def finish(self, n, states, normal, stops, known, saved_env, nolist):
        from . import interp as IN
        cx, k, env = self.cx, self.k, self.env
        if not normal:
            if not cx.decide(t.lt(t.ZERO, n)):
                return True
            return self.execute(t.ZERO, env)
        done = self.solve(n, states)
        stop = t.or_(*[t.and_(*[self.close(c, done) for c in r["conds"]]) for r in stops]) if stops else t.FALSE
        if stop is t.FALSE:
            self.install(n, states, normal, known, saved_env, done, nolist, n)
            return True
        p = first_(n, k, stop)
        none = t.forall_(n, [k], t.not_(stop))
        if cx.decide(none):
            self.install(n, states, normal, known, saved_env, done, nolist, n)
            return True
        j = t.fresh("k")
        cx.assume(t.le(t.ZERO, p))
        cx.assume(t.lt(p, n))
        cx.assume(t.subst(stop, {k: p}))
        cx.assume(t.forall_(p, [j], t.not_(t.subst(stop, {k: j}))))
        self.install(p, states, normal, known, saved_env, done, nolist, n)
        return self.execute(p, env)

    def execute(self, kk, env):
        from . import interp as IN
        try:
            self.body(kk, env)
        except IN.Brk:
            return False
        except IN.Cont:
            raise Infeasible()
        raise Infeasible()

    def vclose(self, v, done, kk):
        """close self references in a value of iteration kk"""
        from . import interp as IN
        k = self.k
        if isinstance(v, Num):
            a = t.subst(self.close(v.t, done), {k: kk})
            b = t.subst(self.close(v.ok, done), {k: kk})
            return V.simple_if(Num(a, b, v.dt, v.np))
        if isinstance(v, SymArray):
            vs = tuple(t.fresh("e") for _ in v._shape)
            f = v.snap()
            cell = []

            def fn(idx):
                if not cell:
                    b = f(vs)
                    cell.append(Num(self.close(b.t, done), self.close(b.ok, done), b.dt, b.np))
                b = cell[0]
                mm = {k: kk, **dict(zip(vs, idx))}
                return Num(t.subst(b.t, mm), t.subst(b.ok, mm), b.dt, b.np)
            r = SymArray.make(tuple(t.subst(self.close(s, done), {k: kk}) for s in v._shape), fn, v.dt, None, v.islist)
            r.ro = v.ro
            r.buf.alias = v.buf
            return r
        if isinstance(v, tuple):
            return tuple(self.vclose(x, done, kk) for x in v)
        if isinstance(v, IN.ListV):
            if isinstance(v.v, list):
                return IN.ListV([self.vclose(x, done, kk) for x in v.v])
            return IN.ListV(self.vclose(v.v, done, kk))
        if isinstance(v, SymList):
            return SymList(t.subst(self.close(v.n, done), {k: kk}), lambda i, v=v: self.vclose(v.item(i), done, kk))
        if isinstance(v, Sparse):
            return Sparse(self.vclose(v.m, done, kk))
        if isinstance(v, (str, int, bool, float)) or v is None:
            return v
        if isinstance(v, (IN.Poison, IN.Func, IN.Mod, SymStr)):
            return v
        return IN.Poison("value of kind %s after a loop" % type(v).__name__)

    def install(self, p, states, normal, known, saved_env, done, nolist, n):
        """state after p normal iterations"""
        from . import interp as IN
        cx, k, env = self.cx, self.k, self.env
        nonempty = cx.implied(t.lt(t.ZERO, p))
        if nonempty:
            self.pos_p = p
        full = p is n
        for tag, st in done.items():
            if st.kind == "buf":
                b = st.obj
                S = st.S
                b.set(lambda idx, S=S: S(p, tuple(idx)))
        for nm in self.names:
            if nm in known and nm in saved_env:
                env.vars[nm] = known[nm](p)
                continue
            tag = ("loop", self.frame.id, nm)
            if tag in done:
                st = done[tag]
                if st.nv is None:
                    env.vars[nm] = IN.Poison("loop-carried value %s" % nm)
                    if hasattr(st, "val") and nonempty and not self.val_self(st.val, tag):
                        env.vars[nm] = self.vclose(st.val, done, t.sub(p, t.ONE))
                elif st.kind == "var":
                    env.vars[nm] = V.simple_if(st.S(p, ()))
                else:
                    if getattr(st, "last", False):
                        nv = self.vclose(st.val, done, t.sub(p, t.ONE))
                        env.vars[nm] = nv if nonempty else IN.vmerge(t.lt(t.ZERO, p), nv, saved_env[nm])
                    else:
                        for a, b in zip(st.val._shape, st.shape):
                            if a is not b and not cx.implied(t.eq(a, b)):
                                raise Unsupported("loop-carried array changes shape")
                        S = st.S
                        env.vars[nm] = SymArray.make(st.shape, lambda idx, S=S: S(p, tuple(idx)), st.dt)
                continue
            if nm in saved_env and isinstance(saved_env[nm], SymArray) and all(r["env"].get(nm) is saved_env[nm] for r in normal):
                continue
            if nm in saved_env and isinstance(saved_env[nm], IN.ListV) and all(r["env"].get(nm) is saved_env[nm] for r in normal):
                continue
            vals = [(r["conds"], r["frozen"].get(nm, IN.Poison("unbound"))) for r in normal]
            try:
                v = self.vclose(IN.merge_paths(vals), done, t.sub(p, t.ONE))
            except Unsupported as e:
                env.vars[nm] = IN.Poison(str(e))
                continue
            if nonempty:
                env.vars[nm] = v
            elif nm in saved_env:
                env.vars[nm] = IN.vmerge(t.lt(t.ZERO, p), v, saved_env[nm])
            else:
                env.vars[nm] = IN.Poison("%s may be unbound after the loop" % nm)
        for uid in nolist:
            l = None
            counts = []
            for r in normal:
                a = r["appended"].get(uid)
                counts.append(0 if a is None else len(a[1]))
                if a is not None:
                    l = a[0]
            if l is None:
                for r in []:
                    pass
                continue
            if set(counts) == {1}:
                val = IN.merge_paths([(r["conds"], r["appended"][uid][1][0]) for r in normal])
                new = IN.mk_list(p, lambda i, val=val: self.vclose(val, done, i))
            elif set(counts) <= {0, 1}:
                ps = [(r["conds"], r["appended"][uid][1][0]) for r, c in zip(normal, counts) if c]
                val = IN.merge_paths(ps)
                keep = self.close(t.or_(*[t.and_(*c) for c, _ in ps]), done)
                lm = t.lam([k], keep)
                new = IN.mk_list(SA_count(p, lm), lambda i, val=val, lm=lm: self.vclose(val, done, t.sel(p, lm, i)))
            else:
                raise Unsupported("several appends per iteration")
            l.set(self.I.binop("+", IN.ListV(l.v), new).v)

    def val_self(self, v, tag):
        return True


def SA_count(n, l):
    from .sarray import count_lam
    return count_lam(n, l)


def split_write(x, me):
    """x as ite(W, V, me): returns (W, V) or (None, None) when me is not a leaf"""
    if x is me:
        return t.FALSE, me
    if x.op == "ite":
        c, a, b = x.args[1]
        if not t.contains(x, lambda y: y is me):
            return t.TRUE, x
        wa, va = split_write(a, me)
        wb, vb = split_write(b, me)
        if wa is None or wb is None:
            return None, None
        W = t.or_(t.and_(c, wa), t.and_(t.not_(c), wb))
        if va is me:
            V_ = vb
        elif vb is me:
            V_ = va
        else:
            V_ = t.ite(c, va, vb)
        return W, V_
    return t.TRUE, x


def leaf_diff(x, me):
    if x is me:
        return t.ZERO
    if x.op == "ite":
        c, a, b = x.args[1]
        if t.contains(c, lambda y: y is me):
            return None
        da, db = leaf_diff(a, me), leaf_diff(b, me)
        if da is None or db is None:
            return None
        return t.ite(c, da, db)
    d = t.sub(x, me)
    if t.contains(d, lambda y: y is me):
        return None
    return d


def close_rec(tag, vs, body):
    def ren(new):
        return t.replace(body, lambda x: t._node("self", new, x.args[1], x.isint, x.isreal, x.sort) if x.op == "self" and x.args[0] == tag else None)
    l1 = t.lam(vs, ren("?"))
    return t.lam(vs, ren(("rec", l1.id)))
