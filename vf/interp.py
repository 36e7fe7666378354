"""Symbolic interpreter over the AST of the modules in /repo.

The verified text is the source file itself, parsed on every run.  Statements outside the supported subset raise
Unsupported (the obligation is then undecided, never discharged).  Loops are summarised exactly (closed forms, sums,
recurrences, `first` for early exits); nothing is unrolled to a bound except loops over literal sequences.
"""
import ast
import os
from fractions import Fraction
from . import terms as t
from .ctx import ctx, Ctx, PyExc, Unsupported, Infeasible
from .values import *
from . import values as V
from .sarray import *
from . import sarray as SA
from . import snp
from .snp import R, Sparse, arr_attr, rsum, rext, rec_close, rec_term

REPO = os.environ.get("VF_REPO", "/repo")


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Poison:
    def __init__(self, why):
        self.why = why


class Dummy:
    """typing objects"""

    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self


class Mod:
    def __init__(self, name):
        self.name = name

    def attr(self, n):
        q = self.name + "." + n
        if q in R:
            return R[q]
        if any(k.startswith(q + ".") for k in R):
            return Mod(q)
        if q in ("numpy.ndarray", "numpy.generic", "numpy.number", "numpy.integer", "numpy.floating"):
            return TypeTag(q)
        raise Unsupported("library function %s" % q)


class TypeTag:
    def __init__(self, name):
        self.name = name


class RepoModule:
    def __init__(self, name, path):
        self.name, self.path, self.env = name, path, None


class ClassV:
    def __init__(self, name, fields=(), isexc=False, bases=()):
        self.name, self.fields, self.isexc, self.bases = name, list(fields), isexc, bases
        self.dataclass = False


class ExcV:
    def __init__(self, name):
        self.name = name


class Func:
    def __init__(self, name, node, env, module, defaults, kwdefaults, qual):
        self.name, self.node, self.env, self.module = name, node, env, module
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual


class Env:
    __slots__ = ("vars", "parent", "module", "globals_")

    def __init__(self, parent, module):
        self.vars, self.parent, self.module, self.globals_ = {}, parent, module, set()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)


_uid = [0]


class ListV:
    """python list: v is a python list (concrete length), a SymArray(islist) or a SymList"""
    __hash__ = object.__hash__

    def __init__(self, v, ext=None):
        self._v, self.ext = v, ext
        Buffer.n += 1
        self.uid = Buffer.n

    @property
    def v(self):
        cx = ctx()
        if cx is not None:
            for f in getattr(cx, "loops", ()):
                if self.uid in f.nolist:
                    raise Unsupported("list read and extended in the same loop")
        return self._v

    def set(self, v):
        cx = ctx()
        old = self._v
        if cx.touched is not None:
            cx.touched[self.uid] = self
        if self.ext is not None:
            cx.writes.append((self.ext, cx.loc(), list(cx.hyps)))

        def back():
            self._v = old
        cx.undo.append(back)
        self._v = v


class DictV(dict):
    ext = None
    __hash__ = object.__hash__

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        Buffer.n += 1
        self.uid = Buffer.n


def outer_write(uid):
    """state the loop summary does not track, written inside a symbolic loop"""
    for f in getattr(ctx(), "loops", ()):
        if uid < f.start:
            raise Unsupported("loop writes to a dictionary, object or global of the enclosing scope")


def plain(x):
    """interpreter value -> value the library models accept"""
    if isinstance(x, ListV):
        if isinstance(x.v, list):
            return [plain(y) for y in x.v]
        return x.v
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if isinstance(x, Poison):
        raise Unsupported("use of a value the loop summary cannot track: %s" % x.why)
    return x


def ssubst(v, m):
    """substitute in a symbolic value"""
    if isinstance(v, Num):
        return V.simple_if(Num(t.subst(v.t, m), t.subst(v.ok, m), v.dt, v.np))
    if isinstance(v, SymArray):
        vs = tuple(t.fresh("e") for _ in v._shape)
        f = v.snap()
        cell = []

        def fn(idx):
            if not cell:
                cell.append(f(vs))
            b = cell[0]
            mm = {**m, **dict(zip(vs, idx))}
            return Num(t.subst(b.t, mm), t.subst(b.ok, mm), b.dt, b.np)
        r = SymArray.make(tuple(t.subst(s, m) for s in v._shape), fn, v.dt, None, v.islist)
        r.buf.alias = v.buf
        r.ro = v.ro
        return r
    if isinstance(v, tuple):
        return tuple(ssubst(x, m) for x in v)
    if isinstance(v, ListV):
        if isinstance(v.v, list):
            return ListV([ssubst(x, m) for x in v.v])
        return ListV(ssubst(v.v, m))
    if isinstance(v, SymList):
        return SymList(t.subst(v.n, m), lambda k, v=v: ssubst(v.item(k), m))
    if isinstance(v, SymStr):
        return SymStr(t.subst(v.t, m))
    if isinstance(v, Sparse):
        return Sparse(ssubst(v.m, m))
    if isinstance(v, Obj):
        return Obj(v.cls, {k: ssubst(x, m) for k, x in v.attrs.items()}, v.external)
    if isinstance(v, SymRange):
        return SymRange(ssubst(v.start, m), ssubst(v.stop, m), ssubst(v.step, m))
    return v


def freeze(v):
    """copy of a value that later stores / rollbacks cannot change"""
    if isinstance(v, SymArray):
        r = SymArray.make(v._shape, v.snap(), v.dt, None, v.islist)
        r.buf.alias = v.buf
        r.ro = v.ro
        return r
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, ListV):
        return ListV([freeze(x) for x in v.v] if isinstance(v.v, list) else freeze(v.v))
    if isinstance(v, DictV):
        d = DictV()
        for k, x in v.items():
            d[k] = freeze(x)
        return d
    if isinstance(v, Sparse):
        return Sparse(freeze(v.m))
    return v


def vmerge(c, a, b):
    """value equal to a when c holds and b otherwise"""
    if a is b:
        return a
    if isscalar(a) and isscalar(b):
        x, y = asnum(a), asnum(b)
        if x.t is y.t and x.ok is y.ok and x.dt == y.dt:
            return a
        return V.simple_if(ite_num(c, x, y))
    if isinstance(a, SymArray) and isinstance(b, SymArray) and a.nd == b.nd:
        fa, fb = a.snap(), b.snap()
        sh = tuple(p if p is q else t.ite(c, p, q) for p, q in zip(a._shape, b._shape))
        return SymArray.make(sh, lambda idx: ite_num(c, fa(idx), fb(idx)), promote(a.dt, b.dt), None, a.islist)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, ListV) and isinstance(b, ListV):
        if isinstance(a.v, list) and isinstance(b.v, list) and len(a.v) == len(b.v):
            return ListV([vmerge(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a.v, SymArray) and isinstance(b.v, SymArray):
            return ListV(vmerge(c, a.v, b.v))
    if a is None and b is None:
        return None
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return SymStr(t.ite(c, V.str_term(a), V.str_term(b)))
    return Poison("different kinds of value on different paths")


EXC_PARENTS = {"ParameterError": ("SpafeError",), "SpafeError": ("Exception",), "LinAlgError": ("ValueError",), "KeyError": ("LookupError",),
               "IndexError": ("LookupError",), "LookupError": ("Exception",), "ZeroDivisionError": ("ArithmeticError",), "AxisError": ("ValueError", "IndexError"),
               "Exception": ("BaseException",)}


def exc_matches(name, want):
    if name == want or want in ("Exception", "BaseException"):
        return True
    for p in EXC_PARENTS.get(name, ("Exception",)):
        if p != name and p not in ("BaseException",) and exc_matches(p, want) and p != "Exception":
            return True
    return False


BUILTIN_EXC = ["Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "ZeroDivisionError", "AssertionError",
               "RuntimeError", "NotImplementedError", "AttributeError", "ArithmeticError", "LookupError", "OverflowError", "UserWarning",
               "DeprecationWarning", "StopIteration", "FloatingPointError", "Warning"]


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.contracts = {}      # qualified name -> handler
        self.depth = 0

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise Unsupported("module %s" % name)
        m = RepoModule(name, path)
        self.modules[name] = m
        env = Env(None, m)
        m.env = env
        env.vars["__name__"] = name
        with open(path, encoding="utf-8") as f:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(f.read())
        cx = ctx()
        cx.where.append(name)
        try:
            for st in tree.body:
                try:
                    self.exec_stmt(st, env)
                except (Unsupported, PyExc) as e:
                    for n in self._bound_names(st):
                        env.vars[n] = Poison("module-level statement: %s" % e)
        finally:
            cx.where.pop()
        for k, v in env.vars.items():
            if isinstance(v, SymArray):
                v.buf.ext = "module state %s.%s" % (name, k)
            elif isinstance(v, (ListV, DictV)):
                v.ext = "module state %s.%s" % (name, k)
            elif isinstance(v, Obj):
                v.external = "module state %s.%s" % (name, k)
        return m

    def _bound_names(self, st):
        out = []
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.append(n.name)
            elif isinstance(n, ast.alias):
                out.append((n.asname or n.name).split(".")[0])
        return out

    def func(self, qual):
        """'module:name'"""
        m, n = qual.split(":")
        f = self.module(m).env.vars.get(n)
        if f is None:
            raise Unsupported("no function %s" % qual)
        return f

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        cx = ctx()
        if isinstance(f, Func):
            h = self.contracts.get(f.qual)
            if h is not None:
                cx.used_contracts.add(f.qual)
                b = self.bind(f, args, kwargs)
                return h(self, b)
            return self.call_body(f, args, kwargs)
        if isinstance(f, ClassV):
            if f.isexc:
                return ExcV(f.name)
            names = [x[0] for x in f.fields]
            attrs = {}
            for n, d in f.fields:
                if d is not None:
                    attrs[n] = d[0]
            for n, v in zip(names, args):
                attrs[n] = v
            for k, v in kwargs.items():
                if k not in names:
                    raise PyExc("TypeError", "unexpected keyword %s" % k)
                attrs[k] = v
            for n in names:
                if n not in attrs:
                    raise PyExc("TypeError", "missing argument %s" % n)
            return Obj(f.name, attrs)
        if isinstance(f, Poison):
            raise Unsupported("call of %s" % f.why)
        if isinstance(f, (Mod, Obj)):
            raise Unsupported("call of a %s" % type(f).__name__)
        if getattr(f, "interp_builtin", False):
            return f(*args, **kwargs)
        if callable(f):
            args = [plain(a) for a in args]
            kwargs = {k: plain(v) for k, v in kwargs.items()}
            try:
                return wrap(f(*args, **kwargs))
            except TypeError as e:
                if "argument" in str(e):
                    raise Unsupported("library call: %s" % e)
                raise
        raise PyExc("TypeError", "not callable")

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyExc("TypeError", "too many positional arguments")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwo:
                if k in env:
                    raise PyExc("TypeError", "multiple values for argument %s" % k)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, k))
        if a.kwarg is not None:
            d = DictV()
            d.update(extra)
            env[a.kwarg.arg] = d
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            if n not in env:
                env[n] = d
        for n, d in zip(kwo, f.kwdefaults):
            if n not in env and d is not None:
                env[n] = d[0]
        for n in names + kwo:
            if n not in env:
                raise PyExc("TypeError", "%s() missing argument %s" % (f.name, n))
        return env

    def call_body(self, f, args, kwargs):
        cx = ctx()
        if self.depth > 40:
            raise Unsupported("recursion")
        env = Env(f.env, f.module)
        env.vars.update(self.bind(f, args, kwargs))
        if f.module is not None and not isinstance(f.node, ast.Lambda):
            cx.used_funcs.add(f.qual)
        cx.where.append(f.qual.split(".")[-1])
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)):
                raise Unsupported("generator function")
            self.exec_block(f.node.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            cx.where.pop()

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            top = a.name.split(".")[0]
            if top == "spafe":
                raise Unsupported("absolute import of the package")
            if a.asname:
                env.vars[a.asname] = Mod(a.name)
            else:
                env.vars[top] = Mod(top)

    def s_ImportFrom(self, st, env):
        if st.level or (st.module or "").split(".")[0] == "spafe":
            if st.level:
                parts = env.module.name.split(".")
                if not env.module.path.endswith("__init__.py"):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            else:
                base = st.module
            for a in st.names:
                try:
                    sub = self.module(base + "." + a.name)
                    env.vars[a.asname or a.name] = sub
                    continue
                except Unsupported:
                    pass
                m = self.module(base)
                if a.name not in m.env.vars:
                    raise Unsupported("import of %s from %s" % (a.name, base))
                env.vars[a.asname or a.name] = m.env.vars[a.name]
            return
        for a in st.names:
            nm = a.asname or a.name
            if st.module in ("typing", "typing_extensions", "collections.abc", "__future__"):
                env.vars[nm] = TD if a.name == "TypedDict" else Dummy()
                continue
            if st.module == "dataclasses":
                env.vars[nm] = DATACLASS if a.name == "dataclass" else Poison(a.name)
                continue
            try:
                env.vars[nm] = Mod(st.module).attr(a.name)
            except Unsupported as e:
                env.vars[nm] = Poison(str(e))

    def s_FunctionDef(self, st, env):
        defaults = [self.eval(d, env) for d in st.args.defaults]
        for d in defaults:
            if isinstance(d, SymArray):
                d.buf.ext = "default argument of %s" % st.name
            elif isinstance(d, (ListV, DictV)):
                d.ext = "default argument of %s" % st.name
            elif isinstance(d, Obj):
                d.external = "default argument of %s" % st.name
        kwd = [None if d is None else (self.eval(d, env),) for d in st.args.kw_defaults]
        if st.decorator_list:
            env.vars[st.name] = Poison("decorated function %s" % st.name)
            return
        qual = "%s:%s" % (env.module.name, st.name) if env.parent is None else "%s:<local>.%s" % (env.module.name, st.name)
        env.vars[st.name] = Func(st.name, st, env, env.module, defaults, kwd, qual)

    def s_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        c = ClassV(st.name, (), False, bases)
        if any(isinstance(b, ClassV) and b.isexc or isinstance(b, ExcType) for b in bases):
            c.isexc = True
            EXC_PARENTS[st.name] = tuple(b.name for b in bases)
        dc = [self.eval(d, env) for d in st.decorator_list]
        if dc and dc != [DATACLASS]:
            raise Unsupported("class decorator")
        if dc:
            c.dataclass = True
            for s in st.body:
                if isinstance(s, ast.AnnAssign):
                    c.fields.append((s.target.id, None if s.value is None else (self.eval(s.value, env),)))
                elif isinstance(s, ast.FunctionDef):
                    raise Unsupported("dataclass with methods")
        elif not c.isexc and not any(b is TD for b in bases):
            raise Unsupported("class %s" % st.name)
        env.vars[st.name] = c

    def s_Return(self, st, env):
        raise Ret(None if st.value is None else self.eval(st.value, env))

    def s_Raise(self, st, env):
        if st.exc is None:
            raise PyExc("RuntimeError", "re-raise")
        v = self.eval(st.exc, env)
        if isinstance(v, ClassV) and v.isexc or isinstance(v, ExcType):
            raise PyExc(v.name)
        if isinstance(v, ExcV):
            raise PyExc(v.name)
        raise Unsupported("raise")

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc("AssertionError")

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_Try(self, st, env):
        try:
            self.exec_block(st.body, env)
        except PyExc as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                else:
                    tv = self.eval(h.type, env)
                    for x in (tv if isinstance(tv, tuple) else (tv,)):
                        names.append(x.name)
                if any(exc_matches(e.name, n) for n in names):
                    if h.name:
                        env.vars[h.name] = ExcV(e.name)
                    self.exec_block(h.body, env)
                    break
            else:
                self.exec_block(st.finalbody, env)
                raise
        else:
            self.exec_block(st.orelse, env)
        self.exec_block(st.finalbody, env)

    def s_Global(self, st, env):
        env.globals_.update(st.names)

    def s_Delete(self, st, env):
        for x in st.targets:
            if isinstance(x, ast.Name) and x.id in env.vars:
                del env.vars[x.id]
            else:
                raise Unsupported("del")

    def s_With(self, st, env):
        for it in st.items:
            e = it.context_expr
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "errstate":
                continue
            raise Unsupported("with statement")
        self.exec_block(st.body, env)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for tg in st.targets:
            self.assign(tg, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        op = OPS[type(st.op)]
        tg = st.target
        cur = self.eval_target(tg, env)
        v = self.eval(st.value, env)
        if isinstance(cur, SymArray) and not cur.islist:
            r = self.binop(op, cur, v)
            if isinstance(r, SymArray) and promote(r.dt, cur.dt) != cur.dt:
                raise PyExc("TypeError", "cannot cast in-place result")
            cur[tuple(slice(None) for _ in range(cur.nd))] = plain(r)
            if isinstance(tg, ast.Name):
                return
            if isinstance(tg, ast.Subscript):
                return
        if isinstance(cur, ListV) and op == "+":
            self.list_extend(cur, v)
            return
        self.assign(tg, self.binop(op, cur, v), env)

    def eval_target(self, tg, env):
        if isinstance(tg, ast.Name):
            return self.lookup(tg.id, env)
        if isinstance(tg, ast.Subscript):
            return self.subscript(self.eval(tg.value, env), self.eval_index(tg.slice, env))
        if isinstance(tg, ast.Attribute):
            return self.attr(self.eval(tg.value, env), tg.attr)
        raise Unsupported("augmented assignment target")

    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            if tg.id in env.globals_:
                cx = ctx()
                cx.writes.append(("module state %s.%s" % (env.module.name, tg.id), cx.loc(), list(cx.hyps)))
                outer_write(0)
                e = env.module.env
                old = e.vars.get(tg.id)
                cx.undo.append(lambda: e.vars.__setitem__(tg.id, old))
                e.vars[tg.id] = v
                return
            env.vars[tg.id] = v
            return
        if isinstance(tg, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(tg.elts))
            for x, y in zip(tg.elts, items):
                if isinstance(x, ast.Starred):
                    raise Unsupported("starred assignment")
                self.assign(x, y, env)
            return
        if isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            k = self.eval_index(tg.slice, env)
            self.store(o, k, v)
            return
        if isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            if isinstance(o, Obj):
                cx = ctx()
                outer_write(0)
                if o.external is not None:
                    cx.writes.append((o.external, cx.loc(), list(cx.hyps)))
                old = o.attrs.get(tg.attr)
                cx.undo.append(lambda: o.attrs.__setitem__(tg.attr, old))
                o.attrs[tg.attr] = v
                return
            if isinstance(o, Func):
                ctx().writes.append(("function attribute", ctx().loc(), []))
            raise Unsupported("attribute assignment")
        raise Unsupported("assignment target")

    def unpack(self, v, n):
        v2 = v
        if isinstance(v2, ListV):
            v2 = v2.v
        if isinstance(v2, (tuple, list)):
            if len(v2) != n:
                raise PyExc("ValueError", "unpack")
            return list(v2)
        if isinstance(v2, SymArray):
            c = t.constval(v2._shape[0])
            if c is None:
                ctx().safe("ValueError", t.eq(v2._shape[0], t.num(n)), "unpack length")
            elif c != n:
                raise PyExc("ValueError", "unpack")
            return [v2[i] for i in range(n)]
        raise Unsupported("unpack of %s" % type(v).__name__)

    def store(self, o, k, v):
        if isinstance(o, SymArray):
            o[plain(k)] = plain(v)
            return
        if isinstance(o, ListV):
            if isinstance(k, slice):
                if isinstance(o.v, SymArray):
                    o.v[k] = plain(v)
                    return
                raise Unsupported("list slice store")
            kv = asnum(k)
            if isinstance(o.v, list):
                c = t.constval(kv.t)
                if c is not None:
                    i = int(c)
                    if not -len(o.v) <= i < len(o.v):
                        raise PyExc("IndexError", "list assignment index out of range")
                    l = list(o.v)
                    l[i] = v
                    o.set(l)
                    return
                a = toarray(plain(o))
                o.set(SymArray.make(a._shape, a.snap(), a.dt, None, True))
            if isinstance(o.v, SymArray):
                pv = plain(v)
                if isinstance(pv, SymArray) and pv.nd == 0:
                    pv = pv.get()
                if not isscalar(pv):
                    raise Unsupported("array stored into a list")
                o.v[kv if not isinstance(k, int) else k] = pv
                return
            raise Unsupported("store into a symbolic list")
        if isinstance(o, DictV):
            if isinstance(k, (str, int)):
                cx = ctx()
                outer_write(o.uid)
                if o.ext is not None:
                    cx.writes.append((o.ext, cx.loc(), list(cx.hyps)))
                had, old = k in o, o.get(k)

                def back():
                    if had:
                        dict.__setitem__(o, k, old)
                    else:
                        o.pop(k, None)
                cx.undo.append(back)
                dict.__setitem__(o, k, v)
                return
            raise Unsupported("dictionary store with a symbolic key")
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        raise Unsupported("store into %s" % type(o).__name__)

    def list_append(self, l, v):
        cx = ctx()
        for f in reversed(getattr(cx, "loops", [])):
            if l.uid < f.start:
                f.appended.setdefault(l.uid, (l, []))[1].append(v)
                if l.ext is not None:
                    cx.writes.append((l.ext, cx.loc(), list(cx.hyps)))
                return
        if isinstance(l.v, list):
            l.set(l.v + [v])
            return
        pv = plain(v)
        if isinstance(l.v, SymArray) and isscalar(pv):
            l.set(concat([l.v, [pv]], islist=True))
            return
        n, it = self.seq(l)
        l.set(SymList(t.add(n, t.ONE), lambda k: vmerge(t.lt(k, n), it(k), v)))

    def list_extend(self, l, v):
        cx = ctx()
        for f in reversed(getattr(cx, "loops", [])):
            if l.uid < f.start:
                raise Unsupported("list extended in a loop")
        r = self.binop("+", l, v if isinstance(v, ListV) else ListV(plain(v)))
        l.set(r.v)

    # ------------------------------------------------------------------ loops
    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        conc = self.concrete(it)
        if conc is not None and len(conc) <= 64:
            try:
                for x in conc:
                    self.assign(st.target, x, env)
                    try:
                        self.exec_block(st.body, env)
                    except Cont:
                        pass
            except Brk:
                return
            self.exec_block(st.orelse, env)
            return
        n, item = self.seq(it)

        def body(k, e):
            self.assign(st.target, item(k), e)
            self.exec_block(st.body, e)
        names = assigned_names(st.body) | assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
        if not self.loop(n, body, names, env, target=assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])):
            return
        self.exec_block(st.orelse, env)

    def s_While(self, st, env):
        names = assigned_names(st.body)

        def body(k, e):
            if not self.truth(self.eval(st.test, e)):
                raise Brk()
            self.exec_block(st.body, e)
        # concrete loops
        if self.loop(None, body, names, env):
            self.exec_block(st.orelse, env)

    def s_Break(self, st, env):
        raise Brk()

    def s_Continue(self, st, env):
        raise Cont()

    def concrete(self, it):
        if isinstance(it, ListV):
            it = it.v
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, range):
            return list(it)
        if isinstance(it, SymRange):
            if all(isinstance(x, int) for x in (it.start, it.stop, it.step)):
                r = range(it.start, it.stop, it.step)
                if len(r) <= 64:
                    return list(r)
            return None
        if isinstance(it, SymArray):
            c = t.constval(it._shape[0]) if it.nd else None
            if c is not None and c <= 16:
                return [row(it, t.num(i)) for i in range(int(c))]
        if isinstance(it, SymList):
            c = t.constval(it.n)
            if c is not None and c <= 16:
                return [it.item(t.num(i)) for i in range(int(c))]
        return None

    def seq(self, it):
        """iterable -> (length term, item(k term))"""
        if isinstance(it, ListV):
            it = it.v
        if isinstance(it, (list, tuple, dict, range)):
            l = self.concrete(it)

            def pick_(k):
                c = t.constval(k)
                if c is not None:
                    return l[int(c)]
                r = l[-1]
                for j in range(len(l) - 2, -1, -1):
                    r = vmerge(t.eq(k, t.num(j)), l[j], r)
                return r
            return t.num(len(l)), pick_
        if isinstance(it, SymArray):
            if it.nd == 0:
                raise PyExc("TypeError", "iteration over a 0-d array")
            return it._shape[0], lambda k: row(it, k)
        if isinstance(it, SymRange):
            return it.length(), it.item
        if isinstance(it, SymList):
            return it.n, it.item
        if isinstance(it, Poison):
            raise Unsupported(it.why)
        raise Unsupported("iteration over %s" % type(it).__name__)

    def loop(self, n, body, names, env, target=frozenset()):
        """summarise a loop of n iterations (None: while loop); True when it ends normally, False after a break"""
        return LoopSummary(self, n, body, names, env, target).run()

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, ListV):
            n, _ = self.seq(v)
            return ctx().decide(t.lt(t.ZERO, n))
        if isinstance(v, Num):
            return bool(v)
        if isinstance(v, SymArray):
            return bool(v)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, (SymRange, SymList)):
            n, _ = self.seq(v)
            return ctx().decide(t.lt(t.ZERO, n))
        if isinstance(v, SymStr):
            return bool(v)
        if isinstance(v, Func) or isinstance(v, Obj):
            return True
        return bool(v)

    def lookup(self, n, env):
        try:
            v = env.get(n)
        except KeyError:
            if n in BUILTINS:
                b = BUILTINS[n]
                return b(self) if isinstance(b, BI) else b
            raise PyExc("NameError", n)
        return v

    def e_Constant(self, e, env):
        if isinstance(e.value, (int, float, bool, str, complex)) or e.value is None:
            if isinstance(e.value, float) and not isinstance(e.value, bool):
                return asnum(e.value)
            if isinstance(e.value, complex):
                return asnum(e.value)
            return e.value
        if e.value is Ellipsis:
            return Ellipsis
        raise Unsupported("constant")

    def e_Name(self, e, env):
        v = self.lookup(e.id, env)
        if isinstance(v, Poison):
            raise Unsupported("%s: %s" % (e.id, v.why))
        return v

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return ListV(list(self._elts(e.elts, env)))

    def _elts(self, elts, env):
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                c = self.concrete(v)
                if c is None:
                    raise Unsupported("starred symbolic sequence")
                yield from c
            else:
                yield self.eval(x, env)

    def e_Dict(self, e, env):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
                continue
            kk = self.eval(k, env)
            if not isinstance(kk, (str, int, bool)) and kk is not None:
                raise Unsupported("dictionary key")
            dict.__setitem__(d, kk, self.eval(v, env))
        return d

    def e_Set(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_JoinedStr(self, e, env):
        return "<formatted>"

    def e_Lambda(self, e, env):
        defaults = [self.eval(d, env) for d in e.args.defaults]
        return Func("<lambda>", e, env, env.module, defaults, [None] * len(e.args.kwonlyargs), env.module.name + ":<lambda>")

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            b = self.truth(v)
            if isinstance(e.op, ast.And) and not b:
                return v
            if isinstance(e.op, ast.Or) and b:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        v = plain(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, int) and not isinstance(v, bool):
                return -v
            if v is None:
                raise PyExc("TypeError", "bad operand")
            return unop("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, (SymArray,)) and v.dt == "b" or isinstance(v, Num) and v.dt == "b":
                return unop("~", v)
            raise Unsupported("~")

    def e_BinOp(self, e, env):
        return self.binop(OPS[type(e.op)], self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, ListV) or isinstance(b, ListV):
            if op == "+" and isinstance(a, ListV) and isinstance(b, ListV):
                if isinstance(a.v, list) and isinstance(b.v, list):
                    return ListV(a.v + b.v)
                pa, pb = plain(a), plain(b)
                if all(isinstance(x, SymArray) or isinstance(x, list) and all(isscalar(y) for y in x) for x in (pa, pb)):
                    if isinstance(pa, list) and not pa:
                        return ListV(pb)
                    if isinstance(pb, list) and not pb:
                        return ListV(pa)
                    return ListV(concat([pa, pb], islist=True))
                na, ia = self.seq(a)
                nb, ib = self.seq(b)
                return ListV(SymList(t.add(na, nb), lambda k: vmerge(t.lt(k, na), ia(k), ib(t.sub(k, na)))))
            if op == "*" and (isscalar(a) or isscalar(b)) and not (isinstance(a, ListV) and isinstance(b, ListV)):
                l, k = (a, b) if isinstance(a, ListV) else (b, a)
                if isinstance(k, int) and isinstance(l.v, list):
                    return ListV(l.v * k)
                kn = asnum(k)
                if kn.np and kn.dt in "if":
                    # numpy scalar * list -> array
                    return wrap(binop("*", plain(l), k))
                if kn.dt not in "ib":
                    raise PyExc("TypeError", "can't multiply sequence by non-int of type 'float'")
                if isinstance(l.v, list) and len(l.v) == 1 and isscalar(l.v[0]):
                    v = asnum(l.v[0])
                    return ListV(SymArray.make((pos_dim(kn.t),), lambda idx: v, v.dt, None, True))
                raise Unsupported("list repetition")
            if op in ("==", "!="):
                raise Unsupported("list comparison")
            o = b if isinstance(a, ListV) else a
            if isinstance(o, SymArray) or (isinstance(o, Num) and o.np):
                return wrap(binop(op, plain(a), plain(b)))
            raise PyExc("TypeError", "list operand")
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("poisoned operand")
        if isinstance(a, Sparse) or isinstance(b, Sparse):
            if op == "*":
                return a * b if isinstance(a, Sparse) else b.__rmul__(a)
            if op == "@":
                return snp.dot(a, b)
            if op == "/":
                return a / b
            raise Unsupported("sparse operator")
        if op == "@":
            return snp.dot(a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "+":
            return a + b
        if isinstance(a, str) and op == "%":
            return "<formatted>"
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, SymRange) or isinstance(b, SymRange):
            o = b if isinstance(a, SymRange) else a
            if not isinstance(o, SymArray) and not (isinstance(o, Num) and o.np):
                raise PyExc("TypeError", "range operand")
        if isinstance(a, (Dummy, TypeTag, ClassV)) or isinstance(b, (Dummy, TypeTag, ClassV)):
            return Dummy()
        if op in ("<<", ">>", "^"):
            raise Unsupported("bit operator")
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and not isinstance(a, bool):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("//", "%"):
                if b == 0:
                    raise PyExc("ZeroDivisionError", "division")
                return a // b if op == "//" else a % b
            if op == "**" and b >= 0:
                return a ** b
            if op == "/" and b == 0:
                raise PyExc("ZeroDivisionError", "division")
        return wrap(binop(op, a, b))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                res = v
            if len(e.ops) > 1:
                if isinstance(v, SymArray):
                    raise PyExc("ValueError", "ambiguous truth value")
                if r is not e.comparators[-1]:
                    if not self.truth(v):
                        return v
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(b, bool) and isinstance(a, Num) and a.dt == "b":
                r = self.truth(a) == b
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, dict):
                opts = list(b.keys())
            else:
                opts = self.concrete(b)
            if opts is None:
                raise Unsupported("membership test")
            r = False
            for o in opts:
                v = self.compare(ast.Eq(), a, o)
                if self.truth(v):
                    r = True
                    break
            return r if isinstance(op, ast.In) else not r
        o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(op)]
        a, b = plain(a), plain(b)
        if isinstance(a, DType) or isinstance(b, DType):
            if isinstance(a, DType) and isinstance(b, DType):
                return (a == b) if o == "==" else not (a == b)
            d = b if isinstance(a, DType) else a
            r = (a.c if isinstance(a, DType) else b.c) == snp.dts(d)
            return r if o == "==" else not r
        if isinstance(a, tuple) and isinstance(b, tuple) and o in ("==", "!="):
            r = len(a) == len(b) and all(self.truth(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b))
            return r if o == "==" else not r
        if o == ">":
            return wrap(binop("<", b, a))
        if o == ">=":
            return wrap(binop("<=", b, a))
        if (a is None or b is None) and o in ("==", "!="):
            return (a is b) if o == "==" else (a is not b)
        return wrap(binop(o, a, b))

    def e_Attribute(self, e, env):
        return self.attr(self.eval(e.value, env), e.attr)

    def attr(self, o, n):
        if isinstance(o, Mod):
            return o.attr(n)
        if isinstance(o, RepoModule):
            v = o.env.vars.get(n)
            if v is None:
                raise Unsupported("module attribute %s" % n)
            return v
        if isinstance(o, SymArray):
            return arr_attr(o, n)
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            raise PyExc("AttributeError", n)
        if isinstance(o, ListV):
            if n == "append":
                return bi(lambda v: self.list_append(o, v))
            if n == "extend":
                return bi(lambda v: self.list_extend(o, v))
            if n == "copy":
                return bi(lambda: ListV(list(o.v) if isinstance(o.v, list) else freeze(o.v)))
            raise Unsupported("list method %s" % n)
        if isinstance(o, DictV):
            if n == "get":
                return bi(lambda k, d=None: self.dict_get(o, k, d))
            if n == "items":
                return bi(lambda: [(k, v) for k, v in o.items()])
            if n == "keys":
                return bi(lambda: list(o.keys()))
            if n == "values":
                return bi(lambda: list(o.values()))
            if n == "update":
                return bi(lambda d: [self.store(o, k, v) for k, v in d.items()] and None)
            raise Unsupported("dict method %s" % n)
        if isinstance(o, Num):
            if n in ("real",):
                return unop("real", o)
            if n in ("conj", "conjugate"):
                return bi(lambda: unop("conj", o))
            if n in ("astype",):
                return bi(lambda d: snp.cast_eager(o, snp.dts(d)))
            if n in ("item",):
                return bi(lambda: Num(o.t, o.ok, o.dt, False))
            if n == "dtype":
                return DType(o.dt)
            if n == "shape":
                return ()
            if n == "ndim":
                return 0
            if n in ("max", "min", "sum", "mean"):
                return bi(lambda: o)
            if n == "is_integer":
                return bi(lambda: V.simple_if(Num(t.eq(t.floor(o.t), o.t), dt="b")))
            raise Unsupported("scalar attribute %s" % n)
        if isinstance(o, (Sparse, snp.FInfo)):
            return getattr(o, n)
        if isinstance(o, str) and n in ("lower", "upper", "strip"):
            return bi(lambda: getattr(o, n)())
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if o is None:
            raise PyExc("AttributeError", "None.%s" % n)
        raise Unsupported("attribute %s of %s" % (n, type(o).__name__))

    def dict_get(self, d, k, default):
        try:
            return self.subscript(d, k)
        except PyExc as e:
            if e.name == "KeyError":
                return default
            raise

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        return self.subscript(self.eval(e.value, env), self.eval_index(e.slice, env))

    def subscript(self, o, k):
        if isinstance(o, (Dummy, TypeTag, ClassV)):
            return Dummy()
        if isinstance(o, SymArray):
            k = plain(k)
            if isinstance(k, tuple):
                k = tuple(plain(x) for x in k)
            return wrap(o[k])
        if isinstance(o, ListV):
            if isinstance(k, slice):
                if isinstance(o.v, list):
                    b = [None if x is None else (int(t.constval(asnum(x).t)) if t.constval(asnum(x).t) is not None else "?") for x in (k.start, k.stop, k.step)]
                    if "?" not in b:
                        return ListV(o.v[slice(*b)])
                    return ListV(toarray(plain(o))[k])
                if isinstance(o.v, SymArray):
                    return ListV(o.v[k])
                st, sp, ln = SA.clamp_slice(k, o.v.n)
                return ListV(SymList(ln, lambda i: o.v.item(t.add(st, t.mul2(sp, i)))))
            if isinstance(o.v, SymArray):
                return wrap(o.v[k])
            kn = asnum(k)
            if kn.dt not in "ib":
                raise PyExc("TypeError", "list indices must be integers")
            c = t.constval(kn.t)
            if isinstance(o.v, list):
                if c is not None:
                    if not -len(o.v) <= int(c) < len(o.v):
                        raise PyExc("IndexError", "list index out of range")
                    return o.v[int(c)]
            n, it = self.seq(o)
            return it(SA.norm_index(kn, n))
        if isinstance(o, tuple) or isinstance(o, list):
            if isinstance(k, slice):
                b = [None if x is None else int(asnum(x)) if not isinstance(x, int) else x for x in (k.start, k.stop, k.step)]
                return o[slice(*b)]
            c = t.constval(asnum(k).t)
            if c is None:
                n, it = self.seq(o)
                return it(SA.norm_index(k, n))
            if not -len(o) <= int(c) < len(o):
                raise PyExc("IndexError", "tuple index out of range")
            return o[int(c)]
        if isinstance(o, DictV):
            if isinstance(k, SymStr):
                s = concretise_str(k, [x for x in o.keys() if isinstance(x, str)])
                if s is None:
                    raise PyExc("KeyError", "unknown key")
                return o[s]
            if isinstance(k, Num):
                c = t.constval(k.t)
                if c is None:
                    for x in o.keys():
                        if isinstance(x, int) and ctx().decide(t.eq(k.t, t.num(x))):
                            return o[x]
                    raise PyExc("KeyError", "unknown key")
                k = int(c) if c.denominator == 1 else c
            if isinstance(k, (str, int)) or k is None:
                if k not in o:
                    raise PyExc("KeyError", repr(k))
                return o[k]
            if isinstance(k, tuple):
                raise Unsupported("tuple as a dictionary key")
            raise PyExc("KeyError", "unhashable or unknown key")
        if isinstance(o, str):
            cs = [None if x is None else t.constval(asnum(x).t) for x in ((k.start, k.stop, k.step) if isinstance(k, slice) else (k,))]
            if any(c is None and x is not None for c, x in zip(cs, (k.start, k.stop, k.step) if isinstance(k, slice) else (k,))):
                raise Unsupported("symbolic index into a string")
            cs = [None if c is None else int(c) for c in cs]
            if isinstance(k, slice):
                return o[slice(*cs)]
            if not -len(o) <= cs[0] < len(o):
                raise PyExc("IndexError", "string index out of range")
            return o[cs[0]]
        if isinstance(o, SymRange):
            if isinstance(k, slice):
                raise Unsupported("slice of a range")
            return o.item(SA.norm_index(k, o.length()))
        if isinstance(o, SymList):
            return self.subscript(ListV(o), k)
        if isinstance(o, snp.RClass):
            return wrap(o[plain(k)])
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if o is None or isscalar(o):
            raise PyExc("TypeError", "object is not subscriptable")
        raise Unsupported("subscript of %s" % type(o).__name__)

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = list(self._elts(e.args, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported("** of a symbolic mapping")
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        if isinstance(f, ExcType):
            return ExcV(f.name)
        return self.call(f, args, kw)

    def e_ListComp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, env):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("dict comprehension")
        g = e.generators[0]
        c = self.concrete(self.eval(g.iter, env))
        if c is None:
            raise Unsupported("symbolic dict comprehension")
        d = DictV()
        for x in c:
            e2 = Env(env, env.module)
            self.assign(g.target, x, e2)
            dict.__setitem__(d, self.eval(e.key, e2), self.eval(e.value, e2))
        return d

    def comp(self, elt, gens, env):
        g = gens[0]
        it = self.eval(g.iter, env)
        conc = self.concrete(it)
        if conc is not None and (len(conc) <= 64):
            out = []
            sub = []
            for x in conc:
                e2 = Env(env, env.module)
                self.assign(g.target, x, e2)
                if not all(self.truth(self.eval(c, e2)) for c in g.ifs):
                    continue
                if len(gens) == 1:
                    out.append(self.eval(elt, e2))
                else:
                    sub.append(self.comp(elt, gens[1:], e2))
            if len(gens) > 1:
                r = ListV([])
                for s in sub:
                    r = self.binop("+", r, s)
                return r
            return ListV(out)
        n, item = self.seq(it)
        cx = ctx()
        k = t.fresh("k")

        def one():
            e2 = Env(env, env.module)
            self.assign(g.target, item(k), e2)
            if g.ifs:
                keep = True
                for c in g.ifs:
                    v = self.eval(c, e2)
                    if not self.truth(v):
                        return ("skip", None)
            if len(gens) == 1:
                return ("item", freeze(self.eval(elt, e2)))
            return ("list", freeze(self.comp(elt, gens[1:], e2)))
        res = self.explore_body([k], n, one)
        kinds = set(r[0] for _, r in res)
        if not res:
            # no feasible iteration
            return ListV([])
        if kinds == {"list"}:
            val = merge_paths([(c, r[1]) for c, r in res])
            if not isinstance(val, ListV):
                raise Unsupported("nested comprehension")
            n2, _ = self.seq(val)
            if k in n2.fv:
                raise Unsupported("ragged nested comprehension")
            tot = t.mul2(n, n2)
            inner = val

            def fn(i):
                q = t.floor(t.div(i, n2))
                v = ssubst(inner, {k: q})
                _, it2 = self.seq(v)
                return it2(t.sub(i, t.mul2(n2, q)))
            return mk_list(tot, fn)
        if "skip" in kinds:
            keep = t.or_(*[t.and_(*c) for c, r in res if r[0] == "item"])
            vals = [(c, r[1]) for c, r in res if r[0] == "item"]
            if not vals:
                return ListV([])
            val = merge_paths(vals)
            l = t.lam([k], keep)
            cnt = count_lam(n, l)
            return mk_list(cnt, lambda i: ssubst(val, {k: t.sel(n, l, i)}))
        val = merge_paths([(c, r[1]) for c, r in res])
        return mk_list(n, lambda i: ssubst(val, {k: i}))

    def explore_body(self, ks, n, fn):
        """explore fn with 0 <= k < n assumed; hoists conditions independent of k; exceptions become obligations"""
        cx = ctx()
        for _ in range(40):
            h0 = list(cx.hyps)
            o0 = len(cx.obls)
            for k in ks:
                cx.hyps += [t.le(t.ZERO, k), t.lt(k, n)]
            hyp_all = list(cx.hyps)

            def run():
                try:
                    return fn()
                except PyExc as e:
                    return ("raise", e)
            try:
                res = cx.explore(run)
            finally:
                cx.hyps = h0
            # hoist
            kset = frozenset(ks)
            h = None
            for conds, r in res:
                for c in conds:
                    if not (c.fv & kset):
                        h = c
                        break
                if h is not None:
                    break
            if h is None:
                break
            del cx.obls[o0:]
            cx.decide(h)
        else:
            raise Unsupported("loop conditions")
        out = []
        for conds, r in res:
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "raise":
                c = t.and_(*conds)
                if c is t.TRUE or not conds:
                    # every iteration raises: the loop raises as soon as it runs once
                    if cx.decide(t.lt(t.ZERO, n)):
                        raise r[1]
                    return []
                h0 = list(cx.hyps)
                cx.hyps = hyp_all
                try:
                    cx.safe(r[1].name, t.not_(c), "exception in a loop")
                finally:
                    cx.hyps = h0
            else:
                out.append((conds, r))
        return out

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v


def mk_list(n, fn):
    p = fn(t.fresh("p"))
    if isscalar(p):
        dt = asnum(p).dt
        return ListV(SymArray.make((n,), lambda idx: asnum(fn(idx[0])), dt, None, True))
    return ListV(SymList(n, fn))


def row(a, k):
    """a[k] without a bounds obligation (k is known to be in range)"""
    dims = []
    for d in a.dims:
        if d[0] == "i":
            dims.append(d)
        elif d[3] == 0:
            dims.append(("i", t.add(d[1], t.mul2(d[2], k))))
        else:
            dims.append(("s", d[1], d[2], d[3] - 1))
    v = SymArray(a.buf, dims, a._shape[1:], a.ro)
    if v.nd == 0:
        n = v.get()
        return V.simple_if(Num(n.t, n.ok, n.dt, not a.islist))
    return v


def merge_paths(ps):
    val = ps[-1][1]
    for c, v in reversed(ps[:-1]):
        val = vmerge(t.and_(*c), v, val)
    return val


def wrap(v):
    """library result -> interpreter value"""
    if isinstance(v, list):
        return ListV([wrap(x) for x in v])
    if isinstance(v, SymArray) and v.islist:
        return ListV(v)
    if isinstance(v, tuple):
        return tuple(wrap(x) for x in v)
    if isinstance(v, SymList):
        return ListV(v)
    return v


def assigned_names(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Name) and False:
                pass
    for st in body:
        if isinstance(st, ast.Assign):
            for tg in st.targets:
                for n in ast.walk(tg):
                    if isinstance(n, ast.Name):
                        if isinstance(tg, (ast.Name, ast.Tuple, ast.List)):
                            out.add(n.id)
    return out


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


def bi(f):
    f.interp_builtin = True
    return f


class BI:
    """builtin needing the interpreter"""

    def __init__(self, f):
        self.f = f

    def __call__(self, interp):
        return bi(lambda *a, **k: self.f(interp, *a, **k))


class ExcType:
    def __init__(self, name):
        self.name = name


TD = Dummy()
DATACLASS = Dummy()


# ------------------------------------------------------------------ builtins
def b_range(I, *a):
    a = [asnum(x) for x in a]
    for x in a:
        if x.dt not in "ib":
            raise PyExc("TypeError", "'float' object cannot be interpreted as an integer")
    a = [simple_i(x) for x in a]
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    if len(a) == 2:
        return SymRange(a[0], a[1], 1)
    if isinstance(a[2], int) and a[2] == 0:
        raise PyExc("ValueError", "range() arg 3 must not be zero")
    return SymRange(a[0], a[1], a[2])


def simple_i(x):
    c = t.constval(x.t)
    return int(c) if c is not None else Num(x.t, x.ok, "i")


def b_len(I, x):
    if isinstance(x, ListV):
        x = x.v
    if isinstance(x, (list, tuple, dict, str)):
        return len(x)
    if isinstance(x, SymArray):
        if x.nd == 0:
            raise PyExc("TypeError", "len() of unsized object")
        return ival(x._shape[0])
    if isinstance(x, SymList):
        return ival(x.n)
    if isinstance(x, SymRange):
        return ival(x.length())
    if isscalar(x) or x is None:
        raise PyExc("TypeError", "object has no len()")
    raise Unsupported("len of %s" % type(x).__name__)


def scalar_of(x):
    if isinstance(x, SymArray):
        if all(t.constval(s) == 1 for s in x._shape):
            return x.get(*[t.ZERO] * x.nd)
        raise PyExc("TypeError", "only length-1 arrays can be converted")
    if isinstance(x, (ListV, tuple)) or x is None:
        raise PyExc("TypeError", "cannot convert")
    if isinstance(x, (str, SymStr)):
        raise Unsupported("number from a string")
    return asnum(x)


def b_int(I, x=0):
    v = scalar_of(x)
    if v.dt == "c":
        raise PyExc("TypeError", "int of complex")
    if v.ok is not t.TRUE:
        ctx().safe("ValueError", v.ok, "int() of a defined value")
    return ival(trunc_t(nt(v), True))


def b_float(I, x=0):
    if isinstance(x, str):
        raise Unsupported("float of a string")
    v = scalar_of(x)
    return Num(nt(v), v.ok, "f", False)


def b_abs(I, x):
    return wrap(unop("abs", plain(x)))


def b_bool(I, x=False):
    return I.truth(x)


def minmax(name):
    def f(I, *a, **kw):
        if kw:
            raise Unsupported("%s keywords" % name)
        if len(a) == 1:
            c = I.concrete(a[0])
            if c is None:
                n, it = I.seq(a[0])
                p = it(t.fresh("p"))
                if not isscalar(p):
                    raise Unsupported("%s of non-scalars" % name)
                return wrap(rext(name)(n, lambda v: asnum(it(v))))
            a = c
            if not a:
                raise PyExc("ValueError", "%s() arg is an empty sequence" % name)
        r = a[0]
        for x in a[1:]:
            if not isscalar(x) or not isscalar(r):
                raise Unsupported("%s of non-scalars" % name)
            v = (max_num if name == "max" else min_num)(r, x, True)
            r = V.simple_if(v)
        return r
    return f


def b_sum(I, x, start=0):
    c = I.concrete(x)
    if c is not None:
        r = start
        for y in c:
            r = I.binop("+", r, y)
        return r
    n, it = I.seq(x)
    p = it(t.fresh("p"))
    if isscalar(p):
        s = rsum(n, lambda v: asnum(it(v)))
        s = V.simple_if(Num(s.t, s.ok, s.dt, asnum(p).np))
        return I.binop("+", start, s)
    if isinstance(p, SymArray):
        a = toarray(plain(x) if not isinstance(x, SymArray) else x)
        return I.binop("+", start, snp.sum_(a, 0))
    raise Unsupported("sum of %s" % type(p).__name__)


def b_enumerate(I, x, start=0):
    c = I.concrete(x)
    if c is not None:
        return [(i + start, y) for i, y in enumerate(c)]
    n, it = I.seq(x)
    return SymList(n, lambda k: (ival(t.add(k, I_(start))), it(k)))


def b_zip(I, *xs):
    cs = [I.concrete(x) for x in xs]
    if all(c is not None for c in cs):
        return [tuple(z) for z in zip(*cs)]
    ss = [I.seq(x) for x in xs]
    n = ss[0][0]
    cx = ctx()
    for m, _ in ss[1:]:
        if m is n or cx.implied(t.eq(m, n)):
            continue
        n = n if cx.implied(t.le(n, m)) else m if cx.implied(t.le(m, n)) else t.min2(n, m)
    return SymList(n, lambda k: tuple(it(k) for _, it in ss))


def b_list(I, x=()):
    c = I.concrete(x)
    if c is not None:
        return ListV(c)
    n, it = I.seq(x)
    return mk_list(n, it)


def b_tuple(I, x=()):
    c = I.concrete(x)
    if c is None:
        raise Unsupported("tuple of a symbolic sequence")
    return tuple(c)


def b_reversed(I, x):
    c = I.concrete(x)
    if c is not None:
        return list(reversed(c))
    n, it = I.seq(x)
    return SymList(n, lambda k: it(t.sub(t.sub(n, t.ONE), k)))


def b_map(I, f, *xs):
    if len(xs) != 1:
        raise Unsupported("map")
    c = I.concrete(xs[0])
    if c is not None:
        return ListV([I.call(f, [x]) for x in c])
    n, it = I.seq(xs[0])
    k = t.fresh("k")
    res = I.explore_body([k], n, lambda: ("item", freeze(I.call(f, [it(k)]))))
    val = merge_paths([(c, r[1]) for c, r in res])
    return mk_list(n, lambda i: ssubst(val, {k: i}))


def b_isinstance(I, x, ty):
    tys = ty if isinstance(ty, tuple) else (ty,)
    r = False
    for y in tys:
        if isinstance(y, TypeTag):
            if y.name == "numpy.ndarray":
                r = r or (isinstance(x, SymArray) and not x.islist)
            elif y.name in ("numpy.integer",):
                r = r or (isinstance(x, Num) and x.np and x.dt == "i")
            elif y.name in ("numpy.floating",):
                r = r or (isinstance(x, Num) and x.np and x.dt == "f")
            else:
                raise Unsupported("isinstance %s" % y.name)
        elif y in (int, float, str, list, tuple, dict, bool, complex) or isinstance(y, BI) or getattr(y, "interp_builtin", False):
            name = getattr(y, "tname", None) or getattr(y, "__name__", None)
            if name == "int":
                r = r or (isinstance(x, int) or isinstance(x, Num) and x.dt in "ib" and not x.np)
            elif name == "float":
                r = r or (isinstance(x, Num) and x.dt == "f")
            elif name == "str":
                r = r or isinstance(x, (str, SymStr))
            elif name == "list":
                r = r or isinstance(x, ListV)
            elif name == "tuple":
                r = r or isinstance(x, tuple)
            elif name == "dict":
                r = r or isinstance(x, dict)
            elif name == "bool":
                r = r or isinstance(x, bool) or isinstance(x, Num) and x.dt == "b"
            else:
                raise Unsupported("isinstance")
        elif isinstance(y, ClassV):
            r = r or (isinstance(x, Obj) and x.cls == y.name)
        else:
            raise Unsupported("isinstance")
    return r


def b_round(I, x, nd=None):
    if nd is None:
        v = scalar_of(x)
        return ival(v.t if v.t.isint else t.app("rint", (v.t,), True))
    return snp.round_(plain(x), nd)


def b_pow(I, a, b):
    return I.binop("**", a, b)


def b_print(I, *a, **k):
    return None


def b_divmod(I, a, b):
    return (I.binop("//", a, b), I.binop("%", a, b))


def b_any(I, x):
    return quant(I, x, True)


def b_all(I, x):
    return quant(I, x, False)


def quant(I, x, ex):
    c = I.concrete(x)
    if c is not None:
        for y in c:
            if I.truth(y) == ex:
                return ex
        return not ex
    n, it = I.seq(x)
    v = t.fresh("s")
    b = asnum(it(v))
    bt = b.t if b.t.sort == "b" else t.not_(t.eq(b.t, t.ZERO))
    return V.simple_if(Num(t.not_(t.forall_(n, [v], t.not_(bt))) if ex else t.forall_(n, [v], bt), dt="b"))


class TypeBI(BI):
    def __init__(self, f, name, cls):
        BI.__init__(self, f)
        self.tname, self.cls = name, cls

    def __call__(self, interp):
        r = bi(lambda *a, **k: self.f(interp, *a, **k))
        r.tname = self.tname
        r.cls = self.cls
        return r


BUILTINS = {
    "range": BI(b_range), "len": BI(b_len), "int": TypeBI(b_int, "int", int), "float": TypeBI(b_float, "float", float), "abs": BI(b_abs),
    "bool": TypeBI(b_bool, "bool", bool), "max": BI(minmax("max")), "min": BI(minmax("min")), "sum": BI(b_sum), "enumerate": BI(b_enumerate),
    "zip": BI(b_zip), "list": TypeBI(b_list, "list", list), "tuple": TypeBI(b_tuple, "tuple", tuple), "reversed": BI(b_reversed), "map": BI(b_map),
    "isinstance": BI(b_isinstance), "round": BI(b_round), "pow": BI(b_pow), "print": BI(b_print), "divmod": BI(b_divmod), "any": BI(b_any),
    "all": BI(b_all), "str": TypeBI(lambda I, x="": "<str>", "str", str), "dict": TypeBI(lambda I, **k: DictV(k), "dict", dict),
    "complex": TypeBI(lambda I, a=0, b=0: I.binop("+", a, I.binop("*", asnum(1j), b)), "complex", complex),
    "True": True, "False": False, "None": None, "object": Dummy(), "property": Dummy(), "__name__": "m",
}
for _e in BUILTIN_EXC:
    BUILTINS[_e] = ExcType(_e)

# dtype arguments may be the builtin types
_old_dts = snp.dts


def dts2(d):
    c = getattr(d, "cls", None)
    return _old_dts(c if c is not None else d)


snp.dts = dts2

from .loops import LoopSummary  # noqa: E402
