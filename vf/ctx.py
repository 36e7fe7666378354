"""Execution context: path conditions, decisions (forking by replay), obligations, undo log."""
import itertools
from . import terms as t
from .prover import Prover, Facts


class PyExc(Exception):
    """an exception of the interpreted program"""

    def __init__(self, name, msg=""):
        Exception.__init__(self, "%s: %s" % (name, msg))
        self.name = name


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Obligation:
    __slots__ = ("kind", "label", "status", "info", "path", "cond")

    def __init__(self, kind, label, status, info, path, cond=None):
        self.kind, self.label, self.status, self.info, self.path, self.cond = kind, label, status, info, path, cond

    def __repr__(self):
        return "<%s %s: %s>" % (self.kind, self.label, self.status)


class Frame:
    """one level of path exploration"""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.conds = []
        self.alts = []


class Ctx:
    cur = None

    def __init__(self):
        self.facts = Facts()
        self.prover = Prover(self.facts)
        self.hyps = []
        self.frames = []
        self.obls = []
        self.undo = []
        self.where = []
        self.notes = set()          # assumptions / models used
        self.used_funcs = set()     # functions of /repo interpreted
        self.used_contracts = set()
        self.writes = []            # purity violations
        self.max_paths = 600
        self.ncheck = 0
        self.touched = None         # buffers written (uid -> Buffer), when tracking

    # -------------------------------------------------------------- conditions
    def decide(self, c):
        if c is t.TRUE:
            return True
        if c is t.FALSE:
            return False
        if self.prover.proved(self.hyps, c, 1, 1):
            return True
        if self.prover.proved(self.hyps, t.not_(c), 1, 1):
            return False
        if not self.frames:
            raise Unsupported("undecided condition outside exploration: %s" % t.show(c, 4))
        f = self.frames[-1]
        i = len(f.taken)
        if i < len(f.prefix):
            b = f.prefix[i]
        else:
            b = True
            f.alts.append(f.taken + [False])
        f.taken.append(b)
        cc = c if b else t.not_(c)
        f.conds.append(cc)
        self.hyps.append(cc)
        return b

    def implied(self, c):
        if c is t.TRUE:
            return True
        if c is t.FALSE:
            return False
        return self.prover.proved(self.hyps, c, 1, 1)

    def assume(self, c):
        if c is t.TRUE:
            return
        self.hyps.append(c)

    def safe(self, kind, c, label):
        """safety obligation: prove, record, then assume"""
        if c is t.TRUE:
            return
        self.ncheck += 1
        st, info = self.prover.prove(self.hyps, c, 2, None, 1)
        self.obls.append(Obligation("safety:" + kind, self.loc() + label, st, info, list(self.hyps) if st != "proved" else None, c))
        if st != "proved":
            self.hyps.append(c)

    def loc(self):
        return "/".join(self.where[-2:]) + ": " if self.where else ""

    # -------------------------------------------------------------- undo log
    def mark(self):
        return len(self.undo)

    def rollback(self, m):
        while len(self.undo) > m:
            self.undo.pop()()

    # -------------------------------------------------------------- exploration
    def explore(self, fn):
        """run fn under every feasible path; fn(path_index); collects results [(conds, result)].
        State mutated by fn is rolled back after every run."""
        work = [[]]
        out = []
        while work:
            pre = work.pop()
            f = Frame(pre)
            h0 = list(self.hyps)
            m = self.mark()
            self.frames.append(f)
            try:
                r = fn()
                out.append((list(f.conds), r))
            except Infeasible:
                pass
            finally:
                self.frames.pop()
                self.rollback(m)
                self.hyps = h0
                work.extend(f.alts)
            if len(out) > self.max_paths:
                raise Unsupported("too many paths")
        return out


def ctx():
    return Ctx.cur
