"""Execution context: path decisions, path condition, axioms, mutation log."""
import os
import re
import types
from . import terms as t

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep


class Abort(BaseException):
    """abandon the current path (infeasible, or loop-body obligation done)"""


class Unsupported(BaseException):
    """construct outside the engine's reach"""


class PathLimit(Unsupported):
    pass


class Ctx:
    def __init__(self, prefix=(), feasible=None, maxdec=4000):
        self.prefix = list(prefix)
        self.decisions = []       # list of (term, value, forced)
        self.pc = []              # asserted boolean terms (path condition)
        self.axioms = []          # sound side facts (any/all, fresh values)
        self._ax = set()
        self.mutated = []         # names of inputs written to
        self.warnings = []
        self.obls = []            # obligations raised during execution
        self.fresh_n = 0
        self.feasible = feasible
        self.known = {}
        self.maxdec = maxdec
        self.nforks = 0
        self.pending = []         # alternatives to explore
        self.domain = []          # (kind, arg term, pc) domain conditions
        self.loops = None
        self.rows = False         # neighbouring rows allowed
        self.ordered = []         # (time atom, regular?, step)

    def axiom(self, b):
        if b is t.TRUE or b.id in self._ax:
            return
        self._ax.add(b.id)
        self.axioms.append(b)

    def assume(self, b):
        if b is t.TRUE:
            return
        if b is t.FALSE:
            raise Abort('assume false')
        self.pc.append(b)
        self._learn(b, True)

    def _learn(self, b, v):
        self.known[b.id] = v
        if b.op == 'not':
            self._learn(b.args[0], not v)
        elif b.op == 'and' and v:
            for x in b.args:
                self._learn(x, True)
        elif b.op == 'or' and not v:
            for x in b.args:
                self._learn(x, False)

    def fresh(self, stem, generic=False, isint=False):
        self.fresh_n += 1
        return t.var(f'{stem}~{self.fresh_n}' + ('@N' if generic else '') +
                     ('!i' if isint else ''))

    def lookup(self, b):
        v = self.known.get(b.id)
        if v is not None:
            return v
        if b.op == 'not':
            v = self.lookup(b.args[0])
            return None if v is None else not v
        if b.op == 'and':
            vs = [self.lookup(x) for x in b.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        if b.op == 'or':
            vs = [self.lookup(x) for x in b.args]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        return None

    def decide(self, b):
        if b is t.TRUE:
            return True
        if b is t.FALSE:
            return False
        v = self.lookup(b)
        if v is not None:
            return v
        i = len(self.decisions)
        if i >= self.maxdec:
            raise PathLimit('too many decisions on one path')
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            # explore: which of the two sides is feasible?
            ft = self.feasible(self, b) if self.feasible else True
            ff = self.feasible(self, t.bnot(b)) if self.feasible else True
            if not ft and not ff:
                raise Abort('infeasible path')
            v = ft
            if ft and ff:
                self.pending.append([d[1] for d in self.decisions] + [False])
                v = True
        self.decisions.append((b, v))
        x = b if v else t.bnot(b)
        self.pc.append(x)
        self._learn(b, v)
        return v


cur = None


def get():
    return cur


def set_ctx(c):
    global cur
    cur = c


class HelperGone(BaseException):
    """a private helper named by a contract is no longer there (inlined,
    renamed, other arguments): the contract has no subject any more"""


_SIG = re.compile(r"^(\w+\.)*_[a-z]\w*\(\) (missing \d|takes |got an "
                  r"unexpected keyword|got multiple values)", re.I)


def helper_gone(e):
    """re-raise as HelperGone when a contract, not pvlib itself, missed a
    private name of pvlib or called one that takes other arguments now"""
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if '/pvlib/' in f and not f.startswith(HERE):
            return
        tb = tb.tb_next
    gone = False
    if isinstance(e, AttributeError):
        o, n = e.obj, e.name or ''
        if n:
            m = o.__name__ if isinstance(o, types.ModuleType) else \
                getattr(o, '__module__', None) or type(o).__module__
            gone = n.startswith('_') and not n.startswith('__') and \
                str(m).replace('pvcsym.', '').split('.')[0] == 'pvlib'
        else:
            gone = bool(re.search(r"pvlib.* does not have the attribute '_",
                                  str(e)))
    elif isinstance(e, TypeError):
        gone = bool(_SIG.match(str(e)))
    elif isinstance(e, ImportError):
        gone = bool(re.search(r"cannot import name '_.* from 'pvlib",
                              str(e)))
    if gone:
        raise HelperGone(str(e)) from e


def explore(fn, feasible=None, maxpaths=400, pre=()):
    """run fn() over all feasible paths; yields (ctx, kind, value) with
    kind 'ok' | 'exc'"""
    work = [[]]
    out = []
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > maxpaths:
            raise PathLimit(f'more than {maxpaths} paths')
        c = Ctx(prefix, feasible)
        set_ctx(c)
        try:
            for p in pre:
                c.assume(p)
            try:
                v = fn(c)
                out.append((c, 'ok', v))
            except Abort:
                pass
            except Unsupported:
                raise
            except RecursionError:
                raise
            except Exception as e:       # an exception of the real code
                helper_gone(e)
                out.append((c, 'exc', e))
        finally:
            set_ctx(None)
        work.extend(c.pending)
    return out
