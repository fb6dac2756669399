"""Neighbouring rows and running totals over an axis of unknown length.

A generic element is the value at an arbitrary row i.  Its atoms are named
`x@N`; the same quantity at another row has the atoms `x@N[-1]` (previous
row), `x@N[F0]` (first row), `x@N[F1]` (second row), `x@N[L0]` (last row).
Moving to another row is a substitution of atoms.  `first@N` is true when
row i is the first one, `last@N` when it is the last one.

A running quantity (cumulative sum, forward fill, sum within a group) is an
atom of its own with its defining equation

    s[first] = init,      s[i] = step(s[i-1], x[i])

Obligations about such values are decided by induction over the rows: each
one is split into `first row` (everything moved to row F0, running atoms
replaced by their initial value) and `later rows` (running atoms of row i
replaced by their step from row i-1).  Preconditions and axioms, which hold
at every row, are instantiated at every row that occurs."""
import re
from . import terms as t
from . import ctx as _ctx
from .ctx import Unsupported

FIRST = t.bvar('first@N')
LAST = t.bvar('last@N')
_NAME = re.compile(r'^(.*?)@N(?:\[([FLR])?([+-]?\d+)\])?(!i)?$')
SCAN = {}          # scan key -> name
DEFS = {}          # atom (row i) -> (first term, later term)
REDUCE = re.compile(r'^(sum|mean|max|min|prod|std|median)N(_skipna)?$')


def on():
    c = _ctx.get()
    return c is not None and getattr(c, 'rows', False)


def need(what):
    if not on():
        raise Unsupported(what)


def parse(name):
    m = _NAME.match(name)
    if not m:
        return None
    return (m.group(1), m.group(2) or 'R', int(m.group(3) or 0),
            m.group(4) or '')


def build(stem, b, o, tail):
    if b == 'R' and o == 0:
        s = ''
    elif b == 'R':
        s = f'[{o:+d}]'
    else:
        s = f'[{b}{o}]'
    return f'{stem}@N{s}{tail}'


def place(atom, b, o):
    """the atom at row b,o (R: relative to the generic row)"""
    p = parse(atom.args[0])
    if p is None or p[1] != 'R':
        return atom                # not of this axis, or a fixed row already
    stem, _, k, tail = p
    nb, no = (b, o + k)
    if stem == 'first':
        if nb == 'R' and no > 0:
            return t.FALSE
        if nb == 'F':
            return t.TRUE if no == 0 else t.FALSE
    if stem == 'last':
        if nb == 'R' and no < 0:
            return t.FALSE
        if nb == 'L':
            return t.TRUE if no == 0 else t.FALSE
    n = build(stem, nb, no, tail)
    return t.var(n) if atom.op == 'v' else t.bvar(n)


def at(term, b, o):
    if b == 'R' and o == 0:
        return term
    m = {}
    for a in t.free_atoms(term):
        r = place(a, b, o)
        if r is not a:
            m[a] = r
    if not m:
        return term
    cache = {}
    for s in t.atoms_of(term):     # whole-array values stay
        if s.op == 'uf' and REDUCE.match(s.args[0]):
            cache[s.id] = s
    return t.subst(term, m, cache)


def elem(e, b, o):
    """element at another row"""
    from .xval import X, B
    if isinstance(e, B):
        return B(at(e.t, b, o))
    if isinstance(e, X):
        return X(at(e.v, b, o), at(e.nan, b, o), at(e.pinf, b, o),
                 at(e.ninf, b, o), e.np)
    raise Unsupported(f'row of {type(e).__name__}')


def pick(c, a, b):
    from .xval import sel_elem, B
    return sel_elem(B(c), a, b)


def back(e):
    """fixed row F0 -> row i (used where row i is known to be the first)"""
    from .xval import X, B

    def f(term):
        m = {}
        for a in t.free_atoms(term):
            p = parse(a.args[0])
            if p and p[1] == 'F' and p[2] == 0:
                n = build(p[0], 'R', 0, p[3])
                m[a] = t.var(n) if a.op == 'v' else t.bvar(n)
        return t.subst(term, m) if m else term
    if isinstance(e, B):
        return B(f(e.t))
    return X(f(e.v), f(e.nan), f(e.pinf), f(e.ninf), e.np)


# ------------------------------------------------------------------- arrays
def shifted(e, n):
    """element n rows before, missing where there is none (|n| = 1)"""
    from .xval import NAN
    if n == 0:
        return e
    if n == 1:
        return pick(FIRST, NAN, elem(e, 'R', -1))
    if n == -1:
        return pick(LAST, NAN, elem(e, 'R', 1))
    raise Unsupported('shift by more than one row')


def rolled(e, n):
    if n == 0:
        return e
    if n == 1:
        return pick(FIRST, elem(e, 'L', 0), elem(e, 'R', -1))
    if n == -1:
        return pick(LAST, elem(e, 'F', 0), elem(e, 'R', 1))
    raise Unsupported('roll by more than one row')


def fixed(e, k, tail=False):
    """element at Python index k"""
    k = int(k)
    if k >= 0:
        return elem(e, 'F', k + (1 if tail else 0))
    return elem(e, 'L', k + 1)


def setrow(e, k, v):
    """element after a[k] = v"""
    k = int(k)
    if k == 0:
        return pick(FIRST, back(v), e)
    if k == -1:
        return pick(LAST, v, e)
    raise Unsupported('assignment to one row')


# -------------------------------------------------------------------- scans
def _atoms(kind, *terms):
    key = (kind,) + tuple(x.id for x in terms)
    n = SCAN.get(key)
    if n is None:
        n = SCAN[key] = f'scan{len(SCAN)}'
        t.KEEP = getattr(t, 'KEEP', [])
        t.KEEP.append(terms)
    return t.var(n + '@N'), t.bvar(n + '.nan@N')


def _plain(e):
    if e.pinf is not t.FALSE or e.ninf is not t.FALSE:
        raise Unsupported('running total of a possibly infinite value')


def cumsum(e, skipna, reset=t.FALSE):
    """running sum (restarted at the rows where reset holds)"""
    from .xval import X, xc
    need('cumsum along a generic axis')
    e = xc(e)
    _plain(e)
    if skipna:
        x = t.ite(e.nan, t.ZERO, e.v)
        v, n = _atoms('sum', x, reset)
        p = at(v, 'R', -1)
        DEFS[v] = (x, t.ite(reset, x, t.add(p, x)))
        DEFS[n] = (t.FALSE, t.FALSE)
        return X(v, e.nan, np=True)
    v, n = _atoms('npsum', e.v, e.nan, reset)
    p, pn = at(v, 'R', -1), at(n, 'R', -1)
    DEFS[v] = (e.v, t.ite(reset, e.v, t.add(p, e.v)))
    DEFS[n] = (e.nan, t.bite(reset, e.nan, t.bor(pn, e.nan)))
    if e.nan is t.FALSE:
        n = t.FALSE
    return X(v, n, np=True)


def ffill(e):
    from .xval import X, xc
    need('ffill along a generic axis')
    e = xc(e)
    _plain(e)
    if e.nan is t.FALSE:
        return e
    v, n = _atoms('ffill', e.v, e.nan)
    DEFS[v] = (e.v, t.ite(e.nan, at(v, 'R', -1), e.v))
    DEFS[n] = (e.nan, t.band(e.nan, at(n, 'R', -1)))
    return X(v, n, np=True)


def rolling(e, key):
    """assumed contract on pandas: a value per row and window"""
    from .xval import X, xc
    need('rolling')
    e = xc(e)
    _plain(e)
    v = t.uf(f'rolling:{key}', e.v)
    n = t.FALSE
    if e.nan is not t.FALSE:
        v = t.uf(f'rolling:{key}', e.v, t.ite(e.nan, t.ONE, t.ZERO))
        n = t.gt(t.uf(f'rollnan:{key}', t.ite(e.nan, t.ONE, t.ZERO)), t.ZERO)
    return X(v, n, np=True)


# -------------------------------------------------------------- obligations
def _unfold(term, first):
    for _ in range(40):
        m = {}
        for a in t.free_atoms(term):
            d = DEFS.get(a)
            if d is not None:
                m[a] = d[0] if first else d[1]
        if not m:
            return term
        term = t.subst(term, m)
    raise Unsupported('running totals of running totals without end')


def _unfold_fixed(term):
    """running atoms at the first row are known"""
    for _ in range(40):
        m = {}
        for a in t.free_atoms(term):
            p = parse(a.args[0])
            if p is None or (p[1], p[2]) != ('F', 0):
                continue
            n = build(p[0], 'R', 0, p[3])
            d = DEFS.get(t.var(n) if a.op == 'v' else t.bvar(n))
            if d is not None:
                m[a] = at(_unfold(d[0], True), 'F', 0)
        if not m:
            return term
        term = t.subst(term, m)
    raise Unsupported('running totals of running totals without end')


def _places(terms):
    s = set()
    for x in terms:
        for a in t.free_atoms(x):
            p = parse(a.args[0])
            if p:
                s.add(p[1:3])
    s.add(('R', 0))
    return s


def split(goal, c, pre):
    """-> [(label suffix, goal, hypotheses)]"""
    every = list(pre) + list(c.axioms)
    other = [h for h in c.pc if h not in pre]
    out = []
    for label, first in (('first row', True), ('later rows', False)):
        def prep(x):
            x = _unfold(x, first)
            x = at(x, 'F', 0) if first else t.subst(x, {FIRST: t.FALSE})
            return _unfold_fixed(x)
        g = prep(goal)
        own = [prep(h) for h in other]
        if g is t.TRUE or t.FALSE in own:
            out.append((label, t.TRUE, own))
            continue
        hy = list(own)
        ps = _places([g] + own)
        for b, o in ps:
            if first and b == 'R':
                continue
            if b == 'R' and o == 0:
                hy += [prep(h) for h in every]
            else:
                hy += [_unfold_fixed(at(h, b, o)) for h in every]
        for u, reg, step in getattr(c, 'ordered', []):
            have = _atomset([g] + own)
            q = [p for p in ps if at(u, *p) in have]
            for (b, o) in q:
                for (d, e) in q:
                    lo, hi = at(u, b, o), at(u, d, e)
                    if b == d and o < e:
                        hy.append(t.lt(lo, hi))
                        if reg is not None and e == o + 1:
                            hy.append(t.implies(reg, t.eq(t.sub(hi, lo),
                                                          step)))
                    elif b == 'F' and d == 'R' and o in (0, 1) and \
                            e == o - 1:
                        hy.append(t.le(lo, hi))
                    elif (b, o, d, e) == ('F', 0, 'R', 0):
                        hy.append(t.lt(lo, hi))
                    elif b == 'R' and d == 'L' and e == 0 and o <= 0:
                        hy.append(t.le(lo, hi))
        hy = [h for h in dict.fromkeys(hy) if h is not t.TRUE]
        out.append((label, g, hy))
    return out


def _atomset(terms):
    s = set()
    for x in terms:
        s |= t.free_atoms(x)
    return s
