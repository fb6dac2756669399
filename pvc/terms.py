"""Hash-consed terms over the reals and Booleans, kept in a light normal form.

Real terms
  ('c', Fraction)            rational constant
  ('pi',)                    the number pi
  ('v', name)                real variable
  ('+', k, ((t, c), ...))    k + sum c*t      (k, c Fractions; t not '+' or const)
  ('*', ((t, e), ...))       prod t**e        (e Fraction; coefficient free)
  ('sin', t) ('cos', t) ('exp', t) ('log', t) ('asin', t) ('acos', t)
  ('atan', t) ('atan2', y, x) ('floor', t) ('ite', c, a, b) ('uf', name, *args)
Boolean terms
  ('true',) ('false',) ('bv', name) ('not', b) ('and', *bs) ('or', *bs)
  ('lt0', t)  t < 0      ('eq0', t)  t = 0

The simplifications are identities of real arithmetic on the domain where
the value is defined; definedness (division by zero, roots of negative
numbers ...) is tracked separately by the extended reals in xval.py.
"""
from fractions import Fraction as Fr
import math
import numpy as np

_tab = {}
_all = []


class T:
    __slots__ = ('op', 'args', 'id', '_c')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_all)
        t._c = None
        _tab[key] = t
        _all.append(t)
    return t


TRUE = mk('true')
FALSE = mk('false')
PI = mk('pi')
F0, F1 = Fr(0), Fr(1)


def C(x):
    if isinstance(x, T):
        return x
    if isinstance(x, Fr):
        return mk('c', x)
    if isinstance(x, bool):
        return mk('c', Fr(int(x)))
    if isinstance(x, (int, np.integer)):
        return mk('c', Fr(int(x)))
    return flt(float(x))


_PIK = {}


def flt(x):
    """Exact rational of the shortest decimal that denotes the float x;
    a float within an ulp of a small rational multiple of pi is that."""
    if x == 0:
        return ZERO
    if not _PIK:
        for d in (1, 2, 3, 4, 6, 8, 12, 180, 360, 365, 648000):
            for n in range(1, 13):
                _PIK.setdefault(n * math.pi / d, (Fr(n, d), 1))
                _PIK.setdefault(math.pi / d * n, (Fr(n, d), 1))
                _PIK.setdefault(n * d / math.pi, (Fr(n * d), -1))
                _PIK.setdefault(d / math.pi * n, (Fr(n * d), -1))
    r = repr(abs(x))
    if len(r.replace('.', '').replace('-', '')) >= 13:
        k = _PIK.get(abs(x))
        if k is not None:
            f, e = k
            return smul(f if x > 0 else -f, pw(PI, Fr(e)))
    return mk('c', Fr(repr(float(x))))


ZERO = mk('c', F0)
ONE = mk('c', F1)
NEG1 = mk('c', Fr(-1))


def var(name):
    return mk('v', name)


def bvar(name):
    return mk('bv', name)


def isc(t):
    return t.op == 'c'


# ---------------------------------------------------------------- sums
def _parts(t):
    """t -> (const, tuple of (term, coef))"""
    if t.op == 'c':
        return t.args[0], ()
    if t.op == '+':
        return t.args
    return F0, ((t, F1),)


def _mksum(k, d):
    items = [(t, c) for t, c in d.items() if c != 0]
    if not items:
        return mk('c', k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk('+', k, tuple(items))


def add(*ts):
    k = F0
    d = {}
    for t in ts:
        tk, tp = _parts(t)
        k += tk
        for a, c in tp:
            d[a] = d.get(a, F0) + c
    return _mksum(k, d)


def smul(c, t):
    c = Fr(c)
    if c == 0:
        return ZERO
    if c == 1:
        return t
    k, p = _parts(t)
    return _mksum(k * c, {a: b * c for a, b in p})


def neg(t):
    return smul(-1, t)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


# ---------------------------------------------------------------- products
def _content(t):
    """t -> (rational c, monic term) with t = c*monic"""
    if t.op == 'c':
        return t.args[0], ONE
    if t.op == '+':
        k, p = t.args
        c = p[0][1]
        if c == 1:
            return F1, t
        return c, smul(1 / c, t)
    return F1, t


def _factors(t):
    if t.op == '*':
        return t.args[0]
    return ((t, F1),)


def iroot(n, q):
    """exact q-th root of a nonnegative integer or None"""
    if n < 0:
        return None
    if n in (0, 1):
        return n
    r = round(n ** (1.0 / q)) if n < 10 ** 300 else None
    if r is None:
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** q == n:
            return x
    return None


def cpow(c, e):
    """rational**rational, exact rational or None"""
    if e.denominator == 1:
        if c == 0 and e < 0:
            return None
        if abs(e.numerator) > 4000:
            return None
        return c ** e.numerator
    if c < 0:
        return None
    if c == 0:
        return F0 if e > 0 else None
    a = iroot(c.numerator, e.denominator)
    b = iroot(c.denominator, e.denominator)
    if a is None or b is None:
        return None
    return cpow(Fr(a, b), Fr(e.numerator))


def _mkprod(coef, d, eargs):
    if eargs:
        s = add(*eargs)
        x = exp(s)
        cc, m = _content(x)
        coef *= cc
        if m is not ONE:
            for b, e in _factors(m):
                d[b] = d.get(b, F0) + e
    items = []
    for b, e in d.items():
        if e == 0:
            continue
        if b.op == 'c':
            v = cpow(b.args[0], e)
            if v is not None:
                coef *= v
                continue
            # pull out the integer part of the exponent
            fl = e.numerator // e.denominator
            if fl != 0 and b.args[0] != 0:
                coef *= cpow(b.args[0], Fr(fl))
                e = e - fl
        items.append((b, e))
    if coef == 0:
        return ZERO
    if not items:
        return mk('c', coef)
    if len(items) == 1 and items[0][1] == 1:
        return smul(coef, items[0][0])
    items.sort(key=lambda p: p[0].id)
    return smul(coef, mk('*', tuple(items)))


def mul(*ts):
    coef = F1
    d = {}
    eargs = []
    sums = []
    for t in ts:
        if t is ZERO:
            return ZERO
        c, m = _content(t)
        coef *= c
        if m is ONE:
            continue
        for b, e in _factors(m):
            if b.op == 'exp' :
                eargs.append(smul(e, b.args[0]))
            else:
                d[b] = d.get(b, F0) + e
    return _mkprod(coef, d, eargs)


def pw(t, e):
    """t ** e for a rational exponent"""
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == 'c':
        v = cpow(t.args[0], e)
        if v is not None:
            return mk('c', v)
        if t.args[0] == 0:
            return mk('*', ((t, e),))
        return _mkprod(F1, {t: e}, [])
    if e.denominator == 1:
        c, m = _content(t)
        cc = cpow(c, e)
        d = {}
        ea = []
        for b, k in _factors(m):
            if b.op == 'exp':
                ea.append(smul(k * e, b.args[0]))
            else:
                d[b] = d.get(b, F0) + k * e
        return _mkprod(cc, d, ea)
    # fractional exponent
    if t.op == 'exp':
        return exp(smul(e, t.args[0]))
    if t.op == 'pi':
        return mk('*', ((t, e),))
    if t.op == '*':
        fs = t.args[0]
        if all(k.denominator != 1 or b.op in ('exp', 'pi') for b, k in fs):
            return mul(*[pw(b, k * e) for b, k in fs])
        # even powers of the root: (x**2k)**(1/2) -> |x|**k
        if len(fs) == 1 and fs[0][1].denominator == 1 and \
                fs[0][1].numerator % 2 == 0:
            return pw(tabs(fs[0][0]), fs[0][1] * e)
        pos = [(b, k) for b, k in fs if b.op in ('exp', 'pi') or
               (b.op == 'c')]
        if pos:
            rest = [(b, k) for b, k in fs if (b, k) not in pos]
            r = mul(*[pw(b, k) for b, k in rest])
            return mul(*[pw(b, k * e) for b, k in pos], pw(r, e))
        return mk('*', ((t, e),))
    if t.op == '+':
        k, p = t.args
        if k == 0 and len(p) == 1 and p[0][1] > 0:
            return mul(pw(mk('c', p[0][1]), e), pw(p[0][0], e))
        # scale to a canonical positive content
        c = abs(p[0][1])
        if c != 1:
            return mul(pw(mk('c', c), e), pw(smul(1 / c, t), e))
        return mk('*', ((t, e),))
    return mk('*', ((t, e),))


def div(a, b):
    if b.op == 'c' and b.args[0] == 0:
        return ZERO           # flagged undefined by the caller
    return mul(a, pw(b, -1))


def sqrt(t):
    return pw(t, Fr(1, 2))


# ---------------------------------------------------------------- functions
_half = Fr(1, 2)


def _trigred(t):
    """t -> (sign, quarter turns, reduced arg) so t = sign*arg' + q*pi/2"""
    k, p = _parts(t)
    q = F0
    rest = {}
    for a, c in p:
        if a is PI:
            q = c
        else:
            rest[a] = c
    n = math.floor(q * 2)
    r = q - Fr(n, 2)
    if r:
        rest[PI] = r
    return n, _mksum(k, rest)


_SPECIAL = {Fr(0): (0, 1), }


def _sinpi(r):
    """sin(pi*r) for 0<=r<1/2, exact where simple"""
    if r == 0:
        return ZERO
    if r == Fr(1, 6):
        return mk('c', Fr(1, 2))
    if r == Fr(1, 4):
        return smul(Fr(1, 2), sqrt(mk('c', Fr(2))))
    if r == Fr(1, 3):
        return smul(Fr(1, 2), sqrt(mk('c', Fr(3))))
    return None


def _purepi(t):
    if t is ZERO:
        return F0
    if t is PI:
        return F1
    if t.op == '+' and t.args[0] == 0 and len(t.args[1]) == 1 and \
            t.args[1][0][0] is PI:
        return t.args[1][0][1]
    return None


def _sin0(t):
    r = _purepi(t)
    if r is not None:
        v = _sinpi(r)
        if v is not None:
            return v
        if r > Fr(1, 4):
            return _cos0(smul(Fr(1, 2) - r, PI))
    if t.op == 'ite':
        return ite(t.args[0], sin(t.args[1]), sin(t.args[2]))
    k, p = _parts(t)
    s = 1
    lead = next((c for a, c in p if a is not PI), k if not p else p[0][1])
    if lead < 0:
        t = neg(t)
        s = -1
        n, t = _trigred(t)
        if n:
            v = _sc(n, t, True)
            return neg(v)
    if t.op == 'asin':
        v = t.args[0]
    elif t.op == 'acos':
        v = sqrt(sub(ONE, pw(t.args[0], 2)))
    elif t.op == 'atan':
        v = div(t.args[0], sqrt(add(ONE, pw(t.args[0], 2))))
    elif t.op == 'atan2':
        y, x = t.args
        v = div(y, sqrt(add(pw(x, 2), pw(y, 2))))
    else:
        v = mk('sin', t)
    return v if s == 1 else neg(v)


def _cos0(t):
    r = _purepi(t)
    if r is not None:
        if r == 0:
            return ONE
        v = _sinpi(Fr(1, 2) - r)
        if v is not None:
            return v
        if r > Fr(1, 4):
            return _sin0(smul(Fr(1, 2) - r, PI))
    if t.op == 'ite':
        return ite(t.args[0], cos(t.args[1]), cos(t.args[2]))
    k, p = _parts(t)
    lead = next((c for a, c in p if a is not PI), k if not p else p[0][1])
    if lead < 0:
        t = neg(t)
        n, t = _trigred(t)
        if n:
            return _sc(n, t, False)
    if t.op == 'acos':
        return t.args[0]
    if t.op == 'asin':
        return sqrt(sub(ONE, pw(t.args[0], 2)))
    if t.op == 'atan':
        return pw(add(ONE, pw(t.args[0], 2)), -_half)
    if t.op == 'atan2':
        y, x = t.args
        return div(x, sqrt(add(pw(x, 2), pw(y, 2))))
    return mk('cos', t)


def _sc(n, t, is_sin):
    """sin or cos of (n*pi/2 + t)"""
    k = (n + (0 if is_sin else 1)) % 4
    if k == 0:
        return _sin0(t)
    if k == 1:
        return _cos0(t)
    if k == 2:
        return neg(_sin0(t))
    return neg(_cos0(t))


def sin(t):
    n, r = _trigred(_unpi(t))
    return _sc(n, r, True)


def _unpi(t):
    """c*pi*(k + rest) -> c*k*pi + c*pi*rest"""
    k, p = _parts(t)
    if not any(a.op == '*' for a, c in p):
        return t
    out = None
    for a, c in p:
        if a.op != '*':
            continue
        m = dict(a.args[0])
        if m.get(PI) != 1 or len(m) != 2:
            continue
        (s, e), = [(b, e) for b, e in m.items() if b is not PI]
        if s.op != '+' or e != 1 or s.args[0] == 0:
            continue
        out = t if out is None else out
        out = sub(out, smul(c, a))
        out = add(out, smul(c * s.args[0], PI))
        out = add(out, smul(c, mul(PI, sub(s, mk('c', s.args[0])))))
    return t if out is None else out


def cos(t):
    n, r = _trigred(_unpi(t))
    return _sc(n, r, False)


def tan(t):
    if t.op == 'atan':
        return t.args[0]
    k, p = _parts(t)
    if k == 0 and len(p) == 1 and p[0][0].op == 'atan' and p[0][1] == -1:
        return neg(p[0][0].args[0])
    return div(sin(t), cos(t))


def diff(f, x, memo=None):
    """derivative of the term f by the variable x (branch conditions are
    taken as locally constant); None where it is not expressible"""
    memo = {} if memo is None else memo
    r = memo.get(f.id)
    if r is not None:
        return r
    op = f.op
    if op in ('c', 'pi'):
        r = ZERO
    elif op == 'v':
        r = ONE if f is x else ZERO
    elif op == '+':
        r = add(*[smul(c, diff(a, x, memo)) for a, c in f.args[1]])
    elif op == '*':
        out = []
        for i, (b, e) in enumerate(f.args[0]):
            d = diff(b, x, memo)
            if d is not ZERO:
                out.append(mul(f, smul(e, div(d, b))))
        r = add(*out) if out else ZERO
        # f = coefficient-free product
    elif op == 'ite':
        r = ite(f.args[0], diff(f.args[1], x, memo), diff(f.args[2], x, memo))
    else:
        args = [a for a in f.args if isinstance(a, T)]
        ds = [diff(a, x, memo) for a in args]
        if all(d is ZERO for d in ds):
            r = ZERO
        else:
            u, d = args[0], ds[0]
            if op == 'exp':
                r = mul(f, d)
            elif op == 'log':
                r = div(d, u)
            elif op == 'sin':
                r = mul(cos(u), d)
            elif op == 'cos':
                r = neg(mul(sin(u), d))
            elif op == 'atan':
                r = div(d, add(ONE, pw(u, 2)))
            else:
                raise ValueError(f'derivative of {op}')
    memo[f.id] = r
    return r


def exp(t):
    if t is ZERO:
        return ONE
    # integer multiple of log: exp(r*log x) = x**r
    k, p = _parts(t)
    lg = [(a, c) for a, c in p if a.op == 'log']
    if lg:
        rest = sub(t, add(*[smul(c, a) for a, c in lg]))
        out = [pw(a.args[0], c) for a, c in lg]
        return mul(*out, exp(rest)) if rest is not ZERO else mul(*out)
    return mk('exp', t)


def log(t):
    if t is ONE:
        return ZERO
    if t.op == 'exp':
        return t.args[0]
    if t.op == 'c' and t.args[0] > 0:
        # prime-free normalisation: log(1/x) = -log(x)
        if t.args[0] < 1:
            return neg(mk('log', mk('c', 1 / t.args[0])))
    # log is only ever used where its argument is positive
    c, m = _content(t)
    f = _factors(m)
    if f and c > 0 and all(b.op not in ('exp',) for b, e in f):
        b, e = min(f, key=lambda be: be[0].id)
        if e < 0:
            return neg(log(_mkprod(1 / c, {b: -e for b, e in f}, [])))
    return mk('log', t)


def asin(t):
    if t is ZERO:
        return ZERO
    if t is ONE:
        return smul(_half, PI)
    if t is NEG1:
        return smul(-_half, PI)
    if _negative_lead(t):
        return neg(asin(neg(t)))
    return mk('asin', t)


def acos(t):
    if t is ONE:
        return ZERO
    if t is NEG1:
        return PI
    if t is ZERO:
        return smul(_half, PI)
    if _negative_lead(t):
        return sub(PI, acos(neg(t)))
    return mk('acos', t)


def _negative_lead(t):
    k, p = _parts(t)
    lead = p[0][1] if p else k
    return lead < 0


def atan(t):
    if t is ZERO:
        return ZERO
    if t is ONE:
        return smul(Fr(1, 4), PI)
    if _negative_lead(t):
        return neg(atan(neg(t)))
    return mk('atan', t)


def atan2(y, x):
    if x.op == 'c' and x.args[0] > 0:
        return atan(smul(1 / x.args[0], y))
    if y.op == 'c' and x.op == 'c':
        yv, xv = y.args[0], x.args[0]
        if yv == 0:
            return ZERO if xv > 0 else (PI if xv < 0 else ZERO)
        if xv == 0:
            return smul(_half if yv > 0 else -_half, PI)
    return mk('atan2', y, x)


def is_int_term(t):
    if t.op == 'c':
        return t.args[0].denominator == 1
    if t.op == 'floor':
        return True
    if t.op == 'v':
        return t.args[0].endswith('!i')
    if t.op == '+':
        return t.args[0].denominator == 1 and all(
            c.denominator == 1 and is_int_term(a) for a, c in t.args[1])
    if t.op == '*':
        return all(e.denominator == 1 and e > 0 and is_int_term(b)
                   for b, e in t.args[0])
    if t.op == 'ite':
        return is_int_term(t.args[1]) and is_int_term(t.args[2])
    return False


def floor(t):
    k, p = _parts(t)
    ik = math.floor(k)
    ints = [(a, c) for a, c in p if c.denominator == 1 and is_int_term(a)]
    rest = sub(t, add(mk('c', Fr(ik)), *[smul(c, a) for a, c in ints]))
    out = add(mk('c', Fr(ik)), *[smul(c, a) for a, c in ints])
    if rest is ZERO:
        return out
    if rest.op == 'c':
        return add(out, mk('c', Fr(math.floor(rest.args[0]))))
    v = const_val(rest)
    if v is not None:
        return add(out, mk('c', Fr(math.floor(v))))
    return add(out, mk('floor', rest))


def mod(x, m):
    return sub(x, mul(m, floor(div(x, m))))


def uf(name, *args):
    if name == 'erfinv' and args[0].op == 'uf' and args[0].args[0] == 'erf':
        return args[0].args[1]
    return mk('uf', name, *args)


def tabs(t):
    return ite(lt(t, ZERO), neg(t), t)


def tmin(a, b):
    return ite(lt(b, a), b, a)


def tmax(a, b):
    return ite(lt(a, b), b, a)


def sign(t):
    return ite(lt(t, ZERO), NEG1, ite(lt(ZERO, t), ONE, ZERO))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # pull common additive structure out is left to the prover
    return mk('ite', c, a, b)


# ---------------------------------------------------------------- booleans
_cv_cache = {}


def const_val(t):
    """mpmath value of a closed term, or None"""
    if t.id in _cv_cache:
        return _cv_cache[t.id]
    import mpmath
    with mpmath.workdps(50):
        v = _cv(t)
    _cv_cache[t.id] = v
    return v


def free_atoms(t, cache={}):
    r = cache.get(t.id)
    if r is not None:
        return r
    if t.op in ('v', 'bv'):
        r = frozenset([t])
    else:
        r = frozenset()
        for a in children(t):
            r |= free_atoms(a)
    cache[t.id] = r
    return r


def children(t):
    op = t.op
    if op in ('c', 'pi', 'v', 'bv', 'true', 'false'):
        return ()
    if op == '+':
        return tuple(a for a, _ in t.args[1])
    if op == '*':
        return tuple(a for a, _ in t.args[0])
    if op == 'uf':
        return t.args[1:]
    return t.args


def has_uf(t, cache={}):
    r = cache.get(t.id)
    if r is None:
        r = t.op == 'uf' or any(has_uf(a) for a in children(t))
        cache[t.id] = r
    return r


def _cv(t):
    if free_atoms(t) or has_uf(t):
        return None
    try:
        return mp_eval(t, {})
    except Exception:
        return None


def lt(a, b):
    d = sub(a, b)
    return lt0(d)


_ct = {}


def _consttree(x):
    """number of leaves of an ite tree whose leaves are all constants, or 0"""
    if x.op == 'c':
        return 1
    if x.op != 'ite':
        return 0
    r = _ct.get(x.id)
    if r is None:
        a = _consttree(x.args[1])
        b = _consttree(x.args[2]) if a else 0
        r = _ct[x.id] = a + b if a and b else 0
    return r


def treeleaves(x):
    return {a.args[0] for a in atoms_of(x) if a.op == 'c'} \
        if x.op == 'c' else _leaves(x, {})


def _leaves(x, memo):
    if x.op == 'c':
        return {x.args[0]}
    r = memo.get(x.id)
    if r is None:
        r = memo[x.id] = _leaves(x.args[1], memo) | _leaves(x.args[2], memo)
    return r


def treemap(x, f, memo=None):
    if x.op == 'c':
        return f(x.args[0])
    memo = {} if memo is None else memo
    r = memo.get(x.id)
    if r is None:
        r = memo[x.id] = ite(x.args[0], treemap(x.args[1], f, memo),
                             treemap(x.args[2], f, memo))
    return r


def _treecmp(x, f, memo):
    if x.op == 'c':
        return TRUE if f(x.args[0]) else FALSE
    r = memo.get(x.id)
    if r is None:
        a = _treecmp(x.args[1], f, memo)
        b = _treecmp(x.args[2], f, memo)
        r = memo[x.id] = a if a is b else bite(x.args[0], a, b)
    return r


def _fold(d, f):
    """f(d) for d = k + c*tree, tree an ite tree of constants; else None"""
    k, p = _parts(d)
    if len(p) == 1 and p[0][0].op == 'ite':
        a, c = p[0]
        if 0 < _consttree(a) <= 64:
            return _treecmp(a, lambda v: f(k + c * v), {})
    return None


def lt0(d):
    if d.op == 'c':
        return TRUE if d.args[0] < 0 else FALSE
    r = _fold(d, lambda v: v < 0)
    if r is not None:
        return r
    v = const_val(d)
    if v is not None and abs(v) > 1e-30:
        return TRUE if v < 0 else FALSE
    if d.op == 'exp':
        return FALSE
    k, p = _parts(d)
    if k >= 0 and len(p) and all(c > 0 and _nonneg(a) for a, c in p):
        return FALSE
    if k < 0 and len(p) and all(c < 0 and _nonneg(a) for a, c in p):
        return TRUE
    if d.op == 'ite':
        x, y = d.args[1], d.args[2]
        if x.op == 'c' or y.op == 'c':
            c = d.args[0]
            return bor(band(c, lt0(x)), band(bnot(c), lt0(y)))
    c = abs(p[0][1])
    if c != 1:
        d = smul(1 / c, d)
    lo, hi = trange(d)
    if lo is not None and lo >= 0:
        return FALSE
    if hi is not None and hi < 0:
        return TRUE
    return mk('lt0', d)


# ---------------------------------------------------------------- value ranges
PI_R = (Fr(31415926535, 10**10), Fr(31415926536, 10**10))
_rcache = {}


def _radd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def _rscale(a, c):
    if c == 0:
        return (Fr(0), Fr(0))
    lo = None if a[0] is None else a[0] * c
    hi = None if a[1] is None else a[1] * c
    return (lo, hi) if c > 0 else (hi, lo)


def _rmul(a, b):
    if None not in a and None not in b:
        q = [x * y for x in a for y in b]
        return min(q), max(q)
    an = a[0] is not None and a[0] >= 0
    bn = b[0] is not None and b[0] >= 0
    if an and bn:
        return a[0] * b[0], None
    am = a[1] is not None and a[1] <= 0
    bm = b[1] is not None and b[1] <= 0
    if am and bm:
        return a[1] * b[1], None
    if (an and bm) or (am and bn):
        return None, Fr(0)
    return None, None


def trange(x):
    """rational bounds (lo, hi) of a term over all values of its variables
    (None: unbounded)"""
    r = _rcache.get(x.id)
    if r is None:
        r = _rcache[x.id] = _trange(x)
        for v in r:
            if v is not None and v.denominator.bit_length() > 400:
                r = _rcache[x.id] = (None, None)
    return r


_TRIG_R = (Fr(-1), Fr(1))


def _trange(x):
    op = x.op
    if op == 'c':
        return x.args[0], x.args[0]
    if op == 'pi':
        return PI_R
    if op in ('sin', 'cos'):
        return _TRIG_R
    if op == 'exp':
        lo, hi = trange(x.args[0])
        return (Fr(0) if lo is None or lo < 0 else Fr(1),
                Fr(1) if hi is not None and hi <= 0 else None)
    if op == '+':
        r = (x.args[0], x.args[0])
        for a, c in x.args[1]:
            r = _radd(r, _rscale(trange(a), c))
            if r == (None, None):
                return r
        return r
    if op == '*':
        r = (Fr(1), Fr(1))
        for b, e in x.args[0]:
            q = trange(b)
            if e.denominator != 1:
                if e < 0:
                    q = (Fr(0), None)
                else:
                    lo, hi = q
                    q = (Fr(0) if lo is None or lo < 1 else Fr(1),
                         Fr(1) if hi is not None and hi <= 1 else None)
            elif e < 0:
                if q[0] is not None and q[0] >= 0:
                    q = (1 / q[1] ** int(-e) if q[1] else Fr(0),
                         1 / q[0] ** int(-e) if q[0] > 0 else None)
                elif e.numerator % 2 == 0:
                    q = (Fr(0), None)
                elif q[1] is not None and q[1] <= 0:
                    q = (None, Fr(0))
                else:
                    q = (None, None)
            elif e.numerator % 2 == 0:
                lo, hi = q
                if lo is not None and lo >= 0:
                    q = (lo ** int(e), None if hi is None else hi ** int(e))
                elif lo is not None and hi is not None:
                    q = (Fr(0) if hi >= 0 else hi ** int(e),
                         max(abs(lo), abs(hi)) ** int(e))
                else:
                    q = (Fr(0), None)
            else:
                n = int(e)
                q = (None if q[0] is None else q[0] ** n,
                     None if q[1] is None else q[1] ** n)
            r = _rmul(r, q)
            if r == (None, None):
                return r
        return r
    if op == 'ite':
        c, a, b = x.args
        ra = tighten(a, trange(a), c, True)
        rb = tighten(b, trange(b), c, False)
        return (None if ra[0] is None or rb[0] is None else
                min(ra[0], rb[0]),
                None if ra[1] is None or rb[1] is None else
                max(ra[1], rb[1]))
    if op in ('asin', 'atan'):
        lo, hi = trange(x.args[0])
        return (Fr(0) if lo is not None and lo >= 0 else -PI_R[1] / 2,
                Fr(0) if hi is not None and hi <= 0 else PI_R[1] / 2)
    if op == 'acos':
        return Fr(0), PI_R[1]
    if op == 'atan2':
        return -PI_R[1], PI_R[1]
    if op == 'floor':
        lo, hi = trange(x.args[0])
        return (None if lo is None else Fr(lo.__floor__()),
                None if hi is None else Fr(hi.__floor__()))
    if op == 'uf' and x.args[0] in NONNEG_UF:
        return Fr(0), None
    return None, None


def _clits(b, v, out):
    if b.op == 'not':
        _clits(b.args[0], not v, out)
    elif b.op == 'and':
        if v:
            for a in b.args:
                _clits(a, True, out)
    elif b.op == 'or':
        if not v:
            for a in b.args:
                _clits(a, False, out)
    elif b.op == 'lt0':
        out.append((b.args[0], v))


def tighten(y, r, c, v):
    """bounds of y given that c has truth value v"""
    if y.op == 'c':
        return r
    ls = []
    _clits(c, v, ls)
    lo, hi = r
    for d, lv in ls:
        if y.op == '+':
            ky, py = y.args
            kd, pd = _parts(d)
            dd = dict(pd)
            a0, c0 = py[0]
            if a0 not in dd:
                continue
            lam = dd[a0] / c0
        else:
            ky, py = _parts(y)
            if len(py) != 1:
                continue
            dd = dict(_parts(d)[1])
            if py[0][0] not in dd:
                continue
            lam = dd[py[0][0]] / py[0][1]
        # d = lam*y + e
        e = sub(d, smul(lam, y))
        if e.op == '+' and len(e.args[1]) > 6:
            continue
        elo, ehi = trange(e)
        # lv: lam*y < -e   else lam*y >= -e
        if lv:
            if elo is not None:
                b = -elo / lam
                if lam > 0:
                    hi = b if hi is None else min(hi, b)
                else:
                    lo = b if lo is None else max(lo, b)
        elif ehi is not None:
            b = -ehi / lam
            if lam > 0:
                lo = b if lo is None else max(lo, b)
            else:
                hi = b if hi is None else min(hi, b)
    if lo is not None and hi is not None and lo > hi:
        return r
    return lo, hi


def _nonneg(a):
    if a.op in ('exp', 'pi'):
        return True
    if a.op == '*':
        return all((e.denominator != 1) or e.numerator % 2 == 0 or _nonneg(b)
                   for b, e in a.args[0])
    if a.op == 'c':
        return a.args[0] >= 0
    if a.op == 'acos':
        return True
    if a.op == 'uf':
        return a.args[0] in NONNEG_UF
    return False


NONNEG_UF = set()


def le(a, b):
    return bnot(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return bnot(lt(a, b))


def eq(a, b):
    d = sub(a, b)
    return eq0(d)


def eq0(d):
    if d.op == 'c':
        return TRUE if d.args[0] == 0 else FALSE
    r = _fold(d, lambda v: v == 0)
    if r is not None:
        return r
    v = const_val(d)
    if v is not None and abs(v) > 1e-30:
        return FALSE
    if d.op in ('exp', 'pi'):
        return FALSE
    if d.op == 'ite':
        x, y = d.args[1], d.args[2]
        if x.op == 'c' or y.op == 'c':
            c = d.args[0]
            return bor(band(c, eq0(x)), band(bnot(c), eq0(y)))
    if d.op == '*':
        fs = d.args[0]
        return bor(*[eq0(b) for b, e in fs if e > 0]) \
            if any(e > 0 for b, e in fs) else FALSE
    k, p = _parts(d)
    if k > 0 and all(c > 0 and _nonneg(a) for a, c in p):
        return FALSE
    if k == 0 and len(p) == 1 and p[0][0] is not d:
        return eq0(p[0][0])
    c = p[0][1]
    if c != 1:
        d = smul(1 / c, d)
    lo, hi = trange(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    return mk('eq0', d)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    return mk('not', b)


def band(*bs):
    out = []
    seen = set()
    stack = list(reversed(bs))
    while stack:
        b = stack.pop()
        if b is FALSE:
            return FALSE
        if b is TRUE or b.id in seen:
            continue
        if b.op == 'and':
            stack.extend(reversed(b.args))
            continue
        if bnot(b).id in seen:
            return FALSE
        seen.add(b.id)
        out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', *out)


def bor(*bs):
    out = []
    seen = set()
    stack = list(reversed(bs))
    while stack:
        b = stack.pop()
        if b is TRUE:
            return TRUE
        if b is FALSE or b.id in seen:
            continue
        if b.op == 'or':
            stack.extend(reversed(b.args))
            continue
        if bnot(b).id in seen:
            return TRUE
        seen.add(b.id)
        out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', *out)


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a.op in ('or', 'and') or b.op in ('or', 'and'):
        for op, mkr, outer in (('or', bor, bor), ('and', band, None)):
            sa = a.args if a.op == op else (a,)
            sb = b.args if b.op == op else (b,)
            com = [x for x in sa if x in sb]
            if com:
                cs = set(com)
                r = iff(mkr(*[x for x in sa if x not in cs]),
                        mkr(*[x for x in sb if x not in cs]))
                if op == 'or':
                    return bor(*com, r)
                return bor(bnot(band(*com)), r)
    return bor(band(a, b), band(bnot(a), bnot(b)))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return bor(band(c, a), band(bnot(c), b))


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth == 0:
        return '...'
    op = t.op
    s = lambda a: show(a, depth - 1)
    if op == 'c':
        f = t.args[0]
        if f.denominator == 1:
            return str(f.numerator)
        x = float(f)
        return repr(x) if Fr(repr(x)) == f else f'{f.numerator}/{f.denominator}'
    if op in ('pi', 'true', 'false'):
        return op
    if op in ('v', 'bv'):
        return t.args[0]
    if op == '+':
        k, p = t.args
        out = [] if k == 0 else [s(mk('c', k))]
        for a, c in p:
            out.append(s(a) if c == 1 else f'{s(mk("c", c))}*{s(a)}')
        return '(' + ' + '.join(out) + ')'
    if op == '*':
        return '*'.join(s(b) if e == 1 else f'{s(b)}^({e})'
                        for b, e in t.args[0])
    if op == 'uf':
        return f'{t.args[0]}({", ".join(s(a) for a in t.args[1:])})'
    if op == 'lt0':
        return f'[{s(t.args[0])} < 0]'
    if op == 'eq0':
        return f'[{s(t.args[0])} = 0]'
    return f'{op}({", ".join(s(a) for a in t.args)})'


# ---------------------------------------------------------------- traversal
def rebuild(t, ch):
    """same operator over new children, through the smart constructors"""
    op = t.op
    if op in ('c', 'pi', 'v', 'bv', 'true', 'false'):
        return t
    if op == '+':
        k, p = t.args
        return add(mk('c', k), *[smul(c, n) for (a, c), n in zip(p, ch)])
    if op == '*':
        return mul(*[pw(n, e) for (a, e), n in zip(t.args[0], ch)])
    if op == 'uf':
        return uf(t.args[0], *ch)
    return _CONS[op](*ch)


_CONS = {'sin': sin, 'cos': cos, 'exp': exp, 'log': log, 'asin': asin,
         'acos': acos, 'atan': atan, 'atan2': atan2, 'floor': floor,
         'ite': ite, 'not': bnot, 'and': band, 'or': bor, 'lt0': lt0,
         'eq0': eq0}


def subst(t, m, cache=None):
    """replace terms (keys of m) bottom-up"""
    if cache is None:
        cache = {}
    r = m.get(t)
    if r is not None:
        return r
    r = cache.get(t.id)
    if r is not None:
        return r
    ch = children(t)
    if not ch:
        r = t
    else:
        n = tuple(subst(a, m, cache) for a in ch)
        r = t if all(x is y for x, y in zip(n, ch)) else rebuild(t, n)
        r2 = m.get(r)
        if r2 is not None:
            r = r2
    cache[t.id] = r
    return r


def atoms_of(t, seen=None, out=None):
    """all subterms in topological order"""
    if seen is None:
        seen = set()
        out = []
    if t.id in seen:
        return out
    seen.add(t.id)
    for a in children(t):
        atoms_of(a, seen, out)
    out.append(t)
    return out


_sizes = {}


def size(*ts):
    if len(ts) == 1:
        r = _sizes.get(ts[0].id)
        if r is None:
            r = _sizes[ts[0].id] = len(atoms_of(ts[0]))
        return r
    seen = set()
    for t in ts:
        atoms_of(t, seen, [])
    return len(seen)


# ---------------------------------------------------------------- evaluation
MP_UF = {}


def mp_eval(t, env, cache=None):
    """multi-precision value of t; env: var term -> number / bool"""
    import mpmath as mp
    if cache is None:
        cache = {}
    if t.id in cache:
        return cache[t.id]
    e = lambda a: mp_eval(a, env, cache)
    op = t.op
    if op == 'c':
        r = mp.mpf(t.args[0].numerator) / t.args[0].denominator
    elif op == 'pi':
        r = +mp.pi
    elif op in ('v', 'bv'):
        if t in ANY and t not in env:
            r = e(ANY[t])
        else:
            r = env[t]
    elif op == 'true':
        r = True
    elif op == 'false':
        r = False
    elif op == '+':
        r = mp.mpf(t.args[0].numerator) / t.args[0].denominator
        for a, c in t.args[1]:
            r += e(a) * c.numerator / c.denominator
    elif op == '*':
        r = mp.mpf(1)
        for b, k in t.args[0]:
            bv = e(b)
            if k.denominator == 1:
                r *= bv ** int(k)
            else:
                if bv < 0:
                    if bv > -mp.mpf(10) ** -25:
                        bv = mp.mpf(0)
                    else:
                        raise ValueError('root of negative')
                r *= mp.power(bv, mp.mpf(k.numerator) / k.denominator)
    elif op == 'ite':
        r = e(t.args[1]) if e(t.args[0]) else e(t.args[2])
    elif op == 'not':
        r = not e(t.args[0])
    elif op == 'and':
        r = all(e(a) for a in t.args)
    elif op == 'or':
        r = any(e(a) for a in t.args)
    elif op == 'lt0':
        r = e(t.args[0]) < -mp.mpf(10) ** -30
    elif op == 'eq0':
        r = abs(e(t.args[0])) <= mp.mpf(10) ** -30
    elif op == 'uf':
        r = MP_UF[t.args[0]](*[e(a) for a in t.args[1:]])
    elif op == 'floor':
        x = e(t.args[0])
        r = mp.floor(x + mp.mpf(10) ** -30)
    elif op == 'log':
        x = e(t.args[0])
        if x <= 0:
            raise ValueError('log domain')
        r = mp.log(x)
    elif op in ('asin', 'acos'):
        x = e(t.args[0])
        if abs(x) > 1:
            if abs(x) < 1 + mp.mpf(10) ** -25:
                x = mp.sign(x)
            else:
                raise ValueError('domain')
        r = getattr(mp, op)(x)
    elif op == 'atan2':
        r = mp.atan2(e(t.args[0]), e(t.args[1]))
    else:
        r = getattr(mp, op)(e(t.args[0]))
    cache[t.id] = r
    return r


NP_UF = {}
# any!k -> the element condition (a batch of one element evaluates it)
ANY = {}
for _n in ('max', 'min', 'mean', 'sum'):
    MP_UF[_n + 'N'] = NP_UF[_n + 'N'] = lambda v: v
del _n


def np_eval(t, env, cache=None):
    """vectorised float evaluation; env: var term -> float/bool ndarray"""
    if cache is None:
        cache = {}
    for s in atoms_of(t):
        if s.id in cache:
            continue
        e = lambda a: cache[a.id]
        op = s.op
        if op == 'c':
            r = float(s.args[0])
        elif op == 'pi':
            r = math.pi
        elif op in ('v', 'bv'):
            if s in ANY and s not in env:
                r = np_eval(ANY[s], env, cache)
            else:
                r = env[s]
        elif op == 'true':
            r = np.bool_(True)
        elif op == 'false':
            r = np.bool_(False)
        elif op == '+':
            r = float(s.args[0])
            for a, c in s.args[1]:
                r = r + e(a) * float(c)
        elif op == '*':
            r = 1.0
            for b, k in s.args[0]:
                bv = e(b)
                if k == 1:
                    r = r * bv
                elif k.denominator == 1:
                    r = r * np.power(np.asarray(bv, float), int(k))
                else:
                    r = r * np.power(np.asarray(bv, float), float(k))
        elif op == 'ite':
            r = np.where(e(s.args[0]), e(s.args[1]), e(s.args[2]))
        elif op == 'not':
            r = np.logical_not(e(s.args[0]))
        elif op == 'and':
            r = e(s.args[0])
            for a in s.args[1:]:
                r = np.logical_and(r, e(a))
        elif op == 'or':
            r = e(s.args[0])
            for a in s.args[1:]:
                r = np.logical_or(r, e(a))
        elif op == 'lt0':
            r = np.asarray(e(s.args[0])) < 0
        elif op == 'eq0':
            r = np.asarray(e(s.args[0])) == 0
        elif op == 'uf':
            r = NP_UF[s.args[0]](*[e(a) for a in s.args[1:]])
        elif op == 'atan2':
            r = np.arctan2(e(s.args[0]), e(s.args[1]))
        else:
            f = {'asin': np.arcsin, 'acos': np.arccos,
                 'atan': np.arctan}.get(op) or getattr(np, op)
            r = f(e(s.args[0]))
        cache[s.id] = r
    return cache[t.id]
