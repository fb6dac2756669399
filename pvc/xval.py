"""Extended reals X(v, nan, pinf, ninf), symbolic Booleans B and generic
arrays A used to execute the real code symbolically.

An axis of an array is either concrete (its length is the storage length) or
generic ('N': storage length one; the single stored element stands for every
element of an array of arbitrary length)."""
from fractions import Fraction as Fr
import numbers
import itertools
import numpy as np
from . import terms as t
from . import ctx as _ctx
from .ctx import Unsupported

TRUE, FALSE = t.TRUE, t.FALSE


# ====================================================================== B
class B:
    """symbolic (python or numpy) bool"""
    __slots__ = ('t',)
    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, term):
        self.t = term

    def __bool__(self):
        if self.t is TRUE:
            return True
        if self.t is FALSE:
            return False
        c = _ctx.get()
        if c is None:
            raise Unsupported('symbolic branch outside a context')
        return c.decide(self.t)

    def __and__(self, o):
        return ew2('and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        return ew2('or', self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return ew2('xor', self, o)
    __rxor__ = __xor__

    def __invert__(self):
        return B(t.bnot(self.t))

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def _num(self):
        return X(t.ite(self.t, t.ONE, t.ZERO))

    def __add__(self, o): return ew2('add', self, o)
    def __radd__(self, o): return ew2('add', o, self)
    def __sub__(self, o): return ew2('sub', self, o)
    def __rsub__(self, o): return ew2('sub', o, self)
    def __mul__(self, o): return ew2('mul', self, o)
    def __rmul__(self, o): return ew2('mul', o, self)
    def __eq__(self, o): return ew2('eq', self, o)
    def __ne__(self, o): return ew2('ne', self, o)
    def __neg__(self): return ew1('neg', self)

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f'B({self.t})'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ====================================================================== X
def _pyzero(o):
    """division of a Python float by a Python zero raises"""
    if isinstance(o, X):
        if o.np or _ctx.get() is None:
            return
        z = t.band(t.eq0(o.v), t.bnot(o.nan), t.bnot(o.pinf),
                   t.bnot(o.ninf))
        if bool(B(z)):
            raise ZeroDivisionError('float division by zero')
    elif isinstance(o, (int, float, Fr)) and o == 0 and not isinstance(
            o, (np.number, SymLen)):
        raise ZeroDivisionError('division by zero')


class X(numbers.Number):
    """extended real scalar.  np=True: behaves like numpy.float64"""
    __slots__ = ('v', 'nan', 'pinf', 'ninf', 'np')
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(float)
    __array_priority__ = 1000
    __array_ufunc__ = None

    @property
    def real(self):
        return self

    def __init__(self, v, nan=FALSE, pinf=FALSE, ninf=FALSE, np=False):
        self.v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.np = np

    def __repr__(self):
        f = ''.join(f', {n}={getattr(self, n)}' for n in
                    ('nan', 'pinf', 'ninf') if getattr(self, n) is not FALSE)
        return f'X({self.v}{f})'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return hash((self.v.id, self.nan.id, self.pinf.id, self.ninf.id))

    def isfin(self):
        return self.nan is FALSE and self.pinf is FALSE and self.ninf is FALSE

    def isconst(self):
        return self.isfin() and self.v.op == 'c'

    def __bool__(self):
        return bool(B(t.bor(self.nan, self.pinf, self.ninf,
                            t.bnot(t.eq0(self.v)))))

    def __float__(self):
        if self.isfin():
            c = t.const_val(self.v) if self.v.op != 'c' else None
            if self.v.op == 'c':
                return float(self.v.args[0])
            if c is not None:
                return float(c)
        if self.nan is TRUE:
            return float('nan')
        if self.pinf is TRUE:
            return float('inf')
        if self.ninf is TRUE:
            return float('-inf')
        raise Unsupported(f'float() of symbolic value {self.v}')

    def __index__(self):
        if self.isconst() and self.v.args[0].denominator == 1:
            return int(self.v.args[0])
        raise TypeError('not an integer')

    def __int__(self):
        if self.isconst():
            f = self.v.args[0]
            return int(f)
        raise Unsupported('int() of a symbolic value')

    def __round__(self, n=0):
        return np_round(self, n or 0)

    def __format__(self, spec):
        try:
            return format(float(self), spec)
        except Exception:
            return repr(self)

    def __str__(self):
        try:
            return str(float(self))
        except Exception:
            return repr(self)

    def __add__(self, o): return ew2('add', self, o)
    def __radd__(self, o): return ew2('add', o, self)
    def __sub__(self, o): return ew2('sub', self, o)
    def __rsub__(self, o): return ew2('sub', o, self)
    def __mul__(self, o): return ew2('mul', self, o)
    def __rmul__(self, o): return ew2('mul', o, self)
    def __truediv__(self, o):
        if not self.np:
            _pyzero(o)
        return ew2('div', self, o)

    def __rtruediv__(self, o):
        if not self.np and isinstance(o, (int, float, Fr)) and \
                not isinstance(o, np.number):
            _pyzero(self)
        return ew2('div', o, self)

    def __floordiv__(self, o): return ew2('floordiv', self, o)
    def __rfloordiv__(self, o): return ew2('floordiv', o, self)
    def __mod__(self, o): return ew2('mod', self, o)
    def __rmod__(self, o): return ew2('mod', o, self)
    def __pow__(self, o): return ew2('pow', self, o)
    def __rpow__(self, o): return ew2('pow', o, self)
    def __neg__(self): return ew1('neg', self)
    def __pos__(self): return self
    def __abs__(self): return ew1('abs', self)
    def __lt__(self, o): return ew2('lt', self, o)
    def __le__(self, o): return ew2('le', self, o)
    def __gt__(self, o): return ew2('gt', self, o)
    def __ge__(self, o): return ew2('ge', self, o)
    def __eq__(self, o): return ew2('eq', self, o)
    def __ne__(self, o): return ew2('ne', self, o)

    def __divmod__(self, o):
        return ew2('floordiv', self, o), ew2('mod', self, o)

    def _needs_np(self, name):
        if not self.np:
            raise AttributeError(f"'float' object has no attribute '{name}'")

    def item(self):
        self._needs_np('item')
        return X(self.v, self.nan, self.pinf, self.ninf, False)

    def is_integer(self):
        return B(t.eq0(t.sub(self.v, t.floor(self.v))))

    def astype(self, dt, **k):
        self._needs_np('astype')
        return cast(self, dt)

    def copy(self):
        self._needs_np('copy')
        return self

    def any(self, *a, **k):
        self._needs_np('any')
        return B(t.bnot(t.eq0(self.v)))

    all = any

    def clip(self, lo=None, hi=None, **k):
        self._needs_np('clip')
        return clip(self, k.get('min', lo), k.get('max', hi))

    def round(self, n=0):
        self._needs_np('round')
        return np_round(self, n)

    def sum(self, *a, **k):
        self._needs_np('sum')
        return self
    max = min = mean = squeeze = sum

    def reshape(self, *s):
        self._needs_np('reshape')
        return A.of(self).reshape(*s)

    def __getitem__(self, k):
        self._needs_np('__getitem__')
        return A.of(self)[k]

    def __getattr__(self, n):
        raise AttributeError(f"'float' object has no attribute '{n}'")


NAN = X(t.ZERO, TRUE, np=True)
PINF = X(t.ZERO, pinf=TRUE, np=True)
NINF = X(t.ZERO, ninf=TRUE, np=True)


def xc(f):
    """float/int/Fraction -> X"""
    if isinstance(f, X):
        return f
    if isinstance(f, B):
        return f._num()
    if isinstance(f, (bool, np.bool_)):
        return X(t.ONE if f else t.ZERO)
    if isinstance(f, (int, np.integer)):
        return X(t.C(int(f)))
    if isinstance(f, (float, np.floating)):
        isnp = isinstance(f, np.floating)
        f = float(f)
        if f != f:
            return X(t.ZERO, TRUE, np=isnp)
        if f in (float('inf'), float('-inf')):
            return X(t.ZERO, FALSE, TRUE if f > 0 else FALSE,
                     TRUE if f < 0 else FALSE, isnp)
        return X(t.C(f), np=isnp)
    if isinstance(f, Fr):
        return X(t.C(f))
    if isinstance(f, t.T):
        return X(f)
    if f is None:
        raise TypeError("unsupported operand type(s): 'NoneType'")
    raise TypeError(f'unsupported operand type: {type(f).__name__}')


def lift(term):
    return X(term)


def _fl(x):
    return x.nan is not FALSE or x.pinf is not FALSE or x.ninf is not FALSE


def mkx(v, nan, pinf, ninf, np_):
    if nan is not FALSE:
        nn = t.bnot(nan)
        if pinf is not FALSE:
            pinf = t.band(pinf, nn)
        if ninf is not FALSE:
            ninf = t.band(ninf, nn)
    if nan is TRUE or pinf is TRUE or ninf is TRUE:
        v = t.ZERO
    return X(v, nan, pinf, ninf, np_)


def x_add(a, b):
    n = a.np or b.np
    v = t.add(a.v, b.v)
    if not (_fl(a) or _fl(b)):
        return X(v, np=n)
    nan = t.bor(a.nan, b.nan, t.band(a.pinf, b.ninf), t.band(a.ninf, b.pinf))
    return mkx(v, nan, t.bor(a.pinf, b.pinf), t.bor(a.ninf, b.ninf), n)


def x_neg(a):
    return X(t.neg(a.v), a.nan, a.ninf, a.pinf, a.np)


def x_sub(a, b):
    return x_add(a, x_neg(b))


def pos_(a):
    """a > 0 (a not nan)"""
    return t.bor(a.pinf, t.band(t.bnot(a.ninf), t.gt(a.v, t.ZERO)))


def neg_(a):
    return t.bor(a.ninf, t.band(t.bnot(a.pinf), t.lt(a.v, t.ZERO)))


def fin_(a):
    return t.band(t.bnot(a.nan), t.bnot(a.pinf), t.bnot(a.ninf))


def zero_(a):
    return t.band(fin_(a), t.eq0(a.v))


def x_mul(a, b):
    n = a.np or b.np
    v = t.mul(a.v, b.v)
    if not (_fl(a) or _fl(b)):
        return X(v, np=n)
    ai = t.bor(a.pinf, a.ninf)
    bi = t.bor(b.pinf, b.ninf)
    nan = t.bor(a.nan, b.nan, t.band(ai, zero_(b)), t.band(bi, zero_(a)))
    anyinf = t.bor(ai, bi)
    if anyinf is FALSE:
        return mkx(v, nan, FALSE, FALSE, n)
    p = t.bor(t.band(pos_(a), pos_(b)), t.band(neg_(a), neg_(b)))
    m = t.bor(t.band(pos_(a), neg_(b)), t.band(neg_(a), pos_(b)))
    return mkx(v, nan, t.band(anyinf, p), t.band(anyinf, m), n)


def x_div(a, b):
    n = a.np or b.np
    if not (_fl(a) or _fl(b)):
        z = t.eq0(b.v)
        if z is FALSE:
            return X(t.div(a.v, b.v), np=n)
        nan = t.band(z, t.eq0(a.v))
        pinf = t.band(z, t.gt(a.v, t.ZERO))
        ninf = t.band(z, t.lt(a.v, t.ZERO))
        return mkx(t.div(a.v, b.v), nan, pinf, ninf, n)
    ai = t.bor(a.pinf, a.ninf)
    bi = t.bor(b.pinf, b.ninf)
    zb = zero_(b)
    nan = t.bor(a.nan, b.nan, t.band(ai, bi), t.band(zb, zero_(a)))
    # a/inf = 0 ; inf/b = +-inf ; a/0 = +-inf (zero taken as +0)
    big = t.bor(ai, zb)
    bneg = t.band(neg_(b), t.bnot(zb))
    pinf = t.band(big, t.bor(t.band(pos_(a), t.bnot(bneg)),
                             t.band(neg_(a), bneg)))
    ninf = t.band(big, t.bor(t.band(neg_(a), t.bnot(bneg)),
                             t.band(pos_(a), bneg)))
    v = t.ite(bi, t.ZERO, t.div(a.v, b.v))
    return mkx(v, nan, pinf, ninf, n)


def _nonan(a):
    return X(a.v, FALSE, a.pinf, a.ninf, a.np) if a.nan is not FALSE else a


def x_min(a, b):
    # the value part is irrelevant where an operand is NaN
    nan = t.bor(a.nan, b.nan)
    p, q = _nonan(a), _nonan(b)
    n = a.np or b.np
    if not (_fl(p) or _fl(q)):
        return mkx(t.tmin(a.v, b.v), nan, FALSE, FALSE, n)
    r = x_ite(x_lt(q, p), q, p)
    return mkx(r.v, nan, r.pinf, r.ninf, n)


def x_max(a, b):
    nan = t.bor(a.nan, b.nan)
    p, q = _nonan(a), _nonan(b)
    n = a.np or b.np
    if not (_fl(p) or _fl(q)):
        return mkx(t.tmax(a.v, b.v), nan, FALSE, FALSE, n)
    r = x_ite(x_lt(p, q), q, p)
    return mkx(r.v, nan, r.pinf, r.ninf, n)


def x_fmin(a, b):
    return x_ite(a.nan, b, x_ite(b.nan, a, x_min(a, b)))


def x_fmax(a, b):
    return x_ite(a.nan, b, x_ite(b.nan, a, x_max(a, b)))


def x_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return X(t.ite(_vcond(c, a, b), a.v, b.v), t.bite(c, a.nan, b.nan),
             t.bite(c, a.pinf, b.pinf), t.bite(c, a.ninf, b.ninf),
             a.np or b.np)


def _vcond(c, a, b):
    """the condition of a selection, for the finite values: where b is not
    finite it need not say "b is finite" (the value is not looked at then),
    and likewise for a"""
    neg = c.op in ('and', 'not') and _fl(b)
    if neg:
        c = t.bnot(c)
        a, b = b, a
    if not _fl(a):
        return t.bnot(c) if neg else c
    drop = set()
    for f in (a.nan, a.pinf, a.ninf):
        drop.add(f.id)
        if f.op == 'or':
            drop.update(q.id for q in f.args)
    qs = c.args if c.op == 'or' else (c,)
    if neg and c.op == 'not' and c.args[0].op == 'and':
        # not(x and not flag ...): keep the other conjuncts
        keep = [q for q in c.args[0].args if t.bnot(q).id not in drop]
        c = t.bnot(t.band(*keep))
    elif any(q.id in drop for q in qs):
        c = t.bor(*[q for q in qs if q.id not in drop])
    return t.bnot(c) if neg else c


def x_lt(a, b):
    if not (_fl(a) or _fl(b)):
        return t.lt(a.v, b.v)
    ok = t.band(t.bnot(a.nan), t.bnot(b.nan))
    body = t.bor(
        t.band(a.ninf, t.bnot(b.ninf)),
        t.band(b.pinf, t.bnot(a.pinf)),
        t.band(t.bnot(a.pinf), t.bnot(a.ninf), t.bnot(b.pinf),
               t.bnot(b.ninf), t.lt(a.v, b.v)))
    return t.band(ok, body)


def x_le(a, b):
    if not (_fl(a) or _fl(b)):
        return t.le(a.v, b.v)
    ok = t.band(t.bnot(a.nan), t.bnot(b.nan))
    return t.band(ok, t.bnot(x_lt(b, a)))


def x_eq(a, b):
    if not (_fl(a) or _fl(b)):
        return t.eq(a.v, b.v)
    return t.bor(t.band(fin_(a), fin_(b), t.eq(a.v, b.v)),
                 t.band(t.bnot(a.nan), t.bnot(b.nan),
                        t.bor(t.band(a.pinf, b.pinf),
                              t.band(a.ninf, b.ninf))))


def x_abs(a):
    return X(t.tabs(a.v), a.nan, t.bor(a.pinf, a.ninf), FALSE, a.np)


def _mono1(fn, pinf_val, ninf_val, dom=None, np_=True):
    """unary function, limits at +-inf given as X"""
    def f(a):
        nan = a.nan
        v = fn(a.v)
        if dom is not None:
            bad = dom(a.v)
            if bad is not FALSE:
                nan = t.bor(nan, t.band(t.bnot(a.pinf), t.bnot(a.ninf), bad))
        r = mkx(v, nan, FALSE, FALSE, True)
        if a.pinf is not FALSE:
            r = x_ite(a.pinf, pinf_val, r)
        if a.ninf is not FALSE:
            r = x_ite(a.ninf, ninf_val, r)
        if nan is not FALSE and (a.pinf is not FALSE or a.ninf is not FALSE):
            r = mkx(r.v, r.nan, r.pinf, r.ninf, True)
        return r
    return f


X0 = X(t.ZERO, np=True)
X1 = X(t.ONE, np=True)
_NAN = NAN
x_sin = _mono1(t.sin, _NAN, _NAN)
x_cos = _mono1(t.cos, _NAN, _NAN)
x_exp = _mono1(t.exp, PINF, X0)
x_atan = _mono1(t.atan, X(t.smul(Fr(1, 2), t.PI), np=True),
                X(t.smul(Fr(-1, 2), t.PI), np=True))


def _note_domain(kind, a):
    c = _ctx.get()
    if c is not None:
        c.domain.append((kind, a))


def x_asin(a):
    _note_domain('asin', a)
    return _mono1(t.asin, _NAN, _NAN, _outside1)(a)


def x_acos(a):
    _note_domain('acos', a)
    return _mono1(t.acos, _NAN, _NAN, _outside1)(a)


def _outside1(v):
    return t.bor(t.lt(v, t.NEG1), t.gt(v, t.ONE))


def x_sqrt(a):
    _note_domain('sqrt', a)
    return _mono1(t.sqrt, PINF, _NAN, lambda v: t.lt(v, t.ZERO))(a)


def x_tan(a):
    return x_div(x_sin(a), x_cos(a))


def x_log(a):
    r = _mono1(t.log, PINF, _NAN, lambda v: t.lt(v, t.ZERO))(a)
    z = zero_(a)
    if z is not FALSE:
        r = x_ite(z, NINF, r)
    return r


def x_atan2(y, x):
    if _fl(y) or _fl(x):
        nan = t.bor(y.nan, x.nan)
        inf = t.bor(y.pinf, y.ninf, x.pinf, x.ninf)
        v = t.atan2(y.v, x.v)
        if inf is not FALSE:
            # y = +-inf with x finite: +-pi/2 ; x = +inf: 0 ; x = -inf: +-pi
            h = t.smul(Fr(1, 2), t.PI)
            fy = t.band(t.bnot(y.pinf), t.bnot(y.ninf))
            v = t.ite(t.band(y.pinf, t.bnot(x.pinf), t.bnot(x.ninf)), h, v)
            v = t.ite(t.band(y.ninf, t.bnot(x.pinf), t.bnot(x.ninf)),
                      t.neg(h), v)
            v = t.ite(t.band(fy, x.pinf), t.ZERO, v)
            v = t.ite(t.band(fy, x.ninf),
                      t.ite(t.lt(y.v, t.ZERO), t.neg(t.PI), t.PI), v)
            q = t.smul(Fr(1, 4), t.PI)
            v = t.ite(t.band(y.pinf, x.pinf), q, v)
            v = t.ite(t.band(y.ninf, x.pinf), t.neg(q), v)
        return mkx(v, nan, FALSE, FALSE, True)
    return X(t.atan2(y.v, x.v), np=True)


def x_floor(a):
    return X(t.floor(a.v), a.nan, a.pinf, a.ninf, a.np)


def x_ceil(a):
    return X(t.neg(t.floor(t.neg(a.v))), a.nan, a.pinf, a.ninf, a.np)


def x_trunc(a):
    return X(t.ite(t.lt(a.v, t.ZERO), t.neg(t.floor(t.neg(a.v))),
                   t.floor(a.v)), a.nan, a.pinf, a.ninf, a.np)


def x_rint(a):
    # round half to even
    f = t.floor(t.add(a.v, t.C(Fr(1, 2))))
    tie = t.eq(t.sub(f, a.v), t.C(Fr(1, 2)))
    odd = t.bnot(t.eq0(t.mod(f, t.C(2))))
    v = t.ite(t.band(tie, odd), t.sub(f, t.ONE), f) \
        if tie is not FALSE else f
    return X(v, a.nan, a.pinf, a.ninf, a.np)


def x_sign(a):
    v = t.sign(a.v)
    r = X(v, a.nan, FALSE, FALSE, a.np)
    r = x_ite(a.pinf, X(t.ONE), r)
    r = x_ite(a.ninf, X(t.NEG1), r)
    return mkx(r.v, a.nan, FALSE, FALSE, a.np)


def x_mod(a, b):
    n = a.np or b.np
    if _fl(a) or _fl(b) or b.v.op != 'c':
        bi = t.bor(b.pinf, b.ninf)
        nan = t.bor(a.nan, b.nan, a.pinf, a.ninf, zero_(b))
        v = t.mod(a.v, b.v)
        if bi is not FALSE:
            # a mod inf = a when signs agree
            v = t.ite(bi, a.v, v)
        return mkx(v, nan, FALSE, FALSE, n)
    if b.v.args[0] == 0:
        return X(t.ZERO, TRUE, np=n)
    return X(t.mod(a.v, b.v), np=n)


def x_floordiv(a, b):
    r = x_div(a, b)
    return X(t.floor(r.v), r.nan, r.pinf, r.ninf, r.np)


def x_pow(a, b):
    n = a.np or b.np
    if b.isconst():
        e = b.v.args[0]
        if e == 0:
            return X(t.ONE, np=n)
        if not _fl(a):
            if e.denominator == 1:
                if e > 0:
                    return X(t.pw(a.v, e), np=n)
                r = x_div(X(t.ONE), X(t.pw(a.v, -e)))
                r.np = n
                return r
            if e > 0:
                bad = t.lt(a.v, t.ZERO)
                _note_domain('sqrt', a)
                return mkx(t.pw(a.v, e), bad, FALSE, FALSE, n)
            bad = t.lt(a.v, t.ZERO)
            z = t.eq0(a.v)
            return mkx(t.pw(a.v, e), bad, z, FALSE, n)
        neg = neg_(a)
        if e.denominator == 1 and e.numerator % 2 == 0:
            sgnneg = FALSE
        elif e.denominator == 1:
            sgnneg = neg
        else:
            sgnneg = FALSE
        nan = a.nan
        if e.denominator != 1:
            nan = t.bor(nan, t.band(t.bnot(a.nan), t.bnot(a.pinf),
                                    t.bnot(a.ninf), t.lt(a.v, t.ZERO)))
        inf = t.bor(a.pinf, a.ninf)
        v = t.pw(a.v, e)
        if e > 0:
            return mkx(v, nan, t.band(inf, t.bnot(sgnneg)),
                       t.band(inf, sgnneg), n)
        z = zero_(a)
        v = t.ite(inf, t.ZERO, v) if inf is not FALSE else v
        return mkx(v, nan, z, FALSE, n)
    if a.isconst() and a.v.args[0] > 0:
        c = a.v.args[0]
        if c == 1:
            return X(t.ONE, np=n)
        r = x_exp(x_mul(b, X(t.log(a.v))))
        r.np = n
        return r
    # general: a ** b
    if _fl(a) or _fl(b):
        one = t.bor(zero_(b), t.band(fin_(a), t.eq(a.v, t.ONE)))
        ainf = t.bor(a.pinf, a.ninf)
        binf = t.bor(b.pinf, b.ninf)
        core = x_pow(X(a.v), X(b.v))
        # a = +inf, b finite
        r = x_ite(t.band(a.pinf, t.bnot(binf)),
                  x_ite(pos_(b), PINF, X0), core)
        # infinite exponent
        mag1 = t.tabs(a.v)
        big = t.bor(ainf, t.gt(mag1, t.ONE))
        r = x_ite(b.pinf, x_ite(big, PINF, x_ite(t.eq(mag1, t.ONE), X1, X0)),
                  r)
        r = x_ite(b.ninf, x_ite(big, X0, x_ite(t.eq(mag1, t.ONE), X1, PINF)),
                  r)
        nan = t.band(t.bor(a.nan, b.nan), t.bnot(one))
        r = x_ite(one, X1, r)
        return mkx(r.v, t.bor(nan, t.band(r.nan, t.bnot(one))), r.pinf,
                   r.ninf, n)
    z = t.eq0(a.v)
    bz = t.eq0(b.v)
    bpos = t.gt(b.v, t.ZERO)
    base = t.exp(t.mul(b.v, t.log(a.v)))
    v = t.ite(bz, t.ONE, t.ite(z, t.ZERO, base))
    pinf = t.band(z, t.lt(b.v, t.ZERO))
    nan = t.band(t.lt(a.v, t.ZERO), t.bnot(bz))
    # a negative base with an integer exponent is out of reach: the value is
    # then reported as NaN on both sides of a contract
    return mkx(v, nan, pinf, FALSE, n)


def x_expm1(a):
    return x_sub(x_exp(a), X1)


def x_log1p(a):
    return x_log(x_add(a, X1))


def x_log10(a):
    return x_div(x_log(a), X(t.log(t.C(10))))


def x_log2(a):
    return x_div(x_log(a), X(t.log(t.C(2))))


def x_hypot(a, b):
    return x_sqrt(x_add(x_mul(a, a), x_mul(b, b)))


def x_radians(a):
    return x_mul(a, X(t.smul(Fr(1, 180), t.PI), np=True))


def x_degrees(a):
    return x_mul(a, X(t.smul(180, t.pw(t.PI, -1)), np=True))


def x_uf(name):
    def f(*a):
        nan = t.bor(*[x.nan for x in a])
        for x in a:
            if x.pinf is not FALSE or x.ninf is not FALSE:
                nan = t.bor(nan, x.pinf, x.ninf)
        return mkx(t.uf(name, *[x.v for x in a]), nan, FALSE, FALSE, True)
    return f


def x_sinh(a):
    return x_div(x_sub(x_exp(a), x_exp(x_neg(a))), X(t.C(2)))


def x_cosh(a):
    return x_div(x_add(x_exp(a), x_exp(x_neg(a))), X(t.C(2)))


def x_tanh(a):
    e = x_exp(x_mul(X(t.C(2)), a))
    return x_div(x_sub(e, X1), x_add(e, X1))


XOPS = dict(add=x_add, sub=x_sub, mul=x_mul, div=x_div, pow=x_pow, mod=x_mod,
            floordiv=x_floordiv, neg=x_neg, abs=x_abs, min=x_min, max=x_max,
            fmin=x_fmin, fmax=x_fmax, sin=x_sin, cos=x_cos, tan=x_tan,
            exp=x_exp, log=x_log, sqrt=x_sqrt, asin=x_asin, acos=x_acos,
            atan=x_atan, atan2=x_atan2, floor=x_floor, ceil=x_ceil,
            trunc=x_trunc, rint=x_rint, sign=x_sign, expm1=x_expm1,
            log1p=x_log1p, log10=x_log10, log2=x_log2, hypot=x_hypot,
            radians=x_radians, degrees=x_degrees, sinh=x_sinh, cosh=x_cosh,
            tanh=x_tanh, erf=x_uf('erf'),
            lt=lambda a, b: B(x_lt(a, b)), le=lambda a, b: B(x_le(a, b)),
            gt=lambda a, b: B(x_lt(b, a)), ge=lambda a, b: B(x_le(b, a)),
            eq=lambda a, b: B(x_eq(a, b)),
            ne=lambda a, b: B(t.bnot(x_eq(a, b))),
            isnan=lambda a: B(a.nan),
            isinf=lambda a: B(t.bor(a.pinf, a.ninf)),
            isfinite=lambda a: B(fin_(a)))

LOGIC = {'and': lambda a, b: B(t.band(a, b)),
         'or': lambda a, b: B(t.bor(a, b)),
         'xor': lambda a, b: B(t.bnot(t.iff(a, b)))}


def tob(e):
    """element -> bool term (truth value)"""
    if isinstance(e, B):
        return e.t
    if isinstance(e, (bool, np.bool_)):
        return TRUE if e else FALSE
    e = xc(e)
    return t.bor(e.nan, e.pinf, e.ninf, t.bnot(t.eq0(e.v)))


def elem2(op, a, b):
    if op in LOGIC:
        return LOGIC[op](tob(a), tob(b))
    if op in ('eq', 'ne') and (isinstance(a, str) or isinstance(b, str)):
        r = (a == b)
        return r if op == 'eq' else not r
    if isinstance(a, B) and isinstance(b, B) and op in ('eq', 'ne'):
        r = t.iff(a.t, b.t)
        return B(r if op == 'eq' else t.bnot(r))
    if isinstance(a, B) and isinstance(b, B) and op in ('mul', 'add'):
        return LOGIC['and' if op == 'mul' else 'or'](a.t, b.t)
    return XOPS[op](xc(a), xc(b))


# ====================================================================== A
class GX(X):
    """element of a list built from an index of unknown length"""
    __slots__ = ()


class SymLen(int):
    """length of a generic axis; value unknown"""
    def __new__(cls):
        return int.__new__(cls, 1)

    def _u(self, *a):
        raise Unsupported('arithmetic on a symbolic length')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _u
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = _u

    def __lt__(self, o):
        if isinstance(o, SymLen) or isinstance(o, int) and o <= 1:
            return False        # arrays are not empty
        if not isinstance(o, int):
            self._u()
        return _ctx.get().decide(t.bvar(f'len<{int(o)}'))

    def __ge__(self, o):
        return not self < o

    def __le__(self, o):
        return True if isinstance(o, SymLen) else self < o + 1

    def __gt__(self, o):
        return not self <= o

    def __eq__(self, o):
        if isinstance(o, SymLen):
            return True
        c = _ctx.get()
        return c.decide(t.bvar(f'len=={o}'))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return id(SymLen)

    def __bool__(self):
        return True

    def __index__(self):
        raise Unsupported('symbolic length used as an integer')

    def __repr__(self):
        return 'N'


N = SymLen()


class GenI:
    """the arbitrary index of a map loop (see loops.py)"""

    def __init__(self, r):
        self.r = r

    def _u(self, *a):
        raise Unsupported('arithmetic on the index of a loop over an array '
                          'of unknown length')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _u
    __mod__ = __floordiv__ = __truediv__ = __neg__ = __bool__ = _u
    __index__ = __int__ = __float__ = __pow__ = __rpow__ = _u
    __hash__ = None


class _GI(int):
    """GenI as a numpy index: the one stored element of a generic axis"""


class MapRange:
    generic = True

    def __iter__(self):
        c = _ctx.get()
        if getattr(c, 'maploop', None):
            raise Unsupported('nested loops over unknown lengths')
        c.maploop = self
        self.stamp = next(_stamps)
        yield GenI(self)

    def end(self):
        _ctx.get().maploop = None


_stamps = itertools.count()


def in_loop(a, gen):
    """access of array a inside a map loop"""
    c = _ctx.get()
    m = getattr(c, 'maploop', None) if c is not None else None
    if m is not None and not gen and a.stamp < m.stamp:
        raise Unsupported('array of the loop used other than at the index')


class A:
    """generic/concrete object array"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, d, g=None, dt=None, tag=None, sel=None):
        self.d = d
        self.g = tuple(g) if g is not None else (False,) * d.ndim
        self.dt = dt or _dtof(d)
        self.tag = tag              # name of the input this is (frame)
        self.sel = sel              # boolean-mask selection (term id tuple)
        self.base = None
        self.ro = False
        self.stamp = next(_stamps)

    # ---- construction
    @staticmethod
    def of(o, dtype=None):
        if isinstance(o, A):
            if any(o.g):
                in_loop(o, False)
            return o
        if hasattr(o, '_as_A'):
            return o._as_A()
        if isinstance(o, (X, B)):
            d = np.empty((), object)
            d[()] = o
            return A(d)
        if isinstance(o, (bool, np.bool_)):
            d = np.empty((), object)
            d[()] = B(TRUE if o else FALSE)
            return A(d)
        if isinstance(o, (int, np.integer)):
            d = np.empty((), object)
            d[()] = xc(o)
            return A(d, dt='i')
        if isinstance(o, (float, np.floating)):
            d = np.empty((), object)
            d[()] = xc(o)
            return A(d)
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                return A.of(o.tolist())
            d = np.empty(o.shape, object)
            for i in np.ndindex(*o.shape):
                e = o[i]
                if o.dtype.kind in 'ifu':
                    d[i] = xc(e)
                elif o.dtype.kind == 'b':
                    d[i] = B(TRUE if e else FALSE)
                else:
                    d[i] = e
            return A(d, dt={'i': 'i', 'u': 'i', 'b': 'b',
                            'f': 'f'}.get(o.dtype.kind, 'O'))
        if isinstance(o, (list, tuple)):
            if len(o) == 0:
                return A(np.empty((0,), object), dt='f')
            if len(o) == 1 and type(o[0]) is GX:
                e = o[0]
                return A.generic(X(e.v, e.nan, e.pinf, e.ninf, True))
            ps = [A.of(e) for e in o]
            return stack_(ps, 0)
        if isinstance(o, (str,)) or o is None:
            d = np.empty((), object)
            d[()] = o
            return A(d, dt='O')
        if isinstance(o, range):
            return A.of(list(o))
        import pandas as _pd
        if isinstance(o, (_pd.Series, _pd.Index)):
            return A.of(o.to_numpy())
        raise Unsupported(f'array of {type(o).__name__}')

    @staticmethod
    def generic(elem, dt=None):
        d = np.empty((1,), object)
        d[0] = elem
        return A(d, (True,), dt)

    # ---- basic attributes
    @property
    def shape(self):
        return tuple(N if g else n for n, g in zip(self.d.shape, self.g))

    @property
    def ndim(self):
        return self.d.ndim

    @property
    def size(self):
        if any(self.g):
            return N
        return self.d.size

    @property
    def dtype(self):
        return np.dtype({'f': float, 'i': int, 'b': bool,
                         'O': object}[self.dt])

    @property
    def T(self):
        return A(self.d.T, self.g[::-1], self.dt)

    @property
    def values(self):
        raise AttributeError("'numpy.ndarray' object has no attribute "
                             "'values'")

    @property
    def flat(self):
        return iter(self.ravel())

    def __len__(self):
        if not self.g:
            raise TypeError('len() of unsized object')
        if self.g[0]:
            return NLEN()
        return self.d.shape[0]

    def __iter__(self):
        if not self.g:
            raise TypeError('iteration over a 0-d array')
        if self.g[0]:
            raise Unsupported('iteration over a generic axis')
        for i in range(self.d.shape[0]):
            yield self[i]

    def __repr__(self):
        return f'A{self.shape}{self.d.tolist()}'

    def __bool__(self):
        if any(self.g) or self.d.size != 1:
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        return bool(self.d.reshape(-1)[0])

    def __float__(self):
        if any(self.g) or self.d.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return float(self.d.reshape(-1)[0])

    def __index__(self):
        if self.g == () and self.dt == 'i':
            return int(self.d[()])
        raise TypeError('only integer scalar arrays can be converted to a '
                        'scalar index')

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, *a, **k):
        return A(self.d.copy(), self.g, self.dt, sel=self.sel)

    __copy__ = copy

    def scalar(self):
        """0-d -> X/B"""
        e = self.d[()]
        if isinstance(e, X):
            return X(e.v, e.nan, e.pinf, e.ninf, True)
        return e

    def item(self, *a):
        if any(self.g) or self.d.size != 1:
            raise ValueError('can only convert an array of size 1 to a '
                             'Python scalar')
        e = self.d.reshape(-1)[0]
        return X(e.v, e.nan, e.pinf, e.ninf, False) if isinstance(e, X) else e

    def tolist(self):
        if any(self.g):
            raise Unsupported('tolist of generic array')
        return self.d.tolist()

    # ---- operators
    def __add__(self, o): return ew2('add', self, o)
    def __radd__(self, o): return ew2('add', o, self)
    def __sub__(self, o): return ew2('sub', self, o)
    def __rsub__(self, o): return ew2('sub', o, self)
    def __mul__(self, o): return ew2('mul', self, o)
    def __rmul__(self, o): return ew2('mul', o, self)
    def __truediv__(self, o): return ew2('div', self, o)
    def __rtruediv__(self, o): return ew2('div', o, self)
    def __floordiv__(self, o): return ew2('floordiv', self, o)
    def __rfloordiv__(self, o): return ew2('floordiv', o, self)
    def __mod__(self, o): return ew2('mod', self, o)
    def __rmod__(self, o): return ew2('mod', o, self)
    def __pow__(self, o): return ew2('pow', self, o)
    def __rpow__(self, o): return ew2('pow', o, self)
    def __neg__(self): return ew1('neg', self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ew1('abs', self)
    def __lt__(self, o): return ew2('lt', self, o)
    def __le__(self, o): return ew2('le', self, o)
    def __gt__(self, o): return ew2('gt', self, o)
    def __ge__(self, o): return ew2('ge', self, o)
    def __eq__(self, o): return ew2('eq', self, o)
    def __ne__(self, o): return ew2('ne', self, o)
    def __and__(self, o): return ew2('and', self, o)
    def __rand__(self, o): return ew2('and', o, self)
    def __or__(self, o): return ew2('or', self, o)
    def __ror__(self, o): return ew2('or', o, self)
    def __xor__(self, o): return ew2('xor', self, o)
    def __rxor__(self, o): return ew2('xor', o, self)
    def __invert__(self): return ew1('not', self)
    def __matmul__(self, o): return matmul(self, o)

    def _inplace(self, op, o):
        r = ew2(op, self, o)
        if not isinstance(r, A):
            r = A.of(r)
        if hasattr(o, '_as_A') and not isinstance(o, A):
            o = o._as_A()
        r = A.of(r)
        if r.g != self.g or r.d.shape != self.d.shape:
            # numpy: non-broadcastable output operand
            raise ValueError('non-broadcastable output operand with shape')
        self._write_check()
        if self.dt == 'i' and r.dt == 'f':
            raise TypeError("Cannot cast ufunc output from dtype('float64') "
                            "to dtype('int64') with casting rule 'same_kind'")
        self.d[...] = r.d
        self._root_note()
        return self

    def __iadd__(self, o): return self._inplace('add', o)
    def __isub__(self, o): return self._inplace('sub', o)
    def __imul__(self, o): return self._inplace('mul', o)
    def __itruediv__(self, o): return self._inplace('div', o)
    def __imod__(self, o): return self._inplace('mod', o)
    def __ipow__(self, o): return self._inplace('pow', o)
    def __iand__(self, o): return self._inplace('and', o)
    def __ior__(self, o): return self._inplace('or', o)

    def _root_note(self):
        b = self
        while b is not None:
            if b.tag is not None:
                c = _ctx.get()
                if c is not None:
                    c.mutated.append(b.tag)
            b = b.base

    def _write_check(self):
        if self.ro:
            raise ValueError('assignment destination is read-only')

    # ---- indexing
    def _view(self, d, g):
        r = A(d, g, self.dt)
        r.base = self
        r.ro = self.ro
        return r

    def __getitem__(self, k):
        if self.g and self.g[0] and len(self.g) == 1:
            r = self._rowget(k)
            if r is not None:
                return r
        k2, kind = _key(self, k)
        if any(self.g):
            in_loop(self, kind == 'gen')
        if kind == 'mask':
            m = k2
            if m.d.shape != self.d.shape[:m.d.ndim] or \
                    m.g != self.g[:m.d.ndim]:
                if m.d.ndim == 0:
                    raise Unsupported('0-d mask selection')
                raise IndexError('boolean index did not match')
            if not any(m.g) and all(isinstance(e, B) and e.t in (TRUE, FALSE)
                                    for e in m.d.reshape(-1)):
                mm = np.array([e.t is TRUE for e in m.d.reshape(-1)],
                              bool).reshape(m.d.shape)
                return A(self.d[mm], None if not any(self.g) else
                         (False,) + self.g[m.d.ndim:], self.dt)
            sel = tuple(e.t.id for e in m.d.reshape(-1))
            if m.d.ndim != self.d.ndim:
                raise Unsupported('partial mask')
            if self.sel is not None:
                if m.sel not in (None, self.sel):
                    raise Unsupported('mask of another selection')
                sel = (self.sel, sel)
            return A(self.d.copy(), self.g, self.dt, sel=sel)
        d = self.d[k2]
        g = _keyg(self, k2)
        if not isinstance(d, np.ndarray):
            if g:
                raise Unsupported('index')
            e = d
            return X(e.v, e.nan, e.pinf, e.ninf, True) \
                if isinstance(e, X) else e
        if kind == 'fancy':
            return A(d, g, self.dt)
        return self._view(d, g)

    def _rowget(self, k):
        """rows of a generic axis (pvc/rows.py)"""
        from . import rows
        if not rows.on() or self.sel is not None:
            return None
        tail = self.g[0] == 'tail'
        e = self.d[0]
        if isinstance(k, slice) and not tail and k.step in (None, 1):
            if (k.start, k.stop) == (1, None):
                return A(self.d.copy(), ('tail',), self.dt)
            if k.start in (None, 0) and k.stop == -1:
                d = np.empty((1,), object)
                d[0] = rows.elem(e, 'R', -1)
                return A(d, ('tail',), self.dt)
        if isinstance(k, (int, np.integer)) and not isinstance(
                k, (bool, _GI)) and -1 <= k <= 1:
            r = rows.fixed(e, k, tail)
            return X(r.v, r.nan, r.pinf, r.ninf, True) \
                if isinstance(r, X) else r
        return None

    def _rowset(self, k, val):
        from . import rows
        if not rows.on() or self.g != (True,) or self.sel is not None:
            return False
        if isinstance(k, slice) and k.step in (None, 1):
            v = A.of(val)
            if (k.start, k.stop) == (1, None) and (
                    not v.g or v.g == ('tail',)):
                self.d[0] = rows.pick(rows.FIRST, self.d[0],
                                      v.d.reshape(-1)[0])
                self._root_note()
                return True
            if k.start in (None, 0) and k.stop == -1 and not v.g:
                self.d[0] = rows.pick(rows.LAST, self.d[0],
                                      v.d.reshape(-1)[0])
                self._root_note()
                return True
            return False
        if isinstance(k, (int, np.integer)) and not isinstance(
                k, (bool, _GI)) and k in (0, -1):
            v = A.of(val)
            if v.g or v.d.ndim:
                return False
            e = v.d[()]
            if self.dt == 'i':
                e = x_trunc(xc(e))
            elif self.dt == 'f':
                e = xc(e)
            elif self.dt == 'b':
                e = B(tob(e))
            self.d[0] = rows.setrow(self.d[0], k, e)
            self._root_note()
            return True
        return False

    def __setitem__(self, k, val):
        self._write_check()
        if self._rowset(k, val):
            return
        k2, kind = _key(self, k)
        in_loop(self, kind == 'gen')
        v = A.of(val)
        if self.dt == 'i' and v.dt in ('f',):
            v = A(_mapd(v.d, lambda e: x_trunc(xc(e))), v.g, 'i', sel=v.sel)
        if self.dt == 'f' and v.dt == 'b':
            v = A(_mapd(v.d, xc), v.g, 'f', sel=v.sel)
        if self.dt == 'b' and v.dt in ('f', 'i'):
            v = A(_mapd(v.d, lambda e: B(tob(e))), v.g, 'b', sel=v.sel)
        if kind == 'mask':
            m = k2
            if m.d.ndim == 0 and self.d.ndim == 0:
                self.d[()] = sel_elem(m.d[()], v.d[()], self.d[()])
                self._root_note()
                return
            if m.d.shape != self.d.shape or m.g != self.g:
                if m.g == self.g[:m.d.ndim] and \
                        m.d.shape == self.d.shape[:m.d.ndim]:
                    md = m.d.reshape(m.d.shape + (1,) *
                                     (self.d.ndim - m.d.ndim))
                    m = A(np.broadcast_to(md, self.d.shape).copy(), self.g)
                else:
                    raise IndexError('boolean index did not match indexed '
                                     'array')
            if v.d.ndim and v.sel is None and v.d.size != 1:
                if all(e.t in (TRUE, FALSE) for e in m.d.reshape(-1)):
                    mm = np.array([e.t is TRUE for e in m.d.reshape(-1)],
                                  bool).reshape(m.d.shape)
                    self.d[mm] = v.d
                    self._root_note()
                    return
                raise Unsupported('mask assignment from an array')
            if v.d.ndim and v.sel is not None:
                ms = tuple(e.t.id for e in m.d.reshape(-1))
                if v.sel != (ms if self.sel is None else (self.sel, ms)):
                    raise Unsupported('mask assignment: different masks')
            elif v.d.ndim and any(v.g):
                raise ValueError('NumPy boolean array indexing assignment '
                                 'cannot assign N input values to the '
                                 'output values where the mask is true')
            vd = np.broadcast_to(v.d, self.d.shape)
            out = np.empty(self.d.shape, object)
            for i in np.ndindex(*self.d.shape):
                out[i] = sel_elem(m.d[i], vd[i], self.d[i])
            self.d[...] = out
            self._root_note()
            return
        tgt = self.d[k2]
        g = _keyg(self, k2)
        if any(v.g) and not _bg(v, g):
            raise ValueError('could not broadcast input array')
        if isinstance(tgt, np.ndarray):
            self.d[k2] = v.d if v.d.ndim else v.d[()]
        else:
            e = v.d.reshape(-1)[0] if v.d.size == 1 else None
            if e is None:
                raise ValueError('setting an array element with a sequence.')
            self.d[k2] = e
        self._root_note()

    # ---- methods
    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        if any(self.g):
            ns = [1 if isinstance(x, SymLen) else x for x in s]
            ng = []
            gi = [i for i, g in enumerate(self.g) if g]
            if len(s) == 1 and s[0] == -1 and self.d.size == 1:
                return self._view(self.d.reshape(1), (True,))
            if self.d.size == 1 and len(gi) == 1:
                used = False
                for x in s:
                    if (isinstance(x, SymLen) or
                            (isinstance(x, int) and x == -1)) and not used:
                        ng.append(True)
                        used = True
                    else:
                        ng.append(False)
                if used:
                    ns = [1 if (isinstance(x, SymLen) or x == -1) else x
                          for x in s]
                    return self._view(self.d.reshape(ns), ng)
            raise Unsupported(f'reshape {self.shape} -> {s}')
        return self._view(self.d.reshape(*s), None)

    def ravel(self, *a):
        if any(self.g):
            if self.ndim == 1:
                return self
            raise Unsupported('ravel')
        return A(self.d.ravel(), None, self.dt)

    def flatten(self, *a):
        if any(self.g):
            if self.ndim == 1:
                return self.copy()
            raise Unsupported('flatten')
        return A(self.d.flatten(), None, self.dt)

    def squeeze(self, axis=None):
        if axis is None:
            axis = tuple(i for i, (n, g) in
                         enumerate(zip(self.d.shape, self.g))
                         if n == 1 and not g)
            # (a generic axis of length one would be squeezed too; the
            # contracts take N /= 1 for that call)
        if isinstance(axis, int):
            axis = (axis,)
        axis = tuple(a % self.ndim for a in axis)
        for a in axis:
            if self.g[a]:
                raise ValueError('cannot select an axis to squeeze out which '
                                 'has size not equal to one')
        g = tuple(x for i, x in enumerate(self.g) if i not in axis)
        return self._view(self.d.squeeze(axis=axis), g)

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        ax = ax or tuple(range(self.ndim))[::-1]
        return self._view(self.d.transpose(ax), tuple(self.g[i] for i in ax))

    def astype(self, dt, **k):
        return cast(self, dt)

    @property
    def real(self):
        return self

    def any(self, axis=None, **k):
        return reduce_('any', self, axis)

    def all(self, axis=None, **k):
        return reduce_('all', self, axis)

    def sum(self, axis=None, **k):
        return reduce_('sum', self, axis, **k)

    def mean(self, axis=None, **k):
        return reduce_('mean', self, axis, **k)

    def max(self, axis=None, **k):
        return reduce_('max', self, axis, **k)

    def min(self, axis=None, **k):
        return reduce_('min', self, axis, **k)

    def prod(self, axis=None, **k):
        return reduce_('prod', self, axis, **k)

    def clip(self, min=None, max=None, **k):
        return clip(self, k.get('a_min', min), k.get('a_max', max))

    def round(self, n=0):
        return np_round(self, n)

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        return matmul(self, o)

    def repeat(self, n, axis=None):
        if any(self.g):
            raise Unsupported('repeat')
        return A(self.d.repeat(n, axis), None, self.dt)

    def take(self, idx, axis=None, **k):
        if axis is None:
            return A.of(self)[idx]
        raise Unsupported('take')

    def sort(self, axis=-1, **k):
        self._write_check()
        r = np_sort(self, axis)
        self.d[...] = r.d
        self._root_note()

    def cumsum(self, axis=None):
        return np_cumsum(self, axis)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise AttributeError(
            f"'numpy.ndarray' object has no attribute '{n}'")


def NLEN():
    raise Unsupported('len() of a generic array as a plain int')


def _dtof(d):
    f = d.reshape(-1)
    if f.size and all(isinstance(e, (B, bool, np.bool_)) for e in f):
        return 'b'
    if all(isinstance(e, (X, int, float, np.number, B)) for e in f):
        return 'f'
    return 'O'


def _mapd(d, f):
    out = np.empty(d.shape, object)
    for i in np.ndindex(*d.shape):
        out[i] = f(d[i])
    return out


def sel_elem(c, a, b):
    """c ? a : b on elements"""
    ct = tob(c)
    if ct is TRUE:
        return a
    if ct is FALSE:
        return b
    if isinstance(a, B) and isinstance(b, B):
        return B(t.bite(ct, a.t, b.t))
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        if a == b:
            return a
        raise Unsupported('selection between non-numeric values')
    return x_ite(ct, xc(a), xc(b))


def _gi(k):
    if getattr(_ctx.get(), 'maploop', None) is not k.r:
        raise Unsupported('loop index outside its loop')
    return _GI(0)


def _key(a, k):
    if isinstance(k, (bool, np.bool_)):
        k = B(TRUE if k else FALSE)
    if hasattr(k, '_as_A') and not isinstance(k, A):
        k = k._as_A()
    if isinstance(k, np.ndarray) and k.dtype == bool:
        k = A.of(k)
    if isinstance(k, GenI):
        return _gi(k), 'gen'
    if isinstance(k, B):
        return A.of(k), 'mask'
    if isinstance(k, list) and k and isinstance(k[0], (B, bool)):
        k = A.of(k)
    if isinstance(k, A):
        if k.dt == 'b':
            return k, 'mask'
        if any(k.g):
            raise Unsupported('fancy indexing with a generic array')
        return np.array([[int(e)] for e in k.d.reshape(-1)],
                        int).reshape(k.d.shape), 'fancy'
    if isinstance(k, X):
        if not k.isconst():
            raise Unsupported('symbolic index')
        if not k.np and k.v.args[0].denominator == 1 and False:
            pass
        raise IndexError('only integers, slices ... are valid indices')
    if isinstance(k, tuple):
        out = []
        fancy = False
        gen = False
        for x in k:
            if isinstance(x, GenI):
                x = _gi(x)
                gen = True
            elif isinstance(x, A):
                if x.dt == 'b':
                    raise Unsupported('mask inside index tuple')
                x = np.array([int(e) for e in x.d.reshape(-1)],
                             int).reshape(x.d.shape)
                if x.ndim == 0:
                    x = int(x)
                else:
                    fancy = True
            elif isinstance(x, (list, np.ndarray)):
                fancy = True
            elif isinstance(x, X):
                raise IndexError('float index')
            out.append(x)
        if gen and fancy:
            raise Unsupported('loop index with a fancy index')
        return tuple(out), 'gen' if gen else 'fancy' if fancy else 'basic'
    if isinstance(k, (list, np.ndarray)):
        return k, 'fancy'
    if isinstance(k, slice):
        def si(x):
            return x if x is None else int(x)
        return slice(si(k.start), si(k.stop), si(k.step)), 'basic'
    return k, 'basic'


def _keyg(a, k):
    """generic flags of a.d[k]"""
    if k is Ellipsis:
        return a.g
    if not isinstance(k, tuple):
        k = (k,)
    nreal = sum(1 for x in k if x is not None and x is not Ellipsis)
    out = []
    ax = 0
    k = list(k)
    if Ellipsis not in [x for x in k if not isinstance(x, np.ndarray)]:
        k.append(Ellipsis)
    adv_done = False
    for x in k:
        if x is None:
            out.append(False)
        elif x is Ellipsis:
            n = a.ndim - nreal
            out.extend(a.g[ax:ax + n])
            ax += n
        elif isinstance(x, slice):
            if a.g[ax]:
                if (x.start, x.stop, x.step) != (None, None, None):
                    raise Unsupported('slice of a generic axis')
            out.append(a.g[ax])
            ax += 1
        elif type(x) is _GI:
            if not a.g[ax]:
                raise Unsupported('index over an array of unknown length '
                                  'used on another axis')
            ax += 1
        elif isinstance(x, (int, np.integer)):
            if a.g[ax]:
                if x in (0, -1) and _ctx.get().lookup(
                        t.bvar('len==1')) is True:
                    ax += 1
                    continue
                raise Unsupported('indexing one element of a generic axis')
            ax += 1
        elif isinstance(x, (list, np.ndarray)):
            if a.g[ax]:
                raise Unsupported('fancy index of a generic axis')
            if not adv_done:
                out.extend([False] * np.ndim(x))
                adv_done = True
            ax += 1
        else:
            raise Unsupported(f'index {x!r}')
    return tuple(out)


def _bg(v, g):
    """can the generic flags of v be broadcast into g"""
    n = len(g)
    vg = (False,) * (n - len(v.g)) + v.g
    return all((not a) or b for a, b in zip(vg, g))


# ---------------------------------------------------------------- elementwise
def bcast(arrs):
    """broadcast a list of A: -> list of object ndarrays, g, shape, sel"""
    n = max(a.d.ndim for a in arrs)
    g = [False] * n
    ln = [1] * n
    sel = None
    for a in arrs:
        if a.sel is not None:
            if sel is not None and sel != a.sel:
                raise Unsupported('operands selected by different masks')
            sel = a.sel
        off = n - a.d.ndim
        for i, (m, gg) in enumerate(zip(a.d.shape, a.g)):
            if gg:
                if g[off + i] and g[off + i] != gg:
                    raise Unsupported('rows and rows without the first one')
                if ln[off + i] != 1:
                    raise ValueError('operands could not be broadcast '
                                     f'together: N and {ln[off + i]}')
                g[off + i] = gg
            elif m != 1:
                if g[off + i] or (ln[off + i] not in (1, m)):
                    raise ValueError('operands could not be broadcast '
                                     'together with shapes')
                ln[off + i] = m
    if sel is not None:
        for a in arrs:
            if a.sel is None and any(a.g):
                raise ValueError('operands could not be broadcast together '
                                 '(masked selection with a full array)')
    ds = [np.broadcast_to(a.d, tuple(ln)) for a in arrs]
    return ds, tuple(g), tuple(ln), sel


def _wraps(*args):
    """highest wrapper (Series/DataFrame) among args or None"""
    w = None
    for a in args:
        p = getattr(a, '_wrap_prio', 0) if not isinstance(
            a, (X, B, A)) else 0
        if p and (w is None or p > w._wrap_prio):
            w = a
    return w


SPECIAL2 = {}


def ew(fn, args, dt=None, keep0=False):
    """apply an element function over broadcast args"""
    w = _wraps(*args)
    if w is not None:
        return w._ew(fn, args, dt)
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype.kind in 'mM':
            raise Unsupported('datetime array')
    arrs = [a if isinstance(a, A) else A.of(a) for a in args]
    if all(not isinstance(a, (A, np.ndarray, list, tuple)) and
           not r.g and not r.d.ndim for a, r in zip(args, arrs)):
        r = fn(*[a.d[()] for a in arrs])
        return r
    ds, g, shp, sel = bcast(arrs)
    out = np.empty(shp, object)
    for i in np.ndindex(*shp):
        out[i] = fn(*[d[i] for d in ds])
    r = A(out, g, dt, sel=sel)
    if not shp and not keep0:
        return r.scalar()
    return r


ARITH = {'add', 'sub', 'mul', 'floordiv', 'mod', 'min', 'max', 'neg', 'abs',
         'fmin', 'fmax', 'sign'}


def _isint(a):
    if isinstance(a, (bool, np.bool_, B)):
        return False
    if isinstance(a, (int, np.integer)):
        return True
    if isinstance(a, A):
        return a.dt == 'i'
    dt = getattr(a, '_dt', None)
    return dt == 'i'


def ew2(op, a, b):
    for o in (a, b):
        if o is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            raise TypeError(f"unsupported operand type(s) for {op}: "
                            "'NoneType'")
    sp = SPECIAL2.get(type(a)) or SPECIAL2.get(type(b))
    if sp is not None:
        return sp(op, a, b)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, (X, B)) or isinstance(b, (X, B)):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            raise TypeError('unsupported operand type(s): str')
    dt = None
    if op in ARITH and _isint(a) and _isint(b):
        dt = 'i'
    if op == 'pow' and _isint(a) and isinstance(b, int) and b >= 0:
        dt = 'i'
    if op == 'pow' and isinstance(a, A) and a.dt == 'i' and \
            isinstance(b, int) and b < 0:
        raise ValueError('Integers to negative integer powers are not '
                         'allowed.')
    return ew(lambda x, y: elem2(op, x, y), (a, b), dt)


def ew1(op, a):
    if op == 'not':
        return ew(lambda x: B(t.bnot(tob(x))), (a,))
    dt = 'i' if op in ARITH and _isint(a) else None
    if a is None:
        raise TypeError(f'bad operand type for unary {op}: NoneType')
    return ew(lambda x: XOPS[op](xc(x)), (a,), dt)


def clip(a, lo, hi):
    def f(x, *b):
        x = xc(x)
        i = 0
        if lo is not None:
            x = x_max(x, xc(b[i]))
            i += 1
        if hi is not None:
            x = x_min(x, xc(b[i]))
        return x
    bs = [b for b in (lo, hi) if b is not None]
    r = ew(f, (a, *bs))
    if isinstance(r, X):
        r.np = True
    return r


def np_round(a, n=0):
    n = int(n)
    if n == 0:
        return ew(lambda x: x_rint(xc(x)), (a,))
    s = X(t.C(Fr(10) ** n))
    return ew(lambda x: x_div(x_rint(x_mul(xc(x), s)), s), (a,))


def cast(a, dt):
    from . import npshim
    k = npshim.dtkind(dt)
    if k == 'f':
        r = ew(xc, (a,), 'f', keep0=True)
    elif k == 'i':
        r = ew(lambda x: x_trunc(xc(x)), (a,), 'i', keep0=True)
    elif k == 'b':
        r = ew(lambda x: B(tob(x)), (a,), 'b', keep0=True)
    else:
        raise Unsupported(f'astype {dt}')
    if isinstance(a, (X, B)):
        return r
    return r


# ---------------------------------------------------------------- reductions
def gen_vars(term):
    return [v for v in t.free_atoms(term) if '@N' in v.args[0]]


def any_term(b):
    """truth of any() over the generic axis of element term b"""
    if b is TRUE or b is FALSE or not gen_vars(b):
        return b
    v = t.bvar(f'any!{b.id}')
    t.ANY[v] = b
    c = _ctx.get()
    if c is not None:
        c.axiom(t.implies(b, v))
    return v


def all_term(b):
    return t.bnot(any_term(t.bnot(b)))


def reduce_(op, a, axis=None, keepdims=False, skipna=False, **k):
    if k.get('out') is not None or k.get('where') is not None:
        raise Unsupported('reduction with out/where')
    if a.sel is not None:
        if op not in ('any', 'all'):
            raise Unsupported('reduction over a mask selection')
        s, d = a.sel, a.d.copy()
        while s is not None:
            s, ids = s if s and isinstance(s[0], tuple) else (None, s)
            for i, k_ in zip(np.ndindex(*d.shape), ids):
                m = t._all[k_]
                e = tob(d[i])
                d[i] = B(t.band(m, e) if op == 'any' else
                         t.implies(m, e))
        a = A(d, a.g, 'b')
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = (axis,) if isinstance(axis, (int, np.integer)) else tuple(axis)
        axes = tuple(int(x) % a.ndim for x in axes)
    keep = [i for i in range(a.ndim) if i not in axes]
    oshape = tuple(a.d.shape[i] for i in keep)
    og = tuple(a.g[i] for i in keep)
    gen = any(a.g[i] for i in axes)
    if 'tail' in [a.g[i] for i in axes]:
        from . import rows
        if op not in ('any', 'all') or len(axes) > 1:
            raise Unsupported('reduction over all rows but the first')
        a = A(_mapd(a.d, lambda e: B(t.band(tob(e), t.bnot(rows.FIRST)) if
                                     op == 'any' else t.bor(
                                         tob(e), rows.FIRST))), a.g, 'b')
    d = a.d.transpose(keep + list(axes)).reshape(oshape + (-1,))
    out = np.empty(oshape, object)
    for i in np.ndindex(*oshape):
        es = list(d[i])
        out[i] = _red(op, es, gen, skipna)
    r = A(out, og)
    if keepdims:
        nd = list(a.d.shape)
        ng = list(a.g)
        for x in axes:
            nd[x] = 1
            ng[x] = False
        return A(out.reshape(nd), ng)
    if r.d.ndim == 0:
        return r.scalar()
    return r


def _red(op, es, gen, skipna):
    if op in ('any', 'all'):
        bs = [tob(e) for e in es]
        if gen:
            bs = [any_term(b) if op == 'any' else all_term(b) for b in bs]
        return B((t.bor if op == 'any' else t.band)(*bs))
    es = [xc(e) for e in es]
    if gen:
        if len(es) != 1:
            raise Unsupported('reduction over generic and concrete axes')
        e = es[0]
        name = f'{op}N' + ('_skipna' if skipna else '')
        if not gen_vars(e.v) and op in ('max', 'min', 'mean') and \
                not _fl(e):
            return e
        nan = FALSE
        if _fl(e):
            if skipna:
                # opaque; depends on the flags too
                return X(t.uf(name, e.v, e.nan, e.pinf, e.ninf), np=True)
            nan = any_term(t.bor(e.nan, e.pinf, e.ninf))
        v = t.uf(name, e.v)
        c = _ctx.get()
        if c is not None and op == 'max':
            c.axiom(t.le(e.v, v))
        if c is not None and op == 'min':
            c.axiom(t.le(v, e.v))
        return X(v, nan, np=True)
    if op == 'sum':
        if skipna:
            es = [x_ite(e.nan, X0, e) for e in es]
        r = X0
        for e in es:
            r = x_add(r, e)
        return r
    if op == 'prod':
        r = X1
        for e in es:
            r = x_mul(r, e)
        return r
    if op == 'mean':
        if skipna and any(_fl(e) for e in es):
            s = _red('sum', es, False, True)
            n = _red('sum', [X(t.ite(e.nan, t.ZERO, t.ONE)) for e in es],
                     False, False)
            return x_div(s, n)
        return x_div(_red('sum', es, False, skipna), X(t.C(len(es))))
    if op in ('max', 'min'):
        if not es:
            raise ValueError('zero-size array to reduction operation')
        r = es[0]
        f = ({'max': x_fmax, 'min': x_fmin} if skipna else
             {'max': x_max, 'min': x_min})[op]
        for e in es[1:]:
            r = f(r, e)
        return X(r.v, r.nan, r.pinf, r.ninf, True)
    raise Unsupported(op)


def stack_(ps, axis=0):
    n = max(p.d.ndim for p in ps)
    ps = [A.of(p) for p in ps]
    ds, g, shp, sel = bcast(ps) if any(any(p.g) for p in ps) or True else None
    if any(p.d.ndim != n for p in ps):
        raise ValueError('all input arrays must have the same shape '
                         '(inhomogeneous)')
    d = np.stack([np.asarray(x) for x in ds], axis=axis)
    ax = axis % (len(g) + 1)
    gg = g[:ax] + (False,) + g[ax:]
    dts = {p.dt for p in ps}
    dt = 'i' if dts == {'i'} else ('b' if dts == {'b'} else None)
    return A(d, gg, dt)


def concat_(ps, axis=0):
    ps = [A.of(p) for p in ps]
    if len(ps) == 2 and all(p.ndim == 1 for p in ps) and not ps[0].g[0] \
            and ps[1].g[0] == 'tail' and ps[0].d.size == 1:
        from . import rows
        d = np.empty((1,), object)
        d[0] = rows.pick(rows.FIRST, rows.back(xc(ps[0].d[0])), ps[1].d[0])
        return A(d, (True,), 'i' if ps[0].dt == ps[1].dt == 'i' else None)
    if len(ps) == 2 and all(p.ndim == 1 for p in ps) and not ps[1].g[0] \
            and ps[0].g[0] == 'tail' and ps[1].d.size == 1:
        from . import rows
        d = np.empty((1,), object)
        v = xc(ps[1].d[0])
        d[0] = rows.pick(rows.LAST, v, rows.elem(ps[0].d[0], 'R', 1))
        return A(d, (True,), 'i' if ps[0].dt == ps[1].dt == 'i' else None)
    for p in ps:
        if p.g[axis]:
            raise Unsupported('concatenate along a generic axis')
    nd = ps[0].ndim
    g = tuple(any(p.g[i] for p in ps) for i in range(nd))
    return A(np.concatenate([p.d for p in ps], axis=axis), g)


def matmul(a, b):
    a, b = A.of(a), A.of(b)
    if a.ndim == 1 and b.ndim == 1:
        return ew2('mul', a, b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return (a * b).sum(axis=1)
    if a.ndim == 1 and b.ndim == 2:
        return (a.reshape(a.d.shape[0], 1) * b).sum(axis=0) \
            if not any(a.g) else (A(a.d[:, None], a.g + (False,)) * b
                                  ).sum(axis=0)
    if a.ndim == 2 and b.ndim == 2:
        l = A(a.d[:, :, None], a.g + (False,))
        r = A(b.d[None, :, :], (False,) + b.g)
        return (l * r).sum(axis=1)
    raise Unsupported('matmul')


def np_sort(a, axis=-1):
    axis = axis % a.ndim
    if a.g[axis]:
        raise Unsupported('sort along a generic axis')
    d = np.moveaxis(a.d.copy(), axis, -1)
    n = d.shape[-1]
    if n > 6:
        raise Unsupported('sort of a long axis')
    out = np.empty(d.shape, object)
    for i in np.ndindex(*d.shape[:-1]):
        es = [xc(e) for e in d[i]]
        for p in range(n):            # bubble network
            for q in range(n - 1 - p):
                x, y = es[q], es[q + 1]
                c = t.bor(x_lt(y, x), t.band(x.nan, t.bnot(y.nan)))
                es[q], es[q + 1] = x_ite(c, y, x), x_ite(c, x, y)
        for q in range(n):
            out[i + (q,)] = es[q]
    return A(np.moveaxis(out, -1, axis), a.g)


def np_cumsum(a, axis=None):
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('cumsum')
        axis = 0
    axis = axis % a.ndim
    if a.g[axis]:
        from . import rows
        if a.g != (True,):
            raise Unsupported('cumsum along a generic axis')
        return A.generic(rows.cumsum(a.d[0], False))
    d = np.moveaxis(a.d, axis, -1)
    out = np.empty(d.shape, object)
    for i in np.ndindex(*d.shape[:-1]):
        s = X0
        for j in range(d.shape[-1]):
            s = x_add(s, xc(d[i + (j,)]))
            out[i + (j,)] = s
    return A(np.moveaxis(out, -1, axis), a.g)
