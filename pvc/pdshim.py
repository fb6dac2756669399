"""Symbolic stand-ins for pandas objects (Series, DataFrame, DatetimeIndex)."""
import datetime as _dt
from fractions import Fraction as Fr
import numpy as np
import pandas as _pd
from . import terms as t
from . import ctx as _ctx
from . import xval as x
from .xval import A, X, B, N, ew, ew2, ew1, xc, Unsupported, TRUE, FALSE


# ------------------------------------------------------------------ index
class Idx:
    """an opaque index; generic unless labels are given"""
    _n = 0

    def __init__(self, labels=None, name=None, generic=True):
        Idx._n += 1
        self.key = Idx._n if labels is None else ('L', tuple(
            e if isinstance(e, (str, int, float)) else id(e)
            for e in labels))
        self.labels = None if labels is None else list(labels)
        self.name = name
        self.tz = None

    def same(self, o):
        return isinstance(o, Idx) and self.key == o.key

    def equals(self, o):
        return self.same(o)

    def copy(self, *a, **k):
        return self

    @property
    def size(self):
        return N if self.labels is None else len(self.labels)

    @property
    def shape(self):
        return (self.size,)

    ndim = 1

    def __len__(self):
        if self.labels is None:
            x.NLEN()
        return len(self.labels)

    def __iter__(self):
        if self.labels is None:
            raise Unsupported('iteration over a generic index')
        return iter(self.labels)

    def __getitem__(self, k):
        if self.labels is None:
            raise Unsupported('index item')
        r = self.labels[k]
        return Idx(r) if isinstance(r, list) else r

    def __contains__(self, k):
        if self.labels is None:
            raise Unsupported('membership in a generic index')
        return k in self.labels

    def tolist(self):
        return list(self)

    @property
    def T(self):
        return self

    @property
    def array(self):
        return self._as_A()

    values = array

    def to_numpy(self, *a, **k):
        return self._as_A()

    def _as_A(self):
        if self.labels is None:
            return A.generic(X(t.var(f'idx{self.key}@N'), np=True))
        return A.of(list(self.labels))

    def intersection(self, o):
        return Idx([e for e in self.labels if e in list(o)])

    def union(self, o):
        return Idx(self.labels + [e for e in o if e not in self.labels])

    def __eq__(self, o):
        if isinstance(o, Idx):
            return self.same(o)
        return NotImplemented

    def __hash__(self):
        return hash(self.key)

    def _ar(self, op, o, r=False):
        a = self._as_A()
        return ew2(op, o, a) if r else ew2(op, a, o)

    def __add__(self, o): return self._ar('add', o)
    def __sub__(self, o): return self._ar('sub', o)
    def __mul__(self, o): return self._ar('mul', o)
    def __rmul__(self, o): return self._ar('mul', o, True)
    def __truediv__(self, o): return self._ar('div', o)
    def __rtruediv__(self, o): return self._ar('div', o, True)

    def __repr__(self):
        return f'Idx{self.key}'


def _day_uf(name):
    return lambda day: t.uf(name, day)


class TZ:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'TZ({self.name})'

    def __str__(self):
        return str(self.name)

    def __eq__(self, o):
        return isinstance(o, TZ) and self.name == o.name or \
            (isinstance(o, str) and o == self.name)

    def __hash__(self):
        return hash(self.name)

    def utcoffset(self, *a):
        raise Unsupported('utcoffset of a symbolic zone')


def utcoff(tz, u):
    """offset (seconds) of zone tz at unix time u"""
    if tz is None or str(tz).upper() in ('UTC', 'ETC/UTC'):
        return t.ZERO
    return t.uf('utcoff', t.var(f'tz:{tz}'), u)


class TI(Idx):
    """DatetimeIndex of one generic instant.  u: unix seconds (for a naive
    index: seconds of the naive wall clock), tz: TZ or None"""

    def __new__(cls, data=None, *a, **k):
        if data is None and not k:
            return object.__new__(cls)
        if isinstance(data, TI):
            return data
        if isinstance(data, TIfield):
            raise Unsupported('DatetimeIndex of a field')
        if isinstance(data, (list, tuple)) and len(data) == 1 and \
                isinstance(data[0], TStamp):
            return TI.make(data[0].u, data[0].tz, generic=False)
        if isinstance(data, TStamp):
            raise TypeError('DatetimeIndex(...) must be called with a '
                            'collection of some kind')
        if isinstance(data, Idx):
            return data
        raise Unsupported('DatetimeIndex(...)')

    def __init__(self, *a, **k):
        pass

    @classmethod
    def make(cls, u, tz=None, key=None, generic=True, nan=t.FALSE):
        o = object.__new__(cls)
        Idx.__init__(o)
        o.nan = nan
        o.u = u
        o.tz = tz
        o.key = ('TI', u.id, str(tz))
        o.inst = u
        o.generic = generic
        return o

    @property
    def tzinfo(self):
        return self.tz

    def same(self, o):
        return isinstance(o, TI) and self.key == o.key

    def _A(self, term):
        nan = getattr(self, 'nan', t.FALSE)
        if self.generic:
            r = A.generic(X(term, nan, np=True))
            r.g = (self.generic,)
            return r
        d = np.empty((1,), object)
        d[0] = X(term, nan, np=True)
        return A(d)

    def like(self, u, tz, nan=None):
        return TI.make(u, tz, generic=self.generic, nan=self.nan
                       if nan is None else nan)

    def tolist(self):
        return self

    def __len__(self):
        if not self.generic:
            return 1
        x.NLEN()

    @property
    def size(self):
        return N if self.generic else 1

    # wall clock seconds
    @property
    def wall(self):
        if self.tz is None:
            return self.u
        return t.add(self.u, utcoff(self.tz, self.u))

    @property
    def _day(self):
        return t.floor(t.smul(Fr(1, 86400), self.wall))

    @property
    def _sod(self):
        return t.sub(self.wall, t.smul(86400, self._day))

    def _field(self, term):
        return TIfield(self, self._A(term))

    @property
    def year(self):
        return self._field(t.uf('year', self._day))

    @property
    def month(self):
        return self._field(t.uf('month', self._day))

    @property
    def day(self):
        return self._field(t.uf('dom', self._day))

    @property
    def dayofyear(self):
        return self._field(t.uf('doy', self._day))
    day_of_year = dayofyear

    @property
    def hour(self):
        return self._field(t.floor(t.smul(Fr(1, 3600), self._sod)))

    @property
    def minute(self):
        m = t.floor(t.smul(Fr(1, 60), self._sod))
        return self._field(t.sub(m, t.smul(60, t.floor(t.smul(
            Fr(1, 3600), self._sod)))))

    @property
    def second(self):
        s = t.floor(self._sod)
        return self._field(t.sub(s, t.smul(60, t.floor(t.smul(
            Fr(1, 60), self._sod)))))

    @property
    def microsecond(self):
        # contracts take instants at microsecond resolution
        return self._field(t.smul(10**6, t.sub(self._sod,
                                               t.floor(self._sod))))

    @property
    def nanosecond(self):
        return self._field(t.ZERO)

    @property
    def is_leap_year(self):
        y = t.uf('year', self._day)
        return A.generic(B(leap_term(y)))

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError('Cannot convert tz-naive timestamps, use '
                            'tz_localize to localize')
        tz = _tz(tz)
        return self.like(self.u, tz or TZ('UTC')) \
            if tz is not None else \
            self.like(self.u, None)

    def tz_localize(self, tz, nonexistent=None, ambiguous=None, **k):
        tz = _tz(tz)
        if tz is None:
            return self.like(self.wall, None)
        if self.tz is not None:
            raise TypeError('Already tz-aware, use tz_convert to convert.')
        if str(tz).upper() == 'UTC':
            return self.like(self.u, tz)
        # wall clock -> instant: an offset that depends on the wall clock
        off = t.uf('walloff', t.var(f'tz:{tz}'), self.u)
        return self.like(t.sub(self.u, off), tz)

    def normalize(self):
        if self.tz is None:
            return self.like(t.smul(86400, self._day), None)
        w = t.smul(86400, self._day)
        if str(self.tz).upper() == 'UTC':
            return self.like(w, self.tz)
        off = t.uf('walloff', t.var(f'tz:{self.tz}'), w)
        return self.like(t.sub(w, off), self.tz)

    def __sub__(self, o):
        if isinstance(o, (TI, TStamp)):
            if (self.tz is None) != (o.tz is None):
                raise TypeError('Cannot subtract tz-naive and tz-aware '
                                'datetime-like objects')
            return TD(self.like(self.u, None, t.bor(self.nan, getattr(
                o, 'nan', t.FALSE)))._A(t.sub(self.u, o.u)))
        if isinstance(o, TD):
            n, nan = o.both()
            return self.like(t.sub(self.u, n), self.tz,
                             t.bor(self.nan, nan))
        raise Unsupported('DatetimeIndex - ?')

    def __add__(self, o):
        if isinstance(o, TD):
            n, nan = o.both()
            return self.like(t.add(self.u, n), self.tz,
                             t.bor(self.nan, nan))
        raise Unsupported('DatetimeIndex + ?')

    def __iter__(self):
        # one generic timestamp, usable in comprehensions turned into arrays
        if not self.generic:
            return iter([TStamp(self.u, self.tz)])
        return GenIter([TStamp(self.u, self.tz, gen=True)])

    def to_series(self):
        r = S(self._A(self.u), index=self)
        r.instants = True
        return r

    def __getitem__(self, k):
        from . import rows
        if rows.on() and self.generic is True:
            if isinstance(k, slice) and k.step in (None, 1):
                if (k.start, k.stop) == (1, None):
                    return TI.make(self.u, self.tz, generic='tail',
                                   nan=self.nan)
                if k.start in (None, 0) and k.stop == -1:
                    return TI.make(rows.at(self.u, 'R', -1), self.tz,
                                   generic='tail', nan=rows.at(
                                       self.nan, 'R', -1))
            if isinstance(k, (int, np.integer)) and -1 <= k <= 1:
                b, o = ('F', int(k)) if k >= 0 else ('L', int(k) + 1)
                return TStamp(rows.at(self.u, b, o), self.tz)
            if isinstance(k, (S, A)):
                return SelTI(self, k)
        return Idx.__getitem__(self, k)

    def _as_A(self):
        raise Unsupported('DatetimeIndex as array')

    @property
    def values(self):
        return self

    def to_pydatetime(self):
        return self

    def unique(self):
        return self

    def __repr__(self):
        return f'TI({self.u}, {self.tz})'


class GenIter:
    def __init__(self, xs):
        self.it = iter(xs)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def leap_term(y):
    def div(k):
        return t.eq0(t.mod(y, t.C(k)))
    return t.bor(t.band(div(4), t.bnot(div(100))), div(400))


def _tz(tz):
    if tz is None or isinstance(tz, TZ):
        return tz
    if isinstance(tz, str):
        return TZ(tz)
    if hasattr(tz, 'name') or True:
        s = str(tz)
        if s in ('UTC', 'utc', 'UTC+00:00'):
            return TZ('UTC')
        return TZ(s)


class TStamp:
    """a (generic) Timestamp"""

    def __init__(self, u, tz=None, gen=False):
        self.u = u
        self.tz = tz
        self.gen = gen

    @property
    def tzinfo(self):
        return self.tz

    def utcoffset(self):
        return TD((x.GX if self.gen else X)(utcoff(self.tz, self.u),
                                            np=True))

    def tz_convert(self, tz):
        return TStamp(self.u, _tz(tz))

    def tz_localize(self, tz):
        tz = _tz(tz)
        if tz is None:
            return TStamp(t.add(self.u, utcoff(self.tz, self.u)), None)
        if self.tz is None:
            if str(tz).upper() == 'UTC':
                return TStamp(self.u, tz)
        raise Unsupported('tz_localize')

    def __sub__(self, o):
        if isinstance(o, TStamp):
            return TD(X(t.sub(self.u, o.u), np=True))
        raise Unsupported('Timestamp - ?')


class TD:
    """timedelta(s): seconds as X or A"""

    def __init__(self, s):
        self.s = s

    def both(self):
        if isinstance(self.s, X):
            return self.s.v, self.s.nan
        a = A.of(self.s)
        if a.d.size != 1:
            raise Unsupported('timedelta array')
        e = a.d.reshape(-1)[0]
        return e.v, e.nan

    def one(self):
        return self.both()[0]

    def total_seconds(self):
        return self.s

    def __truediv__(self, o):
        if isinstance(o, (np.timedelta64, _dt.timedelta)):
            o = TD(xc(_pd.Timedelta(o).total_seconds()))
        if isinstance(o, TD):
            return ew2('div', self.s, o.s)
        return TD(ew2('div', self.s, o))

    def __mul__(self, o):
        return TD(ew2('mul', self.s, o))
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, TD):
            return TD(ew2('add', self.s, o.s))
        return o + self

    __radd__ = __add__

    def __sub__(self, o):
        return TD(ew2('sub', self.s, o.s))


class TIfield(Idx):
    """integer field of a DatetimeIndex (a pandas Index of ints)"""

    def __init__(self, ti, a):
        self.ti = ti
        self.a = a
        self.key = ('F', a.d[0].v.id)
        self.labels = None
        self.name = None

    def _as_A(self):
        r = self.a.copy()
        return r

    @property
    def generic(self):
        return self.ti.generic

    _wrap_prio = 0

    def _w(self, r):
        if isinstance(r, A) and r.g == self.a.g:
            return TIfield(self.ti, r) if r.dt != 'b' else r
        return r

    def _ar(self, op, o, r=False):
        a = self._as_A()
        if isinstance(o, TIfield):
            o = o._as_A()
        return self._w(ew2(op, o, a) if r else ew2(op, a, o))

    def __radd__(self, o): return self._ar('add', o, True)
    def __rsub__(self, o): return self._ar('sub', o, True)
    def __floordiv__(self, o): return self._ar('floordiv', o)
    def __mod__(self, o): return self._ar('mod', o)
    def __pow__(self, o): return self._ar('pow', o)
    def __neg__(self): return self._w(-self.a)
    def __lt__(self, o): return self._ar('lt', o)
    def __le__(self, o): return self._ar('le', o)
    def __gt__(self, o): return self._ar('gt', o)
    def __ge__(self, o): return self._ar('ge', o)

    def __eq__(self, o):
        return self._ar('eq', o)

    __hash__ = None

    def astype(self, dt):
        return self

    @property
    def values(self):
        return self._as_A()

    def to_numpy(self, *a, **k):
        return self._as_A()


class Timestamp:
    """pd.Timestamp constructor (concrete arguments only)"""
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], TStamp):
            return a[0]
        ts = _pd.Timestamp(*a, **k)
        tz = ts.tz
        u = Fr(ts.value, 10**9)
        return TStamp(t.C(u), None if tz is None else _tz(tz))


def Timedelta(*a, **k):
    if a and isinstance(a[0], TD):
        return a[0]
    if a and isinstance(a[0], Freq):
        return TD(X(a[0].step, np=True))
    try:
        td = _pd.Timedelta(*a, **k)
    except Exception:
        if k and all(isinstance(v, X) for v in k.values()):
            mult = dict(hours=3600, minutes=60, seconds=1, days=86400)
            r = X(t.ZERO)
            for n, v in k.items():
                r = r + v * mult[n]
            return TD(r)
        raise
    return TD(X(t.C(Fr(td.value, 10**9)), np=True))


def to_timedelta(v, unit=None, **k):
    mult = {'h': 3600, 's': 1, 'ns': Fr(1, 10**9), 'D': 86400, 'm': 60,
            'min': 60, 'us': Fr(1, 10**6), 'ms': Fr(1, 1000)}[unit]
    return TD(ew2('mul', v if isinstance(v, (A, X)) else A.of(v),
                  X(t.C(Fr(mult)))))


def to_datetime(v, unit=None, utc=None, **k):
    if isinstance(v, TI):
        return v
    mult = {'ns': Fr(1, 10**9), 's': 1}[unit]
    a = ew2('mul', v, X(t.C(Fr(mult))))
    if isinstance(a, X):
        return TStamp(a.v, TZ('UTC') if utc else None)
    a = A.of(a)
    if a.d.size == 1:
        e = a.d.reshape(-1)[0]
        return TI.make(e.v, TZ('UTC') if utc else None, generic=any(a.g),
                       nan=e.nan)
    raise Unsupported('to_datetime')


# ------------------------------------------------------------------ Series
def _mkidx(index, a):
    if index is None:
        if a.g and a.g[0]:
            return Idx()
        return Idx(list(range(a.d.shape[0])))
    if isinstance(index, Idx):
        return index
    if isinstance(index, (list, tuple, range)):
        return Idx(list(index))
    if isinstance(index, A):
        if any(index.g):
            return Idx()
        return Idx([e if isinstance(e, str) else float(e)
                    for e in index.d.tolist()])
    if isinstance(index, np.ndarray):
        return Idx(list(index))
    if hasattr(index, 'tolist'):
        return Idx(index.tolist())
    raise Unsupported(f'index {type(index)}')


class S:
    """pandas.Series"""
    __array_priority__ = 3000
    __array_ufunc__ = None
    __hash__ = None
    _wrap_prio = 1
    ndim = 1

    def __init__(self, data=None, index=None, dtype=None, name=None,
                 copy=None):
        if isinstance(data, S):
            if index is not None and not data.idx.same(_mkidx(index,
                                                              data.a)):
                data = data.reindex(index)
            self.a, self.idx = data.a.copy(), data.idx
            self.name = name if name is not None else data.name
        elif isinstance(data, dict):
            ks = list(data)
            if index is not None:
                raise Unsupported('Series(dict, index)')
            d = np.empty((len(ks),), object)
            for i, k in enumerate(ks):
                v = data[k]
                d[i] = v if isinstance(v, (X, B)) else (
                    xc(v) if isinstance(v, (int, float, np.number)) else v)
            self.a = A(d)
            self.idx = Idx(ks)
            self.name = name
        else:
            if isinstance(data, Idx):
                data = data._as_A()
            if isinstance(data, GenIter):
                raise Unsupported('Series of an iterator')
            a = A.of(data) if data is not None else A.of(x.NAN)
            if a.ndim == 0:
                if index is None:
                    a = A(a.d.reshape(1), None, a.dt)
                else:
                    idx = _mkidx(index, None) if isinstance(
                        index, Idx) else _mkidx(index, A.of([0]))
                    if idx.labels is None:
                        a = A(a.d.reshape(1), (getattr(idx, 'generic',
                                                       True),), a.dt)
                    else:
                        a = A(np.array([a.d[()]] * len(idx.labels) + [None],
                                       object)[:-1], None, a.dt)
            elif a.ndim != 1:
                raise ValueError('Data must be 1-dimensional')
            else:
                a = a.copy()
            if dtype is not None:
                a = x.cast(a, dtype)
            self.a = a
            self.idx = _mkidx(index, a)
            if self.idx.labels is not None and not any(a.g) and \
                    len(self.idx.labels) != a.d.shape[0]:
                raise ValueError('Length of values does not match length of '
                                 'index')
            self.name = name

    # -- plumbing
    @staticmethod
    def mk(a, idx, name=None):
        s = object.__new__(S)
        s.a = a
        s.idx = idx
        s.name = name
        return s

    def _as_A(self):
        r = A(self.a.d, self.a.g, self.a.dt)
        r.base = self.a
        r.ro = True
        return r

    @property
    def _dt(self):
        return self.a.dt

    def _ew(self, fn, args, dt=None):
        idx = None
        names = []
        aa = []
        for a in args:
            if isinstance(a, S):
                if idx is None:
                    idx = a.idx
                elif not idx.same(a.idx):
                    raise Unsupported('Series with different indexes')
                names.append(a.name)
                aa.append(A(a.a.d, a.a.g, a.a.dt))
            elif isinstance(a, Idx):
                aa.append(a._as_A())
            else:
                aa.append(a)
        r = ew(fn, aa, dt)
        r = A.of(r)
        if r.ndim != 1:
            if r.ndim == 2:
                return r       # numpy broadcasting through __array_ufunc__
            raise Unsupported('Series op result ndim')
        nm = names[0] if all(n == names[0] for n in names) else None
        return S.mk(r, idx, nm)

    def __repr__(self):
        return f'S({self.a}, {self.idx}, {self.name})'

    @property
    def index(self):
        return self.idx

    @index.setter
    def index(self, v):
        self.idx = _mkidx(v, self.a)

    @property
    def values(self):
        return self._as_A()

    @property
    def array(self):
        return self._as_A()

    def to_numpy(self, dtype=None, copy=False, **k):
        return self.a.copy() if copy else self._as_A()

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def empty(self):
        return False

    @property
    def T(self):
        return self

    @property
    def dt(self):
        if getattr(self, 'timedelta', False):
            return TD(self)
        raise Unsupported('Series.dt')

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(self.a)

    def __bool__(self):
        raise ValueError('The truth value of a Series is ambiguous.')

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, deep=True):
        return S.mk(self.a.copy(), self.idx, self.name)

    __copy__ = copy

    for _n, _o in dict(add='add', sub='sub', mul='mul', truediv='div',
                       floordiv='floordiv', mod='mod', pow='pow').items():
        exec(f'def __{_n}__(self, o): return ew2("{_o}", self, o)\n'
             f'def __r{_n}__(self, o): return ew2("{_o}", o, self)\n'
             f'def __i{_n}__(self, o): return self._inp("{_o}", o)\n')
    for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        exec(f'def __{_n}__(self, o): return ew2("{_n}", self, o)\n')
    for _n in ('and', 'or', 'xor'):
        exec(f'def __{_n}__(self, o): return ew2("{_n}", self, o)\n'
             f'def __r{_n}__(self, o): return ew2("{_n}", o, self)\n')
    del _n, _o

    def __neg__(self): return ew1('neg', self)
    def __pos__(self): return self
    def __abs__(self): return ew1('abs', self)
    def __invert__(self): return ew1('not', self)

    def _inp(self, op, o):
        r = ew2(op, self, o)
        if not isinstance(r, S):
            raise Unsupported('in-place Series op')
        # pandas: an in-place operator updates the Series object itself
        self._note()
        self.a = A(r.a.d, r.a.g, r.a.dt, tag=self.a.tag)
        return self

    def _note(self):
        self.a._root_note()

    def _arith(self, op, o, fill_value=None, r=False):
        if fill_value is not None:
            a = self.fillna(fill_value)
            if isinstance(o, S):
                o = o.fillna(fill_value)
            return ew2(op, o, a) if r else ew2(op, a, o)
        return ew2(op, o, self) if r else ew2(op, self, o)

    def add(self, o, fill_value=None, **k):
        return self._arith('add', o, fill_value)

    def sub(self, o, fill_value=None, **k):
        return self._arith('sub', o, fill_value)
    subtract = sub

    def mul(self, o, fill_value=None, **k):
        return self._arith('mul', o, fill_value)
    multiply = mul

    def div(self, o, fill_value=None, **k):
        return self._arith('div', o, fill_value)
    divide = truediv = div

    def rsub(self, o, **k):
        return self._arith('sub', o, r=True)

    def rdiv(self, o, **k):
        return self._arith('div', o, r=True)

    def pow(self, o, **k):
        return self._arith('pow', o)

    def mod(self, o, **k):
        return self._arith('mod', o)

    def abs(self):
        return ew1('abs', self)

    def gt(self, o): return ew2('gt', self, o)
    def ge(self, o): return ew2('ge', self, o)
    def lt(self, o): return ew2('lt', self, o)
    def le(self, o): return ew2('le', self, o)
    def eq(self, o): return ew2('eq', self, o)
    def ne(self, o): return ew2('ne', self, o)

    def where(self, cond, other=None, inplace=False, **k):
        if inplace:
            self[:] = self.where(cond, other)
            return None
        o = x.NAN if other is None else other
        if callable(cond):
            cond = cond(self)
        r = ew(lambda c, a, b: x.sel_elem(c, a, b),
               (cond, self, o))
        if isinstance(r, S):
            r.name = self.name
        return r

    def mask(self, cond, other=None, inplace=False, **k):
        if inplace:
            self[:] = self.mask(cond, other)
            return None
        o = x.NAN if other is None else other
        if callable(cond):
            cond = cond(self)
        return ew(lambda c, a, b: x.sel_elem(c, b, a), (cond, self, o))

    def fillna(self, v=None, inplace=False, **k):
        if v is None or k:
            raise Unsupported('fillna method')
        if inplace:
            self[:] = self.fillna(v)
            return None
        return ew(lambda a, b: x.x_ite(xc(a).nan, xc(b), xc(a)), (self, v)) \
            if not isinstance(v, S) else \
            ew(lambda a, b: x.x_ite(xc(a).nan, xc(b), xc(a)), (self, v))

    def combine_first(self, o):
        return self.fillna(o)

    def clip(self, lower=None, upper=None, axis=None, **k):
        def f(v, *b):
            v = xc(v)
            i = 0
            if lower is not None:
                lo = xc(b[i])
                i += 1
                w = x.x_max(v, lo)
                v = x.x_ite(lo.nan, v, w) if lo.nan is not FALSE else w
            if upper is not None:
                hi = xc(b[i])
                w = x.x_min(v, hi)
                v = x.x_ite(hi.nan, v, w) if hi.nan is not FALSE else w
            return v
        return ew(f, (self, *[b for b in (lower, upper) if b is not None]))

    def isna(self):
        return ew(lambda a: B(xc(a).nan), (self,))
    isnull = isna

    def notna(self):
        return ew(lambda a: B(t.bnot(xc(a).nan)), (self,))
    notnull = notna

    def between(self, lo, hi, inclusive='both'):
        a = ew2('ge' if inclusive in ('both', 'left') else 'gt', self, lo)
        b = ew2('le' if inclusive in ('both', 'right') else 'lt', self, hi)
        return a & b

    def any(self, *a, **k):
        return x.reduce_('any', self._as_A())

    def all(self, *a, **k):
        return x.reduce_('all', self._as_A())

    def sum(self, axis=None, skipna=True, **k):
        return x.reduce_('sum', self._as_A(), skipna=skipna)

    def mean(self, axis=None, skipna=True, **k):
        return x.reduce_('mean', self._as_A(), skipna=skipna)

    def max(self, axis=None, skipna=True, **k):
        return x.reduce_('max', self._as_A(), skipna=skipna)

    def min(self, axis=None, skipna=True, **k):
        return x.reduce_('min', self._as_A(), skipna=skipna)

    def astype(self, dt, **k):
        return S.mk(x.cast(self.a, dt), self.idx, self.name)

    def round(self, n=0):
        return x.np_round(self, n)

    def squeeze(self, *a):
        return self

    def to_frame(self, name=None):
        return DF.mk({name if name is not None else self.name: self.a},
                     self.idx)

    def to_dict(self):
        return dict(self.items())

    def items(self):
        if self.idx.labels is None:
            raise Unsupported('items of a generic Series')
        return [(k, self.a[i]) for i, k in enumerate(self.idx.labels)]

    def keys(self):
        return self.idx

    def get(self, k, default=None):
        if self.idx.labels is not None and k in self.idx.labels:
            return self[k]
        return default

    def __contains__(self, k):
        return self.idx.labels is not None and k in self.idx.labels

    def equals(self, o):
        raise Unsupported('Series.equals')

    def rename(self, name=None, **k):
        return S.mk(self.a, self.idx, name)

    def reindex(self, index=None, **k):
        idx = _mkidx(index, self.a)
        if self.idx.same(idx):
            return self.copy()
        raise Unsupported('reindex')

    def apply(self, f, *a, **k):
        return ew(lambda e: f(e), (self,))

    def map(self, f, **k):
        if isinstance(f, dict):
            raise Unsupported('map dict')
        return self.apply(f)

    def replace(self, a, b=None, **k):
        if isinstance(a, list):
            r = self
            for q in a:
                r = r.replace(q, b)
            return r
        av = xc(a)

        def f(e):
            e = xc(e)
            if av.nan is TRUE:
                return x.x_ite(e.nan, xc(b), e)
            return x.x_ite(x.x_eq(e, av), xc(b), e)
        return ew(f, (self,))

    def item(self):
        return self.a.item()

    def unique(self):
        raise Unsupported('unique')

    def shift(self, n=1, **k):
        if any(self.a.g):
            from . import rows
            rows.need('shift of a generic Series')
            if self.a.g != (True,) or self.a.sel is not None or (
                    k and k.get('fill_value') is None):
                raise Unsupported('shift of a generic Series')
            e = self.a.d[0]
            e = rows.shifted(e if isinstance(e, X) else xc(e), n)
            if k:
                e = x.x_ite(rows.FIRST if n > 0 else rows.LAST,
                            xc(k['fill_value']), e)
            return S.mk(A.generic(e), self.idx, self.name)
        d = self.a.d
        out = np.empty(d.shape, object)
        for i in range(len(d)):
            j = i - n
            out[i] = d[j] if 0 <= j < len(d) else x.NAN
        return S.mk(A(out), self.idx, self.name)

    def diff(self, n=1):
        r = self - self.shift(n)
        if getattr(self, 'instants', False):
            r.timedelta = True
        return r

    def cumsum(self, *a, **k):
        if self.a.g == (True,) and self.a.sel is None:
            from . import rows
            e = self.a.d[0]
            r = A.generic(rows.cumsum(e, True))
            r.dt = 'i' if self.a.dt in ('b', 'i') else 'f'
            q = S.mk(r, self.idx, self.name)
            if isinstance(e, B):
                q.groups = (r.d[0], e.t)      # counts the true rows
            return q
        return S.mk(x.np_cumsum(self.a), self.idx, self.name)

    def ffill(self, inplace=False, **k):
        from . import rows
        if self.a.g != (True,) or self.a.sel is not None or k:
            raise Unsupported('ffill')
        a = A.generic(rows.ffill(self.a.d[0]))
        if inplace:
            self._note()
            a.tag = self.a.tag
            self.a = a
            return None
        return S.mk(a, self.idx, self.name)

    def groupby(self, by=None, **k):
        from . import rows
        rows.need('groupby')
        g = getattr(by, 'groups', None)
        if g is None or k or not by.idx.same(self.idx) or \
                by.a.d[0] is not g[0]:
            raise Unsupported('groupby')
        return _Runs(self, g[1])

    def rolling(self, window, closed=None, min_periods=None, **k):
        from . import rows
        rows.need('rolling')
        if k or self.a.sel is not None or not isinstance(self.idx, TI):
            raise Unsupported('rolling')
        return _Rolling(self, window, closed, min_periods)

    def __getitem__(self, k):
        if isinstance(k, SelTI) and k.base.same(self.idx):
            k = A(k.mask.d, k.mask.g, 'b')
        if isinstance(k, str) or (self.idx.labels is not None and
                                  not isinstance(k, (S, A, slice, list, B))):
            if self.idx.labels is None:
                raise KeyError(k)
            if k not in self.idx.labels:
                raise KeyError(k)
            e = self.a.d[self.idx.labels.index(k)]
            return X(e.v, e.nan, e.pinf, e.ninf, True) \
                if isinstance(e, X) else e
        if isinstance(k, S):
            r = self.a[A(k.a.d, k.a.g, k.a.dt)]
            return S.mk(r, SelIdx(self.idx, r.sel), self.name)
        if isinstance(k, A):
            r = self.a[k]
            return S.mk(r, SelIdx(self.idx, r.sel), self.name)
        if isinstance(k, list) and self.idx.labels is not None:
            return S.mk(A(np.array([self.a.d[self.idx.labels.index(q)]
                                    for q in k] + [None], object)[:-1]),
                        Idx(k), self.name)
        raise Unsupported(f'Series[{k!r}]')

    def __setitem__(self, k, v):
        if isinstance(k, SelTI) and k.base.same(self.idx):
            k = A(k.mask.d, k.mask.g, 'b')
        if isinstance(k, (S, A, B)):
            if isinstance(v, S):
                v = v.a
            if isinstance(k, S):
                k = A(k.a.d, k.a.g, k.a.dt)
            a = A(self.a.d.copy(), self.a.g, self.a.dt)
            if isinstance(v, A) and v.sel is None and v.ndim and any(v.g):
                # label-aligned assignment
                v = A(v.d.copy(), v.g, v.dt, sel=tuple(
                    e.t.id for e in k.d.reshape(-1)))
            a[k] = v
            self._note()
            a.tag = self.a.tag
            self.a = a
            return
        if self.idx.labels is not None and k in self.idx.labels:
            self.a.d[self.idx.labels.index(k)] = xc(v)
            self._note()
            return
        if isinstance(k, slice) and k == slice(None):
            a = A(self.a.d.copy(), self.a.g, self.a.dt, tag=self.a.tag)
            a[:] = v.a if isinstance(v, S) else v
            self._note()
            self.a = a
            return
        raise Unsupported('Series.__setitem__')

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    def __getattr__(self, n):
        if n.startswith('__') or n in ('a', 'idx', 'name'):
            raise AttributeError(n)
        if self.idx.labels is not None and n in self.idx.labels:
            return self[n]
        if hasattr(_pd.Series, n):
            raise Unsupported(f'Series.{n}')
        raise AttributeError(f"'Series' object has no attribute '{n}'")


class SelTI(Idx):
    """labels of the rows of a DatetimeIndex where a mask holds"""

    def __init__(self, base, mask):
        if isinstance(mask, S):
            if not mask.idx.same(base):
                raise Unsupported('index of another index')
            mask = mask.a
        if mask.dt != 'b' or mask.g != (True,):
            raise Unsupported('selection of labels')
        self.base = base
        self.mask = mask
        self.labels = None
        self.name = None
        self.tz = base.tz
        self.key = ('selti', base.key, mask.d[0].t.id)


class _Runs:
    """groups of consecutive rows, each started by a true row"""

    def __init__(self, s, start):
        self.s = s
        self.start = start

    def cumsum(self):
        from . import rows
        return S.mk(A.generic(rows.cumsum(self.s.a.d[0], True, self.start)),
                    self.s.idx, self.s.name)


class _Rolling:
    def __init__(self, s, window, closed, min_periods):
        self.s = s
        self.key = (window_key(window), closed or 'right', min_periods)

    def sum(self):
        from . import rows
        e = self.s.a.d[0]
        return S.mk(A.generic(rows.rolling(xc(e), self.key + (
            self.s.idx.key,))), self.s.idx, self.s.name)


def window_key(w):
    if isinstance(w, TD):
        v, n = w.both()
        return t.show(v)
    if isinstance(w, (X, int)):
        raise Unsupported('rolling over a number of rows')
    return str(_pd.Timedelta(w))


class SelIdx(Idx):
    def __init__(self, base, sel):
        self.base = base
        self.key = ('sel', base.key, sel)
        self.labels = None
        self.name = None
        self.tz = None


class _Loc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, DF) and isinstance(k, tuple):
            r, c = k
            q = o if isinstance(r, slice) and r == slice(None) else o[r]
            return q[c] if not (isinstance(c, slice)) else q
        return o[k]

    def __setitem__(self, k, v):
        o = self.o
        if isinstance(o, DF) and isinstance(k, tuple):
            r, c = k
            for name in (c if isinstance(c, (list, tuple)) else [c]):
                if isinstance(r, slice) and r == slice(None):
                    o[name] = v
                else:
                    s = o[name].copy() if name in o.cols else \
                        S.mk(A.generic(x.NAN), o.idx)
                    s[r] = v
                    o[name] = s
            return
        o[k] = v


class _ILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, S):
            if isinstance(k, (int, np.integer)):
                return o.a[k]
            if isinstance(k, slice) and k == slice(None):
                return o
            if not any(o.a.g):
                return S.mk(o.a[k], Idx(o.idx.labels[k]), o.name)
        if isinstance(o, DF) and isinstance(k, int) and o.idx.labels:
            return S({c: a[k] for c, a in o.cols.items()})
        raise Unsupported('iloc')

    def __setitem__(self, k, v):
        o = self.o
        if isinstance(o, S) and o.a.g == (True,) and isinstance(
                k, (int, slice, np.integer)):
            a = o.a.copy()
            a.tag = o.a.tag
            if a._rowset(k, v.a if isinstance(v, S) else v):
                o._note()
                o.a = a
                return
        if isinstance(o, S) and not any(o.a.g):
            a = o.a.copy()
            a.tag = o.a.tag
            a[k] = v
            o._note()
            o.a = a
            return
        raise Unsupported('iloc assignment')


# --------------------------------------------------------------- DataFrame
class Cols(list):
    def tolist(self):
        return list(self)

    @property
    def values(self):
        return list(self)

    def equals(self, o):
        return list(self) == list(o)

    def intersection(self, o):
        return Cols(e for e in self if e in o)

    def difference(self, o):
        return Cols(e for e in self if e not in o)


class DF:
    """pandas.DataFrame: ordered dict column -> 1-d A"""
    __array_priority__ = 4000
    __array_ufunc__ = None
    __hash__ = None
    _wrap_prio = 2
    ndim = 2

    def __init__(self, data=None, index=None, columns=None, dtype=None,
                 copy=None):
        cols = {}
        idx = None if index is None else (
            index if isinstance(index, Idx) else _mkidx(index, None))
        if isinstance(data, DF):
            cols = {k: a.copy() for k, a in data.cols.items()}
            idx = idx or data.idx
        elif isinstance(data, A):
            if data.ndim == 1:
                data = A(data.d[:, None], data.g + (False,), data.dt)
            n = data.d.shape[1]
            names = list(columns) if columns is not None else list(range(n))
            cols = {k: A(data.d[:, i], data.g[:1], data.dt)
                    for i, k in enumerate(names)}
            columns = None
            if idx is None:
                idx = _mkidx(None, cols[names[0]])
        elif isinstance(data, S) and data.idx.labels is None:
            names = list(columns) if columns is not None else [
                data.name if data.name is not None else 0]
            if len(names) != 1 or data.name not in (None, names[0]):
                raise Unsupported('DataFrame(series, other columns)')
            cols = {names[0]: data.a.copy()}
            idx, columns = data.idx, None
        elif data is None:
            pass
        else:
            items = data.items() if isinstance(data, dict) else None
            if items is None:
                raise Unsupported('DataFrame(...)')
            for k, v in items:
                if isinstance(v, S):
                    if idx is None:
                        idx = v.idx
                    elif not idx.same(v.idx):
                        raise Unsupported('DataFrame: different indexes')
                elif isinstance(v, TI) and idx is None and False:
                    idx = v
            for k, v in data.items():
                if isinstance(v, TI):
                    cols[k] = v
                    continue
                if isinstance(v, list) and v and isinstance(v[0], TStamp):
                    cols[k] = v[0]
                    continue
                a = v.a.copy() if isinstance(v, S) else A.of(v)
                if a.ndim == 0:
                    if idx is None:
                        # all scalars without index
                        cols[k] = a
                        continue
                    if idx.labels is not None:
                        a = A(np.array([a.d[()]] * len(idx.labels) + [None],
                                       object)[:-1], None, a.dt)
                    else:
                        a = A(a.d.reshape(1),
                              (getattr(idx, 'generic', True),), a.dt)
                elif a.ndim != 1:
                    raise ValueError('Per-column arrays must each be '
                                     '1-dimensional')
                else:
                    a = a.copy()
                cols[k] = a
            if idx is None:
                arrs = [a for a in cols.values() if isinstance(a, A) and
                        a.ndim == 1]
                if not arrs:
                    raise ValueError('If using all scalar values, you must '
                                     'pass an index')
                idx = _mkidx(None, arrs[0])
        if columns is not None:
            for c in columns:
                if c not in cols:
                    cols[c] = None
            cols = {c: cols[c] if cols[c] is not None else
                    A.generic(x.NAN) for c in columns}
        object.__setattr__(self, 'cols', cols)
        object.__setattr__(self, 'idx', idx)

    @staticmethod
    def mk(cols, idx):
        d = object.__new__(DF)
        object.__setattr__(d, 'cols', cols)
        object.__setattr__(d, 'idx', idx)
        return d

    @classmethod
    def from_dict(cls, data, orient='columns', dtype=None, columns=None):
        if orient != 'columns':
            raise Unsupported('from_dict orient')
        return cls(data)

    def _ew(self, fn, args, dt=None):
        dfs = [a for a in args if isinstance(a, DF)]
        idx = dfs[0].idx
        names = list(dfs[0].cols)
        for d in dfs[1:]:
            if not d.idx.same(idx) or list(d.cols) != names:
                raise Unsupported('DataFrames with different labels')
        out = {}
        for k in names:
            aa = []
            for a in args:
                if isinstance(a, DF):
                    aa.append(A(a.cols[k].d, a.cols[k].g, a.cols[k].dt))
                elif isinstance(a, S):
                    if a.idx.labels == names:
                        aa.append(a[k])
                    else:
                        raise Unsupported('DataFrame op Series alignment')
                elif isinstance(a, A) and a.ndim >= 1:
                    if a.ndim == 1 and not any(a.g) and \
                            a.d.shape[0] == len(names):
                        aa.append(a[names.index(k)])
                    elif a.ndim == 2 and a.d.shape[1] == 1:
                        aa.append(A(a.d[:, 0], a.g[:1]))
                    elif a.ndim == 2 and a.d.shape[1] == len(names):
                        aa.append(A(a.d[:, names.index(k)], a.g[:1]))
                    else:
                        raise Unsupported('DataFrame op array')
                else:
                    aa.append(a)
            out[k] = A.of(ew(fn, aa, dt))
        return DF.mk(out, idx)

    def __repr__(self):
        return f'DF({self.cols}, {self.idx})'

    @property
    def columns(self):
        return Cols(self.cols)

    @columns.setter
    def columns(self, v):
        v = list(v)
        c = self.cols
        object.__setattr__(self, 'cols',
                           {n: a for n, a in zip(v, c.values())})

    @property
    def index(self):
        return self.idx

    @index.setter
    def index(self, v):
        object.__setattr__(self, 'idx', v if isinstance(v, Idx) else
                           _mkidx(v, next(iter(self.cols.values()))))

    @property
    def shape(self):
        a = next(iter(self.cols.values()))
        return (a.shape[0], len(self.cols))

    @property
    def size(self):
        return N

    @property
    def empty(self):
        return False

    def _as_A(self):
        return x.stack_(list(self.cols.values()), axis=1)

    @property
    def values(self):
        return self._as_A()

    def to_numpy(self, *a, **k):
        return self._as_A()

    @property
    def T(self):
        raise Unsupported('DataFrame.T')

    def __len__(self):
        return len(next(iter(self.cols.values())))

    def __iter__(self):
        return iter(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def __bool__(self):
        raise ValueError('The truth value of a DataFrame is ambiguous.')

    def keys(self):
        return Cols(self.cols)

    def items(self):
        return [(k, self[k]) for k in self.cols]

    def get(self, k, d=None):
        return self[k] if k in self.cols else d

    def copy(self, deep=True):
        return DF.mk({k: (a.copy() if isinstance(a, A) else a)
                      for k, a in self.cols.items()}, self.idx)

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy

    def __getitem__(self, k):
        if isinstance(k, (list, Cols)):
            for c in k:
                if c not in self.cols:
                    raise KeyError(f'{c!r} not in index')
            return DF.mk({c: self.cols[c].copy() for c in k}, self.idx)
        if isinstance(k, (S, A)):
            if isinstance(k, S):
                k = A(k.a.d, k.a.g, k.a.dt)
            cols = {c: a[k] for c, a in self.cols.items()}
            sel = next(iter(cols.values())).sel
            return DF.mk(cols, SelIdx(self.idx, sel))
        if isinstance(k, DF):
            return self.where(k)
        if k not in self.cols:
            raise KeyError(k)
        a = self.cols[k]
        if isinstance(a, (TI, TStamp)):
            return a
        # a column is handed out as a copy-on-write view
        return S.mk(A(a.d, a.g, a.dt), self.idx, k)

    def _notec(self, k):
        a = self.cols.get(k)
        tag = getattr(self, '_tag', None)
        if tag is not None:
            c = _ctx.get()
            if c is not None:
                c.mutated.append(f'{tag}[{k}]')

    def __setitem__(self, k, v):
        if isinstance(k, (list, Cols)):
            if isinstance(v, DF):
                for c, s in zip(k, v.cols):
                    self[c] = v[s]
            else:
                for c in k:
                    self[c] = v
            return
        if isinstance(k, (S, A)):
            for c in list(self.cols):
                s = self[c].copy()
                s[k] = v[c] if isinstance(v, DF) else v
                self[c] = s
            return
        if isinstance(v, S):
            if self.idx is None or not self.cols:
                if self.idx is None:
                    object.__setattr__(self, 'idx', v.idx)
            if not self.idx.same(v.idx):
                raise Unsupported('column assignment: different index')
            a = v.a.copy()
        else:
            a = A.of(v)
            if a.ndim == 0:
                if self.idx.labels is not None:
                    a = A(np.array([a.d[()]] * len(self.idx.labels) + [None],
                                   object)[:-1], None, a.dt)
                else:
                    a = A(a.d.reshape(1),
                          (getattr(self.idx, 'generic', True),), a.dt)
            else:
                a = a.copy()
        a.tag = None
        self._notec(k)
        self.cols[k] = a

    def __delitem__(self, k):
        self._notec(k)
        del self.cols[k]

    def filter(self, items=None, like=None, regex=None, axis=None):
        if items is None or axis not in (None, 1, 'columns'):
            raise Unsupported('DataFrame.filter')
        return DF.mk({c: self.cols[c].copy() for c in items
                      if c in self.cols}, self.idx)

    def pop(self, k):
        r = self[k]
        del self[k]
        return r

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if n in self.cols:
            return self[n]
        if hasattr(_pd.DataFrame, n):
            raise Unsupported(f'DataFrame.{n}')
        raise AttributeError(f"'DataFrame' object has no attribute '{n}'")

    def __setattr__(self, n, v):
        if n.startswith('_') or n in ('index', 'columns'):
            object.__setattr__(self, n, v)
        elif n in self.cols:
            self[n] = v
        else:
            object.__setattr__(self, n, v)

    for _n, _o in dict(add='add', sub='sub', mul='mul', truediv='div',
                       floordiv='floordiv', mod='mod', pow='pow').items():
        exec(f'def __{_n}__(self, o): return ew2("{_o}", self, o)\n'
             f'def __r{_n}__(self, o): return ew2("{_o}", o, self)\n')
    for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        exec(f'def __{_n}__(self, o): return ew2("{_n}", self, o)\n')
    for _n in ('and', 'or'):
        exec(f'def __{_n}__(self, o): return ew2("{_n}", self, o)\n')
    del _n, _o

    def __neg__(self): return ew1('neg', self)
    def __abs__(self): return ew1('abs', self)
    def __invert__(self): return ew1('not', self)

    def _inp(self, op, o):
        r = ew2(op, self, o)
        if not isinstance(r, DF):
            raise Unsupported('in-place DataFrame op')
        # pandas: an in-place operator updates the DataFrame object itself
        for k in self.cols:
            self._notec(k)
        object.__setattr__(self, 'cols', {k: A(v.d, v.g, v.dt)
                                          for k, v in r.cols.items()})
        return self

    def __iadd__(self, o): return self._inp('add', o)
    def __isub__(self, o): return self._inp('sub', o)
    def __imul__(self, o): return self._inp('mul', o)
    def __itruediv__(self, o): return self._inp('div', o)

    def _by(self, op, o, axis, r=False):
        if isinstance(o, S) and axis in (0, 'index', 'rows'):
            return DF.mk({k: (ew2(op, o, self[k]) if r else
                              ew2(op, self[k], o)).a for k in self.cols},
                         self.idx)
        return ew2(op, self, o)

    def add(self, o, axis='columns', **k): return self._by('add', o, axis)
    def sub(self, o, axis='columns', **k): return self._by('sub', o, axis)
    def mul(self, o, axis='columns', **k): return self._by('mul', o, axis)
    def div(self, o, axis='columns', **k): return self._by('div', o, axis)
    multiply = mul
    divide = div

    def _map(self, f):
        return DF.mk({k: A.of(f(self[k]).a) for k in self.cols}, self.idx)

    def fillna(self, v=None, **k):
        if isinstance(v, dict):
            return DF.mk({c: (self[c].fillna(v[c]).a if c in v else
                              self.cols[c]) for c in self.cols}, self.idx)
        return self._map(lambda s: s.fillna(v))

    def where(self, cond, other=None, **k):
        if isinstance(cond, S):
            return self._map(lambda s: s.where(cond, other))
        return DF.mk({c: self[c].where(cond[c], other).a for c in self.cols},
                     self.idx)

    def mask(self, cond, other=None, **k):
        return self.where(~cond, other)

    def clip(self, lower=None, upper=None, **k):
        return self._map(lambda s: s.clip(lower, upper))

    def isna(self):
        return self._map(lambda s: s.isna())
    isnull = isna

    def notna(self):
        return self._map(lambda s: s.notna())

    def abs(self):
        return ew1('abs', self)

    def astype(self, dt, **k):
        return self._map(lambda s: s.astype(dt))

    def round(self, n=0):
        return self._map(lambda s: s.round(n))

    def rename(self, columns=None, **k):
        if columns is None:
            raise Unsupported('rename')
        f = columns.get if isinstance(columns, dict) else \
            (lambda c, d: columns(c))
        return DF.mk({f(c, c): a.copy() for c, a in self.cols.items()},
                     self.idx)

    def drop(self, labels=None, columns=None, axis=0, **k):
        cs = columns if columns is not None else (
            labels if axis in (1, 'columns') else None)
        if cs is None:
            raise Unsupported('drop rows')
        if isinstance(cs, str):
            cs = [cs]
        return DF.mk({c: a for c, a in self.cols.items() if c not in cs},
                     self.idx)

    def assign(self, **k):
        r = self.copy()
        for c, v in k.items():
            r[c] = v(r) if callable(v) else v
        return r

    def reindex(self, index=None, columns=None, **k):
        if columns is not None and index is None:
            return self[list(columns)]
        if _mkidx(index, None).same(self.idx):
            return self.copy()
        raise Unsupported('DataFrame.reindex')

    def _rr(self, op, axis, skipna=True):
        if axis in (1, 'columns'):
            r = x.reduce_(op, self._as_A(), axis=1, skipna=skipna)
            return S.mk(A.of(r), self.idx)
        return S({k: x.reduce_(op, a, skipna=skipna)
                  for k, a in self.cols.items()})

    def sum(self, axis=0, skipna=True, **k): return self._rr('sum', axis, skipna)
    def mean(self, axis=0, skipna=True, **k): return self._rr('mean', axis, skipna)
    def max(self, axis=0, skipna=True, **k): return self._rr('max', axis, skipna)
    def min(self, axis=0, skipna=True, **k): return self._rr('min', axis, skipna)

    def any(self, axis=0, **k): return self._rr('any', axis)
    def all(self, axis=0, **k): return self._rr('all', axis)

    def update(self, o):
        raise Unsupported('DataFrame.update')

    def to_dict(self, orient='dict'):
        if orient in ('series',):
            return {k: self[k] for k in self.cols}
        raise Unsupported('to_dict')

    def apply(self, f, axis=0, **k):
        if axis == 0:
            return self._map(f)
        raise Unsupported('DataFrame.apply')

    def squeeze(self, axis=None):
        if len(self.cols) == 1:
            return self[next(iter(self.cols))]
        return self

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)


def concat(objs, axis=0, keys=None, **k):
    if axis not in (1, 'columns'):
        raise Unsupported('concat along rows')
    if isinstance(objs, dict):
        keys = list(objs)
        objs = list(objs.values())
    out = {}
    idx = None
    for i, o in enumerate(objs):
        if idx is None:
            idx = o.idx
        elif not idx.same(o.idx):
            raise Unsupported('concat: different indexes')
        if isinstance(o, S):
            nm = keys[i] if keys is not None else (
                o.name if o.name is not None else i)
            out[nm] = o.a.copy()
        else:
            for c, a in o.cols.items():
                if c in out:
                    raise Unsupported('concat: duplicate columns')
                out[c] = a.copy()
    return DF.mk(out, idx)


class Freq:
    """frequency of a regular index"""

    def __init__(self, step):
        self.step = step


def infer_freq(index):
    from . import rows
    c = _ctx.get()
    rows.need('infer_freq')
    if not isinstance(index, TI):
        raise Unsupported('infer_freq')
    for u, reg, step in c.ordered:
        if u is index.u:
            return Freq(step) if c.decide(reg) else None
    raise Unsupported('infer_freq of a derived index')


class _Freqs:
    @staticmethod
    def to_offset(f):
        if isinstance(f, Freq):
            return f
        return _pd.tseries.frequencies.to_offset(f)


class _TSeries:
    frequencies = _Freqs
    offsets = _pd.tseries.offsets


class PD:
    tseries = _TSeries
    infer_freq = staticmethod(infer_freq)
    Series = S
    DataFrame = DF
    Index = Idx
    DatetimeIndex = TI
    Timestamp = Timestamp
    Timedelta = staticmethod(Timedelta)
    to_timedelta = staticmethod(to_timedelta)
    to_datetime = staticmethod(to_datetime)
    concat = staticmethod(concat)
    NA = x.NAN

    @staticmethod
    def isna(v):
        if isinstance(v, (S, DF)):
            return v.isna()
        if v is None:
            return True
        if isinstance(v, (int, float, X)) or isinstance(v, A):
            return ew(lambda a: B(xc(a).nan), (v,))
        return False

    isnull = isna

    @staticmethod
    def notna(v):
        r = PD.isna(v)
        return (not r) if isinstance(r, bool) else ~r

    def __getattr__(self, n):
        if n in ('read_csv', 'api', 'testing', 'errors',
                 'date_range', 'NaT', 'MultiIndex',
                 'options', 'RangeIndex'):
            return getattr(_pd, n)
        raise Unsupported(f'pd.{n}')


pd = PD()
