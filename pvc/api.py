"""Contract language used by the spec files (symbolic and concrete mode).

A spec file is an ordinary Python module.  It is loaded twice: through the
engine's loader (numpy/pandas are the symbolic shims, literals are exact) and
as it stands (real numpy/pandas)."""
from fractions import Fraction as Fr
import copy as _copy
import math
import numpy as _np
import pandas as _pd
from . import terms as t
from . import xval as x
from . import pdshim
from . import ctx as _ctx
from .xval import A, X, B, xc

_SYM = (A, X, B, pdshim.S, pdshim.DF)


# ------------------------------------------------------------------ arguments
class Arg:
    elem = False

    def variants(self):
        return [self]


def _f(v):
    return float(v) if v is not None else None


class E(Arg):
    """a numeric argument given elementwise: array, Series or scalar"""
    elem = True

    def __init__(self, lo=None, hi=None, nan=True, req=False, gt=None,
                 sp=(), kind=None, name=None, lt=None, ge=None, le=None,
                 inf=False, integer=False):
        self.lo = _f(-1000 if lo is None else lo)
        self.hi = _f(1000 if hi is None else hi)
        self.nan = nan
        self.req = req
        self.gt = gt
        self.lt = lt
        self.ge = lo if (req and ge is None) else ge
        self.le = hi if (req and le is None) else le
        self.sp = [float(s) for s in sp]
        self.kind = kind            # force a kind
        self.sname = name
        self.inf = inf
        self.integer = integer

    # names: logical variable names -> sampling object
    def vars(self, name):
        return {name: self}

    def pre(self, name, gen):
        v = self.var(name, gen)
        out = []
        if self.gt is not None:
            out.append(t.gt(v, t.C(Fr(str(self.gt)))))
        if self.lt is not None:
            out.append(t.lt(v, t.C(Fr(str(self.lt)))))
        if self.ge is not None:
            out.append(t.ge(v, t.C(Fr(str(self.ge)))))
        if self.le is not None:
            out.append(t.le(v, t.C(Fr(str(self.le)))))
        if self.nan and out:
            return [t.bor(self.nanb(name, gen), *[t.band(*out)])]
        return out

    def okrows(self, v):
        m = _np.ones(len(v), bool)
        with _np.errstate(invalid='ignore'):
            for b, op in ((self.gt, _np.greater), (self.lt, _np.less),
                          (self.ge, _np.greater_equal),
                          (self.le, _np.less_equal)):
                if b is not None:
                    m &= op(v, float(b)) | _np.isnan(v)
        if not self.nan:
            m &= ~_np.isnan(v)
        return m

    def var(self, name, gen):
        return t.var(name + ('@N' if gen else '') +
                     ('!i' if self.integer else ''))

    def nanb(self, name, gen):
        return t.bvar(name + '.nan' + ('@N' if gen else ''))

    def sx(self, name, gen, np=True):
        return X(self.var(name, gen),
                 self.nanb(name, gen) if self.nan else t.FALSE, np=np)

    def sym(self, name, kind, env):
        kind = self.kind or kind
        if kind == 'scalar':
            return self.sx(name, False, np=False)
        a = A.generic(self.sx(name, True))
        if self.integer:
            a.dt = 'i'
        a.tag = name
        if kind == 'array':
            return a
        if kind == 'series':
            s = pdshim.S.mk(a, env['index'], self.sname)
            return s
        raise ValueError(kind)

    def conc(self, name, kind, rows, env):
        kind = self.kind or kind
        v = rows[name]
        if kind == 'scalar':
            f = float(v[0])
            return int(f) if self.integer and f == f else f
        a = _np.array(v, float)
        if self.integer:
            a = a.astype(int)
        if kind == 'array':
            return a
        return _pd.Series(a, index=env['index'], name=self.sname)

    def env(self, name, gen, rows, out):
        v = _np.asarray(rows[name], float)
        n = _np.isnan(v)
        out[self.var(name, gen)] = _np.where(n, 0.0, v)
        if self.nan:
            out[self.nanb(name, gen)] = n


class P(E):
    """a scalar parameter, the same for every element"""
    elem = False

    def __init__(self, lo=None, hi=None, nan=False, **k):
        super().__init__(lo, hi, nan=nan, **k)
        self.kind = 'scalar'


class Opt(Arg):
    """one of several fixed values (enumerated)"""

    def __init__(self, *vals):
        self.vals = vals

    def variants(self):
        return [v if isinstance(v, Arg) else Val(v) for v in self.vals]


class Val(Arg):
    def __init__(self, v):
        self.v = v

    def vars(self, name):
        return {}

    def pre(self, name, gen):
        return []

    def _get(self, sym):
        v = self.v() if callable(self.v) and not isinstance(
            self.v, type) else self.v
        return v

    def sym(self, name, kind, env):
        return tosym(self._get(True))

    def conc(self, name, kind, rows, env):
        return toconc(self._get(False))

    def env(self, name, gen, rows, out):
        pass

    def __repr__(self):
        return repr(self.v)


def tosym(v):
    if isinstance(v, float):
        return xc(v)
    if isinstance(v, tuple):
        return tuple(tosym(e) for e in v)
    if isinstance(v, list):
        return [tosym(e) for e in v]
    if isinstance(v, dict):
        return {k: tosym(e) for k, e in v.items()}
    if isinstance(v, _np.ndarray):
        return A.of(v)
    return v


def toconc(v):
    if isinstance(v, X):
        return float(v)
    if isinstance(v, tuple):
        return tuple(toconc(e) for e in v)
    if isinstance(v, list):
        return [toconc(e) for e in v]
    if isinstance(v, dict):
        return {k: toconc(e) for k, e in v.items()}
    return _copy.deepcopy(v)


class Vec(Arg):
    """a concrete-length vector of n scalar parameters"""

    def __init__(self, n, el=None, ctor='array'):
        self.n = n
        self.el = el or P(-10, 10)
        self.ctor = ctor

    def vars(self, name):
        return {f'{name}.{i}': self.el for i in range(self.n)}

    def pre(self, name, gen):
        out = []
        for i in range(self.n):
            out += self.el.pre(f'{name}.{i}', False)
        return out

    def sym(self, name, kind, env):
        es = [self.el.sx(f'{name}.{i}', False, np=False)
              for i in range(self.n)]
        if self.ctor == 'list':
            return es
        if self.ctor == 'tuple':
            return tuple(es)
        a = A.of(es)
        a.tag = name
        return a

    def conc(self, name, kind, rows, env):
        v = [float(rows[f'{name}.{i}'][0]) for i in range(self.n)]
        if self.ctor == 'list':
            return v
        if self.ctor == 'tuple':
            return tuple(v)
        return _np.array(v)

    def env(self, name, gen, rows, out):
        for i in range(self.n):
            self.el.env(f'{name}.{i}', False, rows, out)


class Dct(Arg):
    """dict of arguments; cls='dict' or 'series' (pandas Series of scalars)
    or 'frame' (DataFrame of generic columns)"""

    def __init__(self, cls='dict', **items):
        self.cls = cls
        self.items = {k: (v if isinstance(v, Arg) else Val(v))
                      for k, v in items.items()}

    def variants(self):
        return [self]

    def vars(self, name):
        out = {}
        for k, a in self.items.items():
            out.update(a.vars(f'{name}.{k}'))
        return out

    def pre(self, name, gen):
        out = []
        for k, a in self.items.items():
            g = gen if getattr(a, 'elem', False) else False
            if self.cls == 'frame':
                g = True
            out += a.pre(f'{name}.{k}', g)
        return out

    def sym(self, name, kind, env):
        if self.cls == 'frame':
            kind = 'series'
        d = {k: a.sym(f'{name}.{k}', kind, env)
             for k, a in self.items.items()}
        if self.cls == 'series':
            return pdshim.S(d)
        if self.cls == 'frame':
            f = pdshim.DF.mk({k: v.a for k, v in d.items()}, env['index'])
            object.__setattr__(f, '_tag', name)
            return f
        return d

    def conc(self, name, kind, rows, env):
        if self.cls == 'frame':
            kind = 'series'
        d = {k: a.conc(f'{name}.{k}', kind, rows, env)
             for k, a in self.items.items()}
        if self.cls == 'series':
            return _pd.Series(d)
        if self.cls == 'frame':
            return _pd.DataFrame(d, index=env['index'])
        return d

    def env(self, name, gen, rows, out):
        for k, a in self.items.items():
            g = gen if getattr(a, 'elem', False) else False
            if self.cls == 'frame':
                g = True
            a.env(f'{name}.{k}', g, rows, out)


class Times(Arg):
    """DatetimeIndex of arbitrary instants (microsecond resolution is not
    assumed: instants are real numbers of seconds)"""
    elem = True
    isidx = True

    def __init__(self, tz='UTC', lo='1990-01-01', hi='2035-01-01', step=60,
                 freq=None, ordered=False):
        self.tz = tz
        self.ordered = ordered
        self.lo = _pd.Timestamp(lo).value / 1e9
        self.hi = _pd.Timestamp(hi).value / 1e9
        self.step = step
        self.nan = False
        self.sp = []

    def vars(self, name):
        return {name: self}

    def okrows(self, v):
        return _np.ones(len(v), bool)

    def pre(self, name, gen):
        u = t.var(name + '@N')
        return [t.ge(u, t.C(-2208988800)), t.le(u, t.C(4102444800))]

    def sym(self, name, kind, env):
        from .pdshim import TI, TZ
        r = TI.make(t.var(name + '@N'),
                    None if self.tz is None else TZ(self.tz))
        env['index'] = r
        c = _ctx.get()
        if self.ordered and c is not None and all(
                o[0] is not r.u for o in c.ordered):
            step = t.var('step!' + name)
            c.axiom(t.gt(step, t.ZERO))
            c.ordered.append((r.u, t.bvar('regular!' + name), step))
        return r

    def conc(self, name, kind, rows, env):
        v = _np.asarray(rows[name], float)
        ns = _np.round(v).astype('int64')
        if self.ordered:
            ns = _np.sort(ns) + 60*_np.arange(len(ns))
            # half of the histories have even steps, a quarter uneven short
            # ones, a quarter stay scattered over the years
            mode = int(ns[0]//60) % 8 if len(ns) > 3 else 0
            n = _np.arange(len(ns))
            if mode > 3:
                ns = ns[0] + n*(300, 900, 3600, 14400)[mode - 4]
            elif mode > 1:
                h = (ns[0]//60 + n*7919) % 23 % (3, 7)[mode - 2]
                ns = ns[0] + _np.cumsum((1 + h)*(900, 1800)[mode - 2])
        idx = _pd.DatetimeIndex(ns.astype('datetime64[s]').astype(
            'datetime64[ns]'))
        if self.tz is not None:
            idx = idx.tz_localize('UTC').tz_convert(self.tz)
        env['index'] = idx
        return idx

    def env(self, name, gen, rows, out):
        out[t.var(name + '@N')] = _np.round(_np.asarray(rows[name], float))


# ------------------------------------------------------------------ registry
class Case:
    def __init__(self, kind, func, body, args, **k):
        self.ckind = kind           # 'contract' | 'lemma'
        self.func = func
        self.body = body
        self.args = {n: (a if isinstance(a, Arg) else Val(a))
                     for n, a in args.items()}
        self.kinds = k.pop('kinds', ('array', 'series', 'scalar'))
        self.prop = k.pop('prop', None)
        self.pre = k.pop('pre', None)
        self.name = k.pop('name', None) or (
            (func or '') + ('' if kind == 'contract' else ':' +
                            body.__name__))
        self.loose = k.pop('loose', False)
        self.stubs = k.pop('stubs', None)
        self.symstubs = dict(self.stubs or {}, **k.pop('symstubs', {}))
        self.call = k.pop('call', None)
        self.budget = k.pop('budget', 60)
        self.rtol = k.pop('rtol', 1e-6)
        self.atol = k.pop('atol', 1e-9)
        self.tier = k.pop('tier', 'quick')
        self.maxpaths = k.pop('maxpaths', 300)
        self.names = k.pop('names', False)
        self.nconc = k.pop('nconc', 60)
        self.samples = k.pop('samples', None)   # exact number (bounded)
        self.mut_ok = k.pop('mut_ok', ())
        self.types = k.pop('types', True)
        self.bounded = k.pop('bounded', False)
        self.rows = k.pop('rows', False)    # neighbouring rows: pvc/rows.py
        self.scale = k.pop('scale', None)
        self.box = k.pop('box', None)
        self.exc_ok = k.pop('exc_ok', False)
        self.note = k.pop('note', None)
        if k:
            raise TypeError(f'unknown contract option {list(k)}')


def contract(func, prop=None, **k):
    """result of func(**args) equals the decorated specification"""
    args = k.pop('args')

    def deco(body):
        import sys
        g = body.__globals__
        g.setdefault('CASES', []).append(
            Case('contract', func, body, args, prop=prop, **k))
        return body
    return deco


def lemma(prop=None, func=None, **k):
    """decorated generator yields (label, condition) pairs about the code"""
    args = k.pop('args')

    def deco(body):
        g = body.__globals__
        g.setdefault('CASES', []).append(
            Case('lemma', func, body, args, prop=prop,
                 **k))
        return body
    return deco


# ------------------------------------------------------------------ helpers
def is_sym(*vs):
    return _ctx.get() is not None


RTOL, ATOL = 1e-6, 1e-9


def _un(v):
    return v


def eq(a, b, rtol=None, atol=None):
    """a == b (both NaN counts as equal); tolerance only in concrete runs"""
    if is_sym():
        return x.ew(_eqx, (_s(a), _s(b)))
    a, b = _np.asarray(_n(a), float), _np.asarray(_n(b), float)
    with _np.errstate(all='ignore'):
        return _np.isclose(a, b, rtol=rtol or RTOL, atol=atol or ATOL,
                           equal_nan=True)


def _eqx(p, q):
    if isinstance(p, B) or isinstance(q, B):
        return B(t.iff(x.tob(p), x.tob(q)))
    p, q = xc(p), xc(q)
    return B(t.band(*[g for _, g in eq_goals(p, q)]))


def eq_goals(p, q):
    fin = t.band(t.bnot(p.nan), t.bnot(p.pinf), t.bnot(p.ninf))
    out = [('nan', t.iff(p.nan, q.nan)),
           ('inf', t.implies(t.bnot(p.nan), t.band(
               t.iff(p.pinf, q.pinf), t.iff(p.ninf, q.ninf)))),
           ('value', t.implies(fin, t.eq(p.v, q.v)))]
    return [(l, g) for l, g in out]


def _s(v):
    if isinstance(v, (A, X, B)):
        return v
    if hasattr(v, '_as_A'):
        return A.of(v)
    return v


def _n(v):
    return v


def le(a, b, tol=None):
    """a <= b wherever neither is NaN"""
    if is_sym():
        return x.ew(lambda p, q: B(t.bor(xc(p).nan, xc(q).nan,
                                         x.x_le(xc(p), xc(q)))),
                    (_s(a), _s(b)))
    a, b = _np.asarray(a, float), _np.asarray(b, float)
    tol = (1e-9 if tol is None else tol)
    with _np.errstate(all='ignore'):
        s = _np.maximum(_np.abs(a), _np.abs(b))
        s = _np.where(_np.isfinite(s), s, 0)
        return _np.isnan(a) | _np.isnan(b) | (a <= b + tol * (1 + s))


def ge(a, b, tol=None):
    return le(b, a, tol)


def lt(a, b):
    """a < b wherever neither is NaN"""
    if is_sym():
        return x.ew(lambda p, q: B(t.bor(xc(p).nan, xc(q).nan,
                                         x.x_lt(xc(p), xc(q)))),
                    (_s(a), _s(b)))
    a, b = _np.asarray(a, float), _np.asarray(b, float)
    with _np.errstate(all='ignore'):
        return _np.isnan(a) | _np.isnan(b) | (a < b)


def between(v, lo, hi):
    return both(le(lo, v), le(v, hi))


def both(*cs):
    r = cs[0]
    for c in cs[1:]:
        r = _and(r, c)
    return r


def _and(a, b):
    if is_sym():
        return x.ew2('and', _b(a), _b(b))
    return _np.logical_and(a, b)


def _b(v):
    if isinstance(v, (bool, _np.bool_)):
        return B(t.TRUE if v else t.FALSE)
    if hasattr(v, '_as_A') and not isinstance(v, A):
        return A.of(v)
    return v


def implies(a, b):
    if is_sym():
        return x.ew(lambda p, q: B(t.implies(x.tob(p), x.tob(q))),
                    (_b(a), _b(b)))
    return _np.logical_or(_np.logical_not(a), b)


def iff(a, b):
    if is_sym():
        return x.ew(lambda p, q: B(t.iff(x.tob(p), x.tob(q))),
                    (_b(a), _b(b)))
    return _np.equal(_np.asarray(a, bool), _np.asarray(b, bool))


def either(*cs):
    if is_sym():
        r = _b(cs[0])
        for c in cs[1:]:
            r = x.ew2('or', r, _b(c))
        return r
    r = cs[0]
    for c in cs[1:]:
        r = _np.logical_or(r, c)
    return r


def neg(a):
    if is_sym():
        return x.ew(lambda p: B(t.bnot(x.tob(p))), (_b(a),))
    return _np.logical_not(a)


def unix(v):
    """instants as seconds since 1970 UTC (naive: of the wall clock)"""
    if isinstance(v, pdshim.TI):
        return v._A(v.u)
    if is_sym():
        raise x.Unsupported('instants of ' + type(v).__name__)
    i = _pd.DatetimeIndex(v)
    if i.tz is not None:
        i = i.tz_convert('UTC').tz_localize(None)
    i = i.as_unit('ns')
    return _np.where(_np.asarray(i.isna()), _np.nan,
                     _np.asarray(i.asi8, float)/1e9)


def isnan(a):
    if is_sym():
        return x.ew(lambda p: B(xc(p).nan), (_s(a),))
    return _np.isnan(_np.asarray(a, float))


def isfinite(a):
    if is_sym():
        return x.ew(lambda p: B(x.fin_(xc(p))), (_s(a),))
    return _np.isfinite(_np.asarray(a, float))


def raises(exc, fn, *a, **k):
    """fn(*a, **k) raises exc"""
    try:
        fn(*a, **k)
    except exc as e:
        _ctx.helper_gone(e)
        return True
    except Exception as e:
        _ctx.helper_gone(e)
        return False
    return False


class Equal:
    """obligation: two results are equal (structure, NaN, values)"""

    def __init__(self, got, want, loose=False, types=True):
        self.got = got
        self.want = want
        self.loose = loose
        self.types = types


def same(got, want, loose=False, types=True):
    return Equal(got, want, loose, types)


class Raised:
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'raised {type(self.e).__name__}: {self.e}'


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        _ctx.helper_gone(e)
        return Raised(e)


# -------------------------------------------- callee contracts in lemmas
class ufn:
    """the callee as an uninterpreted elementwise function of all its
    arguments (congruence is the only thing the caller may use).  For use as
    a symbolic stub: lemmas about a caller are then proved against "whatever
    the callee returns"; the callee has contracts of its own.

    outs: names of the results (None: one unnamed result)
    form: 'tuple' | 'dict' | 'frame' (DataFrame for pandas input, else dict)
    facts: facts(result, **arguments) -> conditions assumed (its contract)
    """

    def __init__(self, path, outs=None, form='tuple', sig=None, facts=None,
                 skip=('self',), wrap=None, array=False, noinf=False):
        self.path = path
        self.outs = outs
        self.form = form
        self.sig = sig
        self.facts = facts
        self.skip = skip
        self.wrap = wrap
        self.array = array
        self.noinf = noinf          # its contract: never infinite
        self.calls = []

    @property
    def __signature__(self):
        import inspect
        if self.sig is None:
            from .check import real_get
            self.sig = inspect.signature(real_get(self.path))
        return self.sig

    def bind(self, a, k):
        sig = self.__signature__
        b = sig.bind(*a, **k)
        b.apply_defaults()
        out = {}
        for n, v in b.arguments.items():
            p = sig.parameters[n]
            if n in self.skip:
                continue
            if p.kind is p.VAR_KEYWORD:
                out.update(v)
            elif p.kind is p.VAR_POSITIONAL:
                out.update({f'{n}{i}': e for i, e in enumerate(v)})
            else:
                out[n] = v
        return out

    def __call__(self, *a, **k):
        args = self.bind(a, k)
        self.calls.append(args)
        key, nums = [], []
        idx = None
        for n in sorted(args):
            idx = self.flat(n, args[n], key, nums, idx)
        name = self.path + '(' + ','.join(key) + ')'

        def one(o):
            nm = name + (f'[{o}]' if o is not None else '')

            def f(*es):
                fl = []
                for e in es:
                    e = xc(e)
                    sp = t.bor(e.nan, e.pinf, e.ninf)
                    fl.append(e.v if sp is t.FALSE else
                              t.ite(sp, t.ZERO, e.v))
                    if sp is not t.FALSE:
                        fl.append(t.ite(e.nan, t.C(1), t.ite(
                            e.pinf, t.C(2), t.ite(e.ninf, t.C(3), t.ZERO))))
                    else:
                        fl.append(t.ZERO)
                u = [t.lt(t.uf(f'{nm}!{q}', *fl), t.C(Fr(3, 4)))
                     for q in ('nan', 'pinf', 'ninf')]
                nan, pinf, ninf = u
                if self.noinf:
                    pinf = ninf = t.FALSE
                return x.mkx(t.uf(nm, *fl), nan, pinf,
                             t.band(ninf, t.bnot(pinf)), True)
            if not nums:
                return f()
            return x.ew(f, tuple(nums))
        if self.outs is None:
            r = one(None)
            if idx is not None and not hasattr(r, 'index') and not self.array:
                r = pdshim.S.mk(A.of(r), idx)
        else:
            r = {o: one(o) for o in self.outs}
            if self.form == 'tuple':
                r = tuple(r.values())
            elif self.form == 'frame':
                ser = [v for v in r.values() if isinstance(v, pdshim.S)]
                ix = ser[0].index if ser else idx
                if ix is not None:
                    r = pdshim.DF.mk({o: A.of(v if isinstance(v, (A, X))
                                              else v._as_A())
                                      for o, v in r.items()}, ix)
        if self.facts:
            for b in self.facts(r, **args):
                c = _ctx.get()
                from .check import cond_term
                c.axiom(cond_term(b))
        return self.wrap(r) if self.wrap else r

    def flat(self, n, v, key, nums, idx):
        if isinstance(v, (pdshim.TI,)):
            key.append(f'{n}:index')
            nums.append(v._A(v.u))
            return v
        if isinstance(v, pdshim.TIfield):
            key.append(n)
            nums.append(v._as_A())
        elif isinstance(v, pdshim.S) and getattr(v.index, "labels", None) is not None:
            for q in sorted(v.keys(), key=str):
                idx = self.flat(f'{n}.{q}', v[q], key, nums, idx)
        elif isinstance(v, pdshim.DF):
            for q in v.columns:
                idx = self.flat(f'{n}.{q}', v[q], key, nums, idx)
        elif isinstance(v, dict):
            for q in sorted(v, key=str):
                idx = self.flat(f'{n}.{q}', v[q], key, nums, idx)
        elif isinstance(v, (list, tuple)):
            for i, q in enumerate(v):
                idx = self.flat(f'{n}.{i}', q, key, nums, idx)
        elif isinstance(v, _SYM) or isinstance(v, (int, float, Fr)) and \
                not isinstance(v, bool):
            key.append(n)
            nums.append(v)
        elif isinstance(v, (_np.ndarray, _np.floating)):
            key.append(n)
            nums.append(A.of(v) if isinstance(v, _np.ndarray) else xc(v))
        elif callable(v):
            key.append(f'{n}={getattr(v, "path", None) or v.__name__}')
        else:
            key.append(f'{n}={v!r}')
        return idx


# -------------------------------------------------- neighbouring rows
def prev(s, fill=None):
    """value of the previous row (Series or array); missing in the first"""
    if isinstance(s, pdshim.S):
        r = s.shift(1)
    elif isinstance(s, A):
        from . import rows
        r = A.generic(rows.shifted(xc(s.d[0]), 1))
    elif isinstance(s, _pd.Series):
        r = s.astype(float).shift(1)
    else:
        r = _np.concatenate([[_np.nan], _np.asarray(s, float)[:-1]])
    return r


def after(s):
    """value of the next row; missing in the last"""
    if isinstance(s, pdshim.S):
        return s.shift(-1)
    if isinstance(s, A):
        from . import rows
        return A.generic(rows.shifted(xc(s.d[0]), -1))
    if isinstance(s, _pd.Series):
        return s.astype(float).shift(-1)
    return _np.concatenate([_np.asarray(s, float)[1:], [_np.nan]])


def first(s):
    """true in the first row"""
    if isinstance(s, (pdshim.S, A)):
        from . import rows
        r = A.generic(B(rows.FIRST))
        return pdshim.S.mk(r, s.idx) if isinstance(s, pdshim.S) else r
    r = _np.arange(len(s)) == 0
    return _pd.Series(r, index=s.index) if isinstance(s, _pd.Series) else r


def row(s, k):
    """value at row k"""
    if isinstance(s, _pd.Series):
        return s.iloc[k]
    if isinstance(s, pdshim.S):
        return s.iloc[k]
    return s[k]
