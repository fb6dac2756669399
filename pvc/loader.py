"""Loads the real pvlib sources from /repo for symbolic execution.

Mechanical source transformation (everything else is the code as it stands):
  * float literals become exact constants (the rational their decimal text
    denotes);
  * `a / b` and `a ** b` on two Python ints are computed exactly;
  * numpy, pandas and scipy are replaced by the shims, and a few builtins
    (isinstance, float, int, len, max, min, round) understand symbolic values.
"""
import ast
import builtins
import importlib
import numbers
import os
import sys
import types
from fractions import Fraction as Fr
import numpy as _np
import pandas as _pd
from . import terms as t
from . import xval as x
from . import npshim, pdshim, spshim
from .xval import A, X, B, xc, Unsupported, N, SymLen

REPO = os.environ.get('PVC_REPO', '/repo')


# ---------------------------------------------------------- transformation
class Tr(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(
                ast.Name('_pvc_lit', ast.Load()),
                [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            f = '_pvc_div'
        elif isinstance(n.op, ast.Pow):
            f = '_pvc_pow'
        elif isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str):
            f = '_pvc_fmt'
        else:
            return n
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()),
                                          [n.left, n.right], []), n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_match_case(self, n):
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [d and self.visit(d) for d in n.kw_defaults]
        for a in n.posonlyargs + n.args + n.kwonlyargs:
            a.annotation = None
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        self.generic_visit(n)
        return n


_lits = {}


def lit(s):
    r = _lits.get(s)
    if r is None:
        f = float(s)
        r = _lits[s] = X(t.C(f)) if f == f and abs(f) != float('inf') \
            else xc(f)
    return r


def fmt_(s, args):
    """text % values: symbolic values are shown, not formatted"""
    t_ = args if isinstance(args, tuple) else (args,)
    if any(isinstance(v, (X, B, A)) for v in t_):
        return s + repr(t_)
    return s % args


def div(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(
            a, SymLen) and not isinstance(b, SymLen):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return X(t.C(Fr(int(a), int(b))))
    if isinstance(a, Fr) and isinstance(b, int):
        return a / b
    return a / b


def pow_(a, b):
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        return X(t.C(Fr(a) ** b))
    return a ** b


# ---------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (X, builtins.float))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class float_(metaclass=_FloatMeta):
    def __new__(cls, v=0):
        if isinstance(v, (X, B)):
            v = xc(v)
            return X(v.v, v.nan, v.pinf, v.ninf, False)
        if isinstance(v, A):
            r = v.item()
            return r if isinstance(r, X) else xc(r)
        if isinstance(v, pdshim.S):
            return float_(v.a)
        if isinstance(v, (str,)):
            return xc(builtins.float(v))
        if isinstance(v, (int, builtins.float, _np.number)):
            return xc(builtins.float(v))
        raise TypeError(f"float() argument must be a string or a real "
                        f"number, not '{type(v).__name__}'")


float_.__name__ = 'float_'


def isinstance_(o, c):
    if builtins.isinstance(c, tuple):
        return any(isinstance_(o, q) for q in c)
    if c is builtins.float or c is float_:
        return builtins.isinstance(o, (X, builtins.float))
    if c is int_ or c is builtins.int:
        return builtins.isinstance(o, builtins.int)
    if c is builtins.bool:
        return builtins.isinstance(o, (B, builtins.bool))
    if c is _np.floating or c is _np.number or c is _np.generic:
        return builtins.isinstance(o, c) or (
            builtins.isinstance(o, X) and o.np)
    if builtins.isinstance(o, pdshim.SelIdx):
        pass
    return builtins.isinstance(o, c)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int_(metaclass=_IntMeta):
    def __new__(cls, v=0, *a):
        if isinstance(v, X):
            if v.isconst():
                return int(v.v.args[0])
            return x.x_trunc(v)
        if isinstance(v, A):
            return int_(v.item())
        return builtins.int(v, *a)


int_.__name__ = 'int_'


def len_(o):
    if isinstance(o, A) and o.g and o.g[0]:
        return N
    if isinstance(o, pdshim.S) and any(o.a.g):
        return N
    if isinstance(o, pdshim.DF):
        return len_(next(iter(o.cols.values())))
    if isinstance(o, pdshim.Idx) and o.labels is None and \
            getattr(o, 'generic', True):
        return N
    return builtins.len(o)


def _mm(which):
    def f(*a, key=None, **k):
        vs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and vs and all(
                isinstance(v, (X, int, builtins.float)) for v in vs) and any(
                isinstance(v, X) for v in vs):
            r = vs[0]
            for v in vs[1:]:
                p, q = xc(v), xc(r)
                c = x.x_lt(q, p) if which == 'max' else x.x_lt(p, q)
                r = x.x_ite(c, p, q)
            return r
        if key is not None:
            ks = [key(v) for v in vs]
            if any(isinstance(q, SymLen) for q in ks):
                # an array of arbitrary length counts as longer than a scalar
                if which == 'max' and all(isinstance(q, SymLen) or q == 1
                                          for q in ks):
                    return next(v for v, q in zip(vs, ks)
                                if isinstance(q, SymLen))
                raise Unsupported('comparison of symbolic lengths')
            k['key'] = key
        return getattr(builtins, which)(vs, **k) if len(a) == 1 else \
            getattr(builtins, which)(*vs, **k)
    return f


def range_(*a):
    if any(isinstance(v, SymLen) for v in a):
        raise Unsupported('range over a symbolic length')
    return builtins.range(*[int(v) for v in a])


class Poison:
    def __repr__(self):
        return 'value of a loop variable after the loop'

    def __getattr__(self, n):
        raise Unsupported(repr(self))


def maprange(*a):
    if any(isinstance(v, SymLen) for v in a):
        if len(a) == 2 and a[0] == 0:
            a = a[1:]
        if len(a) != 1:
            raise Unsupported('range over a symbolic length')
        return x.MapRange()
    return _Range(range_(*a))


class _Range(list):
    generic = False


def any_(it):
    # builtin any()/all(): short-circuit through symbolic truth
    return builtins.any(it)


_real_import = builtins.__import__


class Pkg(types.ModuleType):
    pass


class World:
    """one loaded copy of the pvlib sources"""

    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sp = spshim.mkmods()
        self.sources = {}
        self.overrides = overrides or {}
        pk = Pkg('pvlib')
        pk.__path__ = [os.path.join(self.repo, 'pvlib')]
        pk.__version__ = '0'
        self.mods['pvlib'] = pk
        w = self

        def ga(name):
            try:
                return w.load('pvlib.' + name)
            except FileNotFoundError:
                raise AttributeError(f"module 'pvlib' has no attribute "
                                     f"'{name}'")
        pk.__getattr__ = ga
        self.bi = dict(vars(builtins))
        self.bi.update({
            '__import__': self.imp, 'isinstance': isinstance_,
            'float': float_, 'int': int_, 'len': len_, 'max': _mm('max'),
            'min': _mm('min'), 'range': range_,
            '_pvc_lit': lit, '_pvc_maprange': maprange,
            '_pvc_poison': Poison(), '_pvc_div': div, '_pvc_fmt': fmt_, '_pvc_pow': pow_})

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        p, ispkg = self.path(name)
        if not os.path.exists(p):
            raise FileNotFoundError(p)
        src = open(p).read()
        self.sources[name] = (p, src)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__['__builtins__'] = self.bi
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        if name == 'pvlib.iotools':
            # the readers' modules, one at a time when a contract names one
            def sub(n):
                if n.startswith('__'):
                    raise AttributeError(n)
                try:
                    return w_load('pvlib.iotools.' + n)
                except Exception as e:
                    raise Unsupported(f'iotools.{n}: {e}')
            w_load = self.load
            m.__getattr__ = sub
            return m
        if name == 'pvlib.version':
            m.__version__ = '0'
            return m
        tree = ast.parse(src)
        tree = Tr().visit(tree)
        from . import loops
        tree = loops.transform(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, p, 'exec')
        alias = 'pvcsym.' + name
        m.__name__ = alias
        sys.modules[alias] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        m.__name__ = name
        par, _, leaf = name.rpartition('.')
        if par:
            setattr(self.load(par) if par != 'pvlib' else self.mods[par],
                    leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get('__package__', 'pvlib')
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'pvlib':
            if name == 'pvlib':
                m = self.mods['pvlib']
            else:
                m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except FileNotFoundError:
                            raise ImportError(f'cannot import {f}')
                return m
            return self.mods['pvlib']
        if top == 'numpy':
            if name == 'numpy':
                return npshim.np
            if name == 'numpy.polynomial':
                return npshim.np.polynomial if fromlist else npshim.np
            return _real_import(name, globals, locals, fromlist, 0)
        if top == 'pandas':
            if fromlist and name != 'pandas':
                return _real_import(name, globals, locals, fromlist, 0)
            return pdshim.pd
        if top == 'scipy':
            if name in self.sp:
                return self.sp[name] if fromlist else self.sp['scipy']
            raise Unsupported(f'import {name}')
        if top in ('h5py', 'requests', 'xarray'):
            return spshim._Mod(top)
        if top in ('netCDF4', 'numba', 'ephem'):
            raise ImportError(name)
        if top == 'importlib' and False:
            pass
        return _real_import(name, globals, locals, fromlist, 0)

    def boot(self):
        """import the submodules in the order pvlib/__init__.py does"""
        if getattr(self, '_booted', False):
            return
        self._booted = True
        src = open(os.path.join(self.repo, 'pvlib', '__init__.py')).read()
        self.import_errors = {}
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.ImportFrom) and n.module == 'pvlib':
                for a in n.names:
                    try:
                        self.load('pvlib.' + a.name)
                    except (Exception, Unsupported) as e:
                        self.import_errors[a.name] = e

    def get(self, dotted):
        self.boot()
        # 'pvlib.irradiance.aoi' or 'pvlib.pvsystem.PVSystem.get_aoi'
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            mod = '.'.join(parts[:i])
            p, _ = self.path(mod)
            if os.path.exists(p):
                o = self.load(mod)
                for a in parts[i:]:
                    o = getattr(o, a)
                return o
        raise KeyError(dotted)
