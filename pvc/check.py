"""Runs the cases of a property: proof, counterexample search, cross-check."""
import copy
import importlib.util
import itertools
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import unittest.mock
import warnings
from fractions import Fraction as Fr
import numpy as np
import pandas as pd
from . import terms as t
from . import ctx as _ctx
from . import xval as x
from . import pdshim, prove, api
from . import rows as rowax
from .ctx import Unsupported, explore
from .xval import A, X, B, xc
from .loader import World, REPO

warnings.simplefilter('ignore')
np.seterr(all='ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUE, FALSE = t.TRUE, t.FALSE

# ------------------------------------------------------------------ loading
_world = None
_pv = None
_spec_cache = {}


def world():
    global _world
    if _world is None:
        _world = World()
        _world.boot()
    return _world


def real_pvlib():
    global _pv
    if _pv is None:
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import pvlib
        p = os.path.realpath(os.path.dirname(os.path.dirname(
            pvlib.__file__)))
        if p != os.path.realpath(REPO):
            raise RuntimeError(f'pvlib imported from {p}, not {REPO}')
        _pv = pvlib
        for m in ('bifacial.infinite_sheds', 'bifacial.loss_models',
                  'bifacial.utils', 'spectrum.mismatch'):
            __import__('pvlib.' + m)
    return _pv


def load_spec(name):
    """-> (symbolic cases, concrete cases)"""
    r = _spec_cache.get(name)
    if r is not None:
        return r
    p = os.path.join(HERE, 'specs', name + '.py')
    src = open(p).read()
    if src.startswith('# include '):
        # shared definitions, compiled together with the specification
        lib = src.split('\n', 1)[0].split()[-1]
        src = open(os.path.join(HERE, 'specs', 'lib', lib + '.py')
                   ).read() + src
    import ast
    from .loader import Tr
    w = world()
    cm = types.ModuleType('spec_' + name)
    cm.__file__ = p
    cm.pv = real_pvlib()
    cm.SYM = False
    cm.module = lambda n: importlib.import_module(n)
    exec(compile(src, p, 'exec'), cm.__dict__)
    sm = types.ModuleType('symspec_' + name)
    sm.__file__ = p
    sm.__dict__['__builtins__'] = w.bi
    sm.pv = w.mods['pvlib']
    sm.SYM = True
    sm.module = lambda n: w.mods[n]
    sm.__package__ = ''
    tree = ast.fix_missing_locations(Tr().visit(ast.parse(src)))
    exec(compile(tree, p, 'exec'), sm.__dict__)
    a = sm.__dict__.get('CASES', [])
    b = cm.__dict__.get('CASES', [])
    assert len(a) == len(b)
    for i, c in enumerate(a):
        c.idx = b[i].idx = i
        c.spec = b[i].spec = name
    _spec_cache[name] = (a, b)
    return a, b


def getattr_path(root, dotted):
    o = root
    parts = dotted.split('.')
    if parts[0] == 'pvlib':
        parts = parts[1:]
    for a in parts:
        o = getattr(o, a)
    return o


def sym_get(dotted):
    return world().get(dotted)


def real_get(dotted):
    pv = real_pvlib()
    parts = dotted.split('.')
    import importlib
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        for a in parts[i:]:
            o = getattr(o, a)
        return o
    raise KeyError(dotted)


# ------------------------------------------------------------------ variants
def combos(case):
    """enumerate Opt arguments"""
    names = list(case.args)
    lists = [case.args[n].variants() for n in names]
    for c in itertools.product(*lists):
        yield dict(zip(names, c))


def arg_kinds(case, combo, kind):
    """kind of each element argument"""
    out = {}
    i = 0
    for n, a in combo.items():
        if kind in ('mixed', 'mixed2', 'mixedS'):
            if a.elem and not getattr(a, 'isidx', False) and not a.kind:
                k = (('array', 'scalar'), ('scalar', 'array'),
                     ('series', 'scalar'))[
                         ('mixed', 'mixed2', 'mixedS').index(kind)]
                out[n] = k[i % 2]
                i += 1
            else:
                out[n] = 'array'
        else:
            out[n] = kind
    return out


def generic(a, k):
    if getattr(a, 'isidx', False):
        return True
    k = getattr(a, 'kind', None) or k
    return a.elem and k != 'scalar' if not isinstance(a, api.Dct) else \
        (k != 'scalar')


# ------------------------------------------------------------------ compare
def kindname(o):
    if isinstance(o, (pdshim.S, pd.Series)):
        return 'Series'
    if isinstance(o, (pdshim.DF, pd.DataFrame)):
        return 'DataFrame'
    if isinstance(o, (A, np.ndarray)):
        return 'scalar' if o.ndim == 0 else 'ndarray'
    if isinstance(o, (X, B, int, float, np.number, np.bool_)):
        return 'scalar'
    if isinstance(o, dict):
        return 'dict'
    if isinstance(o, (list, tuple)):
        return 'seq'
    if isinstance(o, (pdshim.Idx, pd.Index)):
        return 'Index'
    return type(o).__name__


def sgoals(got, want, path, loose, types_, out):
    """symbolic comparison -> [(label, goal)]"""
    if isinstance(got, api.Raised) or isinstance(want, api.Raised):
        ok = isinstance(got, api.Raised) and isinstance(want, api.Raised) \
            and type(got.e) is type(want.e)
        if not ok and isinstance(got, api.Raised) and \
                isinstance(want, api.Raised):
            ok = type(got.e).__name__ == type(want.e).__name__
        out.append((f'{path}exception', TRUE if ok else FALSE,
                    f'got {show(got)}, want {show(want)}'))
        return
    kg, kw = kindname(got), kindname(want)
    if kw == 'dict' or kg == 'dict' or kg == 'DataFrame' or \
            kw == 'DataFrame':
        if kg != kw and not (loose and {kg, kw} <= {'dict', 'DataFrame'}):
            out.append((f'{path}kind', FALSE, f'{kg} instead of {kw}'))
            return
        gk, wk = list(got.keys()), list(want.keys())
        if set(gk) != set(wk):
            out.append((f'{path}keys', FALSE, f'{gk} instead of {wk}'))
            return
        if kg == kw == 'DataFrame' and types_ and \
                not got.idx.same(want.idx):
            out.append((f'{path}index', FALSE, 'index differs'))
        for k in wk:
            sgoals(got[k], want[k], f'{path}{k}.', loose, types_, out)
        return
    if kw == 'seq' and kg == 'seq':
        if len(got) != len(want):
            out.append((f'{path}length', FALSE, ''))
            return
        for i, (g, w) in enumerate(zip(got, want)):
            sgoals(g, w, f'{path}{i}.', loose, types_, out)
        return
    num = ('Series', 'ndarray', 'scalar', 'Index')
    if kg in num and kw in num:
        if isinstance(got, pdshim.TI) or isinstance(want, pdshim.TI):
            ok = isinstance(got, pdshim.TI) and isinstance(want, pdshim.TI) \
                and str(got.tz) == str(want.tz)
            out.append((f'{path}instants', t.eq(got.u, want.u) if ok
                        else FALSE, 'index'))
            return
        if kg != kw and not loose:
            out.append((f'{path}kind', FALSE, f'{kg} instead of {kw}'))
            return
        if kg == 'Series' and kw == 'Series' and \
                not got.idx.same(want.idx):
            out.append((f'{path}index', FALSE, 'index differs'))
            return
        a, b = A.of(got), A.of(want)
        if not loose and (a.g != b.g or a.d.shape != b.d.shape):
            out.append((f'{path}shape', FALSE,
                        f'{a.shape} instead of {b.shape}'))
            return
        try:
            (da, db), g, shp, _ = x.bcast([a, b])
        except ValueError:
            out.append((f'{path}shape', FALSE, 'shapes differ'))
            return
        for i in np.ndindex(*shp):
            p, q = da[i], db[i]
            lab = path + (','.join(map(str, i)) + '.' if da.size > 1 else '')
            if isinstance(p, (B, bool)) or isinstance(q, (B, bool)):
                out.append((lab + 'truth', t.iff(x.tob(p), x.tob(q)), ''))
            elif isinstance(p, (X, int, float)) and \
                    isinstance(q, (X, int, float)):
                p, q = xc(p), xc(q)
                for l, gg in api.eq_goals(p, q):
                    if gg is not TRUE:
                        out.append((lab + l, gg, (p, q)))
                    else:
                        out.append((lab + l, gg, None))
            else:
                out.append((lab + 'value', TRUE if p == q else FALSE,
                            f'{p!r} instead of {q!r}'))
        return
    if kg != kw:
        out.append((f'{path}kind', FALSE, f'{kg} instead of {kw}'))
        return
    try:
        ok = bool(got == want)
    except Exception:
        ok = False
    out.append((f'{path}value', TRUE if ok else FALSE,
                f'{show(got)} instead of {show(want)}'))


def show(o):
    s = repr(o)
    return s if len(s) < 300 else s[:300] + '...'


def cgoals(got, want, path, case, out, loose=None, types_=None):
    """concrete comparison -> [(label, ok-array or bool, got, want)]"""
    loose = case.loose if loose is None else loose
    types_ = case.types if types_ is None else types_
    if isinstance(got, api.Raised) or isinstance(want, api.Raised):
        ok = isinstance(got, api.Raised) and isinstance(want, api.Raised) \
            and type(got.e).__name__ == type(want.e).__name__
        out.append((f'{path}exception', ok, repr(got), repr(want)))
        return
    kg, kw = kindname(got), kindname(want)
    if 'dict' in (kg, kw) or 'DataFrame' in (kg, kw):
        if kg != kw and not (loose and {kg, kw} <= {'dict', 'DataFrame'}):
            out.append((f'{path}kind', False, kg, kw))
            return
        gk, wk = list(got.keys()), list(want.keys())
        if set(gk) != set(wk):
            out.append((f'{path}keys', False, repr(gk), repr(wk)))
            return
        if kg == kw == 'DataFrame' and types_ and \
                not got.index.equals(want.index):
            out.append((f'{path}index', False, repr(got.index),
                        repr(want.index)))
        for k in wk:
            cgoals(got[k], want[k], f'{path}{k}.', case, out, loose, types_)
        return
    if kg == kw == 'seq':
        if len(got) != len(want):
            out.append((f'{path}length', False, len(got), len(want)))
            return
        for i, (g, w) in enumerate(zip(got, want)):
            cgoals(g, w, f'{path}{i}.', case, out, loose, types_)
        return
    num = ('Series', 'ndarray', 'scalar', 'Index')
    if kg in num and kw in num:
        if isinstance(got, pd.DatetimeIndex) or \
                isinstance(want, pd.DatetimeIndex):
            ok = isinstance(got, pd.DatetimeIndex) and \
                isinstance(want, pd.DatetimeIndex) and got.equals(want) \
                and str(got.tz) == str(want.tz)
            out.append((f'{path}instants', ok, repr(got), repr(want)))
            return
        if kg != kw and not loose:
            out.append((f'{path}kind', False, kg, kw))
            return
        if kg == kw == 'Series' and not got.index.equals(want.index):
            out.append((f'{path}index', False, repr(got.index),
                        repr(want.index)))
            return
        a, b = np.asarray(got), np.asarray(want)
        if not loose and a.shape != b.shape:
            out.append((f'{path}shape', False, a.shape, b.shape))
            return
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            out.append((f'{path}shape', False, a.shape, b.shape))
            return
        if a.dtype.kind in 'OUSmM' or b.dtype.kind in 'OUSmM':
            try:
                a, b = a.astype(float), b.astype(float)
            except (TypeError, ValueError):
                out.append((f'{path}value', bool(np.all(a == b)), repr(a),
                            repr(b)))
                return
        ok = np.isclose(a, b, rtol=case.rtol, atol=case.atol,
                        equal_nan=True)
        out.append((f'{path}value', ok, a, b))
        return
    if kg != kw:
        out.append((f'{path}kind', False, kg, kw))
        return
    try:
        ok = bool(got == want)
    except Exception:
        ok = False
    out.append((f'{path}value', ok, show(got), show(want)))


# ------------------------------------------------------------------ symbolic
class Stub:
    """temporarily replace functions of the loaded sources by contracts"""

    def __init__(self, stubs, sym):
        self.stubs = stubs or {}
        self.sym = sym
        self.old = []

    def __enter__(self):
        for name, fn in self.stubs.items():
            owner, _, attr = name.rpartition('.')
            o = sym_get(owner) if self.sym else real_get(owner)
            old = getattr(o, attr)
            self.old.append((o, attr, old))
            setattr(o, attr, fn)
            # names imported with "from m import f"
            mods = world().mods.values() if self.sym else [
                m for n, m in list(sys.modules.items())
                if n.startswith('pvlib') and m is not None]
            if isinstance(o, types.ModuleType):
                for m in mods:
                    if m is not o and m.__dict__.get(attr) is old:
                        self.old.append((m, attr, old))
                        setattr(m, attr, fn)

    def __exit__(self, *a):
        for o, attr, old in reversed(self.old):
            setattr(o, attr, old)


def build_sym(case, combo, kinds, env):
    return {n: a.sym(n, kinds[n], env) for n, a in combo.items()}


def iters(case, combo):
    """arguments with Times first so that Series share that index"""
    return dict(sorted(combo.items(), key=lambda p: 0 if getattr(
        p[1], 'isidx', False) else 1))


def sym_paths(case, combo, kind):
    kinds = arg_kinds(case, combo, kind)
    order = iters(case, combo)
    base_idx = pdshim.Idx()
    pre = []
    for n, a in combo.items():
        pre += a.pre(n, generic(a, kinds[n]))
    f = sym_get(case.func) if case.func and case.ckind == 'contract' and \
        not case.call else None

    def fn(c):
        obls = []
        c.rows = case.rows
        env = {'index': base_idx}
        a1 = build_sym(case, order, kinds, env)
        a1 = {n: a1[n] for n in combo}
        snap = {n: list(v.items()) if isinstance(v, dict) else list(v)
                for n, v in a1.items() if isinstance(v, (dict, list))
                and n not in case.mut_ok}
        if case.pre is not None:
            for b in case.pre(**a1):
                c.assume(cond_term(b))
        with Stub(case.symstubs, True):
            if case.ckind == 'contract':
                a1c = dict(a1)
                if case.call:
                    got = api.outcome(lambda: case.call(**a1c))
                else:
                    got = api.outcome(lambda: f(**a1c))
                mut = [m for m in c.mutated if m is not None and
                       m.split('.')[0] not in case.mut_ok]
                mut += replaced(a1, snap)
                obls.append(('frame.inputs-unmodified',
                             FALSE if mut else TRUE, f'wrote to {mut}'))
                env = {'index': base_idx}
                a2 = build_sym(case, order, kinds, env)
                a2 = {n: a2[n] for n in combo}
                want = api.outcome(lambda: case.body(**a2))
                sgoals(got, want, '', case.loose, case.types, obls)
            else:
                for item in case.body(**a1):
                    label, c_ = item[0], item[1]
                    if isinstance(c_, api.Equal):
                        sgoals(c_.got, c_.want, label + '.', c_.loose,
                               c_.types, obls)
                    else:
                        obls.append((label, cond_term(c_), ''))
                mut = [m for m in c.mutated if m is not None and
                       m.split('.')[0] not in case.mut_ok]
                mut += replaced(a1, snap)
                if mut:
                    obls.append(('frame.inputs-unmodified', FALSE,
                                 f'wrote to {mut}'))
        for l, g in c.obls:
            obls.append((l, g, ''))
        return obls
    return explore(fn, prove.feasible, case.maxpaths, pre), pre


def replaced(args, snap):
    """dict and list arguments whose entries were replaced"""
    out = []
    for n, was in snap.items():
        v = args[n]
        now = list(v.items()) if isinstance(v, dict) else list(v)
        if isinstance(v, dict):
            eq = len(now) == len(was) and all(
                k == j and x is y
                for (k, x), (j, y) in zip(sorted(now, key=lambda t: str(
                    t[0])), sorted(was, key=lambda t: str(t[0]))))
        else:
            eq = len(now) == len(was) and all(
                x is y for x, y in zip(now, was))
        if not eq:
            out.append(n)
    return out


def cond_term(c):
    if isinstance(c, (bool, np.bool_)):
        return TRUE if c else FALSE
    if isinstance(c, B):
        return c.t
    a = A.of(c)
    return t.band(*[x.tob(e) for e in a.d.reshape(-1)])


# ------------------------------------------------------------------ sampling
def sample_rows(case, combo, n, rng, const=None, params_const=True):
    """dict var -> float array of n values; a call on arrays sees one value
    of each parameter, calls row by row see a fresh one each"""
    rows = {}
    for name, a in combo.items():
        for v, s in a.vars(name).items():
            rows[v] = sample_var(s, n, rng, const.get(v, ()) if const
                                 else ())
            if params_const and not s.elem:
                rows[v] = np.full(n, rows[v][0])
    return rows


def sample_var(s, n, rng, extra=()):
    if isinstance(s, api.Times):
        v = rng.uniform(s.lo, s.hi, n)
        return np.round(v / s.step) * s.step
    lo, hi = s.lo, s.hi
    v = rng.uniform(lo, hi, n)
    sp = list(s.sp) + list(extra)
    sp += [c for c in (0., 1., -1., 30., 45., 60., 85., 90., 180., 270.,
                       360., lo, hi, 100., 200., 1000., 0.5)
           if lo <= c <= hi]
    m = rng.random(n)
    pick = rng.choice(np.array(sp), n)
    v = np.where(m < .30, pick, v)
    # small values near lo / zero
    v = np.where((m >= .30) & (m < .36), pick +
                 rng.normal(0, 1e-3, n) * (1 + abs(pick)), v)
    v = np.where((m >= .36) & (m < .40),
                 np.round(v), v)
    if s.integer:
        v = np.round(v)
    v = np.clip(v, lo, hi)
    if s.nan:
        v = np.where((m >= .97), np.nan, v)
    for k in range(20):
        ok = s.okrows(v)
        if ok.all():
            break
        r = rng.uniform(lo, hi, n)
        if s.integer:
            r = np.round(r)
        v = np.where(ok, v, r)
    return v


def take(rows, i):
    return {k: np.asarray(v)[i] for k, v in rows.items()}


def nrows(rows):
    return len(next(iter(rows.values()))) if rows else 1


def np_env(case, combo, kinds, rows, both=True):
    env = {}
    for n, a in combo.items():
        g = generic(a, kinds[n])
        a.env(n, g, rows, env)
    return env


def build_conc(case, combo, kinds, rows):
    n = nrows(rows)
    env = {'index': pd.RangeIndex(100, 100 + n)}
    out = {k: a.conc(k, kinds[k], rows, env)
           for k, a in iters(case, combo).items()}
    return {k: out[k] for k in combo}


def snapshot(v):
    if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)):
        return v.copy()
    if isinstance(v, dict):
        return {k: snapshot(e) for k, e in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snapshot(e) for e in v)
    return v


def unchanged(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and (
            np.array_equal(a, b, equal_nan=True) if a.dtype.kind == 'f'
            else np.array_equal(a, b))
    if isinstance(a, (pd.Series, pd.DataFrame)):
        return a.equals(b)
    if isinstance(a, dict):
        return set(a) == set(b) and all(unchanged(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(unchanged(p, q)
                                        for p, q in zip(a, b))
    return True


def run_conc(case, combo, kinds, rows):
    """run the real code on rows -> list of (label, ok, got, want)"""
    out = []
    args = build_conc(case, combo, kinds, rows)
    keep = {k: snapshot(v) for k, v in args.items()}
    if case.pre is not None:
        m = True
        for b in case.pre(**args):
            m = np.logical_and(m, np.asarray(b, bool))
        if not np.all(m):
            return None
    with Stub(case.stubs, False), warnings.catch_warnings(), \
            np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        if case.ckind == 'contract':
            f = None if case.call else real_get(case.func)
            got = api.outcome((lambda: case.call(**args)) if case.call
                              else (lambda: f(**args)))
            for k, v in args.items():
                if k not in case.mut_ok and not unchanged(keep[k], v):
                    out.append(('frame.inputs-unmodified', False,
                                f'{k} modified', ''))
            args2 = build_conc(case, combo, kinds, rows)
            want = api.outcome(lambda: case.body(**args2))
            cgoals(got, want, '', case, out)
        else:
            it = iter(case.body(**args))
            while True:
                try:
                    item = next(it)
                except StopIteration:
                    break
                except Exception as e:
                    _ctx.helper_gone(e)
                    out.append(('raises no exception', False,
                                f'{type(e).__name__}: {e}', ''))
                    break
                label, c_ = item[0], item[1]
                info = item[2] if len(item) > 2 else ''
                if isinstance(c_, api.Equal):
                    cgoals(c_.got, c_.want, label + '.', case, out, c_.loose,
                           c_.types)
                else:
                    out.append((label, np.asarray(c_), info, ''))
            for k, v in args.items():
                if k not in case.mut_ok and not unchanged(keep[k], v):
                    out.append(('frame.inputs-unmodified', False,
                                f'{k} modified', ''))
    return out


def valid_rows(case, combo, kinds, rows):
    """filter rows by the case's extra precondition"""
    if case.pre is None or not rows:
        return rows
    n = nrows(rows)
    k2 = {k: ('array' if v != 'scalar' or True else v)
          for k, v in kinds.items()}
    try:
        args = {}
        env = {'index': pd.RangeIndex(n)}
        # evaluate per element with arrays; parameters as arrays too
        for k, a in iters(case, combo).items():
            if isinstance(a, api.P):
                args[k] = np.asarray(rows[k], float)
            elif isinstance(a, api.E):
                args[k] = np.asarray(rows[k], float)
            else:
                args[k] = a.conc(k, 'array', rows, env)
        m = np.ones(n, bool)
        for b in case.pre(**args):
            m &= np.broadcast_to(np.asarray(b, bool), (n,))
        return take(rows, np.nonzero(m)[0])
    except Exception:
        keep = []
        for i in range(n):
            r = take(rows, [i])
            try:
                a = build_conc(case, combo, kinds, r)
                if all(np.all(b) for b in case.pre(**a)):
                    keep.append(i)
            except Exception:
                pass
        return take(rows, keep)


def bad_rows(res, n):
    """row indices at fault from a run_conc result, plus whole failures"""
    whole = []
    rows = set()
    for label, ok, got, want in res:
        if isinstance(ok, (bool, np.bool_)) or np.ndim(ok) == 0:
            if not bool(ok):
                whole.append((label, got, want))
        else:
            ok = np.asarray(ok)
            if ok.shape[:1] == (n,):
                bad = np.nonzero(~ok.reshape(n, -1).all(axis=1))[0]
            elif ok.shape[-1:] == (n,):
                bad = np.nonzero(~ok.reshape(-1, n).all(axis=0))[0]
            else:
                if not ok.all():
                    whole.append((label, got, want))
                continue
            rows.update(int(b) for b in bad)
    return whole, sorted(rows)


def fails(case, combo, kinds, rows):
    """-> None or list of failing (label, got, want)"""
    r = run_conc(case, combo, kinds, rows)
    if r is None:
        return None
    out = []
    for label, ok, got, want in r:
        if not np.all(ok):
            if isinstance(got, np.ndarray) and np.ndim(ok):
                bad = np.nonzero(~np.asarray(ok).reshape(-1))[0][:4]
                try:
                    got = got.reshape(-1)[bad].tolist()
                    want = np.asarray(want).reshape(-1)[bad].tolist()
                except Exception:
                    pass
            out.append((label, got, want))
    return out or None


def confirm(case, combo, kinds, row, rng, symb=None, tie=False):
    """is the failure at this row genuine (not a rounding artefact at a
    discontinuity)?  True when it persists under tiny perturbations, or when
    the exact symbolic values of code and specification differ there."""
    if persists(case, combo, kinds, row, rng):
        return True
    if symb is not None:
        return symb(row)
    # histories: an input exactly at a limit, whatever the other inputs are
    return tie and any(
        persists(case, combo, kinds, row, rng, v) for v in row
        if np.size(row[v]) > 1)


def persists(case, combo, kinds, row, rng, but=None):
    n = 0
    bad = 0
    for k in range(12):
        r = {}
        for v, a in row.items():
            a = np.asarray(a, float)
            s = 10.0 ** rng.uniform(-9, -6)
            if v == but:
                r[v] = a
                continue
            d = a * (1 + s * rng.choice([-1, 1])) + \
                s * 1e-2 * rng.choice([-1, 1])
            var = None
            for nm, ar in combo.items():
                vs = ar.vars(nm)
                if v in vs:
                    var = vs[v]
            if isinstance(var, api.Times):
                d = a
            elif var is not None:
                d = np.clip(d, var.lo, var.hi)
                if var.integer:
                    d = a
                ok = var.okrows(d)
                d = np.where(ok, d, a)
            r[v] = np.where(np.isnan(a), a, d)
        try:
            f = fails(case, combo, kinds, r)
        except Exception:
            f = None
        n += 1
        bad += f is not None
    return bad >= 0.6 * n


# ------------------------------------------------------------------ the task
def rename_generic(bs):
    """scalar variables renamed to their generic twins (proof cache)"""
    m = {}
    for b in bs:
        for v in t.free_atoms(b):
            n = v.args[0]
            if '@N' not in n and '~' not in n and '!' not in n:
                m[v] = (t.var if v.op == 'v' else t.bvar)(n + '@N')
    if not m:
        return bs
    c = {}
    return [t.subst(b, m, c) for b in bs]


class Timeout(BaseException):
    pass


def constants_near(paths):
    """variable -> constants it is compared with (for sampling)"""
    out = {}
    seen = set()
    for c, kind, obls in paths:
        roots = list(c.pc)
        if kind == 'ok':
            roots += [g for _, g, _ in obls]
        for b in roots:
            for s in t.atoms_of(b, seen, []):
                if s.op in ('lt0', 'eq0'):
                    k, p = t._parts(s.args[0])
                    if len(p) == 1 and p[0][0].op == 'v':
                        v = p[0][0].args[0].replace('@N', '').replace(
                            '!i', '')
                        out.setdefault(v, set()).add(
                            float(-k / p[0][1]))
    return {k: sorted(v)[:20] for k, v in out.items()}


class Task:
    def __init__(self, spec, idx, kind, combo_i, tier, seed, wall):
        self.spec, self.idx, self.kind = spec, idx, kind
        self.combo_i, self.tier, self.seed = combo_i, tier, seed
        self.wall = wall


_proved_cache = {}


def run_task(task, search=True):
    """search=False: only the proof (second attempt)"""
    t0 = time.time()
    p0 = time.process_time()
    prove.stats.__init__()
    a, b = load_spec(task.spec)
    sc, cc = a[task.idx], b[task.idx]
    combo_s = list(combos(sc))[task.combo_i]
    combo_c = list(combos(cc))[task.combo_i]
    res = dict(case=cc.name, spec=task.spec, idx=task.idx, kind=task.kind,
               combo=task.combo_i, func=cc.func, obligations=0,
               discharged=0, failed=[], by={}, paths=0, violation=None,
               unsupported=None, cross=0, bounded=cc.bounded, vacuous=False)
    rng = np.random.default_rng(abs(hash((task.seed, task.idx,
                                          task.combo_i))) % 2**32)
    kinds_s = arg_kinds(sc, combo_s, task.kind)
    kinds = arg_kinds(cc, combo_c, task.kind)
    paths = []
    failures = []
    if not cc.bounded:
        try:
            paths, pre = sym_paths(sc, combo_s, task.kind)
        except Unsupported as e:
            res['unsupported'] = f'{type(e).__name__}: {e}'
            res['trace'] = ''.join(traceback.format_tb(
                e.__traceback__)[-3:])
        except RecursionError:
            res['unsupported'] = 'recursion limit'
    res['paths'] = len(paths)
    live = 0
    for c, kind, obls in paths:
        if kind == 'exc':
            res['obligations'] += 1
            res['failed'].append('no-exception')
            failures.append((c, 'no-exception', FALSE, repr(obls), None))
            if os.environ.get('PVC_DEBUG'):
                traceback.print_exception(obls)
            continue
        hyps = c.pc + c.axioms
        live += 1
        groups = {}
        if cc.rows:
            try:
                todo = [(f'{label} ({w})', g, info, hy)
                        for label, goal, info in obls
                        for w, g, hy in rowax.split(goal, c, pre)]
            except Unsupported as e:
                res['unsupported'] = f'{type(e).__name__}: {e}'
                break
        else:
            todo = [(label, goal, info, hyps) for label, goal, info in obls]
        for label, goal, info, hyps in todo:
            res['obligations'] += 1
            if goal is TRUE:
                res['discharged'] += 1
                res['by']['identity'] = res['by'].get('identity', 0) + 1
                continue
            key_terms = rename_generic(hyps + [goal])
            key = (frozenset(k.id for k in key_terms[:-1]),
                   key_terms[-1].id)
            r = _proved_cache.get(key)
            if r is None:
                left = max(2.0, min(cc.budget, task.wall -
                                    (time.process_time() - p0)
                                    / prove.SCALE))
                ok, f = prove.try_prove(key_terms[:-1], key_terms[-1], left)
                if not ok and cc.box:
                    from . import ibb
                    if ibb.prove_box(cc, combo_c, key_terms[:-1],
                                     key_terms[-1]):
                        ok = True
                        prove.stats.add('interval')
                r = _proved_cache[key] = (ok, f)
            ok, f = r
            if ok:
                res['discharged'] += 1
            else:
                res['failed'].append(label)
                failures.append((c, label, goal, info, f))
    for k, v in prove.stats.by.items():
        res['by'][k] = res['by'].get(k, 0) + v
    res['z3_calls'] = prove.stats.z3_calls
    res['solver_s'] = round(prove.stats.z3_time + prove.stats.canon_time, 3)
    if not cc.bounded and res['unsupported'] is None and live == 0:
        res['vacuous'] = True
        res['failed'].append('vacuous: no feasible path')
    need = bool(failures) or res['unsupported'] or res['vacuous']
    if not search:
        return res
    consts = constants_near(paths) if paths else {}
    by_row = task.kind == 'scalar' or all(
        k == 'scalar' for nm, k in kinds.items() if combo_c[nm].elem) or any(
        kinds[nm] == 'scalar' and combo_c[nm].elem for nm in combo_c)

    # ---- concrete cross-check of the discharged contract
    def report(row, f, how, kk=kinds):
        res['violation'] = dict(
            rows={k: [None if v != v else float(v) for v in np.asarray(
                a, float)] for k, a in row.items()},
            kinds=kk, combo={k: repr(v) for k, v in combo_c.items()
                             if isinstance(v, api.Val)},
            observed=[(l, show(g), show(w)) for l, g, w in f][:6], how=how)

    def symb_check(row):
        """exact value of code and spec terms at the row"""
        return exact_differs(sc, combo_s, kinds_s, paths, failures, row)

    def try_batch(rows, how, always_confirm=True):
        n = nrows(rows)
        if n == 0:
            return False
        groups = []
        if by_row:
            groups = [take(rows, [i]) for i in range(n)]
        else:
            groups = [rows]
        hits = []
        for g in groups:
            r = run_conc(cc, combo_c, kinds, g)
            if r is None:
                continue
            res['cross'] += nrows(g)
            whole, bad = bad_rows(r, nrows(g))
            if whole and not bad:
                hits.append((g, whole))
            for i in bad[:40]:
                one = take(g, [i, i, i]) if nrows(g) > 1 else take(g, [i])
                f = fails(cc, combo_c, kinds, one)
                if f is None:
                    hits.append((g, fails(cc, combo_c, kinds, g) or whole))
                    break
                hits.append((one, f))
        for g, f in hits:
            if confirm(cc, combo_c, kinds, g, rng,
                       symb_check if need and paths and not cc.rows
                       else None, bool(need and cc.rows)):
                report(g, f, how)
                return True
        if need and not paths and len(hits) >= 3:
            report(*hits[0], how)
            return True
        return False

    try:
        nb = cc.nconc
        if task.kind == 'scalar':
            nb = min(nb, 25)
        if cc.bounded:
            nb = cc.samples or max(nb, 200)
        if task.tier == 'thorough':
            nb *= 5
        for rep in range(3 if task.kind != 'scalar' else 1):
            rows = sample_rows(cc, combo_c, nb if rep == 0 else
                               max(8, nb // 3), rng, consts, not by_row)
            rows = valid_rows(cc, combo_c, kinds, rows)
            if try_batch(rows, 'cross-check on CPython'):
                break
            if task.kind != "scalar" and not cc.rows and nrows(rows) > 2 and any(
                    try_batch(take(rows, [i]), 'arrays of length one')
                    for i in (0, 1)):
                break
        if need and res['violation'] is None:
            # guided: rows where the symbolic goals are false
            tend = time.process_time() + (
                40 if task.tier == 'quick' else 120)
            for rnd in range(6):
                if time.process_time() > tend or res['violation']:
                    break
                rows = sample_rows(cc, combo_c, 4000, rng, consts,
                                   params_const=False)
                rows = valid_rows(cc, combo_c, kinds, rows)
                for c, label, goal, info, f in failures:
                    cand = guided(sc, combo_s, kinds_s, rows, c, goal, f)
                    for i in cand[:25]:
                        r1 = take(rows, [i])
                        if try_batch(r1, f'guided search: {label}'):
                            break
                    if res['violation']:
                        break
                if res['violation'] is None and rnd == 0:
                    for c, label, goal, info, f in failures:
                        m = solver_row(combo_s, kinds_s, f, rng, cc)
                        if m and try_batch(m, f'solver model: {label}'):
                            break
                if not failures and rnd >= 2:
                    pass
                if res['violation'] is None:
                    for rep in range(12):
                        rows = sample_rows(cc, combo_c, 150, rng, consts,
                                           not by_row)
                        rows = valid_rows(cc, combo_c, kinds, rows)
                        if try_batch(rows, 'random search'):
                            break
                        if time.process_time() > tend:
                            break
    except Timeout:
        pass
    if failures:
        res['fail_detail'] = [
            dict(label=l, info=show(i) if not isinstance(i, tuple) else
                 f'got {show(i[0])} want {show(i[1])}',
                 facts=[show(h) for h in (f.facts if f else c.pc)][:12],
                 goal=show(f.goal if f else g), why=f.why if f else '')
            for c, l, g, i, f in failures[:5]]
    res['wall'] = round(time.time() - t0, 2)
    return res


def guided(case, combo, kinds, rows, c, goal, fail):
    """row numbers where the path condition holds and the goal is false"""
    try:
        env = np_env(case, combo, kinds, rows)
        cache = {}
        n = nrows(rows)
        m = np.ones(n, bool)
        for b in c.pc:
            try:
                m &= np.broadcast_to(t.np_eval(b, env, cache), (n,))
            except KeyError:
                pass
        g = loose_goal(goal, env, cache, n)
        bad = np.nonzero(m & ~g)[0]
        return [int(i) for i in bad]
    except (KeyError, ValueError, TypeError, FloatingPointError):
        return []


def loose_goal(goal, env, cache, n):
    """truth of the goal with tolerance on equalities"""
    op = goal.op
    if op == 'and':
        r = np.ones(n, bool)
        for a in goal.args:
            r &= loose_goal(a, env, cache, n)
        return r
    if op == 'or':
        r = np.zeros(n, bool)
        for a in goal.args:
            r |= loose_goal(a, env, cache, n)
        return r
    if op == 'eq0':
        k, p = t._parts(goal.args[0])
        vals = [np.broadcast_to(np.asarray(t.np_eval(a, env, cache), float) *
                                float(c), (n,)) for a, c in p]
        s = sum(vals) + float(k)
        mag = sum(np.abs(v) for v in vals) + abs(float(k))
        return ~(np.abs(s) > 1e-7 * mag + 1e-12)
    return np.broadcast_to(np.asarray(t.np_eval(goal, env, cache), bool),
                           (n,))


def exact_differs(case, combo, kinds, paths, failures, row):
    import mpmath
    env = {}
    try:
        for v, val in np_env(case, combo, kinds, take(row, [0])).items():
            a = np.asarray(val).reshape(-1)[0]
            env[v] = bool(a) if v.op == 'bv' else mpmath.mpf(float(a))
    except Exception:
        return False
    with mpmath.workdps(40):
        for c, label, goal, info, f in failures:
            try:
                cache = {}
                if all(t.mp_eval(b, env, cache) for b in c.pc) and \
                        not t.mp_eval(goal, env, cache):
                    return True
            except Exception:
                continue
    return False


def solver_row(combo, kinds, fail, rng, case):
    if fail is None:
        return None
    try:
        facts = [h for h in fail.facts] + [t.bnot(fail.goal)]
        vs = set()
        for h in facts:
            vs |= t.free_atoms(h)
        vs = [v for v in vs if '~' not in v.args[0] and
              not v.args[0].startswith('any!')]
        m = prove.z3_model(facts, vs)
    except Exception:
        return None
    if not m:
        return None
    rows = sample_rows(case, combo, 1, rng)
    for v, val in m.items():
        n = v.args[0].replace('@N', '').replace('!i', '')
        if n in rows:
            rows[n] = np.array([float(val)])
    for v, val in m.items():
        n = v.args[0].replace('@N', '')
        if n.endswith('.nan') and n[:-4] in rows and val:
            rows[n[:-4]] = np.array([np.nan])
    return rows


# ------------------------------------------------------------------ driver
def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _late(task):
    return dict(case='?', spec=task.spec, idx=task.idx, kind=task.kind,
                combo=task.combo_i, timeout=True, obligations=0,
                discharged=0, failed=['time limit'], violation=None,
                unsupported=None, by={}, paths=0, cross=0, wall=0,
                vacuous=False, bounded=False, func=None)


def _safe(task, search=True):
    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGPROF, onalarm)
    # repeated: one expiry can be swallowed inside a callback
    signal.setitimer(signal.ITIMER_PROF, (task.wall + 60)*prove.SCALE, 3)
    try:
        return run_task(task, search)
    except Timeout:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return _late(task)
    except BaseException as e:
        try:
            _ctx.helper_gone(e)
        except _ctx.HelperGone as h:
            e = h
        if isinstance(e, _ctx.HelperGone):
            # the contracts of the functions that call it still decide
            c = load_spec(task.spec)[1][task.idx]
            return dict(_late(task), case=c.name, failed=[], timeout=False,
                        skipped=str(e))
        return dict(case='?', spec=task.spec, idx=task.idx, kind=task.kind,
                    combo=task.combo_i, error=traceback.format_exc(),
                    obligations=0, discharged=0,
                    failed=['checker error: ' + repr(e)], violation=None,
                    unsupported=None, by={}, paths=0, cross=0, wall=0,
                    vacuous=False, bounded=False, func=None)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def tasks_for(prop, specs, tier, seed, wall):
    out = []
    for s in specs:
        a, b = load_spec(s)
        for c in b:
            if prop is not None and c.prop != prop and not (
                    isinstance(c.prop, (tuple, list)) and prop in c.prop):
                continue
            if c.tier == 'thorough' and tier == 'quick':
                continue
            n = len(list(combos(c)))
            for kind in c.kinds:
                for i in range(n):
                    out.append(Task(s, c.idx, kind, i, tier, seed, wall))
    return out


def order_tasks(tasks):
    # all kinds of one case in the same worker share the proof cache
    g = {}
    for k in tasks:
        g.setdefault((k.spec, k.idx, k.combo_i), []).append(k)
    return list(g.values())


def _chunk(ts):
    if _dumps is None:
        return [_safe(k) for k in ts]
    import faulthandler
    with open(os.path.join(_dumps, str(os.getpid())), 'w') as f:
        f.write(f'{[(k.spec, k.idx, k.combo_i, k.kind) for k in ts]}\n')
        f.flush()
        faulthandler.dump_traceback_later(STALL - 20, file=f)
        try:
            return [_safe(k) for k in ts]
        finally:
            faulthandler.cancel_dump_traceback_later()


STALL = 150
_dumps = None


def _stalled():
    """what the workers that exceeded the stall limit were doing"""
    for n in os.listdir(_dumps):
        s = open(os.path.join(_dumps, n)).read()
        if 'File' in s:
            print('stalled worker:', s[:1500], flush=True)


def _numbered(a):
    return a[0], _chunk(a[1])


def _again(ts):
    """second attempt, all limits multiplied; in a fresh process"""
    prove.SCALE = 4.0
    return [_safe(k, False) for k in ts]


def _retry(r):
    """worth a second attempt: undecided, and no failing input known"""
    return (r['failed'] or r.get('timeout')) and not r['violation'] and \
        not r['unsupported'] and not r.get('error') and \
        'no-exception' not in r['failed'] and not r['vacuous']


def run_tasks(tasks, procs=8):
    world()
    real_pvlib()
    chunks = order_tasks(tasks)
    if procs == 1:
        return [r for c in chunks for r in _chunk(c)]
    out = []
    ctx = mp.get_context('fork')
    global _dumps
    _dumps = tempfile.mkdtemp(prefix='pvc')
    t0 = time.time()
    limit = t0 + (540 if tasks and tasks[0].tier == 'quick' else 4*3600)
    with ctx.Pool(procs, _init, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_numbered, list(enumerate(chunks)), 1)
        left = set(range(len(chunks)))
        while left:
            try:
                # nothing from any worker for a long time: a solver call
                # that ignores its limits; redone in a fresh process
                i, r = it.next(max(1, min(
                    limit - time.time(), STALL if limit < t0 + 999 else 9e9)))
            except mp.TimeoutError:
                _stalled()
                break
            left.discard(i)
            out += r
            if any(k['violation'] for k in r):
                # a failing input is known: finish soon
                limit = min(limit, time.time() + 120)
        pool.terminate()
    shutil.rmtree(_dumps, True)
    _dumps = None
    for i in left:
        out += [_late(k) for k in chunks[i]]
    todo = [i for i, r in enumerate(out) if _retry(r)]
    if todo and len(todo) <= 12 and not any(r['violation'] for r in out):
        def ident(k):
            return (k.spec, k.idx, k.combo_i, k.kind)
        tk = {ident(k): k for k in tasks}
        ts = [tk[out[i]['spec'], out[i]['idx'], out[i]['combo'],
                 out[i]['kind']] for i in todo]
        stop = min(time.time() + 240, max(t0 + 780, time.time() + 30)) \
            if tasks[0].tier == 'quick' else time.time() + 3600
        with ctx.Pool(procs, _init, maxtasksperchild=1) as pool:
            it = pool.imap(_again, [[k] for k in ts])
            for i in todo:
                try:
                    r, = it.next(max(1, stop - time.time()))
                except mp.TimeoutError:
                    break
                if not r['failed'] and not r['unsupported'] and \
                        not r.get('error') and not r.get('timeout'):
                    r['cross'] = out[i]['cross']
                    r['second'] = True
                    out[i] = r
            pool.terminate()
    return out
