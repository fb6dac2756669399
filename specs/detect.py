"""Clear-sky detection against a window-by-window reference (C25)."""
from pvc.api import *
import warnings
import numpy as np
import pandas as pd

C_ = 'pvlib.clearsky.'
TABLE = dict(  # Jordan and Hansen (2023), Table 1
    step=(1, 5, 15, 30), window_length=(50, 60, 90, 120),
    mean_diff=(75, 75, 75, 75), max_diff=(60, 65, 75, 90),
    lower_line_length=(-45, -45, -45, -45),
    upper_line_length=(80, 80, 80, 80), var_diff=(.005, .01, .032, .07),
    slope_dev=(50, 60, 75, 96))
LIMITS = dict(window_length=10, mean_diff=75, max_diff=75,
              lower_line_length=-5, upper_line_length=10, var_diff=.005,
              slope_dev=8)
FLAGS = ('mean_diff_flag', 'max_diff_flag', 'line_length_flag',
         'slope_nstd_flag', 'slope_max_flag', 'mean_nan_flag', 'windows')


def tabulated(step):
    out = {}
    for k in list(TABLE)[1:]:
        x, y = TABLE['step'], TABLE[k]
        for a, b, u, v in zip(x, x[1:], y, y[1:]):
            if a <= step <= b:
                out[k] = u + (v - u)*(step - a)/(b - a)
    return out


def reference(meas, clear, step, window, lim, iterations=20):
    """each window on its own, then the scale from the clear samples"""
    n, w, half = len(meas), window, window//2
    alpha, converged = 1., False
    for _ in range(iterations):
        flags = {k: np.zeros(n, bool) for k in FLAGS}
        stats = {k: np.full(n, np.nan) for k in (
            'mean_diff', 'max_diff', 'line_length', 'slope_nstd',
            'slope_max')}
        samples = np.zeros(n, bool)
        for s in range(n - w + 1):
            m, c = meas[s:s + w], clear[s:s + w]
            at = s + half
            dm, dc = np.diff(m), np.diff(alpha*c)
            slopes = dm/step
            dev = np.sqrt(np.sum((slopes - slopes.mean())**2)/(w - 2))
            with np.errstate(divide='ignore', invalid='ignore'):
                nstd = dev/m.mean()
            stats['mean_diff'][at] = abs(m.mean() - alpha*c.mean())
            stats['max_diff'][at] = abs(m.max() - alpha*c.max())
            length = sum(np.hypot(a, step) for a in dm)
            stats['line_length'][at] = length - sum(
                np.hypot(a, step) for a in dc)
            stats['slope_nstd'][at] = nstd
            stats['slope_max'][at] = np.abs(dm - dc).max()
            got = {k: v[at] for k, v in stats.items()}
            ok = (got['mean_diff'] < lim['mean_diff'],
                  got['max_diff'] < lim['max_diff'],
                  lim['lower_line_length'] < got['line_length']
                  < lim['upper_line_length'],
                  nstd < lim['var_diff'], got['slope_max'] < lim['slope_dev'],
                  not (np.isnan(c.mean()) or c.mean() == 0))
            for k, v in zip(FLAGS, ok + (all(ok),)):
                flags[k][at] = v
            if all(ok):
                samples[s:s + w] = True
        last = alpha
        cc = np.sum(clear[samples]**2)
        if cc > 0:
            alpha = np.sum(meas[samples]*clear[samples])/cc
        if round(alpha*1e4) == round(last*1e4):
            converged = True
            break
    return samples, flags, stats, alpha, converged


def day(seed, step, n, kind):
    """a clear-sky curve and a measurement of it"""
    r = np.random.default_rng(int(seed))
    t = np.arange(n)*step
    start = r.uniform(0, 500)
    clear = np.maximum(0, 1000*np.sin(np.pi*(t + start)/900))
    meas = clear*r.uniform(.93, 1.07)
    if kind == 'noise':
        meas = meas + r.normal(0, r.choice([.1, 1, 4]), n)
    elif kind != 'clear':
        for _ in range(int(r.integers(1, 5))):
            a = int(r.integers(0, n))
            b = a + int(r.integers(1, 15))
            meas[a:b] *= r.uniform(.2, 1.2)
    if kind == 'gap':
        a = int(r.integers(0, n))
        meas[a:a + int(r.integers(1, 4))] = np.nan
        b = int(r.integers(0, n))
        clear[b:b + int(r.integers(1, 3))] = np.nan
    if kind == 'night':
        meas[:n//3], clear[:n//3] = 0., 0.
    return clear, meas


KIND = Opt('clear', 'cloud', 'noise', 'gap', 'night')


def near(stats, lim, rel=1e-9):
    """does a statistic sit on a threshold, where rounding decides?"""
    pairs = [('mean_diff', 'mean_diff'), ('max_diff', 'max_diff'),
             ('line_length', 'lower_line_length'),
             ('line_length', 'upper_line_length'),
             ('slope_nstd', 'var_diff'), ('slope_max', 'slope_dev')]
    return any((np.abs(stats[a] - lim[b]) < rel*(1 + abs(lim[b]))).any()
               for a, b in pairs)


def quiet(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = fn()
    return out, [x for x in w if issubclass(x.category, RuntimeWarning)
                 and 'converge' in str(x.message)]


@lemma('C25', C_ + 'detect_clearsky', bounded=True, args=dict(
    seed=P(0, 1e6), kind=KIND), kinds=('scalar',), samples=60)
def detection(seed, kind):
    r = np.random.default_rng(int(seed) + 1)
    step = (1, 2, 5)[r.integers(3)]
    form = ('series', 'array', 'mixed')[r.integers(3)]
    limits = ('default', 'wide', 'random')[r.integers(3)]
    iterations = (20, 20, 1, 2)[r.integers(4)]
    n = int(r.integers(30, 90))
    clear, meas = day(seed, step, n, kind)
    kw = {}
    if limits == 'wide':
        kw = dict(window_length=10*step, mean_diff=90., max_diff=90.,
                  lower_line_length=-60., upper_line_length=60.,
                  var_diff=.05, slope_dev=60.)
    elif limits == 'random':
        kw = dict(window_length=step*int(r.integers(3, 14))
                  + r.uniform(0, .9*step),
                  mean_diff=r.uniform(5, 60), max_diff=r.uniform(5, 60),
                  lower_line_length=-r.uniform(1, 30),
                  upper_line_length=r.uniform(1, 30),
                  var_diff=r.uniform(.001, .02), slope_dev=r.uniform(2, 20))
    lim = {**LIMITS, **kw}
    window = int(lim['window_length']//step)
    times = pd.date_range('2021-06-01 05:00', periods=n, freq=f'{step}min',
                          tz='Etc/GMT+7')
    ms, cs = pd.Series(meas, times), pd.Series(clear, times)
    args = {'series': (ms, cs), 'array': (meas.copy(), clear.copy(), times),
            'mixed': (ms, clear.copy())}[form]
    if iterations != 20:
        kw = dict(kw, max_iterations=iterations)
    if window < 3:
        yield 'a window has at least three samples', raises(
            ValueError, pv.clearsky.detect_clearsky, *args, **kw)
        return
    keep = [np.array(a, copy=True) for a in args[:2]]
    (got, parts, scale), warned = quiet(
        lambda: pv.clearsky.detect_clearsky(*args, return_components=True,
                                            **kw))
    plain, _ = quiet(lambda: pv.clearsky.detect_clearsky(*args, **kw))
    exp, flags, stats, alpha, converged = reference(
        meas, clear, step, window, lim, iterations)
    yield 'the data are left alone', both(
        eq(keep[0], np.asarray(args[0]), rtol=0),
        eq(keep[1], np.asarray(args[1]), rtol=0))
    yield 'the same with and without components', bool(
        np.array_equal(np.asarray(plain), np.asarray(got)))
    if form == 'array':
        yield 'an array in, an array out', isinstance(got, np.ndarray)
    else:
        yield 'a Series in, a Series out', isinstance(
            got, pd.Series) and got.index.equals(times)
    yield 'true or false', np.asarray(got).dtype == bool
    if near(stats, lim):
        return
    yield 'clear samples are those of the clear windows', bool(
        np.array_equal(np.asarray(got), exp))
    yield 'scale factor', eq(scale, alpha, rtol=1e-9)
    yield 'a warning when the scale has not settled', \
        (len(warned) == 1) == (not converged)
    for k in FLAGS:
        yield f'component {k}', bool(np.array_equal(
            np.asarray(parts[k], dtype=bool), flags[k]))
    for k in ('line_length', 'slope_nstd', 'slope_max'):
        yield f'component {k}', eq(np.asarray(parts[k]), stats[k],
                                   rtol=1e-7, atol=1e-7)
    # these two are reported with the scale after its last adjustment
    if converged:
        for k in ('mean_diff', 'max_diff'):
            yield f'component {k}', eq(np.asarray(parts[k]), stats[k],
                                       rtol=1e-7, atol=.3)


@lemma('C25', C_ + 'detect_clearsky', bounded=True, args=dict(
    seed=P(0, 1e6), step=P(.6, 35), whole=Opt(True, False), kind=KIND),
    kinds=('scalar',), samples=60)
def inferred_limits(seed, step, whole, kind):
    seconds = int(round(step))*60 if whole else int(step*60)
    step = seconds/60
    r = np.random.default_rng(int(seed) + 2)
    n = int(r.integers(60, 110))
    clear, meas = day(seed, step, n, kind)
    times = pd.date_range('2021-06-01 05:00', periods=n, freq=f'{seconds}s')
    args = pd.Series(meas, times), pd.Series(clear, times)

    def call():
        return pv.clearsky.detect_clearsky(
            *args, infer_limits=True, return_components=True, mean_diff=-1,
            window_length=10000, slope_dev=-1)
    if not 1 <= step <= 30:
        yield 'limits are known from 1 to 30 minutes', raises(
            ValueError, call)
        return
    lim = tabulated(step)
    window = int(lim['window_length']/step + 1e-9)
    if abs(lim['window_length']/step - round(
            lim['window_length']/step)) < 1e-6 and step not in TABLE['step']:
        return
    if len(times) < window:
        yield 'fewer samples than a window', raises(ValueError, call)
        return
    (got, parts, scale), _ = quiet(call)
    exp, flags, stats, alpha, _ = reference(meas, clear, step, window, lim)
    if near(stats, lim):
        return
    yield 'clear samples with the tabulated limits', bool(
        np.array_equal(np.asarray(got), exp))
    yield 'scale factor', eq(scale, alpha, rtol=1e-9)
    for k in FLAGS:
        yield f'component {k}', bool(np.array_equal(
            np.asarray(parts[k], dtype=bool), flags[k]))


@contract(C_ + '_clearsky_get_threshold', prop='C25', args=dict(
    sample_interval=P(1, 30, ge=1, le=30)), kinds=('scalar',))
def thresholds(sample_interval):
    t, out = sample_interval, []
    x = TABLE['step']
    for k in list(TABLE)[1:]:
        y = TABLE[k]
        v = y[-1]
        for lo, hi, u, w in list(zip(x, x[1:], y, y[1:]))[::-1]:
            v = np.where(t < hi, u + (w - u)*(t - lo)/(hi - lo), v)
        out.append(v)
    return tuple(out)


@lemma('C25', C_ + '_clearsky_get_threshold', args=dict(
    short=P(0, 1, lt=1), long=P(30, 90, gt=30)), kinds=('scalar',))
def outside_the_table(short, long):
    f = pv.clearsky._clearsky_get_threshold
    yield 'shorter than a minute', raises(ValueError, f, short)
    yield 'longer than half an hour', raises(ValueError, f, long)


@lemma('C25', C_ + 'detect_clearsky', bounded=True, args=dict(
    seed=P(0, 1e6), n=P(1, 30)), kinds=('scalar',), samples=30)
def refusals(seed, n):
    n = int(n)
    clear, meas = day(seed, 1, n, 'clear')
    times = pd.date_range('2021-06-01 09:00', periods=n, freq='1min')
    detect = pv.clearsky.detect_clearsky
    yield 'arrays need times', raises(ValueError, detect, meas, clear)
    ms, cs = pd.Series(meas, times), pd.Series(clear, times)
    if 3 <= n < 10:
        yield 'fewer samples than a window', raises(
            ValueError, detect, ms, cs)
    if n > 10:
        yield 'three samples in a window', raises(
            ValueError, detect, ms, cs, window_length=2)
        yield 'three samples are enough', not raises(
            ValueError, detect, ms, cs, window_length=3)
        drop = np.delete(np.arange(n), n//2)
        yield 'unequal steps', raises(
            NotImplementedError, detect, ms.iloc[drop], cs.iloc[drop])
        more = pd.date_range('2021-06-01 09:00', periods=n, freq='5min')
        yield 'the window is counted in minutes', raises(
            ValueError, detect, pd.Series(meas, more), pd.Series(clear, more))


@lemma('C25', C_ + 'detect_clearsky', bounded=True, args=dict(
    seed=P(0, 1e6), scale=P(.94, 1.06)), kinds=('scalar',), samples=30)
def meaning(seed, scale):
    """what a user reads off the result"""
    r = np.random.default_rng(int(seed))
    n = 300
    t = np.arange(n)
    clear = 200 + 800*np.sin(np.pi*(t + 50)/400)
    times = pd.date_range('2021-06-01 09:00', periods=n, freq='1min')
    cs = pd.Series(clear, times)
    got, _, alpha = pv.clearsky.detect_clearsky(
        scale*cs, cs, return_components=True)
    yield 'a scaled clear day is clear', bool(got.all())
    yield 'and the scale is found', eq(alpha, scale, rtol=1e-9)
    a = int(r.integers(30, 200))
    b = a + int(r.integers(25, 60))
    cloudy = scale*cs
    cloudy.iloc[a:b] *= r.uniform(.3, .8)
    got, _, alpha = pv.clearsky.detect_clearsky(
        cloudy, cs, return_components=True)
    yield 'inside a cloud nothing is clear', not got.iloc[a + 1:b - 1].any()
    yield 'ten minutes away everything is', bool(
        got.iloc[:a - 10].all() and got.iloc[b + 10:].all())
    yield 'the cloud does not move the scale', eq(alpha, scale, rtol=1e-6)
