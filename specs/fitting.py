"""Parameter estimation reproduces what was fitted (C24)."""
from pvc.api import *
import numpy as np
import pandas as pd
from scipy.special import lambertw

S_ = 'pvlib.ivtools.sde.'
D_ = 'pvlib.ivtools.sdm.desoto.'
F_ = 'pvlib.ivtools.sdm._fit_desoto_pvsyst_sandia.'
Y_ = 'pvlib.ivtools.sdm.pvsyst.'
U_ = 'pvlib.ivtools.utils.'
KB_EV = 8.617333262e-5
LW = {p: lambda z: lambertw(np.asarray(z)).real for p in (
    U_ + '_lambertw_pvlib', D_ + '_lambertw_pvlib', F_ + '_lambertw_pvlib')}
SEED = dict(seed=P(0, 1e6))
DIODE = dict(il=P(4, 12, gt=0), io=P(1e-10, 1e-8, gt=0), rs=P(.1, .6, gt=0),
             rsh=P(80, 1000, gt=0), a=P(1.4, 2.2, gt=0))


# ------------------------------------------ De Soto: the system and its root
def diode(v, i, il, io, rs, rsh, a):
    """residual of the single-diode equation"""
    return il - io*(np.exp((v + i*rs)/a) - 1) - (v + i*rs)/rsh - i


@lemma('C24', D_ + '_system_of_equations_desoto', args=dict(
    DIODE, isc=P(4, 12, gt=0), voc=P(30, 45, gt=0), imp=P(3, 11, gt=0),
    vmp=P(25, 40, gt=0), beta=P(-.2, -.05), alpha=P(.001, .01),
    eg=P(1, 1.5), deg=P(-3e-4, -2e-4), tref=P(273, 323, gt=0),
    k=P(8e-5, 9e-5, gt=0)), kinds=('scalar',))
def desoto_equations(il, io, rs, rsh, a, isc, voc, imp, vmp, beta, alpha, eg,
                     deg, tref, k):
    y = pv.ivtools.sdm.desoto._system_of_equations_desoto(
        (il, io, rs, rsh, a),
        (isc, voc, imp, vmp, beta, alpha, eg, deg, tref, k))
    p = il, io, rs, rsh, a
    slope = io/a*np.exp((vmp + imp*rs)/a) + 1/rsh
    t2 = tref + 2
    eg2 = eg*(1 + deg*2)
    io2 = io*(t2/tref)**3*np.exp((eg/tref - eg2/t2)/k)
    yield 'five equations', len(y) == 5
    yield 'short circuit', eq(y[0], -diode(0, isc, *p), atol=1e-9)
    yield 'open circuit', eq(y[1], -diode(voc, 0, *p), atol=1e-9)
    yield 'maximum power point', eq(y[2], -diode(vmp, imp, *p), atol=1e-9)
    # 0 = d(vi)/dv = i + v di/dv, and di/dv = -slope/(1 + rs slope)
    yield 'power is stationary', eq(
        y[3], imp - vmp*slope/(1 + rs*slope), atol=1e-9)
    yield 'open circuit two degrees up', eq(
        y[4], -diode(voc + 2*beta, 0, il + 2*alpha, io2, rs, rsh,
                     a*t2/tref), atol=1e-9)


def bisect(f, lo, hi):
    for _ in range(80):
        m = (lo + hi)/2
        up = f(m) > 0
        lo, hi = np.where(up, m, lo), np.where(up, hi, m)
    return (lo + hi)/2


def current(v, il, io, rs, rsh, a):
    """of the curve at voltages v, by bisection on the diode voltage"""
    def f(vd):
        return v - vd + rs*(il - io*np.expm1(vd/a) - vd/rsh)
    vd = bisect(f, v - 1., v + rs*(il + 1) + 1.)
    return il - io*np.expm1(vd/a) - vd/rsh


def points(il, io, rs, rsh, a):
    """short circuit, open circuit and maximum power point"""
    top = a*np.log(il/io + 1) + 1
    isc = current(0.*il, il, io, rs, rsh, a)
    voc = bisect(lambda vd: il - io*np.expm1(vd/a) - vd/rsh, 0.*il, top)

    def slope(vd):
        g = io/a*np.exp(vd/a) + 1/rsh
        i = il - io*np.expm1(vd/a) - vd/rsh
        return i - (vd - rs*i)*g/(1 + rs*g)
    vd = bisect(slope, 0.*il, voc)
    imp = il - io*np.expm1(vd/a) - vd/rsh
    r = isc, voc, vd - rs*imp, imp
    return tuple(float(x) if np.ndim(x) == 0 else x for x in r)


@lemma('C24', D_ + 'fit_desoto', bounded=True, args=dict(
    il=P(5, 10), io=P(1e-10, 5e-9), rs=P(.15, .5), rsh=P(120, 800),
    a=P(1.5, 2.1), alpha=P(.001, .006), EgRef=P(1, 1.5),
    dEgdT=P(-4e-4, -1e-4), temp_ref=Opt(25, P(15, 35)),
    scale=Opt(None, P(.98, 1.02))), kinds=('scalar',), nconc=60)
def desoto_fit(il, io, rs, rsh, a, alpha, EgRef, dEgdT, temp_ref, scale):
    f = pv.ivtools.sdm.fit_desoto
    isc, voc, vmp, imp = points(il, io, rs, rsh, a)
    t0, t2 = temp_ref + 273.15, temp_ref + 275.15
    eg2 = EgRef*(1 + 2*dEgdT)
    io2 = io*(t2/t0)**3*np.exp((EgRef/t0 - eg2/t2)/KB_EV)
    beta = (points(il + 2*alpha, io2, rs, rsh, a*t2/t0)[1] - voc)/2
    kw = {}
    if scale is not None:
        kw['init_guess'] = dict(IL_0=il*scale, Io_0=io*scale, Rs_0=rs*scale,
                                Rsh_0=rsh*scale, a_0=a*scale)
        if scale > 1:                  # a partial guess leaves the defaults
            del kw['init_guess']['IL_0']
    if temp_ref != 25:
        kw['temp_ref'] = temp_ref
    s = outcome(lambda: f(vmp, imp, voc, isc, alpha, beta, 60, EgRef=EgRef,
                          dEgdT=dEgdT, **kw))
    if isinstance(s, Raised):
        # the default guess need not converge, a guess at the solution must
        yield 'a failure is reported', (
            isinstance(s.e, RuntimeError) and scale is None)
        return
    d, res = s
    got = tuple(float(d[k]) for k in ('I_L_ref', 'I_o_ref', 'R_s',
                                      'R_sh_ref', 'a_ref'))
    yield 'success', bool(res.success) and len(d) == 10
    yield 'the rest is what was given', (
        d['alpha_sc'], d['EgRef'], d['dEgdT'], d['irrad_ref'],
        d['temp_ref']) == (alpha, EgRef, dEgdT, 1000, temp_ref)
    gi, go, gs, gh, ga = got
    for n, v, i, q in (('isc', 0, isc, got), ('voc', voc, 0, got),
                       ('mpp', vmp, imp, got),
                       ('voc two degrees up', voc + 2*beta, 0,
                        (gi + 2*alpha, go*io2/io, gs, gh, ga*t2/t0))):
        yield f'{n} lies on the fitted curve', abs(diode(v, i, *q)) < 1e-4
    if scale is not None:
        for n, w, g in zip('il io rs rsh a'.split(), (il, io, rs, rsh, a),
                           got):
            yield f'{n} is recovered', eq(g, w, 5e-3)


@lemma('C24', D_ + 'fit_desoto', bounded=True, args=dict(x=P(0, 1)),
       kinds=('scalar',), samples=1)
def desoto_refuses(x):
    f = pv.ivtools.sdm.fit_desoto
    a = (31., 8.71, 38.3, 9.43, .005658, -.13788, 60)
    yield 'unknown initial value', raises(ValueError, f, *a,
                                          init_guess={'IL': 6.})
    yield 'no solution', raises(RuntimeError, f, *a, init_guess={
        'IL_0': 6., 'Io_0': -1e9, 'Rs_0': -5., 'Rsh_0': 1e-9, 'a_0': -9.})
    yield 'solver options are passed on', raises(
        ValueError, f, *a, root_kwargs={'method': 'nosuch'})
    n = f(*a)[1].nfev
    yield 'solver options count', raises(RuntimeError, f, *a, root_kwargs={
        'options': {'maxfev': n//2}})


@lemma('C24', D_ + 'fit_desoto_batzelis', args=dict(
    v_mp=P(20, 45, gt=0), i_mp=P(4, 12, gt=0), v_oc=P(30, 55, gt=0),
    i_sc=P(5, 13, gt=0), alpha_sc=P(.001, .008), beta_voc=P(-.2, -.05)),
    pre=lambda alpha_sc, i_sc, beta_voc, v_oc, **k: [
        alpha_sc*298.15 < 50.1*i_sc, beta_voc*298.15 < v_oc],
    kinds=('scalar',), symstubs=LW)
def batzelis_fit(v_mp, i_mp, v_oc, i_sc, alpha_sc, beta_voc):
    d = pv.ivtools.sdm.fit_desoto_batzelis(v_mp, i_mp, v_oc, i_sc, alpha_sc,
                                           beta_voc)
    t0 = 298.15
    a = v_oc*(1 - beta_voc/v_oc*t0)/(50.1 - alpha_sc/i_sc*t0)
    w = lambertw(np.asarray(np.exp(v_oc/a + 1))).real
    yield 'keys', len(d) == 6
    yield 'alpha', eq(d['alpha_sc'], alpha_sc)
    yield 'a', eq(d['a_ref'], a)
    rs = (a*(w - 1) - v_mp)/i_mp
    # the shunt takes what is left of the maximum power point
    g = (i_sc*(1 - 1/w) - i_mp)/(a*(w - 1))
    yield 'Rs', eq(d['R_s'], rs)
    yield 'Rsh', implies(g != 0, eq(d['R_sh_ref']*g, 1))
    yield 'IL', implies(g != 0, eq(d['I_L_ref'], (1 + rs*g)*i_sc))
    yield 'Io', implies(g != 0, eq(d['I_o_ref'], (1 + rs*g)*i_sc
                                   * np.exp(-v_oc/a)))


# ----------------------------------------------- the simple Sandia method
@contract(S_ + '_calc_I0', prop='C24', args=dict(
    voltage=P(0, 45), current=P(0, 12), iph=P(4, 12), gsh=P(0, .02),
    rs=P(0, 1), nNsVth=P(.5, 4, gt=0)), kinds=('scalar',), loose=True)
def calc_io(voltage, current, iph, gsh, rs, nNsVth):
    vd = voltage + rs*current
    return (iph - current - gsh*vd)/(np.exp(vd/nNsVth) - 1)


@lemma('C24', S_ + '_sandia_simple_params', args=dict(
    beta0=P(4, 12, gt=0), beta1=P(.001, .05, gt=0), beta3=P(.3, .8, gt=0),
    beta4=P(.05, .5, gt=0), v_mp=P(20, 30, gt=0), i_mp=P(3, 9, gt=0),
    v_oc=P(30, 45, gt=0)), pre=lambda beta1, beta3, beta4, **k: [
        beta1*beta4 < beta3], kinds=('scalar',))
def simple_params(beta0, beta1, beta3, beta4, v_mp, i_mp, v_oc):
    f = pv.ivtools.sde._sandia_simple_params
    rs, a = beta4/beta3, 1/beta3
    g = beta1/(1 - rs*beta1)
    il = (1 + g*rs)*beta0
    x = v_mp + rs*i_mp
    m = (il - i_mp - g*x)/(np.exp(x/a) - 1)
    o = (il - g*v_oc)/(np.exp(v_oc/a) - 1)
    bad = both(m <= 0, o <= 0)
    p = outcome(lambda: f(beta0, beta1, beta3, beta4, v_mp, i_mp, v_oc))
    if isinstance(p, Raised):
        yield 'refused', isinstance(p.e, RuntimeError)
        yield 'only an undetermined saturation current is refused', bad
        return
    yield 'an undetermined saturation current is refused', neg(bad)
    yield 'il', eq(p[0], il)
    yield 'rs', eq(p[2], rs)
    yield 'rsh', eq(p[3]*g, 1)
    yield 'a', eq(p[4], a)
    yield 'io mean', implies(both(m > 0, o > 0), eq(p[1], (m + o)/2))
    yield 'io mpp', implies(both(m > 0, o <= 0), eq(p[1], m))
    yield 'io open', implies(both(m <= 0, o > 0), eq(p[1], o))


@lemma('C24', S_ + '_sandia_beta0_beta1', bounded=True, args=dict(
    SEED, b0=P(5, 10), b1=P(.001, .03), vlim=P(.1, .6), n=P(30, 90)),
    kinds=('scalar',), nconc=60)
def straight_part(seed, b0, b1, vlim, n):
    f = pv.ivtools.sde._sandia_beta0_beta1
    rng = np.random.default_rng(int(seed))
    v = np.sort(rng.uniform(0, 40, int(n)))
    v[0], v[-1] = 0, 40
    i = np.where(v < vlim*40, b0 - b1*v, b0 - b1*v - (v - vlim*40)**2*.01)
    if (v < vlim*40).sum() <= 3:      # too few points for a line
        return
    got = f(v, i, vlim, 40.)
    yield 'line below the limit', both(
        eq(got[0], b0, 1e-7), eq(got[1], b1, 1e-5))
    # a flat or rising start is left out until the fitted line falls
    up = b0 + 0*v + np.where(v < 30, v*1e-3, 30e-3 - (v - 30)*.9)
    g = f(v, up, vlim, 40.)
    k = next(k for k in range(np.searchsorted(v, vlim*40), len(v))
             if k > 1 and np.polyfit(v[:k], up[:k], 1)[0] < 0)
    w = np.polyfit(v[:k], up[:k], 1)
    yield 'first falling fit', both(eq(g[0], w[1]), eq(g[1], -w[0]))
    yield 'a rising curve is refused', raises(RuntimeError, f, v, b0 + v,
                                              vlim, 40.)


@lemma('C24', S_ + '_sandia_beta3_beta4', bounded=True, args=dict(
    SEED, b0=P(5, 10), b1=P(.001, .02), b2=P(-25, -15), b3=P(.4, .7),
    b4=P(.1, .3), ilim=P(.02, .2)), kinds=('scalar',), nconc=60)
def knee(seed, b0, b1, b2, b3, b4, ilim):
    rng = np.random.default_rng(int(seed))
    v = np.sort(rng.uniform(0, 45, 80))
    # ln(b0 - b1 v - i) = b2 + b3 v + b4 i solved for i

    def h(i):
        return np.log(np.maximum(b0 - b1*v - i, 1e-300)) - b2 - b3*v - b4*i
    i = bisect(h, v*0 - 500., b0 - b1*v)
    i = np.where(b0 - b1*v - i > .01*b0, i, b0 - b1*v - .01*b0)
    if (b0 - b1*v - i > ilim*b0).sum() < 5:
        return
    got = pv.ivtools.sde._sandia_beta3_beta4(v, i, b0, b1, ilim, b0)
    yield 'beta3', eq(got[0], b3, 1e-5)
    yield 'beta4', eq(got[1], b4, 1e-5)


@lemma('C24', S_ + '_find_mp', bounded=True, args=dict(SEED),
       kinds=('scalar',), nconc=40)
def maximum(seed):
    rng = np.random.default_rng(int(seed))
    v, i = rng.uniform(0, 40, 30), rng.uniform(0, 9, 30)
    a, b = pv.ivtools.sde._find_mp(v, i)
    yield 'largest product', a*b == max(v*i)
    yield 'of one point', bool(np.any((v == a) & (i == b)))


@lemma('C24', S_ + 'fit_sandia_simple', bounded=True, args=dict(
    DIODE, n=P(100, 300), given=Opt(True, False), rsh=P(200, 1000),
    vlim=Opt(None, P(.1, .3)), ilim=Opt(None, P(.05, .2))),
    kinds=('scalar',), nconc=60)
def simple_fit(il, io, rs, rsh, a, n, given, vlim, ilim):
    p = il, io, rs, rsh, a
    isc, voc, vmp, imp = points(*p)
    v = voc*(1 - np.linspace(1, 0, int(n))**2)
    i = np.maximum(current(v, *p), 0)
    kw = {k: x for k, x in (('vlim', vlim), ('ilim', ilim)) if x is not None}
    f = pv.ivtools.sde.fit_sandia_simple
    got = f(v, i, **kw)
    if given:
        j = int(np.argmax(v*i))
        yield 'the defaults are the ends and the best sample', eq(
            f(v, i, voc, i[0], (v[j], i[j]), vlim or .2, ilim or .1), got,
            1e-9)
        # the optional points are used
        b = pv.ivtools.sde
        q = b._sandia_beta0_beta1(v, i, vlim or .2, voc*.9)
        r = b._sandia_beta3_beta4(v, i, *q, ilim or .1, isc*1.1)
        yield 'composition', eq(
            f(v, i, voc*.9, isc*1.1, (vmp, imp), **kw),
            b._sandia_simple_params(*q, *r, vmp, imp, voc*.9))
    yield 'photocurrent', eq(got[0], il, .01)
    yield 'series resistance', eq(got[2], rs, .15)
    yield 'thermal voltage', eq(got[4], a, .06)
    yield 'the fitted curve is the curve', bool(np.all(np.abs(
        current(v, *got) - i) < .03*isc))


# ------------------------------------------------------- co-content method
@lemma('C24', S_ + '_cocontent', bounded=True, args=dict(SEED, isc=P(5, 10)),
       kinds=('scalar',), nconc=40)
def cocontent(seed, isc):
    rng = np.random.default_rng(int(seed))
    n = int(rng.integers(12, 40))
    v = np.cumsum(rng.uniform(.1, 2, n))
    v -= v[0]
    # pieces of a spline, quadratics in the distance from the left knot
    c = np.c_[rng.uniform(-.05, 0, n - 1), rng.uniform(-.2, .1, n - 1),
              rng.uniform(3, 9, n - 1)]
    flag = rng.integers(0, 2, n).astype(float)
    got = pv.ivtools.sde._cocontent(v, c, isc, flag)
    # integral of isc - i from the first knot
    h = np.diff(v)
    cc = np.r_[0, np.cumsum(isc*h - c[:, 0]*h**3/3 - c[:, 1]*h**2/2
                            - c[:, 2]*h)]
    yield 'integral up to each original knot', eq(got, cc[flag == 0],
                                                  atol=1e-9)


@lemma('C24', S_ + '_cocontent_regress', bounded=True, args=dict(
    SEED, isc=P(5, 10), b=Vec(5, P(-1, 1), ctor='tuple')),
    kinds=('scalar',), nconc=60)
def regress(seed, isc, b):
    rng = np.random.default_rng(int(seed))
    v = np.sort(rng.uniform(0, 40, 50))
    i = isc - (v/40)**5*isc - rng.uniform(0, .3, 50)
    j = isc - i
    cc = b[0]*v + b[1]*j + b[2]*v*j + b[3]*v*v + b[4]*j*j + .7
    got = pv.ivtools.sde._cocontent_regress(v, i, 40., isc, cc)
    yield 'the coefficients are recovered', eq(got, np.array(b), 1e-6, 1e-6)


@lemma('C24', S_ + '_fit_sandia_cocontent', bounded=True, args=dict(
    DIODE, rsh=P(100, 800), n=P(60, 200)), kinds=('scalar',), nconc=40)
def cocontent_fit(il, io, rs, rsh, a, n):
    f = pv.ivtools.sde._fit_sandia_cocontent
    p = il, io, rs, rsh, a
    voc = points(*p)[1]
    v = np.linspace(0, voc, int(n))
    i = current(v, *p)
    i[-1] = 0
    got = f(v, i, a/1.1)
    yield 'photocurrent', eq(got[0], il, .01)
    yield 'shunt', eq(got[3], rsh, .15)
    yield 'ideality times thermal voltage', eq(got[4]*a/1.1, a, .1)
    yield 'series', eq(got[2], rs, .25, .03)
    yield 'lengths', raises(ValueError, f, v, i[1:], 1.)
    yield 'five points', raises(ValueError, f, v[:5], i[:5], 1.)


# --------------------------------------------------- curves and their points
@lemma('C24', U_ + 'rectify_iv_curve', bounded=True, args=dict(
    SEED, decimals=Opt(None, 1, 2), ctor=Opt('array', 'series')),
    kinds=('scalar',), nconc=60)
def rectify(seed, decimals, ctor):
    rng = np.random.default_rng(int(seed))
    n = 60
    v = np.round(rng.uniform(-2, 40, n), int(rng.integers(0, 4)))
    i = rng.uniform(-.5, 9, n)
    v[rng.integers(0, n, 3)] = np.nan
    i[rng.integers(0, n, 3)] = np.nan
    keep = (v >= 0) & (i >= 0)
    k = np.round(v, decimals) if decimals is not None else v
    w = {}
    for a, b in zip(k[keep], i[keep]):
        w.setdefault(a, []).append(b)
    v0, i0 = v.copy(), i.copy()
    a, b = pv.ivtools.utils.rectify_iv_curve(
        *((v, i) if ctor == 'array' else (pd.Series(v), pd.Series(i))),
        *(() if decimals is None else (decimals,)))
    yield 'rising voltages, each once', eq(np.asarray(a), np.array(sorted(w)))
    yield 'mean current at each', eq(np.asarray(b), np.array(
        [np.mean(w[x]) for x in sorted(w)]))
    yield 'input unchanged', both(eq(v, v0).all(), eq(i, i0).all())


@lemma('C24', U_ + '_schumaker_qspline', bounded=True, args=dict(
    SEED, shape=Opt('curve', 'any', 'line', 'convex', 'flat')),
    kinds=('scalar',), nconc=60)
def spline(seed, shape):
    rng = np.random.default_rng(int(seed))
    n = int(rng.integers(6, 30))
    x = np.cumsum(rng.uniform(.3, 2, n))
    y = dict(curve=8 - np.exp((x - x[-1])/2)*8, any=rng.uniform(0, 9, n),
             line=3 - .2*x, convex=(x - x[0])**2,
             flat=np.round(rng.uniform(0, 2, n)))[shape]
    t, c, yh, flag = pv.ivtools.utils._schumaker_qspline(x, y)
    yield 'shapes', len(t) == len(yh) == len(flag) == len(c) + 1
    yield 'knots rise', bool(np.all(np.diff(t) > 0))
    yield 'the original knots', both(
        eq(t[flag == 0], x).all(), eq(yh[flag == 0], y).all())
    h = np.diff(t)
    end = c[:, 0]*h**2 + c[:, 1]*h + c[:, 2]
    yield 'value at the left knots', eq(c[:, 2], yh[:-1])
    # pieces that begin at an original knot (with a given slope) run into
    # the next piece with the same value and slope
    o = (flag == 0)[:-1]
    sl = np.r_[c[1:, 1], 2*c[-1, 0]*h[-1] + c[-1, 1]]
    sc = 1e-4*max(1, np.max(np.abs(y)))
    yield 'value at the end', eq(end[o], yh[1:][o], atol=sc)
    last = o & (np.arange(len(o)) < len(o) - 1)
    yield 'slope at the end', eq((2*c[:, 0]*h + c[:, 1])[last], sl[last],
                                 atol=sc)
    # given slopes: harmonic mean, zero at an extremum
    q = np.diff(y)/np.diff(x)
    m = q[1:]*q[:-1]
    w = np.where(m > 0, 2*m/np.where(m > 0, q[1:] + q[:-1], 1), 0)
    k = c[flag[:-1] == 0, 1]
    yield 'slopes at the original knots', eq(k[1:], w, 1e-9, 1e-12)
    e = 2*q[0] - w[0]
    yield 'slope at the start', eq(k[0], e if q[0]*e > 0 else 0)
    # the piece from an inserted knot: to the next point with its slope (or
    # the recorded finding, which divides by the whole interval)
    z = np.flatnonzero(flag[:-1])
    s2 = np.array([c[j + 1, 1] if j + 1 < len(c) else np.nan for j in z])
    v = np.isfinite(s2)
    g, s2 = z[v], s2[v]
    r, f = (s2 - c[g, 1])/2/h[g], (s2 - c[g, 1])/2/(t[g + 1] - t[g - 1])
    yield 'curvature after inserted knots, or the recorded finding', bool(
        eq(c[g, 0], r, 1e-7, 1e-9).all() or eq(c[g, 0], f, 1e-7, 1e-9).all())
    # either way, with the right curvature the next point is met
    yield 'inserted knots are where the spline can close', eq(
        c[g, 2] + (c[g, 1] + s2)/2*h[g], yh[g + 1], atol=sc)
    if shape == 'line':
        yield 'a line stays a line', both(eq(
            c[:, 1], -.2 + 0*h, 1e-7), eq(c[:, 0], 0*h, atol=1e-7))
        yield 'no knots are inserted', bool(np.all(flag == 0))


@lemma('C24', U_ + '_schumaker_qspline', bounded=True, args=dict(
    SEED, shape=Opt('curve', 'any', 'convex')), kinds=('scalar',), nconc=20)
def spline_pieces(seed, shape):
    rng = np.random.default_rng(int(seed))
    n = int(rng.integers(6, 30))
    x = np.cumsum(rng.uniform(.3, 2, n))
    y = dict(curve=8 - np.exp((x - x[-1])/2)*8, any=rng.uniform(0, 9, n),
             convex=(x - x[0])**2)[shape]
    t, c, yh, flag = pv.ivtools.utils._schumaker_qspline(x, y)
    h = np.diff(t)
    sc = 1e-4*max(1, np.max(np.abs(y)))
    yield 'the spline is continuous', eq(
        c[:, 0]*h**2 + c[:, 1]*h + c[:, 2], yh[1:], atol=sc)
    yield 'its slope is continuous', eq(
        (2*c[:, 0]*h + c[:, 1])[:-1], c[1:, 1], atol=sc)


def quartic(seed, n=30):
    rng = np.random.default_rng(int(seed))
    x = np.cumsum(rng.uniform(.2, 1.5, int(rng.integers(5, n)))) - 8
    return x, np.poly1d(rng.uniform(-1, 1, 5))


@lemma('C24', U_ + '_numdiff', bounded=True, args=SEED, kinds=('scalar',),
       nconc=60)
def first_derivative(seed):
    x, p = quartic(seed)
    d, d2 = pv.ivtools.utils._numdiff(x, p(x))
    s = max(1, np.max(np.abs(p(x))))
    yield 'exact for polynomials up to the fourth degree', eq(
        d[2:-2], p.deriv()(x[2:-2]), 1e-7, 1e-7*s)
    # the true second derivative or the recorded finding, nothing else
    w = []
    for j in range(2, len(x) - 2):
        a = x[j - 2:j + 3] - x[j]

        def pairs(k, wrong):
            o = [m for m in range(5) if m != k]
            z = [(m, n) for m in o for n in o if m < n]
            if wrong and k == 2:
                z[z.index((1, 4))] = (1, 3)
            if wrong and k == 4:
                z[z.index((1, 3))] = (1, 4)
            return sum(a[m]*a[n] for m, n in z)
        w.append(2*sum(pairs(k, True)*p(x[j - 2 + k]) for k in range(5)))
    w = np.array(w)
    yield 'second derivative, or the recorded finding', bool(
        eq(d2[2:-2], p.deriv(2)(x[2:-2]), 1e-6, 1e-6*s).all()
        or eq(d2[2:-2], w, 1e-7, 1e-9*np.max(np.abs(w))).all())
    for n, v in (('first', d), ('second', d2)):
        yield n + ' missing at the ends', bool(
            np.isnan(v[:2]).all() and np.isnan(v[-2:]).all()
            and np.isfinite(v[2:-2]).all())


@lemma('C24', U_ + '_numdiff', bounded=True, args=SEED, kinds=('scalar',),
       nconc=20)
def second_derivative(seed):
    x, p = quartic(seed)
    d2 = pv.ivtools.utils._numdiff(x, p(x))[1]
    s = max(1, np.max(np.abs(p(x))))
    yield 'exact for polynomials up to the fourth degree', eq(
        d2[2:-2], p.deriv(2)(x[2:-2]), 1e-6, 1e-6*s)


@lemma('C24', U_ + 'astm_e1036', bounded=True, args=dict(
    {**DIODE, **SEED}, order=Opt(None, 3, 5), touch=Opt(True, False),
    limits=Opt(None, P(.8, .9))), kinds=('scalar',), nconc=60)
def astm(seed, il, io, rs, rsh, a, order, touch, limits):
    rng = np.random.default_rng(int(seed))
    p = il, io, rs, rsh, a
    isc, voc, vmp, imp = points(*p)
    # evenly spread points, so that the line through the three nearest to
    # an axis meets it near the curve
    v = (np.linspace(-.01, 1.01, 150) + rng.uniform(-.002, .002, 150))*voc
    i = current(v, *p)
    if touch:
        v = np.r_[v, 0, voc]
        i = np.r_[i, isc, 0]
        o = rng.permutation(len(v))
        v, i = v[o], i[o]
    kw = {}
    if order is not None:
        kw['mp_fit_order'] = order
    if limits is not None:
        kw['imax_limits'] = (limits, 1.1)
        kw['vmax_limits'] = (limits, 1.12)
    d = pv.ivtools.utils.astm_e1036(v, i, **kw)
    yield 'isc', eq(d['isc'], isc, 1e-3)
    yield 'voc', eq(d['voc'], voc, 5e-3)
    if touch:
        yield 'points on the axes are taken', both(
            eq(d['isc'], isc, 1e-12), eq(d['voc'], voc, 1e-12))
    pw = v*i
    j = int(np.argmax(pw))
    lo, hi = kw.get('imax_limits', (.75, 1.15))
    vl, vh = kw.get('vmax_limits', (.75, 1.15))
    m = ((i >= lo*i[j]) & (i <= hi*i[j]) & (v >= vl*v[j]) & (v <= vh*v[j]))
    q = np.polynomial.polynomial.Polynomial.fit(v[m], pw[m], order or 4)
    fine = np.linspace(v[m].min(), v[m].max(), 4001)
    k = int(np.argmax(q(fine)))
    if 0 < k < 4000:
        yield 'pmp is the top of the fitted polynomial', eq(
            d['pmp'], q(fine).max(), 1e-5)
        yield 'vmp is where', eq(d['vmp'], fine[k], 1e-3)
    yield 'imp', eq(d['imp']*d['vmp'], d['pmp'])
    yield 'fill factor', eq(d['ff']*d['isc']*d['voc'], d['pmp'])
    yield 'the fit', eq(d['mp_fit'](fine), q(fine), 1e-7)
    yield 'pmp', eq(d['pmp'], vmp*imp, .02)


# --------------------------------------- pieces of the Sandia sdm extraction
VEC = dict(SEED)


def sets(seed, n=6):
    rng = np.random.default_rng(int(seed))
    ee = np.linspace(200, 1000, n)*rng.uniform(.98, 1.02, n)
    il = rng.uniform(5, 9)*ee/1000
    io = 10**rng.uniform(-10, -8, n)
    rs, rsh = rng.uniform(.15, .5, n), rng.uniform(100, 900, n)*1000/ee
    a = rng.uniform(1.4, 2.1, n)
    pt = points(il, io, rs, rsh, a)
    return (rng, ee, (il, io, rs, rsh, a)) + tuple(pt)


@lemma('C24', F_ + '_update_io', bounded=True, args=VEC, kinds=('scalar',),
       samples=40)
def update_io(seed):
    rng, ee, (il, io, rs, rsh, a), isc, voc, vmp, imp = sets(seed)
    off = io*rng.uniform(.5, 1.6, len(io))
    f = pv.ivtools.sdm._fit_desoto_pvsyst_sandia._update_io
    got = f(voc, il, off, rs, rsh, a)
    yield 'the open circuit voltage is met', eq(got, io, 1e-5)
    yield 'a solution stays', eq(f(voc, il, io, rs, rsh, a), io, 1e-7)


@lemma('C24', F_ + '_calc_theta_phi_exact', bounded=True, args=VEC,
       kinds=('scalar',), samples=40)
def theta_phi(seed):
    rng, ee, (il, io, rs, rsh, a), isc, voc, vmp, imp = sets(seed)
    f = pv.ivtools.sdm._fit_desoto_pvsyst_sandia._calc_theta_phi_exact
    for s in (1., 400.):               # also where the exponential overflows
        th, ph = f(vmp, imp, il, io, rs, rsh*s, a)
        r = rsh*s
        # w + ln w = ln of the argument
        lp = np.log(r*io/a) + r*(il + io - imp)/a
        lt = (np.log(r*rs*io/(a*(r + rs)))
              + r*(rs*(il + io) + vmp)/(a*(r + rs)))
        yield f'phi {s:g}', eq(ph + np.log(ph), lp, 1e-6, 1e-6)
        yield f'theta {s:g}', eq(th + np.log(th), lt, 1e-6, 1e-6)
    # the voltage at a current from phi
    th, ph = f(vmp, imp, il, io, rs, rsh, a)
    yield 'phi gives the voltage', eq(
        (il + io - imp)*rsh - imp*rs - a*ph, vmp, 1e-6)
    yield 'theta gives the current', eq(
        (rsh*(il + io) - vmp)/(rsh + rs) - a/rs*th, imp, 1e-5)


@lemma('C24', F_ + '_update_rsh_fixed_pt', bounded=True, args=VEC,
       kinds=('scalar',), samples=40)
def update_rsh(seed):
    rng, ee, (il, io, rs, rsh, a), isc, voc, vmp, imp = sets(seed)
    m = pv.ivtools.sdm._fit_desoto_pvsyst_sandia
    got = m._update_rsh_fixed_pt(vmp, imp, il, io, rs, rsh, a)
    ok = np.isfinite(got) & (got > 0)
    yield 'the true shunt is a fixed point', bool(ok.any())
    # of the condition that power is stationary at the point
    z = m._calc_theta_phi_exact(vmp, imp, il, io, rs, got, a)[1]
    yield 'fixed point', eq(((1 + z)/z*((il + io)*got - a*z - 2*vmp)/imp)[ok],
                            got[ok], 1e-6)


@lemma('C24', F_ + '_filter_params', bounded=True, args=VEC,
       kinds=('scalar',), nconc=60)
def filter_params(seed):
    rng = np.random.default_rng(int(seed))
    n = 20
    ee = rng.uniform(100, 1100, n)
    isc = 8.*ee/1000*rng.choice([1, 1, 1, 1, 1.03, .8], n)
    io = rng.choice([1e-9, 1e-10, 1e-8, 0, -1e-9, np.nan], n,
                    p=[.3, .3, .25, .05, .05, .05])
    rs = rng.choice([.2, .4, 0, -.1, np.nan, 5], n,
                    p=[.4, .3, .1, .05, .05, .1])
    rsh = rng.choice([100, 900, 3, -50, np.nan], n, p=[.4, .3, .15, .05, .1])
    u = pv.ivtools.sdm._fit_desoto_pvsyst_sandia._filter_params(
        ee, isc, io, rs, rsh)
    eff = np.sum(ee*isc)/np.sum(ee*ee)
    w = [bool(io[j] > 0 and rs[j] >= 0 and rsh[j] >= rs[j]
              and abs(eff*ee[j] - isc[j]) <= .05*isc[j]) for j in range(n)]
    # a shunt of exactly zero passes only with rs zero
    yield 'the good sets', [bool(x) for x in u] == w


@lemma('C24', F_ + '_check_converge', bounded=True, args=VEC,
       kinds=('scalar',), nconc=30)
def converge(seed):
    rng = np.random.default_rng(int(seed))
    f = pv.ivtools.sdm._fit_desoto_pvsyst_sandia._check_converge
    n = 9
    imp, vmp = rng.uniform(3, 9, n), rng.uniform(20, 40, n)

    def result():
        i = imp*rng.uniform(.98, 1.03, n)
        v = vmp*rng.uniform(.98, 1.03, n)
        return dict(i_mp=i, v_mp=v, p_mp=i*v)
    a, b = result(), result()
    p = f({'state': 0.}, a, vmp, imp, 1)
    q = f(p, b, vmp, imp, 2)
    for k, ref in (('i', imp), ('v', vmp), ('p', imp*vmp)):
        st = []
        for r, d in ((a, p), (b, q)):
            e = 100*(r[k + '_mp']/ref - 1)
            s = dict(max=e.max(), min=e.min(), absmax=np.abs(e).max(),
                     mean=e.mean(), std=e.std(ddof=1))
            st.append(s)
            for m, w in s.items():
                yield f'{k} {m}', eq(d[f'{k}mperr{m}'], w, 1e-7, 1e-9)
        for m in ('mean', 'std', 'absmax'):
            yield f'{k} {m} no previous', p[f'{k}mperr{m}change'] == np.inf
            yield f'{k} {m} change', eq(
                q[f'{k}mperr{m}change'], abs(st[1][m]/st[0][m] - 1), 1e-6,
                1e-9)
    yield 'state', p['state'] == q['state'] == 1


# --------------------------------------------------- whole sets of IV curves
QK = 1.602176634e-19/1.380649e-23


def family(seed, model):
    """IV curves of one module at several irradiances and temperatures"""
    rng = np.random.default_rng(int(seed))
    ns = 60
    g, t = [x.ravel() for x in np.meshgrid(
        [200., 400.5, 600, 800, 1000, 1100], [15., 25, 40, 55])]
    tk, t0 = t + 273.15, 298.15
    alpha = rng.uniform(.002, .005)
    il0 = rng.uniform(7, 9.5)
    io0 = 10**rng.uniform(-9.8, -9)
    rs = rng.uniform(.2, .4)
    n0 = rng.uniform(1.02, 1.12)
    il = g/1000*(il0 + alpha*(t - 25))
    if model == 'desoto':
        rr = rng.uniform(300, 600)
        rsh = rr*1000/g
        n = n0 + 0*t
        eg = 1.121*(1 - .0002677*(t - 25))
        io = io0*(tk/t0)**3*np.exp(QK*(1.121/t0 - eg/tk))
        more = {}
    else:
        rr, r0 = rng.uniform(300, 500), rng.uniform(1500, 3000)
        base = (rr - r0*np.exp(-5.5))/(1 - np.exp(-5.5))
        rsh = base + (r0 - base)*np.exp(-5.5*g/1000)
        mu = rng.uniform(-4e-4, 4e-4)
        n = n0 + mu*(t - 25)
        io = io0*(tk/t0)**3*np.exp(QK*1.121/n*(1/t0 - 1/tk))
        more = dict(mu_gamma=mu, R_sh_0=r0)
    a = n*ns*tk/QK
    pt = points(il, io, rs, rsh, a)
    vs, cs = [], []
    for j, q in enumerate(zip(il, io, rs + 0*g, rsh, a)):
        v = np.linspace(0, pt[1][j], 80)
        i = current(v, *q)
        i[-1] = 0
        vs.append(v)
        cs.append(i)
    iv = dict(v=vs, i=cs, ee=g, tc=t, i_sc=pt[0], v_oc=pt[1], v_mp=pt[2],
              i_mp=pt[3])
    # temperature coefficient of the open circuit voltage at 1000 W/m2
    s = g == 1000
    beta = np.polyfit(t[s], pt[1][s], 1)[0]
    truth = dict(I_L_ref=il0, I_o_ref=io0, EgRef=1.121, R_sh_ref=rr, R_s=rs,
                 n=n0, **more)
    return iv, dict(cells_in_series=ns, alpha_sc=alpha, beta_voc=beta), truth


def quiet(fn, *a):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


@lemma('C24', D_ + 'fit_desoto_sandia', bounded=True, args=SEED,
       kinds=('scalar',), samples=4)
def desoto_sandia(seed):
    iv, specs, w = family(seed, 'desoto')
    d = pv.ivtools.sdm.fit_desoto_sandia(iv, specs)
    u = np.asarray(d['u'], bool)
    yield 'most curves are used', u.mean() > .9
    for k, tol in (('I_L_ref', 1e-3), ('R_s', .02), ('R_sh_ref', .03)):
        yield k, eq(d[k], w[k], tol)
    yield 'a_ref', eq(d['a_ref'], w['n']*60*298.15/QK, .003)
    yield 'I_o_ref', eq(d['I_o_ref'], w['I_o_ref'], .05)
    yield 'cells', d['cells_in_series'] == 60
    yield 'dEgdT', d['dEgdT'] == -.0002677
    # the band gap, or the recorded finding (the sign of dEgdT)
    t, t0 = iv['tc'] + 273.15, 298.15
    x, y = 1/t0 - 1/t, -.0002677*(iv['tc'] - 25)/t
    f = np.polyfit(x + y, x - y, 1)[0]
    yield 'EgRef, or the recorded finding', bool(
        eq(d['EgRef'], 1.121, .005) or eq(d['EgRef'], 1.121*f, .005))
    # reference conditions may be given
    c = dict(pv.ivtools.sdm.desoto.CONSTANTS, E0=900.)
    e = pv.ivtools.sdm.fit_desoto_sandia(iv, specs, c)
    yield 'reference irradiance', eq(e['I_L_ref'], d['I_L_ref']*.9, 1e-2)


@lemma('C24', D_ + 'fit_desoto_sandia', bounded=True, args=SEED,
       kinds=('scalar',), samples=1)
def desoto_gap(seed):
    iv, specs, w = family(seed, 'desoto')
    d = pv.ivtools.sdm.fit_desoto_sandia(iv, specs)
    yield 'EgRef is recovered', eq(d['EgRef'], 1.121, .01)


@lemma('C24', Y_ + 'fit_pvsyst_sandia', bounded=True, args=SEED,
       kinds=('scalar',), samples=4)
def pvsyst_sandia(seed):
    iv, specs, w = family(seed, 'pvsyst')
    d = quiet(pv.ivtools.sdm.fit_pvsyst_sandia, iv, specs)
    u = np.asarray(d['u'], bool)
    yield 'most curves are used', u.mean() > .9
    for k, tol in (('I_L_ref', 1e-3), ('R_s', .02), ('EgRef', .005),
                   ('R_sh_ref', .02), ('R_sh_0', .02), ('I_o_ref', .05)):
        yield k, eq(d[k], w[k], tol)
    yield 'gamma_ref', eq(d['gamma_ref'], w['n'], .003)
    yield 'mu_gamma', eq(d['mu_gamma'], w['mu_gamma'], .05, 1e-5)
    yield 'R_sh_exp', d['R_sh_exp'] == 5.5
    yield 'cells', d['cells_in_series'] == 60


@lemma('C24', Y_ + '_fit_pvsyst_sandia_gamma', bounded=True, args=SEED,
       kinds=('scalar',), nconc=30)
def gamma_regression(seed):
    rng = np.random.default_rng(int(seed))
    n, ns = 20, 72
    t = rng.uniform(285, 340, n)
    vth = t/QK
    c = rng.uniform(-30, -10), rng.uniform(.8, 1.2), \
        rng.uniform(-1e-3, 1e-3), rng.uniform(.8, 1), \
        rng.uniform(-1e-3, 1e-3)
    rsh = rng.uniform(200, 900, n)
    voc = rng.uniform(35, 45, n)
    x1, x2, dt = QK*(1/298.15 - 1/t), voc/vth/ns, t - 298.15
    y = c[0] + c[1]*x1 - c[2]*x1*dt + c[3]*x2 - c[4]*x2*dt
    isc = np.exp(y + 3*np.log(t/298.15)) + voc/rsh
    f = pv.ivtools.sdm.pvsyst._fit_pvsyst_sandia_gamma
    got = f(voc, isc, rsh, vth, t, dict(cells_in_series=ns),
            pv.ivtools.sdm.pvsyst.CONSTANTS)
    yield 'gamma', eq(got[0], 1/c[3], 1e-5)
    yield 'its temperature coefficient', eq(got[1], c[4]/c[3]**2, 1e-3, 1e-7)
    # 1/n to first order in the temperature
    isc[3] = np.nan
    got = f(voc, isc, rsh, vth, t, dict(cells_in_series=ns),
            pv.ivtools.sdm.pvsyst.CONSTANTS)
    yield 'a missing curve is left out', eq(got[0], 1/c[3], 1e-5)


@lemma('C24', D_ + '_fit_desoto_sandia_diode', bounded=True, args=SEED,
       kinds=('scalar',), nconc=20)
def diode_factor(seed):
    rng = np.random.default_rng(int(seed))
    k = 20
    t, g = rng.uniform(10, 70, k), rng.uniform(100, 1100, k)
    n, beta, v0 = rng.uniform(1, 1.5), rng.uniform(-.2, -.1), 40.
    vth = (t + 273.15)/QK
    voc = v0 + beta*(t - 25) + n*72*vth*np.log(g/1000)
    got = pv.ivtools.sdm.desoto._fit_desoto_sandia_diode(
        g, voc, vth, t, dict(cells_in_series=72, beta_voc=beta),
        pv.ivtools.sdm.desoto.CONSTANTS)
    yield 'ideality', eq(got, n, 1e-4)


# ---------------------------------------- PVsyst model from IEC 61853 tables
def table(seed):
    """matrix of IEC 61853 conditions of a module that follows the PVsyst
    model"""
    rng = np.random.default_rng(int(seed))
    g, t = [x.ravel() for x in np.meshgrid(
        [100., 200, 400, 600, 800, 1000, 1100], [15., 25, 50, 75])]
    p = dict(alpha_sc=rng.uniform(.002, .006), gamma_ref=rng.uniform(.9, 1.1),
             mu_gamma=rng.uniform(-5e-4, 5e-4), I_L_ref=rng.uniform(6, 10),
             I_o_ref=10**rng.uniform(-10, -9), R_sh_ref=rng.uniform(300, 900),
             R_sh_0=rng.uniform(1500, 4000), R_s=rng.uniform(.2, .4),
             cells_in_series=60, R_sh_exp=5.5, EgRef=1.121)
    return g, t, p, rng


def pvsyst_at(g, t, p):
    tk, t0 = t + 273.15, 298.15
    ga = p['gamma_ref'] + p['mu_gamma']*(t - 25)
    e = np.exp(-p['R_sh_exp'])
    base = (p['R_sh_ref'] - p['R_sh_0']*e)/(1 - e)
    base = np.maximum(base, 0)
    rsh = base + (p['R_sh_0'] - base)*np.exp(-p['R_sh_exp']*g/1000)
    il = g/1000*(p['I_L_ref'] + p['alpha_sc']*(t - 25))
    io = p['I_o_ref']*(tk/t0)**3*np.exp(QK*p['EgRef']/ga*(1/t0 - 1/tk))
    return il, io, p['R_s'] + 0*g, rsh, ga*p['cells_in_series']*tk/QK


def pick(p, names):
    return {k: p[k] for k in names.split()}


M_ = '_pvsyst_iec61853_sandia_2025'
RSH = 'R_sh_ref R_sh_0 R_sh_exp'


@lemma('C24', Y_ + '_fit_tempco' + M_, bounded=True, args=dict(
    SEED, ref=Opt(None, P(15, 45))), kinds=('scalar',), nconc=30)
def tempco(seed, ref):
    rng = np.random.default_rng(int(seed))
    t = rng.uniform(10, 80, 8)
    a, b = rng.uniform(5, 50), rng.uniform(-.2, .2)
    f = getattr(pv.ivtools.sdm.pvsyst, '_fit_tempco' + M_)
    r = 25 if ref is None else ref
    yield 'relative slope at the reference temperature', eq(
        f(a + b*(t - r), t, *(() if ref is None else (ref,))), b/a, 1e-6,
        1e-9)


@lemma('C24', Y_ + '_fit_shunt_resistances' + M_, bounded=True, args=dict(
    SEED, coeff=P(.1, .3), floor=Opt(None, 200.5)), kinds=('scalar',),
    nconc=30)
def shunts(seed, coeff, floor):
    g, t, p, rng = table(seed)
    rsh = pvsyst_at(g, t, p)[3]
    beta = -.004
    isc = 9*g/1000
    vmp = 30*(1 + .02*np.log(g/1000))*(1 + beta*(t - 25))
    imp = isc - vmp/(1 + beta*(t - 25))/(coeff*rsh)
    if floor is not None:
        imp = np.where(g < floor, imp*.9, imp)
    f = getattr(pv.ivtools.sdm.pvsyst, '_fit_shunt_resistances' + M_)
    got = f(isc, imp, vmp, g, t, beta, coeff, floor)
    for n, v in zip(RSH.split(), got):
        yield n, eq(v, p[n], 1e-5)


@lemma('C24', Y_ + '_fit_series_resistance' + M_, bounded=True, args=SEED,
       kinds=('scalar',), nconc=30)
def series_resistance(seed):
    rng = np.random.default_rng(int(seed))
    i, v = rng.uniform(1, 9, 12), rng.uniform(25, 35, 12)
    c = rng.uniform(.1, 2, 4)
    f = getattr(pv.ivtools.sdm.pvsyst, '_fit_series_resistance' + M_)
    yield 'the coefficient of the current', eq(
        f(c[0] + c[1]*i + c[2]*np.log(i) + c[3]*v, i, v), c[1], 1e-6)


@lemma('C24', Y_ + '_fit_saturation_current' + M_, bounded=True, args=SEED,
       kinds=('scalar',), nconc=20)
def saturation(seed):
    g, t, p, rng = table(seed)
    q = pvsyst_at(g, t, p)
    il, io, rs, rsh, a = q
    pt = points(*q)
    f = getattr(pv.ivtools.sdm.pvsyst, '_fit_saturation_current' + M_)
    got = f(pt[0], pt[1], g, t, cells_in_series=60, **pick(
        p, 'gamma_ref mu_gamma R_s EgRef ' + RSH))
    # light current from the short circuit without its junction current
    est = (pt[0]*(1 + rs/rsh) - pt[1]/rsh)/(np.exp(pt[1]/a) - 1)
    yield 'geometric mean', eq(got, np.exp(np.mean(
        np.log(est*p['I_o_ref']/io))), 1e-9)
    yield 'saturation current', eq(got, p['I_o_ref'], 1e-3)


@lemma('C24', Y_ + '_fit_photocurrent' + M_, bounded=True, args=SEED,
       kinds=('scalar',), nconc=20)
def photocurrent(seed):
    g, t, p, rng = table(seed)
    isc = current(0*g, *pvsyst_at(g, t, p))
    f = getattr(pv.ivtools.sdm.pvsyst, '_fit_photocurrent' + M_)
    yield 'recovered', eq(f(isc, g, t, cells_in_series=60, **pick(
        p, 'alpha_sc gamma_ref mu_gamma I_o_ref R_s EgRef ' + RSH)),
        p['I_L_ref'], 1e-7)


@lemma('C24', Y_ + '_fit_diode_ideality_factor' + M_, bounded=True, args=SEED,
       kinds=('scalar',), nconc=20)
def ideality(seed):
    g, t, p, rng = table(seed)
    g, t = g[t == 25], t[t == 25]
    il, io, rs, rsh, a = pvsyst_at(g, t, p)
    pt = points(il, io, rs, rsh, a)
    isc, voc, vmp, imp = pt
    f = getattr(pv.ivtools.sdm.pvsyst, '_fit_diode_ideality_factor' + M_)
    got = f(isc, voc, imp, vmp, g, t, cells_in_series=60, **pick(
        p, 'R_s ' + RSH))
    yield 'gamma', eq(got[0], p['gamma_ref'], 1e-3)
    yield 'no temperature coefficient yet', got[1] == 0
    # least squares in the logarithm of the current ratio
    x = 60*298.15/QK*np.log((isc - imp + ((isc - imp)*rs - vmp)/rsh)
                            / (isc + (isc*rs - voc)/rsh))
    y = vmp + imp*rs - voc
    yield 'least squares', eq(got[0], np.sum(x*y)/np.sum(x*x), 1e-9)


@lemma('C24', Y_ + '_fit_diode_ideality_factor_post' + M_, bounded=True,
       args=SEED, kinds=('scalar',), nconc=20)
def ideality_post(seed):
    g, t, p, rng = table(seed)
    q = pvsyst_at(g, t, p)
    pt = points(*q)
    f = getattr(pv.ivtools.sdm.pvsyst, '_fit_diode_ideality_factor_post' + M_)
    got = f(pt[3], pt[2], g, t, cells_in_series=60, **pick(
        p, 'alpha_sc I_L_ref I_o_ref R_s EgRef ' + RSH))
    yield 'gamma', eq(got[0], p['gamma_ref'], 1e-5)
    yield 'its temperature coefficient', eq(got[1], p['mu_gamma'], 1e-3, 1e-7)


@lemma('C24', Y_ + 'fit' + M_, bounded=True, args=dict(
    SEED, rs=Opt(True, False), alpha=Opt(True, False), beta=Opt(True, False),
    floor=Opt(None, 150.)), kinds=('scalar',), samples=40)
def pvsyst_2025(seed, rs, alpha, beta, floor):
    g, t, p, rng = table(seed)
    isc, voc, vmp, imp = points(*pvsyst_at(g, t, p))
    m = pv.ivtools.sdm.pvsyst
    kw = {}
    st, sg = np.abs(t - 25) <= 1, np.abs(g - 1000) <= 20
    if alpha:
        kw['alpha_sc'] = p['alpha_sc']
    if beta:
        kw['beta_mp'] = -.004
    if rs:
        kw['R_s'] = p['R_s']
    if floor is not None:
        kw['min_Rsh_irradiance'] = floor
    d = m.fit_pvsyst_iec61853_sandia_2025(g, t, isc, voc, imp, vmp, 60, **kw)
    al = kw.get('alpha_sc', np.polyfit(t[sg], isc[sg], 1)[0])
    yield 'alpha', eq(d['alpha_sc'], al, 1e-3)
    be = kw.get('beta_mp')
    if be is None:
        s, i = np.polyfit(t[sg], vmp[sg], 1)
        be = s/(i + 25*s)
    h = getattr(m, '_fit_shunt_resistances' + M_)(
        isc, imp, vmp, g, t, be, .12, floor)
    for n, v in zip(RSH.split(), h):
        yield n, eq(d[n], v, 1e-7)
    r = kw.get('R_s', getattr(m, '_fit_series_resistance' + M_)(
        voc, imp, vmp))
    yield 'R_s', eq(d['R_s'], r)
    ga = getattr(m, '_fit_diode_ideality_factor' + M_)(
        isc[st], voc[st], imp[st], vmp[st], g[st], t[st], *h, r, 60)
    io = getattr(m, '_fit_saturation_current' + M_)(
        isc, voc, g, t, *ga, *h, r, 60, 1.121)
    yield 'I_o_ref', eq(d['I_o_ref'], io, 1e-7)
    il = getattr(m, '_fit_photocurrent' + M_)(
        isc, g, t, al, *ga, io, *h, r, 60, 1.121)
    yield 'I_L_ref', eq(d['I_L_ref'], il, 1e-5)
    w = getattr(m, '_fit_diode_ideality_factor_post' + M_)(
        imp, vmp, g, t, al, il, io, *h, r, 60, 1.121)
    yield 'gamma', eq(d['gamma_ref'], w[0], 1e-5)
    yield 'mu_gamma', eq(d['mu_gamma'], w[1], 1e-4, 1e-8)
    yield 'constants', (d['cells_in_series'], d['EgRef']) == (60, 1.121)


@lemma('C24', Y_ + 'pvsyst_temperature_coeff', bounded=True, args=dict(
    SEED, given=Opt(True, False)), kinds=('scalar',), nconc=20)
def power_coefficient(seed, given):
    g, t, p, rng = table(seed)
    e, r = (800., 30.) if given else (1000., 25.)
    if given:
        p['R_sh_exp'], p['EgRef'] = 4., 1.2
    kw = dict(p) if given else {k: v for k, v in p.items()
                                if k not in ('R_sh_exp', 'EgRef')}
    if given:
        kw.update(irrad_ref=e, temp_ref=r)
    got = pv.ivtools.sdm.pvsyst_temperature_coeff(**kw)

    def pmp(x):
        # the reference conditions are the ones given
        tk, t0 = x + 273.15, r + 273.15
        ga = p['gamma_ref'] + p['mu_gamma']*(x - r)
        io = p['I_o_ref']*(tk/t0)**3*np.exp(
            QK*p['EgRef']/ga*(1/t0 - 1/tk))
        z = points(p['I_L_ref'] + p['alpha_sc']*(x - r), io, p['R_s'],
                   p['R_sh_ref'], ga*60*tk/QK)
        return z[2]*z[3]
    d = .5
    # Richardson
    w = (4*(pmp(r + d/2) - pmp(r - d/2))/d - (pmp(r + d) - pmp(r - d))/2/d)/3
    yield 'relative slope of the power', eq(got, w/pmp(r), 1e-4)


# ----------------------------------------------------------- other fitters
INV = 'pvlib.inverter.fit_sandia'


@lemma('C24', INV, bounded=True, args=dict(
    SEED, paco=P(1e3, 1e5), pso=P(.002, .01), c0=P(-1e-1, -1e-2),
    c1=P(-2e-4, 2e-4), c2=P(-.02, .02), c3=P(-2e-3, 2e-3),
    vdco=P(250, 600), ctor=Opt('array', 'series')), kinds=('scalar',),
    nconc=40)
def inverter_fit(seed, paco, pso, c0, c1, c2, c3, vdco, ctor):
    rng = np.random.default_rng(int(seed))
    pdco, ps, c0 = paco*1.04, paco*pso, c0/paco
    lev = np.repeat(['Vmin', 'Vnom', 'Vmax'], 18)
    vd = np.repeat([vdco*.8, vdco, vdco*1.15], 18)
    pdc = np.tile(np.linspace(.1, 1.05, 18), 3)*paco
    dv = vd - vdco
    a, b, c = pdco*(1 + c1*dv), ps*(1 + c2*dv), c0*(1 + c3*dv)
    pac = (paco/(a - b) - c*(a - b))*(pdc - b) + c*(pdc - b)**2
    o = rng.permutation(len(vd))
    x = [z[o] for z in (pac, pdc, vd, lev)]
    if ctor == 'series':
        x = [pd.Series(z) for z in x]
    d = pv.inverter.fit_sandia(*x, paco, 12.)
    for n, w in dict(Paco=paco, Pdco=pdco, Vdco=vdco, Pso=ps, C0=c0,
                     Pnt=12.).items():
        yield n, eq(d[n], w, 1e-5)
    for n, w in dict(C1=c1, C2=c2, C3=c3).items():
        yield n, eq(d[n], w, 1e-3, 1e-7)
    yield 'keys', len(d) == 9


@lemma('C24', 'pvlib.pvarray.fit_pvefficiency_adr', bounded=True, args=dict(
    SEED, k_a=P(60, 110), k_d=P(-8, -4), tc_d=P(-.03, .05), k_rs=P(.01, .15),
    k_rsh=P(.01, .3), form=Opt('dict', 'array')), kinds=('scalar',),
    nconc=20)
def adr_fit(seed, k_a, k_d, tc_d, k_rs, k_rsh, form):
    g, t = [x.ravel() for x in np.meshgrid(
        [100., 200, 400, 600, 800, 1000, 1100], [15., 25, 50, 75])]
    s = g/1000
    s0, sr = 10.**(k_d + (t - 25)*tc_d), 10.**k_d
    v = np.log(s/s0 + 1)/np.log(1/sr + 1)
    eta = k_a*((1 + k_rs + k_rsh)*v - k_rs*s - k_rsh*v*v)
    got = pv.pvarray.fit_pvefficiency_adr(
        g, t, eta, **({} if form == 'dict' else {'dict_output': False}))
    n = ['k_a', 'k_d', 'tc_d', 'k_rs', 'k_rsh']
    if form == 'dict':
        yield 'names', sorted(got) == sorted(n)
        got = [got[x] for x in n]
    back = pv.pvarray.pvefficiency_adr(g, t, *got)
    yield 'the fitted efficiencies are the data', eq(back, eta, 2e-3)
    yield 'k_a', eq(got[0], k_a, 5e-3)


IAM = 'pvlib.iam.'


@lemma('C24', IAM + 'fit', bounded=True, args=dict(
    model=Opt('ashrae', 'martin_ruiz', 'physical'), b=P(.02, .2),
    a_r=P(.1, .35), n=P(1.2, 1.7), L=P(.001, .02), num=P(10, 60),
    weight=Opt(None, 'flat')), kinds=('scalar',), samples=40)
def iam_fit(model, b, a_r, n, L, num, weight):
    m = pv.iam
    aoi = np.linspace(0, 88, int(num))
    par = dict(ashrae=dict(b=b), martin_ruiz=dict(a_r=a_r),
               physical=dict(n=n, K=4, L=L))[model]
    y = getattr(m, model)(aoi, **par)
    kw = {} if weight is None else dict(weight=lambda x: 1 + 0*x)
    got = m.fit(aoi, y, model, **kw)
    yield 'parameters', sorted(got) == sorted(par)
    z = getattr(m, model)(aoi, **got)
    yield 'the fitted curve is the data', le(
        np.abs(np.nan_to_num(z) - y).max(), .02)
    if model != 'physical':
        k, = par
        yield 'the parameter is recovered', eq(got[k], par[k], 5e-3)


def badness(x, y, w):
    return float(np.sum(np.abs(np.nan_to_num(x) - y)*w))


@lemma('C24', IAM + 'convert', bounded=True, args=dict(
    source=Opt('ashrae', 'martin_ruiz', 'physical'),
    target=Opt('ashrae', 'martin_ruiz', 'physical'), b=P(.02, .15),
    a_r=P(.12, .3), n=P(1.3, 1.7), L=P(.001, .01), flat=Opt(False, True),
    fix_n=Opt(True, False)), kinds=('scalar',), samples=40)
def iam_convert(source, target, b, a_r, n, L, flat, fix_n):
    if source == target:
        return
    m = pv.iam
    par = dict(ashrae=dict(b=b), martin_ruiz=dict(a_r=a_r),
               physical=dict(n=n, K=4, L=L))[source]
    kw = dict(weight=lambda x: 1 + 0*x) if flat else {}
    if not fix_n:
        kw['fix_n'] = False
    got = m.convert(source, par, target, **kw)
    aoi = np.arange(91.)
    y = getattr(m, source)(aoi, **par)
    w = 1 + 0*aoi if flat else 1 - np.sin(np.radians(aoi))
    f = getattr(m, target)
    mine = badness(f(aoi, **got), y, w)
    # no other value of the parameter fits noticeably better
    if target == 'physical':
        yield 'n, K, L', sorted(got) == ['K', 'L', 'n'] and got['K'] == 4
        if source == 'ashrae' and fix_n:
            c = b/(1 + b)
            yield 'n from the angle where the source vanishes', eq(
                got['n'], np.sqrt(1 - c*c), 1e-6)
            best = min(badness(f(aoi, n=got['n'], K=4, L=x), y, w)
                       for x in np.linspace(1e-6, .08, 60))
            yield 'L is the best', mine <= best*1.05 + .02
        yield 'physical', 0 < got['L'] <= .08 and .8 <= got['n'] <= 2
    else:
        k, = got
        best = min(badness(f(aoi, **{k: x}), y, w)
                   for x in np.geomspace(1e-3, 1, 300))
        yield 'the parameter is the best', mine <= best*1.02 + .005


@lemma('C24', IAM + 'convert', bounded=True, args=dict(b=P(.02, .1)),
       kinds=('scalar',), samples=1)
def iam_refuses(b):
    m = pv.iam
    yield 'source without conversion', raises(
        NotImplementedError, m.convert, 'schlick', {}, 'ashrae')
    yield 'target without conversion', raises(
        NotImplementedError, m.convert, 'ashrae', {'b': b}, 'sapm')
    yield 'wrong parameters', raises(ValueError, m.convert, 'ashrae',
                                     {'a_r': b}, 'physical')
    yield 'extra parameters', raises(ValueError, m.convert, 'ashrae',
                                     {'b': b, 'a_r': b}, 'physical')
    yield 'model without a fit', raises(
        NotImplementedError, m.fit, np.arange(5.), np.ones(5), 'interp')


# ----------------------------------------------------------- SAM's own solver
@lemma('C24', 'pvlib.ivtools.sdm.cec.fit_cec_sam', bounded=True, args=dict(
    vmp=P(20, 45), imp=P(3, 10), voc=P(25, 55), isc=P(3, 11),
    alpha=P(.001, .01), beta=P(-.2, -.05), gamma=P(-.6, -.2), seed=P(0, 1e6)),
    kinds=('scalar',), samples=25)
def cec_sam(vmp, imp, voc, isc, alpha, beta, gamma, seed):
    from unittest import mock
    from PySAM import PySSC
    r = np.random.default_rng(int(seed))
    cells = int(r.choice([36, 60, 72, 96]))
    tech = str(r.choice(['monoSi', 'multiSi', 'cis', 'cigs', 'cdte',
                         'amorphous']))
    tref = float(r.choice([25, 20, 30]))
    args = [tech, vmp, imp, voc, isc, alpha, beta, gamma, cells]
    if tref != 25:
        args.append(tref)
    asked, done = [], bool(r.random() < .7)
    reply = {k: float(v) for k, v in zip(
        ('Il', 'Io', 'Rs', 'Rsh', 'a', 'Adj'), r.uniform(0, 9, 6))}

    def solver(d):
        asked.append(dict(d))
        return dict(reply, cmod_success=1) if done else dict(cmod_success=0)
    fit = pv.ivtools.sdm.fit_cec_sam
    with mock.patch.object(PySSC, 'ssc_sim_from_dict', solver):
        if done:
            yield 'the six parameters in order', tuple(fit(*args)) == tuple(
                reply[k] for k in ('Il', 'Io', 'Rs', 'Rsh', 'a', 'Adj'))
        else:
            yield 'failure is reported', raises(RuntimeError, fit, *args)
    yield 'asked once', len(asked) == 1
    q = asked[0]
    yield 'the module as given', all(q[k] == v for k, v in dict(
        tech_model='6parsolve', celltype=tech, Vmp=vmp, Imp=imp, Voc=voc,
        Isc=isc, alpha_isc=alpha, beta_voc=beta, gamma_pmp=gamma, Nser=cells,
        Tref=tref).items())


@lemma('C24', 'pvlib.ivtools.sdm.cec.fit_cec_sam', bounded=True, args=dict(
    il=P(7, 10), io=P(1e-10, 5e-10), rs=P(.2, .4), rsh=P(200, 600),
    a=P(1.45, 1.65)), kinds=('scalar',), samples=15)
def cec_sam_points(il, io, rs, rsh, a):
    """the curve of the fitted module goes through the datasheet points"""
    sd = pv.pvsystem.singlediode
    x = sd(il, io, rs, rsh, a)
    isc, voc, imp, vmp = (float(x[k]) for k in ('i_sc', 'v_oc', 'i_mp',
                                                'v_mp'))
    try:
        fit = pv.ivtools.sdm.fit_cec_sam(
            'monoSi', vmp, imp, voc, isc, .0005*isc, -.0031*voc, -.42, 60)
    except RuntimeError:
        return
    y = sd(*fit[:5])
    yield 'three points', both(
        eq(float(y['i_sc']), isc, rtol=5e-3), eq(float(y['v_oc']), voc,
                                                 rtol=5e-3),
        eq(float(y['p_mp']), imp*vmp, rtol=1e-2))
