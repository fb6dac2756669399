"""Incidence angle modifiers (C07)."""
from pvc.api import *
import numpy as np
import pandas as pd

ALL = ('array', 'series', 'scalar')
M_ = 'pvlib.iam.'
AOI = E(-180, 180, sp=[0, 90, -90])


def cosd(v):
    return np.cos(np.deg2rad(v))


def sind(v):
    return np.sin(np.deg2rad(v))


def wrap(v, like):
    return pd.Series(v, index=like.index) if isinstance(like, pd.Series) \
        else v


@contract(M_ + 'ashrae', prop='C07',
          args=dict(aoi=E(-180, 180, sp=[90, -90]), b=Opt(0.05, P(0, 0.5))),
          kinds=ALL, loose=True)
def ashrae(aoi, b):
    a = np.asarray(aoi)
    with np.errstate(all='ignore'):
        v = np.maximum(1 - b*(1/cosd(a) - 1), 0)
    v = np.where(np.abs(a) >= 90, 0, v)
    return wrap(v, aoi)


@contract(M_ + 'schlick', prop='C07', args=dict(aoi=AOI), kinds=ALL)
def schlick(aoi):
    a = np.asarray(aoi)
    v = np.where(np.abs(a) >= 90, 0, 1 - (1 - cosd(a))**5)
    if not isinstance(aoi, (np.ndarray, pd.Series)):
        return v.item()
    return wrap(v, aoi)


@contract(M_ + 'martin_ruiz', prop='C07',
          args=dict(aoi=AOI, a_r=Opt(0.16, P(0.05, 0.5, gt=0), 0, -0.1)),
          kinds=ALL, loose=True)
def martin_ruiz(aoi, a_r):
    if a_r <= 0:
        raise ValueError
    a = np.asarray(aoi)
    v = (1 - np.exp(-cosd(a)/a_r))/(1 - np.exp(-1/a_r))
    return wrap(np.where(np.abs(a) >= 90, 0, v), aoi)


@contract(M_ + 'martin_ruiz_diffuse', prop='C07',
          args=dict(surface_tilt=E(0, 180, req=True, sp=[0, 90, 180]),
                    a_r=Opt(0.16, P(0.05, 0.5, gt=0)),
                    c1=Opt(0.4244, P(0.3, 0.5)),
                    c2=Opt(None, P(-0.1, 0.1))), kinds=ALL, loose=True)
def martin_ruiz_diffuse(surface_tilt, a_r, c1, c2):
    if c2 is None:
        c2 = 0.5*a_r - 0.154
    s = np.asarray(surface_tilt)
    s = np.where(s == 0, 1e-6, np.where(s == 180, 180 - 1e-6, s))
    b = np.radians(s)
    sb = np.where(s < 90, np.sin(b), np.sin(np.pi - b))
    up = sb + (np.pi - b - sb)/(1 + np.cos(b))
    dn = sb + (b - sb)/(1 - np.cos(b))
    sky = 1 - np.exp(-(c1 + c2*up)*up/a_r)
    gnd = 1 - np.exp(-(c1 + c2*dn)*dn/a_r)
    return wrap(sky, surface_tilt), wrap(gnd, surface_tilt)


SAPM = Dct(B0=P(0.8, 1.2), B1=P(-0.01, 0.01), B2=P(-1e-3, 1e-3),
           B3=P(-1e-5, 1e-5), B4=P(-1e-7, 1e-7), B5=P(-1e-9, 1e-9))


@contract(M_ + 'sapm', prop='C07',
          args=dict(aoi=AOI, module=SAPM, upper=Opt(None, 1, P(0.5, 1.5,
                                                               req=True))),
          kinds=ALL, loose=True)
def sapm(aoi, module, upper):
    a = np.asarray(aoi)
    v = (module['B0'] + module['B1']*a + module['B2']*a**2
         + module['B3']*a**3 + module['B4']*a**4 + module['B5']*a**5)
    v = np.maximum(v, 0)
    if upper is not None:
        v = np.minimum(v, upper)
    return wrap(np.where(a < 0, 0, v), aoi)


def fresnel(c1, n1, n2):
    """transmitted fractions (s, p, normal) and refracted cosine"""
    c2 = np.sqrt(1 - (n1/n2)**2*(1 - c1**2))
    rs = ((n1*c1 - n2*c2)/(n1*c1 + n2*c2))**2
    rp = ((n1*c2 - n2*c1)/(n1*c2 + n2*c1))**2
    r0 = ((n1 - n2)/(n1 + n2))**2
    return rs, rp, r0, c2


@contract(M_ + 'physical', prop='C07',
          args=dict(aoi=AOI, n=Opt(1.526, P(1.1, 2, req=True)),
                    K=Opt(4.0, P(0, 10, req=True)),
                    L=Opt(0.002, P(0, 0.1, req=True)), n_ar=Opt(None, 1)),
          kinds=ALL, loose=True)
def physical(aoi, n, K, L, n_ar):
    c = np.maximum(cosd(np.asarray(aoi)), 0)
    s = np.sqrt(1 - c**2)
    cr = np.sqrt(1 - (1/n*s)**2)
    with np.errstate(all='ignore'):
        rs = ((c - n*cr)/(c + n*cr))**2
        rp = ((cr - n*c)/(cr + n*c))**2
    r0 = ((1 - n)/(1 + n))**2
    ab = np.exp(-K*L/cr)
    t = ((1 - rs)*ab + (1 - rp)*ab)/2
    return wrap(t/((1 - r0)*np.exp(-K*L)), aoi)


@contract(M_ + 'physical', prop='C07',
          name=M_ + 'physical(anti-reflective)',
          args=dict(aoi=AOI, n=1.526, K=Opt(4.0, P(0, 10, req=True)),
                    L=0.002, n_ar=Opt(1.29, 1.4)),
          kinds=('array', 'scalar'), loose=True)
def physical_ar(aoi, n, K, L, n_ar):
    c = np.maximum(cosd(np.asarray(aoi)), 0)
    s = 1/n_ar*np.sqrt(1 - c**2)
    c2 = np.sqrt(1 - s**2)
    with np.errstate(all='ignore'):
        rs = ((c - n_ar*c2)/(c + n_ar*c2))**2
        rp = ((c2 - n_ar*c)/(c2 + n_ar*c))**2
    r0 = ((1 - n_ar)/(1 + n_ar))**2
    s = n_ar/n*s
    c3 = np.sqrt(1 - s**2)
    qs = ((n_ar*c2 - n*c3)/(n_ar*c2 + n*c3))**2
    qp = ((n_ar*c3 - n*c2)/(n_ar*c3 + n*c2))**2
    q0 = ((n_ar - n)/(n_ar + n))**2
    ts = (1 - rs)*((1 - qs)/(1 - qs*rs))
    tp = (1 - rp)*((1 - qp)/(1 - qp*rp))
    t0 = (1 - r0)*((1 - q0)/(1 - q0*r0))
    ab = np.exp(-K*L/c3)
    return (ts*ab + tp*ab)/2/(t0*np.exp(-K*L))


@contract(M_ + 'schlick_diffuse', prop='C07',
          args=dict(surface_tilt=E(0, 179, req=True, sp=[0, 90])),
          kinds=ALL)
def schlick_diffuse(surface_tilt):
    b = np.asarray(surface_tilt)
    c, s, r = cosd(b), sind(b), np.radians(b)
    pi = np.pi
    k = 2/(pi*(1 + c))*(
        30/7*pi - 160/21*r - 10/3*pi*c + 160/21*c*s - 5/3*pi*c*s**2
        + 20/7*c*s**3 - 5/16*pi*c*s**4 + 16/105*c*s**5)
    with np.errstate(all='ignore'):
        g = 40/(21*(1 - c)) - (1 + c)/(1 - c)*k
    g = np.where(b < 1e-6, 0, g)
    if not isinstance(surface_tilt, (np.ndarray, pd.Series)):
        return k.item(), g.item()
    return wrap(k, surface_tilt), wrap(g, surface_tilt)


# ------------------------------------------------------------------ lemmas
IN = dict(aoi=E(-180, 180, nan=False, req=True, sp=[0, 90, -90]),
          b=P(0, 0.5, req=True), a_r=P(0.05, 0.5, gt=0, le=0.5))


@lemma('C07', M_ + 'ashrae', args=IN, kinds=('array',))
def range_facts(aoi, b, a_r):
    m = pv.iam
    for n, f, even in (('ashrae', lambda v: m.ashrae(v, b), True),
                       ('schlick', m.schlick, True),
                       ('martin_ruiz', lambda v: m.martin_ruiz(v, a_r),
                        True)):
        v = f(aoi)
        yield n + ' within [0, 1]', between(v, 0, 1)
        yield n + ' is 1 at normal incidence', eq(f(0*aoi), 1)
        yield n + ' is 0 from 90 degrees on', implies(
            np.abs(aoi) >= 90, eq(v, 0))
        yield n + ' is even', eq(f(-aoi), v)


@lemma('C07', M_ + 'physical', args=dict(
    aoi=AOI, K=P(0, 10), L=P(0, 0.1), form=Opt('series', 'array')),
    kinds=('array',))
def physical_no_interface(aoi, K, L, form):
    """n = 1: only absorption is left, and nothing enters from behind"""
    x = np.asarray(aoi)
    got = pv.iam.physical(pd.Series(x) if form == 'series' else x, 1, K, L)
    yield 'kind kept', isinstance(
        got, pd.Series if form == 'series' else np.ndarray)
    got = np.asarray(got)
    c = np.where((x > -90) & (x < 90), cosd(x), np.nan)
    with np.errstate(all='ignore'):
        want = np.exp(-K*L/c + K*L)
    yield 'absorption only', implies((x > -89.9) & (x < 89.9), eq(got, want))
    yield 'none from behind', implies(x >= 90, eq(got, 0))


@lemma('C07', M_ + 'physical',
       args=dict(aoi=IN['aoi'], n=P(1.1, 2, req=True),
                 K=P(0, 10, req=True), L=P(0, 0.1, req=True)),
       kinds=('array',))
def physical_facts(aoi, n, K, L):
    f = pv.iam.physical
    v = f(aoi, n, K, L)
    yield 'is 1 at normal incidence', eq(f(0*aoi, n, K, L), 1)
    yield 'is even', eq(f(-aoi, n, K, L), v)
    yield 'is 0 beyond 90 degrees', implies(np.abs(aoi) > 90, eq(v, 0))
    yield 'never negative', le(0, v)
    yield 'coating of index 1 is no coating', eq(
        f(aoi, n, K, L, n_ar=1), v)


@lemma('C07', M_ + 'sapm', args=dict(aoi=AOI, m=SAPM), kinds=('array',))
def sapm_facts(aoi, m):
    v = pv.iam.sapm(aoi, m, 1)
    yield 'within [0, upper]', between(v, 0, 1)
    yield 'never negative', le(0, pv.iam.sapm(aoi, m))


@contract(M_ + 'interp', prop='C07',
          args=dict(aoi=E(-90, 90, sp=[0, 30, -30, 60, 90]),
                    theta_ref=(0., 30., 60., 90.),
                    iam_ref=Vec(4, P(0.05, 1.2, gt=0), ctor='list'),
                    method='linear', normalize=Opt(True, False)),
          kinds=('array', 'series'), loose=True)
def interp(aoi, theta_ref, iam_ref, method, normalize):
    a = np.abs(np.asarray(aoi))
    y = iam_ref
    v = np.where(a < 30, y[0] + (y[1] - y[0])*a/30, np.where(
        a < 60, y[1] + (y[2] - y[1])*(a - 30)/30,
        y[2] + (y[3] - y[2])*(a - 60)/30))
    v = np.maximum(v, 0)
    if normalize:
        v = v/y[0]
    return wrap(v, aoi)


@lemma('C07', M_ + 'interp', bounded=True, args=dict(
    seed=P(0, 1e6), method=Opt('nearest', 'nearest-up', 'zero', 'slinear',
                               'previous', 'next'),
    form=Opt('series', 'array', 'scalar'), normalize=Opt(True, False)),
    kinds=('scalar',), nconc=3)
def interp_steps(seed, method, form, normalize):
    rng = np.random.default_rng(int(seed))
    th = np.r_[0, np.sort(rng.choice(np.arange(1, 90), 5, False)), 90]*1.
    y = np.r_[.98, np.sort(rng.uniform(0, 1, 5))[::-1], 0]
    x = np.r_[rng.uniform(-89.7, 89.7, 4), -th[2], th[3]]
    if method.startswith('nearest'):
        x = x[:4]
    v = []
    for q in np.abs(x):
        i = int(np.searchsorted(th, q, side='right')) - 1    # th[i] <= q
        j = i if th[i] == q else i + 1                       # th[j] >= q
        w = 0 if i == j else (q - th[i])/(th[j] - th[i])
        v.append({'zero': y[i], 'previous': y[i], 'next': y[j],
                  'slinear': y[i] + w*(y[j] - y[i])}.get(
                      method, y[i] if w < .5 else y[j]))
    v = np.array(v)/(y[0] if normalize else 1)
    a = {'series': pd.Series(x, index=list('abcdef')[:len(x)]), 'array': x,
         'scalar': float(x[0])}[form]
    got = pv.iam.interp(a, th, y, method, normalize)
    if form == 'scalar':
        v = v[0]
    yield 'value', np.allclose(got, v, rtol=1e-9, atol=1e-12)
    if form == 'series':
        yield 'a series', got.index.equals(a.index)


@lemma('C07', M_ + 'interp', args={}, kinds=('array',))
def interp_bad():
    f = pv.iam.interp
    yield 'too few points', raises(ValueError, f, 10., [0.], [1.])
    yield 'too few points for cubic', raises(
        ValueError, f, 10., [0., 30., 60.], [1., .9, .8], 'cubic')
    yield 'negative modifiers', raises(ValueError, f, 10., [0., 90.],
                                       [1., -0.1])
    yield 'unknown method', raises(ValueError, f, 10., [0., 90.],
                                   [1., 0.], 'nope')


# ------------------------------------------------------- diffuse integration
@lemma('C07', M_ + 'marion_integrate',
       args=dict(tilt=E(0, 180, req=True, nan=False, sp=[0, 90, 180]),
                 num=Opt(2, 3, 4, 6), region=Opt('sky', 'ground'), k=P(0, 2)),
       kinds=('array', 'series', 'scalar'), nconc=10)
def constant_modifier(tilt, num, region, k):
    f = pv.iam.marion_integrate(lambda a: k + 0*a, tilt, region, num)
    yield 'constant modifier integrates to itself or to an unseen region', \
        either(eq(f, k), eq(f, 0))


def integrate(fn, tilt, region, num):
    """sum over the hemisphere grid, one cell at a time"""
    b = np.radians(np.asarray(tilt))
    d = np.pi/num
    up = dn = 0*b
    for i in range(num):
        p = i*d
        if region == 'sky':
            keep = i + 1 <= num/2
        elif region == 'ground':
            keep = i >= num/2
        else:
            keep = p >= 89.5*np.pi/180 and i + 1 <= num/2
        if not keep:
            continue
        for j in range(2*num):
            c = (np.cos(b)*np.cos(p + d/2)
                 + np.sin(b)*np.sin(p + d/2)*np.cos(j*d + d/2))
            a = np.arccos(c)
            w = c*d*(np.cos(p) - np.cos(p + d))
            w = np.where(a < np.pi/2, w, 0)
            up = up + fn(np.degrees(a))*w
            dn = dn + w
    with np.errstate(all='ignore'):
        r = np.where(dn != 0, up/dn, 0)
    return r


@contract(M_ + 'marion_integrate', prop='C07', bounded=True,
          args=dict(function=Val(lambda: lambda a: 1 - (a/90.)**2/2),
                    surface_tilt=E(1, 179, req=True, nan=False),
                    region=Opt('sky', 'ground', 'horizon'),
                    num=Opt(40, 45, 360)),
          kinds=('array', 'series'), nconc=4, loose=True)
def marion_integrate(function, surface_tilt, region, num):
    return wrap(integrate(function, surface_tilt, region, num),
                surface_tilt)


@lemma('C07', M_ + 'marion_diffuse', args={}, kinds=('array',))
def diffuse_bad():
    yield 'unknown model is rejected', raises(
        ValueError, pv.iam.marion_diffuse, 'nope', 20)
    yield 'unknown region is rejected', raises(
        ValueError, pv.iam.marion_integrate, pv.iam.schlick, 20, 'nope')


@lemma('C07', M_ + 'marion_diffuse', bounded=True,
       args=dict(tilt=E(0, 180, req=True, nan=False),
                 model=Opt('physical', 'ashrae', 'martin_ruiz', 'schlick')),
       kinds=('array',), nconc=2)
def diffuse_regions(tilt, model):
    t = tilt[:3]
    r = pv.iam.marion_diffuse(model, t)
    f = getattr(pv.iam, model)
    yield 'regions', set(r) == {'sky', 'horizon', 'ground'}
    for k in r:
        yield k + ' is the integral of the model', np.allclose(
            r[k], pv.iam.marion_integrate(f, t, k), equal_nan=True)
        yield k + ' within [0, 1]', np.all((r[k] > -1e-9) & (r[k] < 1 + 1e-9))
