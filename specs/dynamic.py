"""Thermal inertia, smoothing in time and space (C23)."""
from pvc.api import *
import math
import numpy as np
import pandas as pd

T_ = 'pvlib.temperature.'
G_ = 'pvlib.scaling.'
SB = 5.669e-8


@contract(T_ + '_hydraulic_diameter', prop='C23', args=dict(
    width=P(.1, 3, gt=0), height=P(.1, 3, gt=0)), kinds=('scalar',))
def diameter(width, height):
    return 4*(width*height)/(2*(width + height))


def convection(tave, wind, dt, xlen, tilt, laminar_only):
    """mixed convection of a flat plate: cube root of the sum of cubes"""
    rho = .003484*101325/tave
    nu = .24237e-6*tave**.76/rho
    k = 2.1695e-4*tave**.84
    re = wind*xlen/nu
    if not laminar_only and re > 1.2e5:
        forced = .0282/re**.2*rho*wind*1007/.71**.4
    else:
        forced = .86/re**.5*rho*wind*1007/.71**.67
    gr = 9.8/tave*dt*xlen**3/nu**2*np.sin(np.deg2rad(tilt))
    free = .21*(gr*.71)**.32*k/xlen
    return (free**3 + forced**3)**(1/3)


@contract(T_ + '_fuentes_hconv', prop='C23', args=dict(
    tave=P(250, 350, gt=100), windmod=P(.01, 30, gt=0),
    temp_delta=P(0, 60, ge=0), xlen=P(.1, 3, gt=0), tilt=P(1, 89, gt=0,
                                                          lt=90),
    check_reynold=Opt(True, False)), kinds=('scalar',), bounded=True)
def hconv(tave, windmod, temp_delta, xlen, tilt, check_reynold):
    return convection(tave, windmod, temp_delta, xlen, tilt,
                      not check_reynold)


def fuentes_ref(h, poa, ta, ws, noct, height=5, anemometer=9.144,
                emis=.84, absorb=.83, tilt=30, width=.31579, length=1.2):
    xlen = 2*width*length/(width + length)
    ti, t0 = noct + 273.15, 293.15
    d = ti - t0
    hc = convection((ti + t0)/2, 1., d, xlen, tilt, True)
    hg = emis*SB*(ti**2 + t0**2)*(ti + t0)
    back = (absorb*800 - emis*SB*(ti**4 - 282.21**4) - hc*d)/((hg + hc)*d)
    tg = min(max((ti**4 - back*(ti**4 - t0**4))**.25, t0), ti)
    ratio = (tg - t0)/d
    conv = (absorb*800 - emis*SB*(2*ti**4 - 282.21**4 - tg**4))/(hc*d)
    cap = 11000.*(1 + max(ti - 321.15, 0)/12)
    out, tm0, s0 = [], 293.15, 0.
    for i in range(len(poa)):
        amb, sun = ta[i] + 273.15, poa[i]*absorb
        wind = ws[i]*(height/anemometer)**.2 + 1e-4
        sky = .68*.0552*amb**1.5 + .32*amb
        step = (h[i] - h[i - 1] if i else h[1] - h[0])*3600
        tm = tm0
        for _ in range(10):
            hc = conv*convection((tm + amb)/2, wind, abs(tm - amb), xlen,
                                 tilt, False)
            hs = emis*SB*(tm**2 + sky**2)*(tm + sky)
            gr = amb + ratio*(tm - amb)
            hg = emis*SB*(tm**2 + gr**2)*(tm + gr)
            u = hc + hs + hg
            e = -u/cap*step
            x = math.exp(e) if e > -10 else 0.
            tm = tm0*x + ((1 - x)*(hc*amb + hs*sky + hg*gr + s0 + (
                sun - s0)/e) + sun - s0)/u
        out.append(tm - 273.15)
        tm0, s0 = tm, sun
    return np.array(out)


def times(n, step):
    s = step if isinstance(step, tuple) else (step,)
    m = np.cumsum([0.] + [s[i % len(s)] for i in range(n - 1)])
    return pd.DatetimeIndex(pd.Timestamp('2020-06-01') + pd.to_timedelta(
        np.round(m*60).astype('int64'), unit='s')).tz_localize('Etc/GMT+7')


@lemma('C23', T_ + 'fuentes', bounded=True, args=dict(
    poa=E(0, 1100, nan=False), temp=E(-20, 45, nan=False),
    wind=E(0, 15, nan=False, sp=[0]), noct=P(43, 55), step=Opt(
        60, 15, 1, (60, 30, 60)), opts=Opt(
        {}, dict(module_height=2, wind_height=10.), dict(
            emissivity=.9, absorption=.7), dict(
            surface_tilt=5, module_width=1., module_length=2.))),
    kinds=('array',), nconc=2)
def fuentes(poa, temp, wind, noct, step, opts):
    if len(poa) < 2:
        return
    poa, temp, wind = poa[:40], temp[:40], wind[:40]
    t = times(len(poa), step)
    a = [pd.Series(np.asarray(v, float), index=t) for v in (poa, temp, wind)]
    keep = [v.copy() for v in a]
    got = pv.temperature.fuentes(*a, noct, **opts)
    names = dict(module_height='height', wind_height='anemometer',
                 emissivity='emis', absorption='absorb', surface_tilt='tilt',
                 module_width='width', module_length='length')
    h = np.asarray((t - t[0]).total_seconds())/3600
    yield 'temperature', eq(got.values, fuentes_ref(
        h, poa, temp, wind, noct, **{names[k]: v for k, v in opts.items()}))
    yield 'index', got.index.equals(t)
    yield 'inputs are not modified', all(u.equals(v) for u, v in zip(a, keep))


@contract(T_ + '_adj_for_mounting_standoff', prop='C23', bounded=True,
          args=dict(x=E(-1, 5, nan=False, sp=[0, .5, 1.5, 2.5, 3.5])),
          kinds=('array',), loose=True)
def standoff(x):
    out = np.zeros(np.shape(x))
    for lo, hi, v in ((0, .5, 18), (.5, 1.5, 11), (1.5, 2.5, 6),
                      (2.5, 3.500000001, 2)):
        out = np.where((x >= lo) & (x < hi) & (x > 0) & (x <= 3.5), v, out)
    return out


@lemma('C23', T_ + 'prilliman', bounded=True, args=dict(
    temp=E(-10, 80), wind=E(0, 15), step=Opt(1, 5, .5, 7, 15, 19),
    mass=Opt(None, P(5, 20)), co=Opt(None, [.005, .0005, -.0002, -2e-5]),
    n=Opt(60, 3, 2)), kinds=('array',), nconc=3)
def prilliman(temp, wind, step, mass, co, n):
    if len(temp) < 3:
        return
    n = max(n, 3)
    temp, wind = temp[:n], wind[:n]
    t = times(len(temp), step)
    a = [pd.Series(np.asarray(v, float), index=t) for v in (temp, wind)]
    k = {} if mass is None else dict(unit_mass=mass)
    if co is not None:
        k['coefficients'] = co
    got = pv.temperature.prilliman(*a, **k)
    c = co or [.0046, .00046, -.00023, -1.6e-5]
    m = 11.1 if mass is None else mass
    out = []
    for i in range(len(temp)):
        if i == 0:
            out.append(temp[0])
            continue
        p = c[0] + c[1]*wind[i] + c[2]*m + c[3]*wind[i]*m
        num = den = 0.
        for j in range(1, int(20/step) + 1):
            if i - j >= 0 and temp[i - j] == temp[i - j]:
                w = math.exp(-p*j*step*60) if p == p else np.nan
                num, den = num + w*temp[i - j], den + w
        out.append(num/den if den or den != den else np.nan)
    yield 'temperature', eq(got.values, np.array(out))
    yield 'index', got.index.equals(t)


@lemma('C23', T_ + 'prilliman', bounded=True, args=dict(
    temp=E(-10, 80), step=Opt(20, 30, 60, 1440, 1445)), kinds=('array',),
    name='coarse steps', nconc=2)
def coarse(temp, step):
    if len(temp) < 3:
        return
    import warnings
    a = pd.Series(np.asarray(temp, float), index=times(len(temp), step))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = pv.temperature.prilliman(a, a*0)
    yield 'unchanged', got.equals(a)


@lemma('C23', T_ + 'prilliman', bounded=True, args={}, nconc=1,
       name='unequal steps')
def unequal():
    a = pd.Series(np.arange(9.), index=times(9, (1, 1, 2)))
    yield 'refused', raises(NotImplementedError, pv.temperature.prilliman, a,
                            a)


# --------------------------------------------------------------------- wvm
def smooth_mean(v, width):
    """mean over `width` samples around each, advanced by one, as far as
    there are samples"""
    n = len(v)
    out = np.empty(n)
    c = np.concatenate([[0.], np.cumsum(v)])
    for i in range(n):
        # centred window of even width ends (width/2 - 1) samples after i
        hi = min(i + (width - 1)//2 + 1, n)
        lo = max(i + (width - 1)//2 + 1 - width, 0)
        out[i] = (c[hi] - c[lo])/(hi - lo)
    out = np.roll(out, -1)
    out[-1] = out[-2]
    return out


def wvm_ref(v, pos, speed, dt):
    n = len(v)
    scales = [dt*2**i for i in range(int(13 - math.ceil(math.log2(dt))))]
    x = np.concatenate([v[::-1], v, v[::-1]])
    mean = [x] + [smooth_mean(x, 2**i) for i in range(1, len(scales))]
    wave = [a - b for a, b in zip(mean[:-1], mean[1:])] + [mean[-1]]
    wave = np.array([w[n:2*n] for w in wave])
    pos = np.asarray(pos, float)
    d = [math.dist(pos[i], pos[j]) for i in range(len(pos))
         for j in range(i + 1, len(pos))]
    out = 0.
    for i, (w, s) in enumerate(zip(wave, scales)):
        vr = len(pos)**2/(2*sum(math.exp(-q/(speed/2)/s) for q in d) +
                          len(pos))
        out = out + (w if i == len(scales) - 1 else w/math.sqrt(vr))
    return out, wave, np.array(scales)


@lemma('C23', G_ + 'wvm', bounded=True, args=dict(
    csi=E(0, 1.5, nan=False), speed=P(2, 30), x=Vec(6, P(0, 2000)),
    y=Vec(6, P(0, 2000)), sites=Opt(2, 4, 6), dt=Opt(1, 30, 60, 600),
    form=Opt('array', 'series', 'number')), kinds=('array',), nconc=2)
def wvm(csi, speed, x, y, sites, dt, form):
    if len(csi) < 3:
        return
    pos = np.column_stack([np.asarray(x), np.asarray(y)])[:sites]
    v = np.asarray(csi, float)
    k, s = {}, v
    if form == 'array':
        k['dt'] = dt
    elif form == 'series':
        s = pd.Series(v, index=times(len(v), dt/60))
    else:
        s = pd.Series(v, index=np.arange(len(v))*dt)
    got = pv.scaling.wvm(s, pos, speed, **k)
    want = wvm_ref(v, pos, speed, dt)
    for n, g, w in zip(('smoothed', 'wavelets', 'time scales'), got, want):
        yield n, eq(np.asarray(g), w, atol=1e-9)
    if form != 'array':
        yield 'index', got[0].index.equals(s.index)
    yield 'dt needed', raises(ValueError, pv.scaling.wvm, v, pos, speed)


@lemma('C23', G_ + 'latlon_to_xy', bounded=True, args=dict(
    lat=Vec(4, P(-60, 60)), lon=Vec(4, P(-170, 170))),
    kinds=('scalar',))
def latlon(lat, lon):
    lat, lon = np.asarray(lat, float), np.asarray(lon, float)
    m = 6371008.7714*np.pi/180
    got = pv.scaling.latlon_to_xy(list(zip(lat, lon)))
    yield 'east', eq(got[:, 0], lon*m*np.cos(np.radians(lat.mean())))
    yield 'north', eq(got[:, 1], lat*m)
    one = pv.scaling.latlon_to_xy((lat[0], lon[0]))
    yield 'one place', eq(one, np.array([lon[0]*m*np.cos(np.radians(lat[0])),
                                         lat[0]*m]))
