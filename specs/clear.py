"""Clear-sky models (C13)."""
from pvc.api import *
import numpy as np
import pandas as pd
from collections import OrderedDict

C_ = 'pvlib.clearsky.'
Z = E(-10, 180, nan=True, sp=[0, 89.999, 90, 90.001])
KS = ('array', 'series', 'scalar')


def pack(out, *like):
    if any(isinstance(v, pd.Series) for v in like):
        return pd.DataFrame(out)
    return out


# ------------------------------------------------------------------ Ineichen
@contract(C_ + 'ineichen', prop='C13', args=dict(
    apparent_zenith=Z, airmass_absolute=E(0.3, 40, req=True),
    linke_turbidity=E(1, 8, gt=0, lt=50), altitude=Opt(0, P(-300, 8000)),
    dni_extra=E(1300, 1420, gt=0), perez_enhancement=Opt(False, True)),
    kinds=KS, loose=True)
def ineichen(apparent_zenith, airmass_absolute, linke_turbidity, altitude,
             dni_extra, perez_enhancement):
    z, am, tl, h = apparent_zenith, airmass_absolute, linke_turbidity, \
        altitude
    with np.errstate(all='ignore'):
        c = np.maximum(np.cos(np.radians(z)), 0)
        f1, f2 = np.exp(-h/8000.), np.exp(-h/1250.)
        a1, a2 = 5.09e-5*h + 0.868, 3.92e-5*h + 0.0387
        beam = np.exp(-a2*am*(f1 + f2*(tl - 1)))
        if perez_enhancement:
            beam = beam*np.exp(0.01*am**1.8)
        ghi = a1*dni_extra*c*np.where(np.isnan(tl), np.nan, 1)*np.where(
            np.isnan(beam), 0, beam)
        dni1 = dni_extra*np.fmax((0.664 + 0.163/f1)*np.exp(
            -0.09*am*(tl - 1)), 0)
        q = (1 - (0.1 - 0.2*np.exp(-tl))/(0.1 + 0.882/f1))/c
        dni = np.minimum(dni1, ghi*np.fmin(np.fmax(q, 0), 1e20))
        return pack({'ghi': ghi, 'dni': dni, 'dhi': ghi - dni*c},
                    z, am, tl, dni_extra)


@lemma('C13', C_ + 'ineichen', args=dict(
    z=E(-10, 180, nan=False, sp=[90]), am=E(0.3, 40, nan=False, req=True),
    tl=E(1, 8, nan=False, ge=1), h=P(0, 8000, ge=0),
    i0=E(1300, 1420, nan=False, ge=0), pe=Opt(False, True)),
    kinds=('array',))
def ineichen_closure(z, am, tl, h, i0, pe):
    r = pv.clearsky.ineichen(z, am, tl, h, i0, pe)
    c = np.cos(np.radians(z))
    yield 'ghi is not negative', ge(r['ghi'], 0)
    yield 'dni is not negative', ge(r['dni'], 0)
    yield 'closure', eq(r['ghi'], r['dhi'] + r['dni']*np.maximum(c, 0))
    yield 'night', implies(c < 0, both(eq(r['ghi'], 0), eq(r['dhi'], 0),
                                       eq(r['dni'], 0)))


# ------------------------------------------------------------------ Haurwitz
@contract(C_ + 'haurwitz', prop='C13',
          args=dict(apparent_zenith=Z), kinds=('series',))
def haurwitz(apparent_zenith):
    with np.errstate(all='ignore'):
        c = np.cos(np.radians(apparent_zenith))
        ghi = np.where(c > 0, 1098*c*np.exp(-0.059/c), 0)
        return pd.DataFrame({'ghi': ghi}, index=apparent_zenith.index)


# ------------------------------------------------------------ simplified Solis
def taud(a, w, lnp):
    """diffuse optical depth, Ineichen 2008"""
    low = a < 0.05
    co = [np.where(low, lo, hi) for lo, hi in (
        (86*w - 13800, -0.21*w + 11.6), (-3.11*w + 79.4, 0.27*w - 20.7),
        (-0.23*w + 74.8, -0.134*w + 15.5), (0.092*w - 8.86, 0.0554*w - 5.71),
        (0.0042*w + 3.12, 0.0057*w + 2.94),
        (-0.83*(1 + a)**-17.2, -0.71*(1 + a)**-15.))]
    return (co[0]*a**4 + co[1]*a**3 + co[2]*a**2 + co[3]*a + co[4]
            + co[5]*lnp)


SOLIS = dict(
    apparent_elevation=E(-90, 90, sp=[0, 90]),
    aod700=E(0, 0.45, sp=[0.05, 0], ge=0),
    precipitable_water=E(0.01, 10, sp=[0.2]),
    pressure=E(41000, 103000, gt=0), dni_extra=E(1300, 1420))


@contract(C_ + 'simplified_solis', prop='C13', args=SOLIS,
          kinds=('array', 'series', 'scalar', 'mixed', 'mixed2'), loose=True)
def simplified_solis(apparent_elevation, aod700, precipitable_water,
                     pressure, dni_extra):
    a = aod700
    w = np.maximum(precipitable_water, 0.2)
    lw = np.log(w)
    with np.errstate(all='ignore'):
        lnp = np.log(pressure/101325.)
        i0p = dni_extra*(0.12*w**0.56*a**2 + 0.97*w**0.032*a
                         + 1.08*w**0.0051 + 0.071*lnp)
        tb = ((1.82 + 0.056*lw + 0.0071*lw**2)*a
              + 0.33 + 0.045*lw + 0.0096*lw**2 + (0.0089*w + 0.13)*lnp)
        b = ((0.00925*a**2 + 0.0148*a - 0.0172)*lw
             - 0.7565*a**2 + 0.5057*a + 0.4557)
        tg = ((1.24 + 0.047*lw + 0.0061*lw**2)*a
              + 0.27 + 0.043*lw + 0.0090*lw**2 + (0.0079*w + 0.1)*lnp)
        g = -0.0147*lw - 0.3079*a**2 + 0.2846*a + 0.3798
        td = taud(a, w, lnp)
        d = -0.337*a**2 + 0.63*a + 0.116 + lnp/(18 + 152*a)
        s = np.maximum(1e-30, np.sin(np.radians(apparent_elevation)))
        return pack({'ghi': i0p*np.exp(-tg/s**g)*s,
                     'dni': i0p*np.exp(-tb/s**b),
                     'dhi': i0p*np.exp(-td/s**d)},
                    apparent_elevation, aod700, precipitable_water,
                    pressure, dni_extra)


# ---------------------------------------------------------------------- Bird
BIRD = dict(
    zenith=E(0, 120, sp=[90]), airmass_relative=E(1, 38, gt=0),
    aod380=E(0, 0.5, ge=0), aod500=E(0, 0.4, ge=0),
    precipitable_water=E(0.1, 8, ge=0), ozone=Opt(0.3, P(0, 0.5, ge=0)),
    pressure=E(60000, 103000, gt=0), dni_extra=E(1300, 1420),
    asymmetry=Opt(0.85, P(0.5, 1)), albedo=Opt(0.2, P(0, 1)))


@contract(C_ + 'bird', prop='C13', args=BIRD, kinds=KS, loose=True)
def bird(zenith, airmass_relative, aod380, aod500, precipitable_water,
         ozone, pressure, dni_extra, asymmetry, albedo):
    m, i0 = airmass_relative, dni_extra
    with np.errstate(all='ignore'):
        mp = m*pressure/101325.
        tr = np.exp(-0.0903*mp**0.84*(1 + mp - mp**1.01))
        xo = ozone*m
        to = (1 - 0.1611*xo*(1 + 139.48*xo)**-0.3034
              - 0.002715*xo/(1 + 0.044*xo + 0.0003*xo**2))
        tg = np.exp(-0.0127*mp**0.26)
        xw = precipitable_water*m
        tw = 1 - 2.4959*xw/((1 + 79.034*xw)**0.6828 + 6.385*xw)
        ta5 = 0.27583*aod380 + 0.35*aod500
        ta = np.exp(-ta5**0.873*(1 + ta5 - ta5**0.7088)*m**0.9108)
        taa = 1 - 0.1*(1 - m + m**1.06)*(1 - ta)
        rs = 0.0685 + (1 - asymmetry)*(1 - ta/taa)
        dni = 0.9662*i0*ta*tw*tg*to*tr
        c = np.where(zenith < 90, np.cos(np.radians(zenith)), 0)
        ids = dni*c
        ias = (i0*c*0.79*to*tg*tw*taa
               * (0.5*(1 - tr) + asymmetry*(1 - ta/taa))
               / (1 - m + m**1.02))
        gh = (ids + ias)/(1 - albedo*rs)
        return pack({'direct_horizontal': ids, 'ghi': gh, 'dni': dni,
                     'dhi': gh - ids}, zenith, m, aod380, aod500,
                    precipitable_water, pressure, dni_extra)


# ----------------------------------------------------------- Linke turbidity
@contract(C_ + '_interpolate_turbidity', prop='C13',
          args=dict(lts=Vec(12, P(20, 160)), time=Opt(
    Times('UTC'), Times('Etc/GMT-7'), Times('America/New_York'),
    Times(None))), kinds=('array',))
def interpolate_turbidity(lts, time):
    """piecewise linear between the middles of the months"""
    def mids(leap):
        days = [31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        x, done = [-31/2], 0
        for d in days:
            x.append(done + d/2)
            done += d
        x.append(done + 31/2)
        return x
    y = [lts[11]] + [lts[i] for i in range(12)] + [lts[0]]
    u = time if time.tz is None else time.tz_convert('UTC')
    n = np.asarray(u.dayofyear)

    def interp(x):
        r = None
        for i in range(13):
            v = y[i] + (y[i + 1] - y[i])/(x[i + 1] - x[i])*(n - x[i])
            r = v if r is None else np.where(n < x[i], r, v)
        return r
    r = np.where(u.is_leap_year, interp(mids(1)), interp(mids(0)))
    return pd.Series(r, index=time)
