from pvc.api import *
from pvc.data import table
import numpy as np
import pandas as pd


def cosd(v):
    return np.cos(np.deg2rad(v))


def rr(doy):
    b = 2*np.pi/365*(doy - 1)
    return (1.00011 + 0.034221*np.cos(b) + 0.00128*np.sin(b)
            + 0.000719*np.cos(2*b) + 0.000077*np.sin(2*b))


def utc(d):
    return d if d.tz is None else d.tz_convert('UTC')


def doyof(d):
    if isinstance(d, pd.DatetimeIndex):
        return np.asarray(utc(d).dayofyear)
    return d


def ktf(ghi, z, ext, mincos=0.065, top=1.0):
    k = ghi/(ext*np.maximum(cosd(z), mincos))
    return np.minimum(np.maximum(k, 0), top)


def am66(z):
    with np.errstate(all='ignore'):
        a = 1/(cosd(z) + 0.15*(93.885 - z)**-1.253)
    return np.where(z > 90, np.nan, a)


def disc_all(ghi, solar_zenith, datetime_or_doy, pressure=101325,
             min_cos_zenith=0.065, max_zenith=87, max_airmass=12):
    e = 1370*rr(doyof(datetime_or_doy))
    kt = ktf(ghi, solar_zenith, e, min_cos_zenith)
    am = am66(np.asarray(solar_zenith))
    if pressure is not None:
        am = am*pressure/101325
    am = np.minimum(am, max_airmass)
    lo = kt <= 0.6
    def pol(k, *c):
        return c[0] + k*(c[1] + k*(c[2] + k*c[3]))

    a = np.where(lo, pol(kt, 0.512, -1.56, 2.286, -2.222),
                 pol(kt, -5.743, 21.77, -27.49, 11.56))
    b = np.where(lo, 0.370 + 0.962*kt,
                 pol(kt, 41.40, -118.5, 66.05, 31.90))
    c = np.where(lo, pol(kt, -0.280, 0.932, -2.048, 0),
                 pol(kt, -47.01, 184.2, -222.0, 73.81))
    kn = (0.866 + am*(-0.122 + am*(0.0121 + am*(-0.000653 + 0.000014*am)))
          - (a + b*np.exp(c*am)))
    dni = kn*e
    dni = np.where((solar_zenith > max_zenith) | (ghi < 0) | (dni < 0), 0,
                   dni)
    return dni, kt, am


