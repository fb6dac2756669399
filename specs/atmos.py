"""Atmosphere: pressure, airmass, water vapour, turbidity, wind (C12)."""
from pvc.api import *
import numpy as np
import pandas as pd

ALL = ('array', 'series', 'scalar')
A_ = 'pvlib.atmosphere.'


@contract(A_ + 'pres2alt', prop='C12', args=dict(pressure=E(1e4, 1.1e5,
                                                           req=True)),
          kinds=ALL)
def p2a(pressure):
    return 44331.5 - 4946.62*pressure**0.190263


@contract(A_ + 'alt2pres', prop='C12', args=dict(altitude=E(-500, 12000,
                                                           req=True)),
          kinds=ALL)
def a2p(altitude):
    return 100*((44331.514 - altitude)/11880.516)**(1/0.1902632)


@lemma('C12', A_ + 'alt2pres',
       args=dict(h=E(-500, 11000, req=True, nan=False),
                 d=E(0.001, 1000, req=True, nan=False)), kinds=('array',))
def pressure_falls(h, d):
    a = pv.atmosphere.alt2pres
    yield 'pressure decreases with altitude', a(h + d) < a(h)
    yield 'pressure is positive', 0 < a(h)


@lemma('C12', A_ + 'pres2alt',
       args=dict(p=E(1e4, 1.1e5, req=True, nan=False),
                 d=E(0.1, 1e4, req=True, nan=False)), kinds=('array',))
def altitude_falls(p, d):
    a = pv.atmosphere.pres2alt
    yield 'altitude decreases with pressure', a(p + d) < a(p)


@contract(A_ + 'get_absolute_airmass', prop='C12',
          args=dict(airmass_relative=E(0.9, 40), pressure=Opt(
              101325., E(3e4, 1.1e5))), kinds=ALL + ('mixed', 'mixed2'))
def absam(airmass_relative, pressure):
    return airmass_relative*pressure/101325


def relam(z, model):
    c = np.cos(np.radians(z))
    model = model.lower()
    with np.errstate(all='ignore'):
        if model == 'kastenyoung1989':
            a = 1/(c + 0.50572*(96.07995 - z)**-1.6364)
        elif model == 'kasten1966':
            a = 1/(c + 0.15*(93.885 - z)**-1.253)
        elif model == 'simple':
            a = 1/c
        elif model == 'pickering2002':
            h = 90 - z
            a = 1/np.sin(np.radians(h + 244/(165 + 47*h**1.1)))
        elif model == 'youngirvine1967':
            a = (1/c)*(1 - 0.0012*((1/c)**2 - 1))
        elif model == 'young1994':
            a = ((1.002432*c**2 + 0.148386*c + 0.0096467)
                 / (c**3 + 0.149864*c**2 + 0.0102963*c + 0.000303978))
        elif model == 'gueymard1993':
            a = 1/(c + 0.00176759*z*(94.37515 - z)**-1.21563)
        elif model == 'gueymard2003':
            a = 1/(c + 0.48353*z**0.095846/(96.741 - z)**1.754)
        else:
            raise ValueError(model)
    return a


MODELS = Opt('kastenyoung1989', 'kasten1966', 'simple', 'pickering2002',
             'youngirvine1967', 'young1994', 'gueymard1993', 'gueymard2003',
             'KastenYoung1989', 'nope')


@contract(A_ + 'get_relative_airmass', prop='C12',
          args=dict(zenith=E(0, 90, req=True), model=MODELS),
          kinds=ALL, loose=True)
def relative(zenith, model):
    a = relam(np.asarray(zenith), model)
    return pd.Series(a, index=zenith.index) if isinstance(
        zenith, pd.Series) else a


@lemma('C12', A_ + 'get_relative_airmass',
       args=dict(zenith=E(90, 180, gt=90, nan=False), model=Opt(
           'kastenyoung1989', 'kasten1966', 'simple', 'pickering2002',
           'youngirvine1967', 'young1994', 'gueymard1993', 'gueymard2003')),
       kinds=('array', 'series', 'scalar'))
def below_horizon(zenith, model):
    yield 'no airmass below the horizon', isnan(
        pv.atmosphere.get_relative_airmass(zenith, model))


@lemma('C12', A_ + 'get_relative_airmass',
       args=dict(z=E(0, 90, req=True, nan=False), model=Opt(
           'kasten1966', 'gueymard1993', 'gueymard2003',
           'kastenyoung1989')), kinds=('array',))
def positive(z, model):
    a = pv.atmosphere.get_relative_airmass(z, model)
    yield 'airmass is positive and finite', both(a > 0, isfinite(a))


@contract(A_ + 'gueymard94_pw', prop='C12',
          args=dict(temp_air=E(-60, 60, req=True),
                    relative_humidity=E(0, 100)), kinds=ALL + ('mixed',))
def pw(temp_air, relative_humidity):
    T = temp_air + 273.15
    th = T/273.15
    hv = 0.4976 + 1.5265*th + np.exp(13.6897*th - 14.9188*th**3)
    rho = 216.7*relative_humidity/(100*T)*np.exp(
        22.330 - 49.140*(100/T) - 10.922*(100/T)**2 - 0.39015*(T/100))
    return np.maximum(0.1*hv*rho, 0.1)


MAGNUS = Opt((6.112, 17.62, 243.12), Vec(3, P(5, 300), ctor='tuple'))


@contract(A_ + 'rh_from_tdew', prop='C12',
          args=dict(temp_air=E(-60, 60, req=True),
                    temp_dew=E(-60, 60, req=True),
                    coeff=(6.112, 17.62, 243.12)), kinds=ALL + ('mixed',))
def rh(temp_air, temp_dew, coeff):
    def sat(t):
        return coeff[0]*np.exp(coeff[1]*t/(coeff[2] + t))
    return 100*(sat(temp_dew)/sat(temp_air))


@contract(A_ + 'tdew_from_rh', prop='C12',
          args=dict(temp_air=E(-60, 60, req=True),
                    relative_humidity=E(1, 100, req=True),
                    coeff=(6.112, 17.62, 243.12)), kinds=ALL + ('mixed',))
def tdew(temp_air, relative_humidity, coeff):
    ln = (coeff[1]*temp_air/(coeff[2] + temp_air)
          + np.log(relative_humidity/100))
    return coeff[2]*ln/(coeff[1] - ln)


@lemma('C12', A_ + 'tdew_from_rh',
       args=dict(t=E(-60, 60, req=True, nan=False),
                 d=E(-60, 60, req=True, nan=False)), kinds=('array',))
def humidity_roundtrip(t, d):
    a = pv.atmosphere
    yield 'dew point of the humidity of a dew point', eq(
        a.tdew_from_rh(t, a.rh_from_tdew(t, d)), d)
    yield 'saturated air has 100 percent humidity', eq(
        a.rh_from_tdew(t, t), 100)


@contract(A_ + 'bird_hulstrom80_aod_bb', prop='C12',
          args=dict(aod380=E(0, 2), aod500=E(0, 2)), kinds=ALL + ('mixed',))
def bb(aod380, aod500):
    return 0.27583*aod380 + 0.35*aod500


@contract(A_ + 'kasten96_lt', prop='C12',
          args=dict(airmass_absolute=E(0.5, 10, req=True),
                    precipitable_water=E(0.1, 8, req=True),
                    aod_bb=E(0, 1)), kinds=ALL + ('mixed',))
def lt_(airmass_absolute, precipitable_water, aod_bb):
    m = airmass_absolute
    return (9.4 + 0.9*m)*(-0.101 + 0.235*m**-0.16
                          + 0.112*m**-0.55*precipitable_water**0.34
                          + aod_bb)


LAM = E(300, 1700, req=True)


@contract(A_ + 'angstrom_aod_at_lambda', prop='C12',
          args=dict(aod0=E(0, 2), lambda0=LAM, alpha=Opt(
              1.14, E(-0.5, 3)), lambda1=Opt(700., LAM)),
          kinds=ALL + ('mixed',))
def aod(aod0, lambda0, alpha, lambda1):
    return aod0*(lambda1/lambda0)**(-alpha)


@contract(A_ + 'angstrom_alpha', prop='C12',
          args=dict(aod1=E(0.01, 2, req=True), lambda1=E(300, 600, req=True),
                    aod2=E(0.01, 2, req=True),
                    lambda2=E(610, 1700, req=True)), kinds=ALL + ('mixed',))
def alpha(aod1, lambda1, aod2, lambda2):
    return -np.log(aod1/aod2)/np.log(lambda1/lambda2)


@lemma('C12', A_ + 'angstrom_aod_at_lambda',
       args=dict(aod=E(0.01, 2, req=True, nan=False),
                 l0=E(300, 600, req=True, nan=False),
                 l1=E(610, 1700, req=True, nan=False),
                 al=E(-0.5, 3, nan=False)), kinds=('array',))
def angstrom_inverse(aod, l0, l1, al):
    a = pv.atmosphere
    b = a.angstrom_aod_at_lambda(aod, l0, al, l1)
    yield 'exponent recovered from the two optical depths', eq(
        a.angstrom_alpha(aod, l0, b, l1), al)
    yield 'there and back', eq(a.angstrom_aod_at_lambda(b, l1, al, l0), aod)


SURF = {'unstable_air_above_open_water_surface': 0.06,
        'neutral_air_above_open_water_surface': 0.10,
        'stable_air_above_open_water_surface': 0.27,
        'unstable_air_above_flat_open_coast': 0.11,
        'neutral_air_above_flat_open_coast': 0.16,
        'stable_air_above_flat_open_coast': 0.40,
        'unstable_air_above_human_inhabited_areas': 0.27,
        'neutral_air_above_human_inhabited_areas': 0.34,
        'stable_air_above_human_inhabited_areas': 0.60}


@contract(A_ + 'windspeed_powerlaw', prop='C12',
          args=dict(wind_speed_reference=E(-5, 40, sp=[0]),
                    height_reference=P(0.5, 100, req=True),
                    height_desired=P(0.5, 100, req=True),
                    exponent=Opt(None, P(0.01, 0.9)),
                    surface_type=Opt(None, *SURF)),
          kinds=ALL, loose=True)
def wind(wind_speed_reference, height_reference, height_desired, exponent,
         surface_type):
    if (exponent is None) == (surface_type is None):
        raise ValueError
    if exponent is None:
        exponent = SURF[surface_type]
    v = wind_speed_reference*(height_desired/height_reference)**exponent
    v = np.where(v < 0, np.nan, v)
    return pd.Series(v, index=wind_speed_reference.index) if isinstance(
        wind_speed_reference, pd.Series) else v
