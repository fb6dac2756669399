# include decomplib
"""Decomposition of GHI and extraterrestrial radiation (C04)."""
from pvc.api import *
from pvc.data import table
import numpy as np
import pandas as pd

GHI = E(-20, 1500, sp=[0])
ZEN = E(0, 180, sp=[87, 90])
DOY = E(1, 366, nan=False)
EXT = E(1300, 1420)


# ------------------------------------------------ extraterrestrial radiation
@contract('pvlib.irradiance.get_extra_radiation', prop='C04',
          args=dict(datetime_or_doy=DOY, solar_constant=P(1300, 1420),
                    method=Opt('spencer', 'asce', 'Spencer')),
          kinds=('array', 'scalar'), loose=True)
def extra(datetime_or_doy, solar_constant, method):
    if method.lower() == 'asce':
        b = 2*np.pi/365*datetime_or_doy
        return solar_constant*(1 + 0.033*np.cos(b))
    return solar_constant*rr(datetime_or_doy)


@contract('pvlib.irradiance.get_extra_radiation', prop='C04',
          name='pvlib.irradiance.get_extra_radiation(times)',
          args=dict(datetime_or_doy=Times('Etc/GMT+7'),
                    solar_constant=P(1300, 1420),
                    method=Opt('spencer', 'asce')),
          kinds=('series',))
def extra_times(datetime_or_doy, solar_constant, method):
    return pd.Series(extra_a(doyof(datetime_or_doy), solar_constant, method),
                     index=datetime_or_doy)


def extra_a(doy, sc, method):
    return extra(doy, sc, method)


@lemma('C04', 'pvlib.irradiance.get_extra_radiation',
       args=dict(datetime_or_doy=DOY), kinds=('array',))
def extra_facts(datetime_or_doy):
    e = pv.irradiance.get_extra_radiation(datetime_or_doy)
    yield 'within 3.6 percent of the solar constant', both(
        lt(1366.1*0.964, e), lt(e, 1366.1*1.037))
    yield 'scales with the solar constant', eq(
        pv.irradiance.get_extra_radiation(datetime_or_doy, 2732.2), 2*e)


@lemma('C04', 'pvlib.irradiance.get_extra_radiation', args={})
def extra_bad():
    yield 'unknown method is rejected', raises(
        ValueError, lambda: pv.irradiance.get_extra_radiation(
            100, method='nope'))


# ------------------------------------------------------------------ indices
@contract('pvlib.irradiance.clearsky_index', prop='C04',
          args=dict(ghi=GHI, ghi_clear=E(0, 1200, sp=[0]),
                    max_clearsky_index=P(0.5, 3)),
          kinds=('array', 'series', 'scalar', 'mixed'))
def csi(ghi, ghi_clear, max_clearsky_index):
    bad = np.isnan(ghi) | np.isnan(ghi_clear)
    with np.errstate(all='ignore'):
        q = np.asarray(ghi)/np.asarray(ghi_clear)
    k = np.where(np.asarray(ghi_clear) == 0, 0, q)
    k = np.where(bad, np.nan,
                 np.minimum(np.maximum(k, 0), max_clearsky_index))
    return pd.Series(k, index=ghi.index) if isinstance(ghi, pd.Series) else k


@contract('pvlib.irradiance.clearness_index', prop='C04',
          args=dict(ghi=GHI, solar_zenith=ZEN, extra_radiation=EXT,
                    min_cos_zenith=P(0.01, 0.5),
                    max_clearness_index=P(0.5, 3)),
          kinds=('array', 'series', 'scalar', 'mixed', 'mixed2'))
def ci(ghi, solar_zenith, extra_radiation, min_cos_zenith,
       max_clearness_index):
    return ktf(ghi, solar_zenith, extra_radiation, min_cos_zenith,
               max_clearness_index)


@contract('pvlib.irradiance.clearness_index_zenith_independent', prop='C04',
          args=dict(clearness_index=E(-0.5, 2), airmass=E(0.5, 40),
                    max_clearness_index=P(0.5, 3)),
          kinds=('array', 'series', 'scalar', 'mixed'))
def cizi(clearness_index, airmass, max_clearness_index):
    k = clearness_index/(1.031*np.exp(-1.4/(0.9 + 9.4/airmass)) + 0.1)
    return np.minimum(np.maximum(k, 0), max_clearness_index)


@lemma('C04', 'pvlib.irradiance.clearness_index',
       args=dict(ghi=GHI, solar_zenith=ZEN,
                 extra_radiation=E(1300, 1420, req=True),
                 airmass=E(0.5, 40, req=True)), kinds=('array',))
def index_facts(ghi, solar_zenith, extra_radiation, airmass):
    k = pv.irradiance.clearness_index(ghi, solar_zenith, extra_radiation)
    yield 'clearness index within [0, 2]', between(k, 0, 2)
    c = pv.irradiance.clearsky_index(ghi, extra_radiation)
    yield 'clear-sky index within [0, 2]', between(c, 0, 2)
    z = pv.irradiance.clearness_index_zenith_independent(k, airmass)
    yield 'zenith independent index within [0, 2]', between(z, 0, 2)


# ------------------------------------------------------------- DNI/DHI models
def finish(ghi, z, df, kt, max_zenith, d, frame=True, ser=None):
    dhi = df*ghi
    dni = (ghi - dhi)/cosd(z)
    bad = (z > max_zenith) | (ghi < 0) | (dni < 0)
    dni = np.where(bad, 0, dni)
    dhi = np.where(bad, ghi, dhi)
    out = {'dni': dni, 'dhi': dhi, 'kt': kt}
    if isinstance(d, pd.DatetimeIndex):
        return pd.DataFrame(out, index=d)
    if ser is not None and isinstance(ser, pd.Series):
        return pd.DataFrame(out, index=ser.index)
    return out


DT = dict(ghi=GHI, zenith=ZEN, datetime_or_doy=DOY,
          min_cos_zenith=Opt(0.065, P(0.01, 0.3)),
          max_zenith=Opt(87, P(60, 95)))
DTT = dict(DT, datetime_or_doy=Times('Etc/GMT+7'), min_cos_zenith=0.065,
           max_zenith=87)


def erbs_df(kt):
    return np.where(kt <= 0.22, 1 - 0.09*kt, np.where(
        kt <= 0.8, 0.9511 - 0.1604*kt + 4.388*kt**2 - 16.638*kt**3
        + 12.336*kt**4, np.where(kt > 0.8, 0.165, np.nan)))


@contract('pvlib.irradiance.erbs', prop='C04', args=DT,
          kinds=('array', 'scalar'), loose=True)
def erbs(ghi, zenith, datetime_or_doy, min_cos_zenith, max_zenith):
    kt = ktf(ghi, zenith, 1366.1*rr(doyof(datetime_or_doy)), min_cos_zenith)
    return finish(ghi, zenith, erbs_df(kt), kt, max_zenith, datetime_or_doy)


@contract('pvlib.irradiance.erbs', prop='C04', args=DTT,
          name='pvlib.irradiance.erbs(times)', kinds=('series',))
def erbs_t(**k):
    return erbs(**k)


def erbs_driesse_df(kt):
    p = np.polyval([12.26911439571261, -16.470508424697307,
                    4.246926715218317, -0.11390583806313881,
                    0.946296633571001], kt)
    return np.where(kt <= 0.216, 1 - 0.09*kt,
                    np.where(kt <= 0.792, p,
                             np.where(kt > 0.792, 0.165, np.nan)))


@contract('pvlib.irradiance.erbs_driesse', prop='C04',
          args=dict(DT, datetime_or_doy=None, dni_extra=Opt(None, EXT)),
          kinds=('array', 'scalar', 'series'), loose=True)
def erbs_driesse_e(**k):
    return erbs_driesse(**k)


@contract('pvlib.irradiance.erbs_driesse', prop='C04',
          name='pvlib.irradiance.erbs_driesse(doy)',
          args=dict(DT, min_cos_zenith=0.065, dni_extra=Opt(None, EXT)),
          kinds=('array', 'scalar', 'series'), loose=True)
def erbs_driesse(ghi, zenith, datetime_or_doy, dni_extra, min_cos_zenith,
                 max_zenith):
    if dni_extra is None:
        if datetime_or_doy is None:
            raise ValueError
        dni_extra = 1366.1*rr(doyof(datetime_or_doy))
    g = np.maximum(ghi, 0)
    kt = ktf(g, zenith, dni_extra, min_cos_zenith)
    return finish(g, zenith, erbs_driesse_df(kt), kt, max_zenith,
                  datetime_or_doy, ser=ghi)


def oh_df(kt):
    return np.where(kt < 0.35, 1 - 0.249*kt, np.where(
        kt <= 0.75, 1.557 - 1.84*kt, np.where(kt > 0.75, 0.177, np.nan)))


@contract('pvlib.irradiance.orgill_hollands', prop='C04',
          args=dict(DT, dni_extra=Opt(None, EXT)),
          kinds=('array', 'scalar'), loose=True)
def orgill(ghi, zenith, datetime_or_doy, dni_extra, min_cos_zenith,
           max_zenith):
    if dni_extra is None:
        dni_extra = 1366.1*rr(doyof(datetime_or_doy))
    kt = ktf(ghi, zenith, dni_extra, min_cos_zenith)
    return finish(ghi, zenith, oh_df(kt), kt, max_zenith, datetime_or_doy)


@contract('pvlib.irradiance.orgill_hollands', prop='C04', args=DTT,
          name='pvlib.irradiance.orgill_hollands(times)', kinds=('series',))
def orgill_t(**k):
    return orgill(dni_extra=None, **k)


DB = dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=DOY,
          a_coeff=P(5, 11), b_coeff=P(0.4, 0.8),
          min_cos_zenith=P(0.01, 0.3), max_zenith=P(60, 95))


@contract('pvlib.irradiance.boland', prop='C04', args=DB,
          kinds=('array', 'scalar'), loose=True)
def boland(ghi, solar_zenith, datetime_or_doy, a_coeff=8.645, b_coeff=0.613,
           min_cos_zenith=0.065, max_zenith=87):
    kt = ktf(ghi, solar_zenith, 1366.1*rr(doyof(datetime_or_doy)),
             min_cos_zenith)
    df = 1/(1 + np.exp(a_coeff*(kt - b_coeff)))
    return finish(ghi, solar_zenith, df, kt, max_zenith, datetime_or_doy)


@contract('pvlib.irradiance.boland', prop='C04',
          args=dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=Times('Etc/GMT+7')),
          name='pvlib.irradiance.boland(times)', kinds=('series',))
def boland_t(**k):
    return boland(**k)


@contract('pvlib.irradiance.louche', prop='C04',
          args=dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=DOY,
                    max_zenith=Opt(90, P(60, 95))),
          kinds=('array', 'scalar'), loose=True)
def louche(ghi, solar_zenith, datetime_or_doy, max_zenith=90):
    e = 1366.1*rr(doyof(datetime_or_doy))
    kt = ktf(ghi, solar_zenith, e, 0.065, 2.0)
    dni = e*(0.002 - 0.059*kt + 0.994*kt**2 - 5.205*kt**3 + 15.307*kt**4
             - 10.627*kt**5)
    dhi = ghi - dni*cosd(solar_zenith)
    bad = (solar_zenith > max_zenith) | (ghi < 0) | (dni < 0)
    out = {'dni': np.where(bad, 0, dni), 'dhi': np.where(bad, ghi, dhi),
           'kt': kt}
    if isinstance(datetime_or_doy, pd.DatetimeIndex):
        return pd.DataFrame(out, index=datetime_or_doy)
    return out


@contract('pvlib.irradiance.louche', prop='C04',
          args=dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=Times('Etc/GMT+7')),
          name='pvlib.irradiance.louche(times)', kinds=('series',))
def louche_t(**k):
    return louche(**k)


@contract('pvlib.irradiance.disc', prop='C04',
          args=dict(ghi=GHI, solar_zenith=E(0, 89.9, nan=False, req=True),
                    datetime_or_doy=DOY,
                    pressure=Opt(101325, None, P(50000, 110000)),
                    min_cos_zenith=0.065, max_zenith=Opt(87, P(60, 95)),
                    max_airmass=Opt(12, P(5, 20))),
          kinds=('array',), loose=True)
def disc(**k):
    dni, kt, am = disc_all(**k)
    return {'dni': dni, 'kt': kt, 'airmass': am}


@contract('pvlib.irradiance.disc', prop='C04',
          name='pvlib.irradiance.disc(night)',
          args=dict(ghi=GHI, solar_zenith=E(0, 180), datetime_or_doy=DOY,
                    pressure=Opt(101325, None, P(50000, 110000)),
                    min_cos_zenith=Opt(0.065, P(0.01, 0.3))),
          kinds=('array', 'scalar'), loose=True)
def disc_n(**k):
    dni, kt, am = disc_all(**k)
    return {'dni': dni, 'kt': kt, 'airmass': am}


@contract('pvlib.irradiance.disc', prop='C04',
          args=dict(ghi=GHI, solar_zenith=ZEN, datetime_or_doy=Times('Etc/GMT+7')),
          name='pvlib.irradiance.disc(times)', kinds=('series',))
def disc_t(**k):
    dni, kt, am = disc_all(**k)
    return pd.DataFrame({'dni': dni, 'kt': kt, 'airmass': am},
                        index=k['datetime_or_doy'])


@contract('pvlib.irradiance.campbell_norman', prop='C04',
          args=dict(zenith=E(0, 89, req=True),
                    transmittance=E(0.1, 0.9, req=True),
                    pressure=P(50000, 110000), dni_extra=EXT),
          kinds=('array', 'series', 'scalar'))
def campbell(zenith, transmittance, pressure, dni_extra):
    t = transmittance**(1/cosd(zenith)*pressure/101325)
    dni = dni_extra*t
    dhi = 0.3*(1 - t)*dni_extra*cosd(zenith)
    out = {'ghi': dhi + dni*cosd(zenith), 'dni': dni, 'dhi': dhi}
    return pd.DataFrame(out) if isinstance(zenith, pd.Series) else out


def closure(r, ghi, zenith, lim, dark=True):
    day = both(zenith <= lim, r['dni'] > 0)
    yield 'dni never negative', le(0, r['dni'])
    yield 'ghi = dhi + dni cos(zenith) by day', implies(
        both(ghi >= 0, day), eq(r['dhi'] + r['dni']*cosd(zenith), ghi))
    yield 'no beam beyond the zenith limit', implies(
        zenith > lim, both(eq(r['dni'], 0), eq(r['dhi'], ghi)))
    yield 'clearness index within its limits', between(r['kt'], 0, 2)


CL = dict(ghi=E(-20, 1500, nan=False), zenith=E(0, 180, nan=False, req=True),
          doy=E(1, 366, nan=False))


@lemma('C04', 'pvlib.irradiance.erbs', args=CL, kinds=('array',))
def erbs_close(ghi, zenith, doy):
    r = pv.irradiance.erbs(ghi, zenith, doy)
    yield from closure(r, ghi, zenith, 87)
    yield 'diffuse within [0, ghi]', implies(
        both(ghi >= 0, zenith <= 87), both(le(0, r['dhi']),
                                           le(r['dhi'], ghi)))


@lemma('C04', 'pvlib.irradiance.orgill_hollands', args=CL, kinds=('array',))
def orgill_close(ghi, zenith, doy):
    r = pv.irradiance.orgill_hollands(ghi, zenith, doy)
    yield from closure(r, ghi, zenith, 87)
    yield 'diffuse within [0, ghi]', implies(
        both(ghi >= 0, zenith <= 87), both(le(0, r['dhi']),
                                           le(r['dhi'], ghi)))


@lemma('C04', 'pvlib.irradiance.boland', args=CL, kinds=('array',))
def boland_close(ghi, zenith, doy):
    r = pv.irradiance.boland(ghi, zenith, doy)
    yield from closure(r, ghi, zenith, 87)
    yield 'diffuse within [0, ghi]', implies(
        both(ghi >= 0, zenith <= 87), both(le(0, r['dhi']),
                                           le(r['dhi'], ghi)))


@lemma('C04', 'pvlib.irradiance.erbs_driesse', args=CL, kinds=('array',))
def driesse_close(ghi, zenith, doy):
    r = pv.irradiance.erbs_driesse(ghi, zenith, doy)
    yield from closure(r, np.maximum(ghi, 0), zenith, 87)


@lemma('C04', 'pvlib.irradiance.louche', args=CL, kinds=('array',))
def louche_close(ghi, zenith, doy):
    yield from closure(pv.irradiance.louche(ghi, zenith, doy), ghi, zenith,
                       90)


@lemma('C04', 'pvlib.irradiance.disc', args=CL, kinds=('array',))
def disc_facts(ghi, zenith, doy):
    r = pv.irradiance.disc(ghi, zenith, doy)
    yield 'dni never negative', le(0, r['dni'])
    yield 'no beam beyond 87 degrees', implies(zenith > 87, eq(r['dni'], 0))
    yield 'clearness index within [0, 1]', between(r['kt'], 0, 1)
    yield 'airmass capped', le(r['airmass'], 12)


# ------------------------------------------------------- component closure
@contract('pvlib.irradiance.dni', prop='C04',
          args=dict(ghi=E(-20, 1500), dhi=E(0, 1200), zenith=ZEN,
                    dni_clear=Opt(None, E(0, 1100)),
                    clearsky_tolerance=P(1, 1.5),
                    zenith_threshold_for_zero_dni=P(85, 92),
                    zenith_threshold_for_clearsky_limit=P(70, 84)),
          kinds=('array',) and ('series',))
def dni_(ghi, dhi, zenith, dni_clear, clearsky_tolerance,
         zenith_threshold_for_zero_dni,
         zenith_threshold_for_clearsky_limit):
    d = (ghi - dhi)/cosd(zenith)
    d = d.where(~(d < 0), np.nan)
    d = d.where(~((zenith >= zenith_threshold_for_zero_dni) & (d != 0)),
                np.nan)
    if dni_clear is not None:
        m = dni_clear*clearsky_tolerance
        d = d.where(~((zenith >= zenith_threshold_for_clearsky_limit)
                      & (zenith < zenith_threshold_for_zero_dni)
                      & (d > m)), m)
    return d


@contract('pvlib.irradiance.complete_irradiance', prop='C04',
          args=dict(solar_zenith=ZEN, ghi=Opt(E(-20, 1500), None),
                    dhi=Opt(E(0, 1200), None), dni=Opt(None, E(0, 1200)),
                    dni_clear=Opt(None, E(0, 1100))),
          kinds=('series',))
def complete(solar_zenith, ghi, dhi, dni, dni_clear):
    if (ghi is None) + (dhi is None) + (dni is None) != 1:
        raise ValueError
    if dni is None:
        dni = dni_(ghi, dhi, solar_zenith, dni_clear, 1.1, 88.0, 80.0)
    elif ghi is None:
        ghi = dhi + dni*cosd(solar_zenith)
    else:
        dhi = ghi - dni*cosd(solar_zenith)
    return pd.DataFrame({'ghi': ghi, 'dhi': dhi, 'dni': dni})


@lemma('C04', 'pvlib.irradiance.complete_irradiance',
       args=dict(solar_zenith=E(0, 180, nan=False, req=True),
                 ghi=E(0, 1500, nan=False), dhi=E(0, 1200, nan=False),
                 dni=E(0, 1200, nan=False)), kinds=('series',))
def complete_close(solar_zenith, ghi, dhi, dni):
    c = pv.irradiance.complete_irradiance
    r = c(solar_zenith, dhi=dhi, dni=dni)
    yield 'closure from dni and dhi', eq(
        r['dhi'] + r['dni']*cosd(solar_zenith), r['ghi'])
    r = c(solar_zenith, ghi=ghi, dni=dni)
    yield 'closure from dni and ghi', eq(
        r['dhi'] + r['dni']*cosd(solar_zenith), r['ghi'])
    r = c(solar_zenith, ghi=ghi, dhi=dhi)
    yield 'closure from ghi and dhi where dni is given', implies(
        both(r['dni'] >= 0, solar_zenith < 80),
        eq(r['dhi'] + r['dni']*cosd(solar_zenith), r['ghi']))


def whenof(x, epoch_year):
    """the times meant by a day of year (of epoch_year) or a datetime"""
    if isinstance(x, (int, float, np.number, np.ndarray, list)):
        return pd.DatetimeIndex(
            [pd.Timestamp(year=epoch_year - 1, month=12, day=31)
             + pd.Timedelta(float(d), 'D') for d in np.atleast_1d(x)])
    return x if isinstance(x, pd.DatetimeIndex) else \
        pd.DatetimeIndex([pd.Timestamp(x)])


@lemma('C04', 'pvlib.irradiance.get_extra_radiation', bounded=True, args=dict(
    seed=P(0, 1e6), form=Opt('int', 'float', 'array', 'date', 'datetime',
                             'datetime64', 'Timestamp', 'local', 'index',
                             'local index'),
    method=Opt('asce', 'spencer', 'nrel', 'NREL', 'pyephem'),
    sc=P(1300, 1420), year=Opt(2014, 1995, 2020)),
    kinds=('scalar',), nconc=4)
def extra_inputs(seed, form, method, sc, year):
    import datetime
    rng = np.random.default_rng(int(seed))
    t = pd.Timestamp('2018-01-01') + pd.Timedelta(
        int(rng.integers(0, 700*24)), 'h')
    x = {'int': int(rng.integers(1, 366)), 'float': float(rng.uniform(1, 365)),
         'array': rng.uniform(1, 365, 3),
         'date': datetime.date(t.year, t.month, t.day),
         'datetime': t.to_pydatetime(), 'datetime64': t.to_datetime64(),
         'Timestamp': t, 'local': t.tz_localize('Etc/GMT+7'),
         'index': pd.date_range(t, periods=3, freq='53h'),
         'local index': pd.date_range(t, periods=3, freq='53h',
                                      tz='Etc/GMT+7')}[form]
    got = pv.irradiance.get_extra_radiation(x, sc, method=method,
                                            epoch_year=year)
    low = method.lower()
    if low in ('asce', 'spencer'):
        d = x
        if form not in ('int', 'float', 'array'):
            w = whenof(x, year)
            d = np.asarray((w.tz_convert('UTC') if w.tz is not None
                            else w).dayofyear)
        want = extra_a(np.atleast_1d(d), sc, low)
    else:
        r = {'nrel': pv.solarposition.nrel_earthsun_distance,
             'pyephem': pv.solarposition.pyephem_earthsun_distance}[low]
        want = sc/np.asarray(r(whenof(x, year)))**2
    yield 'value', np.allclose(np.atleast_1d(got), want, rtol=1e-9, atol=0)
    if 'index' in form:
        yield 'a series on the times', (isinstance(got, pd.Series)
                                        and got.index.equals(x))
    elif form == 'array':
        yield 'an array', isinstance(got, np.ndarray) and got.shape == (3,)
    else:
        yield 'a number', np.isscalar(got) and not isinstance(got, str)
