"""Angle of incidence and the beam component (vector geometry)."""
from pvc.api import *
import numpy as np

Z = E(0, 180)
AZ = E(-360, 720)
T_ = E(-180, 180)
ANY = ('array', 'series', 'scalar', 'mixed')
G = dict(surface_tilt=T_, surface_azimuth=AZ, solar_zenith=Z, solar_azimuth=AZ)


def dot(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
    """dot product of the module normal and the sun vector (east, north, up)"""
    r = np.deg2rad
    b, g = r(surface_tilt), r(surface_azimuth)
    z, a = r(solar_zenith), r(solar_azimuth)
    east = np.sin(b)*np.sin(g) * (np.sin(z)*np.sin(a))
    north = np.sin(b)*np.cos(g) * (np.sin(z)*np.cos(a))
    return east + north + np.cos(b)*np.cos(z)


@contract('pvlib.irradiance.aoi_projection', prop='C01', args=G, kinds=ANY)
def aoi_projection(**k):
    return np.clip(dot(**k), -1, 1)


@contract('pvlib.irradiance.aoi', prop='C01', args=G, kinds=ANY)
def aoi(**k):
    return np.rad2deg(np.arccos(np.clip(dot(**k), -1, 1)))


@contract('pvlib.irradiance.beam_component', prop='C01',
          args=dict(G, dni=E(-50, 1500)), kinds=ANY)
def beam(dni, **k):
    return np.maximum(dni*np.clip(dot(**k), -1, 1), 0)


def _aoi(**k):
    return pv.irradiance.aoi(**k)


def _pr(**k):
    return pv.irradiance.aoi_projection(**k)


@lemma('C01', 'pvlib.irradiance.aoi', args=G, kinds=('array', 'scalar'))
def ranges(**k):
    a = _aoi(**k)
    yield 'angle within 0..180', between(a, 0, 180)
    p = _pr(**k)
    yield 'projection within -1..1', between(p, -1, 1)
    yield 'projection is the cosine of the angle', \
        eq(np.cos(np.deg2rad(a)), p, atol=1e-7)
    yield 'NaN exactly when an input is NaN', iff(isnan(a), either(
        *[isnan(v) for v in k.values()]))


@lemma('C01', 'pvlib.irradiance.aoi',
       args=dict(G, m=E(-3, 3, nan=False, integer=True),
                 n=E(-3, 3, nan=False, integer=True)), kinds=('array',))
def full_turns(m, n, surface_tilt, surface_azimuth, solar_zenith,
               solar_azimuth):
    p = _pr(surface_tilt=surface_tilt, surface_azimuth=surface_azimuth,
            solar_zenith=solar_zenith, solar_azimuth=solar_azimuth)
    q = _pr(surface_tilt=surface_tilt, surface_azimuth=surface_azimuth+360*m,
            solar_zenith=solar_zenith, solar_azimuth=solar_azimuth+360*n)
    yield 'azimuths modulo 360', eq(p, q)


@lemma('C01', 'pvlib.irradiance.aoi', args=dict(G, c=E(-360, 360, nan=False)),
       kinds=('array',))
def symmetries(c, surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
    p = _pr(surface_tilt=surface_tilt, surface_azimuth=surface_azimuth,
            solar_zenith=solar_zenith, solar_azimuth=solar_azimuth)
    yield 'rotating both azimuths changes nothing', eq(p, _pr(
        surface_tilt=surface_tilt, surface_azimuth=surface_azimuth + c,
        solar_zenith=solar_zenith, solar_azimuth=solar_azimuth + c))
    yield 'negative tilt is a half turn', eq(p, _pr(
        surface_tilt=-surface_tilt, surface_azimuth=surface_azimuth + 180,
        solar_zenith=solar_zenith, solar_azimuth=solar_azimuth))
    yield 'horizontal surface sees the zenith angle', implies(
        neg(either(isnan(solar_azimuth), isnan(surface_azimuth))),
        eq(_pr(surface_tilt=surface_tilt*0, surface_azimuth=surface_azimuth,
               solar_zenith=solar_zenith, solar_azimuth=solar_azimuth),
           np.cos(np.deg2rad(solar_zenith + surface_tilt*0))))
    yield 'swapping surface and sun', eq(p, _pr(
        surface_tilt=solar_zenith, surface_azimuth=solar_azimuth,
        solar_zenith=surface_tilt, solar_azimuth=surface_azimuth))


@lemma('C01', 'pvlib.irradiance.beam_component',
       args=dict(G, dni=E(0, 1500, req=True)), kinds=('array',))
def beam_facts(dni, **k):
    b = pv.irradiance.beam_component(dni=dni, **k)
    p = _pr(**k)
    yield 'never negative', le(0, b)
    yield 'zero when the sun is behind the plane', implies(
        both(le(p, 0), neg(isnan(b))), eq(b, 0))
    yield 'equals dni times projection in front', implies(
        both(lt(0, p), neg(isnan(b))), eq(b, dni*p))
    yield 'never exceeds dni', le(b, dni)
