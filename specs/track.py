"""Single-axis tracking (C05) and shading geometry (C06)."""
from pvc.api import *
import numpy as np
import pandas as pd

ALL = ('array', 'series', 'scalar')
T_ = 'pvlib.tracking.'
S_ = 'pvlib.shading.'


def cosd(v):
    return np.cos(np.deg2rad(v))


def sind(v):
    return np.sin(np.deg2rad(v))


def psz(zen, az, tilt, axis):
    """rotation that points the normal at the sun: sun vector in the frame
    of the axis, projected on the plane across it"""
    east = sind(zen)*sind(az)
    north = sind(zen)*cosd(az)
    up = cosd(zen)
    across = east*cosd(axis) - north*sind(axis)
    along = east*sind(axis) + north*cosd(axis)
    return np.degrees(np.arctan2(across, along*sind(tilt) + up*cosd(tilt)))


ZEN = E(0, 180, sp=[0, 90])
AZ = E(0, 360, sp=[0, 180])


@contract(S_ + 'projected_solar_zenith_angle', prop=('C05', 'C06'),
          args=dict(solar_zenith=ZEN, solar_azimuth=AZ,
                    axis_tilt=E(0, 90), axis_azimuth=E(0, 360)),
          kinds=ALL + ('mixed', 'mixed2'))
def projected(solar_zenith, solar_azimuth, axis_tilt, axis_azimuth):
    return psz(solar_zenith, solar_azimuth, axis_tilt, axis_azimuth)


@lemma('C05', S_ + 'projected_solar_zenith_angle',
       args=dict(z=E(0, 89, nan=False, req=True), az=E(0, 360, nan=False),
                 axis=E(0, 360, nan=False)), kinds=('array',))
def psz_facts(z, az, axis):
    f = pv.shading.projected_solar_zenith_angle
    v = f(z, az, 0, axis)
    yield 'tangent law on a horizontal axis', eq(
        np.tan(np.deg2rad(v)), sind(z)/cosd(z)*sind(az - axis))
    yield 'within a quarter turn by day', both(-90 < v, v < 90)
    yield 'reversing the axis reverses the rotation', eq(
        f(z, az, 0, axis + 180), -v)


# ------------------------------------------------------------------ tracking
def normal(theta, tilt, az):
    e = cosd(az)*sind(theta) + sind(az)*sind(tilt)*cosd(theta)
    n = cosd(az)*sind(tilt)*cosd(theta) - sind(az)*sind(theta)
    return e, n


def orient(theta, tilt, az):
    t = np.degrees(np.arccos(cosd(theta)*cosd(tilt)))
    e, n = normal(theta, tilt, az)
    a = np.degrees(np.arctan2(e, n))
    a = np.where(t == 0, az - 90, a)
    return t, np.mod(a, 360)


@contract(T_ + 'calc_surface_orientation', prop='C05',
          args=dict(tracker_theta=E(-90, 90, sp=[0, 30]),
                    axis_tilt=Opt(0, P(0, 90)), axis_azimuth=Opt(
                        0, 180, P(0, 360))),
          kinds=ALL, loose=True)
def orientation(tracker_theta, axis_tilt, axis_azimuth):
    th = np.atleast_1d(np.asarray(tracker_theta))
    t, a = orient(th, axis_tilt, axis_azimuth)
    if isinstance(tracker_theta, pd.Series):
        return pd.DataFrame({'surface_tilt': t, 'surface_azimuth': a},
                            index=tracker_theta.index)
    if not isinstance(tracker_theta, np.ndarray):
        t = t[0]
    return {'surface_tilt': t, 'surface_azimuth': a}


@lemma('C05', T_ + 'calc_surface_orientation',
       args=dict(theta=E(-90, 90, nan=False, req=True),
                 tilt=P(0, 90, req=True), az=P(0, 360, req=True)),
       kinds=('array',))
def orientation_facts(theta, tilt, az):
    r = pv.tracking.calc_surface_orientation(theta, tilt, az)
    yield 'tilt within [0, 90]', between(r['surface_tilt'], 0, 90)
    yield 'azimuth within [0, 360)', both(le(0, r['surface_azimuth']),
                                          r['surface_azimuth'] <= 360)
    yield 'vertical part of the normal', eq(
        cosd(r['surface_tilt']), cosd(theta)*cosd(tilt))


def aoi(t, a, z, s):
    p = cosd(t)*cosd(z) + sind(t)*sind(z)*cosd(s - a)
    return np.degrees(np.arccos(np.minimum(np.maximum(p, -1), 1)))


LIM = Opt(90, P(5, 89, req=True), Vec(2, P(-90, 90), ctor='tuple'))


def single(apparent_zenith, solar_azimuth, axis_tilt, axis_azimuth,
           max_angle, backtrack, gcr, cross_axis_tilt):
    z = np.atleast_1d(np.asarray(apparent_zenith))
    s = np.atleast_1d(np.asarray(solar_azimuth))
    night = z > 90
    w = np.where(night, np.nan, psz(z, s, axis_tilt, axis_azimuth))
    th = w
    if backtrack:
        k = np.abs(cosd(w - cross_axis_tilt)/(gcr*cosd(cross_axis_tilt)))
        with np.errstate(all='ignore'):
            c = -np.sign(w)*np.degrees(np.arccos(k))
        th = w + np.where(k < 1, c, 0)
    if isinstance(max_angle, tuple):
        lo, hi = max_angle
    else:
        lo, hi = -max_angle, max_angle
    th = np.minimum(np.maximum(th, lo), hi)
    t, a = orient(th, axis_tilt, axis_azimuth)
    b = pv.irradiance.aoi(t, a, z, s)
    out = {'tracker_theta': th, 'aoi': b, 'surface_azimuth': a,
           'surface_tilt': t}
    out = {k: np.where(night, np.nan, v) for k, v in out.items()}
    if isinstance(apparent_zenith, pd.Series):
        return pd.DataFrame(out, index=apparent_zenith.index)
    return out


@contract(T_ + 'singleaxis', prop='C05',
          args=dict(apparent_zenith=E(0, 180, sp=[0, 90]),
                    solar_azimuth=E(0, 360), axis_tilt=Opt(0, P(0, 60)),
                    axis_azimuth=Opt(0, P(0, 360)), max_angle=LIM,
                    backtrack=Opt(True, False),
                    gcr=Opt(2.0/7.0, P(0.1, 1, gt=0)),
                    cross_axis_tilt=Opt(0, P(-30, 30))),
          pre=lambda max_angle, **k: [max_angle[0] <= max_angle[1]]
          if isinstance(max_angle, tuple) else [],
          kinds=('array', 'series'), loose=True)
def singleaxis(**k):
    return single(**k)


@contract(T_ + 'singleaxis', prop='C05', name=T_ + 'singleaxis(scalars)',
          args=dict(apparent_zenith=E(0, 180, sp=[0, 90]),
                    solar_azimuth=E(0, 360), axis_tilt=P(0, 60),
                    axis_azimuth=P(0, 360), max_angle=60,
                    backtrack=Opt(True, False), gcr=0.4,
                    cross_axis_tilt=Opt(0, 10)), kinds=('scalar',),
          loose=True)
def singleaxis_scalar(**k):
    return single(**k)


LP = dict(z=E(0, 180, sp=[0, 90]), s=E(0, 360), tilt=P(0, 60, req=True),
          axis=P(0, 360, req=True), lim=P(5, 90, req=True),
          gcr=P(0.1, 1, gt=0), slope=P(-30, 30, req=True))


@lemma('C05', T_ + 'singleaxis', args=dict(LP, back=Opt(True, False)),
       kinds=('array', 'series'))
def limits(z, s, tilt, axis, lim, gcr, slope, back):
    r = pv.tracking.singleaxis(z, s, tilt, axis, lim, back, gcr, slope)
    yield 'rotation within the mechanical limits', between(
        r['tracker_theta'], -lim, lim)
    for k in ('tracker_theta', 'aoi', 'surface_tilt', 'surface_azimuth'):
        yield 'no value at night: ' + k, implies(z > 90, isnan(r[k]))
        yield 'no value without sun position: ' + k, implies(
            isnan(z), isnan(r[k]))
    yield 'asymmetric limits', between(
        pv.tracking.singleaxis(z, s, tilt, axis, (-lim/2, lim), back, gcr,
                               slope)['tracker_theta'], -lim/2, lim)


@lemma('C05', T_ + 'singleaxis', args={}, kinds=('array',))
def bad_shape():
    yield 'two-dimensional input is rejected', raises(
        ValueError, pv.tracking.singleaxis, np.zeros((2, 2)), 180.)


@lemma('C05', T_ + 'calc_axis_tilt',
       args=dict(sa=E(0, 360), st=E(0, 60, req=True), aa=E(0, 360)),
       kinds=('array', 'scalar', 'series'))
def axis_tilt(sa, st, aa):
    f = pv.tracking.calc_axis_tilt
    v = f(sa, st, aa)
    yield 'slope along the axis', eq(np.tan(np.deg2rad(v)),
                                     np.tan(np.deg2rad(st))*cosd(aa - sa))
    yield 'axis down the slope has the tilt of the slope', eq(
        np.tan(np.deg2rad(f(sa, st, sa))), np.tan(np.deg2rad(st)) + 0*sa)
    yield 'axis across the slope is level', eq(f(sa, st, sa + 90),
                                               0*st + 0*sa)


@contract(T_ + 'calc_cross_axis_tilt', prop='C05',
          args=dict(slope_azimuth=P(0, 360), slope_tilt=P(1, 60, req=True),
                    axis_azimuth=P(0, 360), axis_tilt=P(0, 45, req=True)),
          kinds=('scalar',), loose=True)
def cross_axis(slope_azimuth, slope_tilt, axis_azimuth, axis_tilt):
    d = axis_azimuth - slope_azimuth
    x = sind(d)*cosd(axis_tilt)*cosd(slope_tilt)
    y = (sind(axis_tilt)*sind(slope_tilt)
         + cosd(d)*cosd(axis_tilt)*cosd(slope_tilt))
    z = -sind(d)*sind(slope_tilt)*cosd(axis_tilt)
    n = np.sqrt(x*x + y*y + z*z)
    return np.degrees(np.arcsin(
        ((x*cosd(d) - y*sind(d))*sind(axis_tilt) + z*cosd(axis_tilt))/n))


# ------------------------------------------------------------------- shading
GCR = P(0.05, 0.95, req=True)


@contract(S_ + 'ground_angle', prop='C06',
          args=dict(surface_tilt=E(0, 90), gcr=P(0.05, 1, req=True),
                    slant_height=E(0, 1)), kinds=ALL + ('mixed',))
def ground_angle(surface_tilt, gcr, slant_height):
    h = gcr*slant_height
    return np.degrees(np.arctan2(h*sind(surface_tilt),
                                 1 + h*cosd(surface_tilt)))


@contract(S_ + 'masking_angle', prop='C06',
          args=dict(surface_tilt=E(0, 90), gcr=GCR,
                    slant_height=E(0, 1, req=True)), kinds=ALL + ('mixed',))
def masking_angle(surface_tilt, gcr, slant_height):
    h = gcr*(1 - slant_height)
    return np.degrees(np.arctan(h*sind(surface_tilt)
                                / (1 - h*cosd(surface_tilt))))


@lemma('C06', S_ + 'masking_angle',
       args=dict(t=E(0, 90, nan=False, req=True), gcr=GCR,
                 x=E(0, 1, nan=False, req=True)), kinds=('array',))
def masking_facts(t, gcr, x):
    f = pv.shading.masking_angle
    v = f(t, gcr, x)
    yield 'within [0, 90)', both(le(0, v), lt(v, 90))
    yield 'no masking at the top of the row', eq(f(t, gcr, 0*x + 1), 0)
    yield 'no masking of a horizontal row', eq(f(0*t, gcr, x), 0)
    yield 'largest at the bottom of the row', le(v, f(t, gcr, 0*x))
    g = pv.shading.ground_angle(t, gcr, x)
    yield 'ground angle within [0, 90]', between(g, 0, 90)
    yield 'ground angle is zero at the bottom', eq(
        pv.shading.ground_angle(t, gcr, 0*x), 0)
    s = pv.shading.sky_diffuse_passias(v)
    yield 'lost sky fraction within [0, 1]', between(s, 0, 1)
    yield 'nothing lost without masking', eq(
        pv.shading.sky_diffuse_passias(0*v), 0)


@contract(S_ + 'masking_angle_passias', prop='C06',
          args=dict(surface_tilt=E(0, 90, sp=[0, 90], req=True),
                    gcr=P(0.05, 0.95, req=True)),
          kinds=('array', 'series', 'scalar'), loose=True, nconc=40,
          rtol=1e-5)
def passias(surface_tilt, gcr):
    b = np.radians(np.asarray(surface_tilt))
    s, c = np.sin(b), np.cos(b)
    X = 1/gcr
    with np.errstate(all='ignore'):
        v = (-X*s*np.log(np.abs(2*X*c - (X**2 + 1)))/2
             + (X*c - 1)*np.arctan((X*c - 1)/(X*s))
             + (1 - X*c)*np.arctan(c/s) + X*s*np.log(X))
    v = np.where(np.isfinite(v), v, 0)
    if isinstance(surface_tilt, pd.Series):
        v = pd.Series(v, index=surface_tilt.index)
    return np.degrees(v)


@contract(S_ + 'sky_diffuse_passias', prop='C06',
          args=dict(masking_angle=E(0, 90)), kinds=ALL)
def sky_passias(masking_angle):
    return sind(masking_angle/2)**2


SF = dict(solar_zenith=E(0, 90, req=True), solar_azimuth=E(0, 360),
          axis_azimuth=P(0, 360), shaded_row_rotation=E(-90, 90),
          collector_width=P(0.5, 5, req=True), pitch=P(1, 20, req=True),
          axis_tilt=Opt(0, P(0, 30)),
          surface_to_axis_offset=Opt(0, P(0, 0.5)),
          cross_axis_slope=Opt(0, P(-20, 20)),
          shading_row_rotation=Opt(None, E(-90, 90)))


@contract(S_ + 'shaded_fraction1d', prop='C06', args=SF,
          kinds=('array', 'series', 'mixed'), loose=True)
def shaded(solar_zenith, solar_azimuth, axis_azimuth, shaded_row_rotation,
           collector_width, pitch, axis_tilt, surface_to_axis_offset,
           cross_axis_slope, shading_row_rotation):
    r2 = shaded_row_rotation
    r1 = r2 if shading_row_rotation is None else shading_row_rotation
    p = psz(solar_zenith, solar_azimuth, axis_tilt, axis_azimuth)
    c2 = np.abs(cosd(r2 - p))
    t = (0.5 + np.abs(cosd(r1 - p))/c2/2
         + np.sign(p)*surface_to_axis_offset/collector_width/c2
         * (sind(r2 - p) - sind(r1 - p))
         - pitch/collector_width*cosd(p - cross_axis_slope)/c2
         / cosd(cross_axis_slope))
    return np.minimum(np.maximum(t, 0), 1)


@lemma('C06', S_ + 'shaded_fraction1d',
       args=dict(z=E(0, 90, req=True), s=E(0, 360), axis=P(0, 360),
                 rot=E(-90, 90, req=True), w=P(0.5, 5, req=True),
                 pitch=P(1, 20, req=True)), kinds=('array', 'series'))
def shaded_facts(z, s, axis, rot, w, pitch):
    f = pv.shading.shaded_fraction1d
    v = f(z, s, axis, rot, collector_width=w, pitch=pitch)
    yield 'within [0, 1]', between(v, 0, 1)
    yield 'equal rows are the default', eq(
        f(z, s, axis, rot, collector_width=w, pitch=pitch,
          shading_row_rotation=rot), v)


@contract(S_ + 'direct_martinez', prop='C06',
          args=dict(poa_global=E(1, 1200, gt=0), poa_direct=E(0, 1000),
                    shaded_fraction=E(0, 1), shaded_blocks=E(0, 6),
                    total_blocks=P(1, 6, req=True)),
          kinds=ALL + ('mixed',))
def martinez(poa_global, poa_direct, shaded_fraction, shaded_blocks,
             total_blocks):
    f = (1 - shaded_fraction)*(1 - np.ceil(shaded_blocks)
                               / (1 + total_blocks))
    return poa_direct*(1 - f)/poa_global


@lemma('C06', S_ + 'direct_martinez',
       args=dict(g=E(1, 1200, gt=0, nan=False), b=E(0, 1, nan=False,
                                                    req=True),
                 f=E(0, 1, nan=False, req=True),
                 n=E(0, 6, nan=False, req=True), N=P(1, 6, req=True)),
       kinds=('array',))
def martinez_facts(g, b, f, n, N):
    m = pv.shading.direct_martinez
    v = m(g, b*g, f, n, N)
    yield 'no loss without shade', eq(m(g, b*g, 0*f, 0*n, N), 0)
    yield 'loss is never negative', le(0, v)
    yield 'loss at most the direct share', implies(
        n <= N, le(v, b))
    yield 'fully shaded rows lose all direct light', eq(
        m(g, b*g, 0*f + 1, n, N), b)
