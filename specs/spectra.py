"""Spectral mismatch models and spectral irradiance (C18)."""
from pvc.api import *
from pvc.data import table
import numpy as np
import pandas as pd

S_ = 'pvlib.spectrum.'
KS = ('array', 'series', 'scalar')
PW = E(0.05, 9, gt=0, sp=[.1, 8, 8.01])
AM = E(0.5, 12, gt=0, sp=[.58, 10])
FIRST = dict(
    cdte=(0.86273, -0.038948, -0.012506, 0.098871, 0.084658, -0.0042948),
    monosi=(0.85914, -0.020880, -0.0058853, 0.12029, 0.026814, -0.0017810),
    multisi=(0.84090, -0.027539, -0.0079224, 0.13570, 0.038024, -0.0021218),
    cigs=(0.85252, -0.022314, -0.0047216, 0.13666, 0.013342, -0.0008945),
    asi=(1.12094, -0.047620, -0.0083627, -0.10443, 0.098382, -0.0033818))
FIRST['xsi'] = FIRST['monosi']
FIRST['polysi'] = FIRST['multisi']


def coef(n):
    return Opt(None, Vec(n, P(-1, 2), ctor='list'))


def chosen(kind, co, known, default=None):
    return known[kind.lower()] if co is None else co


def one_of(kind, co):
    """which of module type and coefficients are passed on"""
    return (None, co) if co is not None else (kind, None)


@lemma('C18', S_ + 'spectral_factor_firstsolar', args=dict(
    pw=PW, am=AM, kind=Opt(*FIRST, 'CdTe'), co=coef(6)),
    kinds=('array', 'series', 'scalar'))
def firstsolar(pw, am, kind, co):
    f = pv.spectrum.spectral_factor_firstsolar
    c = chosen(kind, co, FIRST)
    w = np.fmax(np.where(pw > 8, np.nan, np.maximum(pw, 0.1)), 0)
    w = np.where(np.isnan(pw) | (pw > 8), np.nan, np.maximum(pw, .1))
    a = np.clip(am, 0.58, 10)
    want = (c[0] + c[1]*a + c[2]*w + c[3]*a**.5 + c[4]*w**.5 + c[5]*a/w**.5)
    got = f(pw, am, *one_of(kind, co))
    yield 'factor', same(np.asarray(got), np.atleast_1d(want), types=False)
    yield 'neither', raises(TypeError, f, pw, am)
    yield 'both', raises(TypeError, f, pw, am, 'cdte', FIRST['cdte'])


@contract(S_ + 'spectral_factor_sapm', prop='C18', args=dict(
    airmass_absolute=E(0, 40), module=Dct(**{
        f'A{i}': P(-.2, 1) for i in range(5)})), kinds=KS)
def sapm(airmass_absolute, module):
    a = airmass_absolute
    p = sum(module[f'A{i}']*a**i for i in range(5))
    r = np.where(np.isnan(a), 0, np.maximum(p, 0))
    return pd.Series(r, index=a.index) if isinstance(a, pd.Series) else r


CABALLERO = dict(
    cdte=(1.0044, 0.0095, -0.0037, 0.0002, 0.0000, -0.0046,
          -0.0182, 0, 0.0095, 0.0068, 0, 1),
    monosi=(0.9706, 0.0377, -0.0123, 0.0025, -0.0002, 0.0159,
            -0.0165, 0, -0.0016, -0.0027, 1, 0),
    multisi=(0.9836, 0.0254, -0.0085, 0.0016, -0.0001, 0.0094,
             -0.0132, 0, -0.0002, -0.0011, 1, 0),
    cigs=(0.9801, 0.0283, -0.0092, 0.0019, -0.0001, 0.0117,
          -0.0126, 0, -0.0011, -0.0019, 1, 0),
    asi=(1.1060, -0.0848, 0.0302, -0.0076, 0.0006, -0.1283,
         0.0986, -0.0254, 0.0156, 0.0146, 1, 0),
    perovskite=(1.0637, -0.0491, 0.0180, -0.0047, 0.0004, -0.0773,
                0.0583, -0.0159, 0.01251, 0.0109, 1, 0))


def errors(f, a, exc, kind, co):
    yield 'neither', raises(exc, f, *a)
    yield 'both', raises(exc, f, *a, module_type=kind, coefficients=co)


@lemma('C18', S_ + 'spectral_factor_caballero', args=dict(
    pw=E(0, 8), am=AM, aod=E(0, 1), kind=Opt(*CABALLERO), co=coef(12)),
    kinds=KS)
def caballero(pw, am, aod, kind, co):
    f = pv.spectrum.spectral_factor_caballero
    c = chosen(kind, co, CABALLERO)
    la = np.log(am)
    want = (sum(c[i]*am**i for i in range(5))
            + (aod - .084)*(c[5] + c[10]*c[6]*am + c[11]*c[6]*la
                            + c[7]*am**2)
            + (pw - 1.4164)*(c[8] + c[9]*la))
    yield 'factor', same(f(pw, am, aod, *one_of(kind, co)), want)
    yield from errors(f, (pw, am, aod), ValueError, 'cdte', [1]*12)


PVSPEC = {
    'multisi': (0.9847, -0.05237, 0.03034),
    'monosi': (0.9845, -0.05169, 0.03034),
    'fs4-2': (1.002, -0.07108, 0.02465), 'fs4-1': (0.9981, -0.05776, 0.02336),
    'cigs': (0.9791, -0.03904, 0.03096), 'asi': (1.051, -0.1033, 0.009838)}


@lemma('C18', S_ + 'spectral_factor_pvspec', args=dict(
    am=AM, kc=E(.1, 1.3, gt=0), kind=Opt(*PVSPEC, 'MonoSi'),
    co=Opt(None, Vec(3, P(-1, 2, sp=[.5]), ctor='list'))), kinds=KS)
def pvspec(am, kc, kind, co):
    f = pv.spectrum.spectral_factor_pvspec
    c = chosen(kind, co, PVSPEC)
    yield 'factor', same(f(am, kc, *one_of(kind, co)),
                         c[0]*kc**c[1]*am**c[2])
    yield from errors(f, (am, kc), ValueError, 'cigs', [1]*3)


JRC = dict(multisi=[v/.00348 for v in (0.00172, 0.000508, 0.00000357)],
           cdte=[v/.001150 for v in (0.000643, 0.000130, 0.0000108)])


@lemma('C18', S_ + 'spectral_factor_jrc', args=dict(
    am=AM, kc=E(0, 1.3), kind=Opt(*JRC, 'CdTe'), co=coef(3)), kinds=KS)
def jrc(am, kc, kind, co):
    f = pv.spectrum.spectral_factor_jrc
    c = chosen(kind, co, JRC)
    yield 'factor', same(f(am, kc, *one_of(kind, co)),
                         1 + c[0]*(np.exp(-kc) - np.exp(-1.)) + c[1]*(kc - 1)
                         + c[2]*(am - 1.5))
    yield from errors(f, (am, kc), ValueError, 'cdte', [1]*3)


POLO = {
    'cdte': (-0.0009, 46.80, 49.20, -0.87, 0.00041, 0.053,
             0.0021, -0.01, 1.01),
    'monosi': (0.0027, 10.34, 9.48, 0.31, 0.00077, 0.006, 0, -0.003, 1.0),
    'cigs': (0.0017, 2.33, 1.30, 0.11, 0.00098, -0.018,
             -0.0009, -0.0003, 1),
    'asi': (0.0024, 7.32, 7.09, -0.72, -0.0013, 0.089,
            0.0056, -0.020, 1.014)}


@lemma('C18', S_ + 'spectral_factor_polo', args=dict(
    pw=E(0, 8, ge=0), am=AM, aod=E(.01, 1, gt=0),
    aoi=E(0, 120, ge=0, sp=[90, 60]), pr=E(6e4, 1.1e5, gt=0),
    kind=Opt(*POLO), co=Opt(None, Vec(9, P(.1, 2, gt=0), ctor='list')),
    al=Opt(None, E(0, 1))), kinds=KS)
def polo(pw, am, aod, aoi, pr, kind, co, al):
    f = pv.spectrum.spectral_factor_polo
    c = chosen(kind, co, POLO)
    z = np.minimum(aoi, 90)
    rel = pv.atmosphere.get_relative_airmass(z, 'kastenyoung1989')
    r = pv.atmosphere.get_absolute_airmass(rel, pr)/am
    q = (.2 if al is None else al)/.2
    want = (c[6]*q**2 + c[7]*q + c[8])*(
        c[0]*r + c[1]/(c[2] + r**c[3]) + c[4]/aod + c[5]*pw**.5)
    k = {} if al is None else dict(albedo=al)
    m, cc = one_of(kind, co)
    yield 'factor', same(f(pw, am, aod, aoi, pr, module_type=m,
                           coefficients=cc, **k), want, types=False)
    yield from errors(f, (pw, am, aod, aoi, pr), ValueError, 'cdte', [1]*9)


# ---------------------------------------------------------------- SPECTRL2
W = ('wavelength', 'spectral_irradiance_et', 'water_vapor_absorption',
     'ozone_absorption', 'mixed_absorption')
TAB = table('spectrl2')
T_ = 'pvlib.spectrum.spectrl2.'
STUB = {}
if SYM:
    # one row with arbitrary entries stands for the 122 rows of the table
    # (the rows do not interact); the entries themselves are compared below
    from pvc import terms as _t
    from pvc.xval import A as _A, X as _X
    import pvc.xval as _x

    def _row(n):
        d = _x.np.empty(1, object)
        for i in range(1):
            d[i] = _X(_t.var(f'table.{n}.{i}'))
        return _A(d)
    STUB = {T_ + '_SPECTRL2_COEFFS': {n: _row(n) for n in W}}


def col(n):
    """coefficient column in use (every row)"""
    return module('pvlib.spectrum.spectrl2')._SPECTRL2_COEFFS[n][
        :, np.newaxis]


def positive(**k):
    if SYM:
        w = STUB[T_ + '_SPECTRL2_COEFFS']['wavelength']
        return [w[0] > 0]
    return [True]


@lemma('C18', T_ + '_SPECTRL2_COEFFS', args=dict(), kinds=('scalar',),
       nconc=1)
def coefficients():
    t = module('pvlib.spectrum.spectrl2')._SPECTRL2_COEFFS
    for n in W:
        yield n, bool(np.all(np.asarray([float(v) for v in t[n]]) ==
                             np.asarray([float(v) for v in TAB[n]])))


def transmittances(z, m, p, w, o, tau, omega, doy):
    """Bird & Riordan (1986), section 2 and 3"""
    lam = col('wavelength')/1000
    d = pv.irradiance.get_extra_radiation(doy, method='spencer',
                                          solar_constant=1)
    mp = m*p/101300
    aw = col('water_vapor_absorption')*w*m
    h = 22/6370
    mo = (1 + h)/(np.cos(z*np.pi/180)**2 + 2*h)**.5
    au = col('mixed_absorption')*mp
    return (d, np.exp(-mp/(lam**4*(115.6406 - 1.3366/lam**2))),
            np.exp(-tau*m), np.exp(-.2385*aw/(1 + 20.07*aw)**.45),
            np.exp(-col('ozone_absorption')*o*mo),
            np.exp(-1.41*au/(1 + 118.3*au)**.45),
            np.exp(-omega*tau*m), np.exp(-(1 - omega)*tau*m))


ATM = dict(apparent_zenith=E(0, 89), surface_pressure=E(6e4, 1.1e5),
           relative_airmass=E(1, 20), precipitable_water=E(.1, 8),
           ozone=E(.1, .5))
EXTRA = {'pvlib.irradiance.get_extra_radiation': ufn(
    'pvlib.irradiance.get_extra_radiation')}


@lemma('C18', T_ + '_spectrl2_transmittances', args=dict(
    ATM, tau=E(.01, .5), omega=E(.8, 1),
    doy=E(1, 366, integer=True)), kinds=('array', 'scalar'),
    symstubs=dict(STUB, **EXTRA), pre=positive, nconc=12)
def spectrl2_transmittances(apparent_zenith, surface_pressure,
                            relative_airmass, precipitable_water, ozone, tau,
                            omega, doy):
    a = (apparent_zenith, relative_airmass, surface_pressure,
         precipitable_water, ozone, tau, omega, doy)
    got = module('pvlib.spectrum.spectrl2')._spectrl2_transmittances(*a)
    for n, g, w in zip(('distance', 'Rayleigh', 'aerosol', 'water vapour',
                        'ozone', 'mixed gas', 'aerosol scattering',
                        'aerosol absorption'), got, transmittances(*a)):
        yield n, same(g, w, types=False)


OUT = ('wavelength', 'dni_extra', 'dhi', 'dni', 'poa_sky_diffuse',
       'poa_ground_diffuse', 'poa_direct', 'poa_global')
I_ = 'pvlib.irradiance.'
TRS = {I_ + 'haydavies': ufn(I_ + 'haydavies'),
       I_ + 'get_ground_diffuse': ufn(I_ + 'get_ground_diffuse'), T_ + '_spectrl2_transmittances': ufn(
    T_ + '_spectrl2_transmittances', tuple('d r a w o u s b'.split()))}


@lemma('C18', T_ + 'spectrl2', args=dict(
    times=Times('Etc/GMT+7'), **ATM, aoi=E(0, 120), surface_tilt=E(0, 90),
    ground_albedo=E(0, .9), tau=E(.01, .5), g=Opt(None, E(.5, .8)),
    doy=E(1, 366, integer=True)),
    kinds=('array', 'series'), symstubs=dict(STUB, **EXTRA, **TRS),
    pre=positive, nconc=10, budget=120)
def spectrl2(times, apparent_zenith, surface_pressure, relative_airmass,
             precipitable_water, ozone, aoi, surface_tilt, ground_albedo, tau,
             g, doy):
    k = {}
    if g is not None:
        k = dict(aerosol_asymmetry_factor=g, alpha=1.2,
                 scattering_albedo_400nm=.9, wavelength_variation_factor=.1)
    m = module('pvlib.spectrum.spectrl2')
    pandas = isinstance(aoi, pd.Series)
    got = pv.spectrum.spectrl2(
        apparent_zenith, aoi, surface_tilt, ground_albedo, surface_pressure,
        relative_airmass, precipitable_water, ozone, tau,
        **({} if pandas else dict(dayofyear=doy)), **k)
    if pandas:
        doy = times.tz_convert('UTC').dayofyear.values
    z, p, am, w, o, t, b, rg = [
        np.asanyarray(v) for v in (
            apparent_zenith, surface_pressure, relative_airmass,
            precipitable_water, ozone, tau, surface_tilt, ground_albedo)]
    lam = col('wavelength')
    h0 = col('spectral_irradiance_et')
    al, om, nu, g = (1.2, .9, .1, g) if k else (1.14, .945, .095, .65)
    if k:
        g = np.asanyarray(g)
    tl = t*(lam/500)**-al
    wl = om*np.exp(-nu*np.log(lam/400)**2)
    f = m._spectrl2_transmittances
    D, R, A_, V, O, U, As, Aa = f(z, am, p, w, o, tl, wl, doy)
    _, R1, _, V1, _, U1, As1, Aa1 = f(z, 1.8, p, w, o, tl, wl, doy)
    h = h0*D
    c = np.cos(z*np.pi/180)
    dni = h*R*A_*V*O*U
    ln = np.log(1 - g)
    bf = ln*(.0783 + ln*(-.3824 - ln*.5874))
    af = ln*(1.459 + ln*(.1595 + ln*.4129))
    fs = 1 - .5*np.exp((af + bf*c)*c)
    fp = 1 - .5*np.exp((af + bf/1.8)/1.8)
    rs = U1*V1*Aa1*(.5*(1 - R1) + (1 - fp)*R1*(1 - As1))
    base = h*c*O*U*V*Aa
    ir = base*(1 - R**.95)*.5
    ia = base*R**1.5*(1 - As)*fs
    ig = (dni*c + ir + ia)*rs*rg/(1 - rs*rg)
    dhi = (ir + ia + ig)*np.where(lam <= 450, ((lam + 550)/1000)**1.8, 1)
    nn = np.maximum(np.cos(np.asanyarray(aoi)*np.pi/180), 0)
    rb = nn/np.maximum(c, .01745)
    sky = pv.irradiance.haydavies(b, None, dhi, dni, h, projection_ratio=rb)
    ground = pv.irradiance.get_ground_diffuse(b, dni*c + dhi, rg)
    for n, v in zip(OUT, (lam[:, 0], h, dhi, dni, sky, ground, dni*nn,
                          dni*nn + sky + ground)):
        yield n, same(got[n], v, types=False)
    yield 'names', list(got) == list(OUT)
    if not pandas:
        yield 'day of year required', raises(
            ValueError, pv.spectrum.spectrl2, apparent_zenith, aoi,
            surface_tilt, ground_albedo, surface_pressure, relative_airmass,
            precipitable_water, ozone, tau)


# --------------------------------- spectral response, mismatch, photon energy
R_ = 'pvlib.spectrum.'
HC_Q = 2.99792458e8*6.62607015e-34/1.602176634e-19*1e9


@contract(R_ + 'sr_to_qe', prop='C18', args=dict(
    sr=E(0, 2), wavelength=E(200, 4000)), kinds=('array', 'scalar', 'series'))
def sr_to_qe(sr, wavelength):
    return sr*HC_Q/wavelength


@contract(R_ + 'qe_to_sr', prop='C18', args=dict(
    qe=E(0, 1), wavelength=E(200, 4000)), kinds=('array', 'scalar', 'series'))
def qe_to_sr(qe, wavelength):
    return qe*wavelength/HC_Q


@lemma('C18', R_ + 'sr_to_qe', args=dict(
    v=E(0, 2), wavelength=E(200, 4000, nan=False)),
    kinds=('array', 'scalar'), pre=lambda v, wavelength: [wavelength > 0])
def round_trip(v, wavelength):
    yield 'back again', eq(pv.spectrum.qe_to_sr(
        pv.spectrum.sr_to_qe(v, wavelength), wavelength), v)
    for f in (pv.spectrum.sr_to_qe, pv.spectrum.qe_to_sr):
        yield 'wavelength is required', raises(TypeError, f, v)


SPEC = dict(n=P(3, 60, integer=True), a=E(.01, 2, nan=False, req=True),
            b=E(.01, 2, nan=False, req=True), c=E(.01, 2, nan=False, req=True),
            step=E(.5, 40, nan=False, req=True))


def spectrum(n, step, *vals):
    n = min(n, len(step))
    w = 300 + np.cumsum(step[:n])
    return w, [v[:n] for v in vals]


def trap(y, x):
    return sum((x[i + 1] - x[i])*(y[i + 1] + y[i])/2
               for i in range(len(x) - 1))


def close(a, b):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float),
                            rtol=1e-9))


@lemma('C18', R_ + 'sr_to_qe', args=SPEC, kinds=('array',), bounded=True,
       nconc=100)
def normalised(n, a, b, c, step):
    # bounded: sampled spectra of 2 to 60 rows
    w, (v,) = spectrum(n, step, a)
    s = pd.Series(v, index=w)
    q = pv.spectrum.sr_to_qe(s)
    yield 'index is the wavelength', close(q, v*HC_Q/w)
    yield 'index', q.index.equals(s.index)
    yield 'back again', close(pv.spectrum.qe_to_sr(q), v)
    k = v*HC_Q/w
    yield 'normalised', close(pv.spectrum.sr_to_qe(s, normalize=True),
                              k/np.max(k))
    yield 'normalised array', close(
        pv.spectrum.qe_to_sr(v, w, normalize=True), v*w/np.max(v*w))
    f = pd.DataFrame({'p': v, 'q': b[:len(v)]}, index=w)
    m = pv.tools.normalize_max2one(f)
    yield 'column by column', close(m, np.column_stack(
        [v/np.max(v), b[:len(v)]/np.max(b[:len(v)])]))
    yield 'same frame', list(m) == list(f) and m.index.equals(f.index)


@lemma('C18', R_ + 'average_photon_energy', args=SPEC, kinds=('array',),
       bounded=True, nconc=100)
def photon_energy(n, a, b, c, step):
    # bounded: sampled spectra of 2 to 60 rows
    w, (x, y) = spectrum(n, step, a, b)
    if len(w) < 2:
        return

    def ape(v):
        return HC_Q*trap(v, w)/trap(v*w, w)
    f = pv.spectrum.average_photon_energy
    yield 'series', close(f(pd.Series(x, index=w)), ape(x))
    d = pd.DataFrame([x, y], index=['u', 'v'], columns=w)
    r = f(d)
    yield 'one value for each row', close(r, [ape(x), ape(y)])
    yield 'row index', list(r.index) == ['u', 'v']
    d.iloc[1, 1] = -1.
    yield 'negative irradiance is refused', raises(ValueError, f, d)
    yield 'arrays are refused', raises(TypeError, f, x)


@lemma('C18', R_ + 'calc_spectral_mismatch_field', args=SPEC,
       kinds=('array',), bounded=True, nconc=60)
def mismatch_field(n, a, b, c, step):
    # bounded: sampled spectra and responses of 2 to 60 rows
    w, (x, y, s) = spectrum(n, step, a, b, c)
    if len(w) < 2:
        return
    k = max(2, len(w) - 2)
    ws = w[:k] + .25
    sr = pd.Series(s[:k], index=ws)
    ref = pd.Series(np.linspace(.5, 2, 40), index=np.linspace(290, 900, 40))
    f = pv.spectrum.calc_spectral_mismatch_field

    def share(e, u):
        r = np.interp(u, ws, s[:k], left=0, right=0)
        return trap(e*r, u)/trap(e, u)
    if not np.any((ref.index > ws[0]) & (ref.index < ws[-1])):
        return
    want = [share(v, w)/share(ref.values, ref.index.values) for v in (x, y)]
    yield 'series', close(f(sr, pd.Series(x, index=w), ref), want[0])
    d = pd.DataFrame([x, y], index=['u', 'v'], columns=w)
    r = f(sr, d, ref)
    yield 'one value for each row', close(r, want)
    yield 'row index', list(r.index) == ['u', 'v']
    yield 'reference spectrum gives one', close(f(sr, ref, ref), 1)
    am = pv.spectrum.get_reference_spectra(wavelengths=w)['global']
    if np.any((w > ws[0]) & (w < ws[-1])):
        yield 'default reference', close(
            f(sr, d), [share(v, w)/share(am.values, w) for v in (x, y)])


@lemma('C18', R_ + 'get_reference_spectra', args=SPEC, kinds=('array',),
       bounded=True, nconc=10)
def reference_spectra(n, a, b, c, step):
    # bounded: sampled wavelengths
    w, _ = spectrum(n, step)
    t = pv.spectrum.get_reference_spectra()
    r = pv.spectrum.get_reference_spectra(wavelengths=w)
    yield 'columns', list(t) == list(r) == ['extraterrestrial', 'global',
                                            'direct']
    for k in t:
        yield 'interpolated ' + k, close(r[k], np.interp(
            w, t.index, t[k], left=0, right=0))
    yield 'integral of the tabulated global spectrum is 1000 W/m2', bool(
        abs(trap(t['global'].values, t.index.values) - 1000.4) < 1)
    yield 'unknown standard is refused', raises(
        ValueError, pv.spectrum.get_reference_spectra, None, 'no')


@lemma('C18', R_ + 'get_example_spectral_response', args=SPEC,
       kinds=('array',), bounded=True, nconc=10)
def example_response(n, a, b, c, step):
    # bounded: sampled wavelengths
    w, _ = spectrum(n, step)
    r = pv.spectrum.get_example_spectral_response(w)
    yield 'index', list(r.index) == list(w)
    yield 'no response outside 290 to 1190 nm', bool(
        np.all(r[(w < 290) | (w > 1190)] == 0))
    x = np.array([290, 350, 400, 500, 650, 800, 900, 950, 1000, 1050, 1100,
                  1150, 1190.])
    y = [0, .27, .37, .52, .71, .88, .97, 1, .93, .58, .21, .05, 0]
    yield 'passes through the tabulated points', bool(np.allclose(
        pv.spectrum.get_example_spectral_response(x), y, atol=1e-9))
