"""Explicit array performance models, transformer, water albedo, combined
losses (C20)."""
from pvc.api import *
import numpy as np
import pandas as pd
from scipy.special import lambertw

A_ = 'pvlib.pvarray.'
ANY = ('array', 'series', 'scalar', 'mixed', 'mixedS')
LW = {'pvlib.ivtools.utils._lambertw_pvlib': lambda z: lambertw(
    np.asarray(z)).real}
ADR = dict(k_a=P(50, 110), k_d=P(-9, -3), tc_d=P(-.05, .05), k_rs=P(0, .2),
           k_rsh=P(0, .5))


def W(z):
    return lambertw(np.asarray(z)).real


def ser(*v):
    return any(isinstance(x, pd.Series) for x in v)


# ------------------------------------------------------------- efficiency
@contract(A_ + 'pvefficiency_adr', prop='C20', args=dict(
    effective_irradiance=E(0, 1400, gt=-.1, sp=[0]), temp_cell=E(-30, 90),
    **ADR), kinds=ANY, loose=True)
def adr(effective_irradiance, temp_cell, k_a, k_d, tc_d, k_rs, k_rsh):
    with np.errstate(all='ignore'):
        s = effective_irradiance/1000
        s0, sr = 10.**(k_d + (temp_cell - 25)*tc_d), 10.**k_d
        v = np.log(s/s0 + 1)/np.log(1/sr + 1)
        return k_a*((1 + k_rs + k_rsh)*v - k_rs*s - k_rsh*v*v)


@lemma('C20', A_ + 'pvefficiency_adr', args=dict(
    g=E(0, 1400, gt=0, nan=False), **ADR), kinds=('array',), nconc=20)
def adr_reference(g, k_a, k_d, tc_d, k_rs, k_rsh):
    e = pv.pvarray.pvefficiency_adr(0*g + 1000, 0*g + 25, k_a, k_d, tc_d,
                                    k_rs, k_rsh)
    yield 'the reference efficiency is k_a', eq(e, k_a + 0*g)


K5 = {'csi': (-0.017237, -0.040465, -0.004702, 0.000149, 0.000170, 0.000005),
      'cis': (-0.005554, -0.038724, -0.003723, -0.000905, -0.001256,
              0.000001),
      'cdte': (-0.046689, -0.072844, -0.002262, 0.000276, 0.000159,
               -0.000006)}
K6 = {'csi': (-0.0067560, -0.016444, -0.003015, -0.000045, -0.000043, 0.0),
      'cis': (-0.011001, -0.029734, -0.002887, 0.000217, -0.000163, 0.0),
      'cdte': (-0.020644, -0.035136, -0.003406, 0.000073, -0.000141,
               0.000002)}


def huld_formula(g, t, p, k):
    g, t = g/1000, t - 25
    with np.errstate(all='ignore'):
        n = np.where(g > 0, np.log(np.where(g > 0, g, 1)), 0)
    return g*(p + k[0]*n + k[1]*n**2 + k[2]*t + k[3]*t*n + k[4]*t*n**2
              + k[5]*t**2)


HULD = dict(effective_irradiance=E(-5, 1400, sp=[0, 1000]),
            temp_mod=E(-30, 90), pdc0=P(.5, 500))


@contract(A_ + 'huld', prop='C20', args=dict(
    HULD, k=Vec(6, P(-.1, .1), ctor='tuple'), cell_type=Opt(None, 'cdte')),
    kinds=ANY, loose=True)
def huld(effective_irradiance, temp_mod, pdc0, k, cell_type):
    return huld_formula(effective_irradiance, temp_mod, pdc0, k)


@contract(A_ + 'huld', prop='C20', name=A_ + 'huld(cell types)', args=dict(
    HULD, k=None, cell_type=Opt(*K5, 'cSi', 'CdTe'),
    k_version=Opt('pvgis5', 'pvgis6', 'PVGIS6')), kinds=('array', 'scalar'),
    nconc=10, loose=True)
def huld_types(effective_irradiance, temp_mod, pdc0, k, cell_type, k_version):
    d = {'pvgis5': K5, 'pvgis6': K6}[k_version.lower()]
    return huld_formula(effective_irradiance, temp_mod, pdc0, [
        v*pdc0 for v in d[cell_type.lower()]])


@lemma('C20', A_ + 'huld', args=dict(g=E(0, 1e3), t=E(-10, 50)),
       kinds=('array',), nconc=3)
def huld_refuses(g, t):
    f = pv.pvarray.huld
    yield 'no coefficients', raises(ValueError, f, g, t, 100)
    yield 'unknown version', raises(ValueError, f, g, t, 100,
                                    cell_type='csi', k_version='pvgis7')
    yield 'unknown cell type', raises(KeyError, f, g, t, 100, cell_type='x')


# --------------------------------------------------------------- batzelis
DATA = dict(v_mp=P(20, 45), i_mp=P(4, 12), v_oc=P(30, 55), i_sc=P(5, 13),
            alpha_sc=P(.001, .008), beta_voc=P(-.2, -.05))


@contract(A_ + 'batzelis', prop='C20', args=dict(
    effective_irradiance=E(-5, 1400, sp=[0, 1000]), temp_cell=E(-30, 90),
    **DATA), kinds=ANY, symstubs=LW, loose=True,
    pre=lambda alpha_sc, beta_voc, i_sc, **k: [alpha_sc*6 < i_sc])
def batzelis(effective_irradiance, temp_cell, v_mp, i_mp, v_oc, i_sc,
             alpha_sc, beta_voc):
    t0 = 298.15
    al, be = alpha_sc/i_sc, beta_voc/v_oc
    dt, lam = temp_cell - 25, (temp_cell + 273.15)/t0
    g = effective_irradiance/1000
    with np.errstate(all='ignore'):
        n = np.where(g > 0, np.log(np.where(g > 0, g, 1)),
                     np.where(isnan_(g), np.nan, -9e9))
    d = (1 - be*t0)/(50.1 - al*t0)
    w = W(np.exp(1/d + 1))
    r = v_oc/v_mp
    ai = al + (be - 1/t0)/(w - 1)
    bv = r*(be/(1 + d) + (d*(w - 1) - 1/(1 + d))/t0)
    isc = g*i_sc*(1 + al*dt)
    imp = g*i_mp*(1 + ai*dt)
    voc = np.maximum(v_oc*(1 + d*lam*n + be*dt), 0)
    vmp = np.maximum(v_mp*(1 + d/(1 + d)*r*lam*n
                           + (d*(w - 1)*r - 1)*(1 - g) + bv*dt), 0)
    out = {'p_mp': vmp*imp, 'i_mp': imp, 'v_mp': vmp, 'i_sc': isc,
           'v_oc': voc}
    if ser(effective_irradiance, temp_cell):
        return pd.DataFrame(out)
    return out


def isnan_(v):
    return np.isnan(v)


@contract('pvlib.singlediode.batzelis', prop='C20', args=dict(
    photocurrent=E(-.1, 12, sp=[0]), saturation_current=E(1e-11, 1e-7, gt=0),
    resistance_series=E(0, 1, ge=0), resistance_shunt=E(50, 5000, gt=0),
    nNsVth=E(.5, 4, gt=0)), kinds=ANY, symstubs=LW, loose=True)
def batzelis_points(photocurrent, saturation_current, resistance_series,
                    resistance_shunt, nNsVth):
    il, i0, a = photocurrent, saturation_current, nNsVth
    rs, rsh = resistance_series, resistance_shunt
    on = il > 0
    with np.errstate(all='ignore'):
        x = np.where(on, il/i0, 1)
        w = W(np.e*x)
        isc = np.where(on, il*rsh/(rs + rsh), 0)
        voc = np.where(on, a*np.log(x), 0)
        im = il - il/w - a*(w - 1)/rsh
        vm = np.where(on, a*(w - 1) - rs*im, 0)
        im = np.where(on, im, 0)
    out = {'p_mp': im*vm, 'i_mp': im, 'v_mp': vm, 'i_sc': isc, 'v_oc': voc}
    if ser(il, i0, a, rs, rsh):
        return pd.DataFrame(out, index=[x for x in (il, i0, a, rs, rsh)
                                        if ser(x)][0].index)
    return out


@lemma('C20', 'pvlib.singlediode.batzelis', args=dict(
    il=E(0, 12, nan=False), i0=E(1e-11, 1e-7, gt=0, nan=False),
    a=E(.5, 4, gt=0, nan=False)), kinds=('array',), bounded=True, nconc=20)
def batzelis_ideal(il, i0, a):
    r = pv.singlediode.batzelis(il, i0, 0., np.inf, a)
    yield 'infinite shunt resistance', eq(r['i_sc'], np.maximum(il, 0))
    v = r['v_mp']
    yield 'maximum power of the ideal cell', eq(
        np.where(il > 1e-3, il - i0*np.exp(v/a)*(1 + v/a), 0), 0,
        atol=1e-6)


# ------------------------------------------------------------ transformer
@contract('pvlib.transformer.simple_efficiency', prop='C20', args=dict(
    input_power=E(0, 1.2e6), no_load_loss=P(0, .02),
    load_loss=P(0, .05, gt=0), transformer_rating=P(1e5, 2e6, gt=0)),
    kinds=('array', 'series', 'scalar'), loose=True)
def transformer(input_power, no_load_loss, load_loss, transformer_rating):
    c = no_load_loss - input_power/transformer_rating
    q = (1 - 4*load_loss*c)**.5
    return 2*c/(-1 - q)*transformer_rating


@lemma('C20', 'pvlib.transformer.simple_efficiency', args=dict(
    p=E(0, 1.2e6, nan=False, req=True), nl=P(0, .02, req=True),
    ll=P(.001, .05, gt=0), s=P(1e5, 2e6, gt=0)),
    pre=lambda p, nl, ll, s: [0 < 1 + 4*ll*(p/s - nl)],
    kinds=('array',))
def transformer_balance(p, nl, ll, s):
    o = pv.transformer.simple_efficiency(p, nl, ll, s)
    yield 'input is output plus both losses', eq(
        p, o + nl*s + ll*s*(o/s)**2)
    yield 'output does not exceed the input', le(o, p)


# ----------------------------------------------------------------- albedo
COLOR = {
    'clear_water_no_waves': (0.13, 0.29),
    'clear_water_ripples_up_to_2.5cm': (0.16, 0.7),
    'clear_water_ripples_larger_than_2.5cm_occasional_whitecaps':
        (0.23, 1.25),
    'clear_water_frequent_whitecaps': (0.3, 2),
    'green_water_ripples_up_to_2.5cm': (0.22, 0.7),
    'muddy_water_no_waves': (0.19, 0.29)}
WATER = 'pvlib.albedo.inland_water_dvoracek'


def dvoracek(h, c, r):
    with np.errstate(all='ignore'):
        s = np.sin(np.where(h < 0, 0, h)*np.pi/180)
    v = c**(r*s + 1)
    return pd.Series(v, index=h.index) if ser(h) else v


@contract(WATER, prop='C20', args=dict(
    solar_elevation=E(-90, 90, sp=[0, 90]), surface_condition=None,
    color_coeff=P(.1, .4, gt=0), wave_roughness_coeff=P(.1, 2)),
    kinds=('array', 'series', 'scalar'), loose=True)
def water(solar_elevation, surface_condition, color_coeff,
          wave_roughness_coeff):
    return dvoracek(solar_elevation, color_coeff, wave_roughness_coeff)


@contract(WATER, prop='C20', name=WATER + '(named)', args=dict(
    solar_elevation=E(-90, 90, sp=[0, 90]), surface_condition=Opt(*COLOR)),
    kinds=('array', 'series', 'scalar'), nconc=8, loose=True)
def water_named(solar_elevation, surface_condition):
    return dvoracek(solar_elevation, *COLOR[surface_condition])


@lemma('C20', WATER, args=dict(h=E(-10, 90)), kinds=('array',), nconc=3)
def water_refuses(h):
    f = pv.albedo.inland_water_dvoracek
    n = 'muddy_water_no_waves'
    for k in (dict(), dict(color_coeff=.1), dict(wave_roughness_coeff=.3),
              dict(surface_condition=n, color_coeff=.1),
              dict(surface_condition=n, wave_roughness_coeff=.1),
              dict(surface_condition=n, color_coeff=.1,
                   wave_roughness_coeff=.1)):
        yield f'refuses {sorted(k)}', raises(ValueError, f, h, **k)
    yield 'unknown condition', raises(KeyError, f, h, 'no such water')


# --------------------------------------------------------- combined losses
@lemma('C20', 'pvlib.pvsystem.combine_loss_factors', bounded=True,
       args=dict(a=E(0, 1), b=E(0, 1), c=E(0, 1)), kinds=('series',),
       nconc=24)
def combined(a, b, c):
    f = pv.pvsystem.combine_loss_factors
    ix = a.index
    yield 'same index', eq(f(ix, a, b, c), 1 - (1 - a)*(1 - b)*(1 - c))
    yield 'one', eq(f(ix, a), a)
    late = b.iloc[::3]
    w = [1 - (1 - a.iloc[i])*(1 - b.iloc[i//3*3]) for i in range(len(a))]
    yield 'coarse losses hold until the next', eq(
        f(ix, a, late), pd.Series(w, index=ix))
    back = [1 - (1 - b.iloc[min(-(-i//3)*3, 10**9)]) if -(-i//3)*3 < len(b)
            else np.nan for i in range(len(a))]
    yield 'fill method', eq(f(ix, late, fill_method='bfill'),
                            pd.Series(back, index=ix))
