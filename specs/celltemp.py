"""Cell temperature models (C10)."""
from pvc.api import *
import numpy as np
import pandas as pd

ALL = ('array', 'series', 'scalar', 'mixed')
T_ = 'pvlib.temperature.'
POA = E(-10, 1500, sp=[0])
TA = E(-50, 60)
WS = E(0, 30, req=True)
EL = dict(poa_global=POA, temp_air=TA, wind_speed=WS)


@contract(T_ + 'sapm_module', prop='C10',
          args=dict(EL, a=P(-5, -2), b=P(-0.2, 0)), kinds=ALL)
def sapm_module(poa_global, temp_air, wind_speed, a, b):
    return temp_air + poa_global*np.exp(a + b*wind_speed)


@contract(T_ + 'sapm_cell_from_module', prop='C10',
          args=dict(module_temperature=TA, poa_global=POA, deltaT=P(0, 5),
                    irrad_ref=Opt(1000., P(500, 1500, req=True))),
          kinds=ALL)
def from_module(module_temperature, poa_global, deltaT, irrad_ref):
    return module_temperature + deltaT*poa_global/irrad_ref


@contract(T_ + 'sapm_cell', prop='C10',
          args=dict(EL, a=P(-5, -2), b=P(-0.2, 0), deltaT=P(0, 5),
                    irrad_ref=Opt(1000., P(500, 1500, req=True))),
          kinds=ALL)
def sapm_cell(poa_global, temp_air, wind_speed, a, b, deltaT, irrad_ref):
    return (temp_air + poa_global*np.exp(a + b*wind_speed)
            + deltaT*poa_global/irrad_ref)


@contract(T_ + 'pvsyst_cell', prop='C10',
          args=dict(EL, wind_speed=Opt(1.0, WS),
                    u_c=Opt(29.0, P(10, 40, req=True)),
                    u_v=Opt(0.0, P(0, 5, req=True)),
                    module_efficiency=Opt(0.1, E(0, 0.4)),
                    alpha_absorption=Opt(0.9, P(0.5, 1))),
          kinds=('array', 'series', 'scalar'))
def pvsyst(poa_global, temp_air, wind_speed, u_c, u_v, module_efficiency,
           alpha_absorption):
    return temp_air + (poa_global*alpha_absorption*(1 - module_efficiency)
                       / (u_c + u_v*wind_speed))


@contract(T_ + 'faiman', prop='C10',
          args=dict(EL, wind_speed=Opt(1.0, WS),
                    u0=Opt(25.0, P(10, 40, req=True)),
                    u1=Opt(6.84, P(0, 10, req=True))),
          kinds=ALL)
def faiman(poa_global, temp_air, wind_speed, u0, u1):
    return temp_air + poa_global/(u0 + u1*wind_speed)


@contract(T_ + 'faiman_rad', prop='C10',
          args=dict(EL, wind_speed=Opt(1.0, WS),
                    ir_down=Opt(None, E(100, 500)),
                    u0=Opt(25.0, P(10, 40, req=True)),
                    u1=Opt(6.84, P(0, 10, req=True)),
                    sky_view=Opt(1.0, P(0, 1)),
                    emissivity=Opt(0.88, P(0, 1))),
          kinds=('array', 'series', 'scalar'))
def faiman_rad(poa_global, temp_air, wind_speed, ir_down, u0, u1, sky_view,
               emissivity):
    q = 0
    if ir_down is not None:
        q = emissivity*sky_view*(5.6703744191844314e-08*(temp_air + 273.15)**4
                                 - ir_down)
    return temp_air + (poa_global - q)/(u0 + u1*wind_speed)


@contract(T_ + 'ross', prop='C10',
          args=dict(poa_global=POA, temp_air=TA, noct=Opt(None, P(40, 60)),
                    k=Opt(None, P(0.01, 0.1))), kinds=ALL)
def ross(poa_global, temp_air, noct, k):
    if (noct is None) == (k is None):
        raise ValueError
    if k is None:
        k = (noct - 20)/800
    return temp_air + k*poa_global


@contract(T_ + 'noct_sam', prop='C10',
          args=dict(EL, poa_global=E(0.1, 1500, gt=0), noct=P(40, 60),
                    module_efficiency=P(0.01, 0.4, req=True),
                    effective_irradiance=Opt(None, E(0.1, 1500, gt=0)),
                    transmittance_absorptance=Opt(0.9, P(0.5, 1, req=True)),
                    array_height=Opt(1, 2, 3), mount_standoff=Opt(
                        4, 3.5, 2.5, 1.5, 0.5, 0, -1,
                        P(-1, 6, sp=[0, .5, 1.5, 2.5, 3.5]))),
          kinds=('array', 'series', 'scalar'), loose=True)
def noct_sam(poa_global, temp_air, wind_speed, noct, module_efficiency,
             effective_irradiance, transmittance_absorptance, array_height,
             mount_standoff):
    if array_height not in (1, 2):
        raise ValueError
    r = 1 if effective_irradiance is None else \
        effective_irradiance/poa_global
    w = (0.51 if array_height == 1 else 0.61)*wind_speed
    s = mount_standoff
    adj = np.where(s <= 0, 0, np.where(s < 0.5, 18, np.where(
        s < 1.5, 11, np.where(s < 2.5, 6, np.where(s <= 3.5, 2, 0)))))
    return temp_air + (poa_global/800*(noct + adj - 20)
                       * (1 - module_efficiency
                          / (transmittance_absorptance*r))
                       * 9.5/(5.7 + 3.8*w))


@contract(T_ + 'generic_linear', prop='C10',
          args=dict(EL, u_const=P(5, 40, req=True), du_wind=P(0, 10, req=True),
                    module_efficiency=P(0, 0.4), absorptance=P(0.5, 1)),
          kinds=ALL)
def generic_linear(poa_global, temp_air, wind_speed, u_const, du_wind,
                   module_efficiency, absorptance):
    return temp_air + (poa_global*(absorptance - module_efficiency)
                       / (u_const + du_wind*wind_speed))


# -------------------------------------------------------- physical lemmas
@lemma('C10', T_ + 'sapm_cell',
       args=dict(poa=E(0, 1500, nan=False, req=True), ta=TA,
                 ws=E(0, 30, nan=False, req=True), d=E(0.001, 100, gt=0,
                                                       nan=False),
                 a=P(-5, -2), b=P(-0.2, 0, req=True), dt=P(0, 5, req=True)),
       kinds=('array',))
def sapm_facts(poa, ta, ws, d, a, b, dt):
    t = pv.temperature
    c = t.sapm_cell(poa, ta, ws, a, b, dt)
    yield 'dark module sits at air temperature', eq(
        t.sapm_cell(0*poa, ta, ws, a, b, dt), ta)
    yield 'never colder than air', le(ta, c)
    yield 'more light never cools', le(c, t.sapm_cell(poa + d, ta, ws, a, b,
                                                      dt))
    yield 'more wind never heats', le(t.sapm_cell(poa, ta, ws + d, a, b, dt),
                                      c)
    yield 'air temperature adds', eq(t.sapm_cell(poa, ta + d, ws, a, b, dt),
                                     c + d)
    m = t.sapm_module(poa, ta, ws, a, b)
    yield 'cell from module', eq(t.sapm_cell_from_module(m, poa, dt), c)
    yield 'module not above cell', le(m, c)


@lemma('C10', T_ + 'faiman',
       args=dict(poa=E(0, 1500, nan=False, req=True), ta=TA,
                 ws=E(0, 30, nan=False, req=True),
                 d=E(0.001, 100, gt=0, nan=False),
                 u0=P(5, 40, gt=0), u1=P(0, 10, req=True)),
       kinds=('array',))
def linear_facts(poa, ta, ws, d, u0, u1):
    t = pv.temperature
    for n, f in (('faiman', lambda p, a, w: t.faiman(p, a, w, u0, u1)),
                 ('pvsyst', lambda p, a, w: t.pvsyst_cell(p, a, w, u0, u1))):
        c = f(poa, ta, ws)
        yield n + ': dark module sits at air temperature', eq(
            f(0*poa, ta, ws), ta)
        yield n + ': never colder than air', le(ta, c)
        yield n + ': more light heats', lt(c, f(poa + d, ta, ws))
        yield n + ': more wind never heats', le(f(poa, ta, ws + d), c)
    yield 'faiman_rad without sky loss is faiman', eq(
        t.faiman_rad(poa, ta, ws, None, u0, u1),
        t.faiman(poa, ta, ws, u0, u1))


@lemma('C10', T_ + 'GenericLinearModel',
       args=dict(poa=POA, ta=TA, ws=E(0, 30, nan=False), u0=P(5, 40, gt=0),
                 u1=P(0, 10, req=True), eta=P(0, 0.4, req=True),
                 al=P(0.5, 1, req=True), noct=P(40, 60, req=True),
                 a=P(-5, -2), b=P(-0.2, 0, lt=0)),
       kinds=('array',))
def generic_model(poa, ta, ws, u0, u1, eta, al, noct, a, b):
    t = pv.temperature

    def M():
        return t.GenericLinearModel(eta, al)
    m = M().use_faiman(u0, u1)
    yield 'faiman equivalence', eq(m(poa, ta, ws),
                                   t.faiman(poa, ta, ws, u0, u1))
    f = m.to_faiman()
    yield 'faiman round trip', both(eq(f['u0'], u0), eq(f['u1'], u1))
    m = M().use_pvsyst(u0, u1)
    yield 'pvsyst equivalence', eq(
        m(poa, ta, ws), t.pvsyst_cell(poa, ta, ws, u0, u1, eta, al))
    p = m.to_pvsyst()
    yield 'pvsyst round trip', both(
        eq(p['u_c'], u0), eq(p['u_v'], u1), eq(p['module_efficiency'], eta),
        eq(p['alpha_absorption'], al))
    m = M().use_noct_sam(noct)
    n = m.to_noct_sam()
    yield 'noct round trip', eq(n['noct'], noct)
    yield 'noct model at one metre per second', eq(
        m(poa, ta, 0*ws + 1),
        ta + poa*(al - eta)*(noct - 20)/(800*al*(0.6 + 0.4*0.51)))
    m = M().use_sapm(a, b)
    s = m.to_sapm()
    yield 'sapm round trip', both(eq(s['a'], a), eq(s['b'], b))
    g = m.get_generic_linear()
    yield 'parameters describe the model', eq(
        m(poa, ta, ws), t.generic_linear(
            poa, ta, ws, g['u_const'], g['du_wind'], g['module_efficiency'],
            g['absorptance']))
    for lo, hi in ((2., 6.), (1., 3.), (5.4, 1.4)):
        s = M().use_sapm(a, b, wind_fit_low=lo, wind_fit_high=hi).to_sapm(
            wind_fit_low=lo, wind_fit_high=hi)
        yield f'sapm round trip fitted from {lo} to {hi}', both(
            eq(s['a'], a), eq(s['b'], b))
        n = M().use_sapm(a, b, lo, hi)
        for w in (lo, hi):
            yield f'agrees with sapm at {w} of {lo} to {hi}', eq(
                n(poa, ta, 0*ws + w), t.sapm_module(poa, ta, 0*ws + w, a, b))
        s = M().use_faiman(u0, u1).to_sapm(lo, hi)
        for w in (lo, hi):
            yield f'loss factor at {w} of {lo} to {hi}', eq(
                np.exp(-s['a'] - w*s['b']), u0 + u1*w)
    yield 'agrees with sapm module temperature at the fit points', eq(
        m(poa, ta, 0*ws + 1.4), ta + (t.sapm_module(
            poa, ta, 0*ws + 1.4, a, b) - ta))


PARAMS = {
    'sapm': {'open_rack_glass_glass': (-3.47, -.0594, 3),
             'close_mount_glass_glass': (-2.98, -.0471, 1),
             'open_rack_glass_polymer': (-3.56, -.0750, 3),
             'insulated_back_glass_polymer': (-2.81, -.0455, 0)},
    'pvsyst': {'freestanding': (29.0, 0), 'insulated': (15.0, 0),
               'semi_integrated': (20.0, 0)}}


@lemma('C10', T_ + '_temperature_model_params', args={}, kinds=('array',))
def param_sets():
    f = pv.temperature._temperature_model_params
    for model, sets in PARAMS.items():
        for n, v in sets.items():
            got = f(model, n)
            keys = ('a', 'b', 'deltaT') if model == 'sapm' else ('u_c',
                                                                 'u_v')
            yield f'{model} {n}', both(len(got) == len(keys), *[
                eq(got[k], w) for k, w in zip(keys, v)])
    yield 'unknown set is rejected', raises(KeyError, f, 'sapm', 'nope')
    yield 'unknown model is rejected', raises(KeyError, f, 'nope',
                                              'freestanding')
