"""Inverter models (C11)."""
from pvc.api import *
import numpy as np
import pandas as pd

I_ = 'pvlib.inverter.'
SAND = Dct(Paco=P(100, 1e4, gt=0), Pdco=P(100, 1.1e4, req=True),
           Vdco=P(100, 500, gt=0), Pso=P(0.1, 90, req=True), C0=P(-1e-4, 0),
           C1=P(-1e-3, 1e-3), C2=P(-1e-2, 1e-2), C3=P(-1e-2, 1e-2),
           Pnt=P(-1, 5))


def sane(v, m):
    d = v - m['Vdco']
    return [neg(m['Pdco']*(1 + m['C1']*d) == m['Pso']*(1 + m['C2']*d))]


def eff(v, p, m):
    d = v - m['Vdco']
    a = m['Pdco']*(1 + m['C1']*d)
    b = m['Pso']*(1 + m['C2']*d)
    c = m['C0']*(1 + m['C3']*d)
    return (m['Paco']/(a - b) - c*(a - b))*(p - b) + c*(p - b)**2


def limit(ac, p, m):
    ac = np.where(np.isnan(ac), np.nan, np.minimum(ac, m['Paco']))
    return np.where(p < m['Pso'], -np.abs(m['Pnt']), ac)


def wrap(v, like):
    return pd.Series(v, index=like.index) if isinstance(like, pd.Series) \
        else v


@contract(I_ + 'sandia', prop='C11',
          args=dict(v_dc=E(0, 600), p_dc=E(-10, 1.2e4, sp=[0]),
                    inverter=SAND),
          pre=lambda v_dc, p_dc, inverter: sane(v_dc, inverter),
          kinds=('array', 'series', 'scalar', 'mixed2'), loose=True)
def sandia(v_dc, p_dc, inverter):
    return wrap(limit(eff(np.asarray(v_dc), np.asarray(p_dc), inverter),
                      np.asarray(p_dc), inverter), p_dc)


@lemma('C11', I_ + 'sandia',
       args=dict(v=E(0, 600), p=E(-10, 1.2e4, sp=[0]), m=SAND),
       pre=lambda v, p, m: sane(v, m), kinds=('array', 'scalar'))
def sandia_facts(v, p, m):
    ac = pv.inverter.sandia(v, p, m)
    yield 'never above the AC rating', le(ac, m['Paco'])
    yield 'night tare below the start-up power', implies(
        p < m['Pso'], eq(ac, -np.abs(m['Pnt'])))
    at = pv.inverter.sandia(m['Vdco'], m['Pdco'], m)
    yield 'rated AC power at the rated DC point', eq(at, m['Paco'])


@lemma('C11', I_ + 'sandia_multi',
       args=dict(v1=E(1, 600), v2=E(1, 600), p1=E(0, 6e3, sp=[0]),
                 p2=E(0, 6e3, sp=[0]), m=SAND), kinds=('array', 'series'))
def sandia_multi(v1, v2, p1, p2, m):
    got = pv.inverter.sandia_multi((v1, v2), (p1, p2), m)
    p = p1 + p2
    with np.errstate(all='ignore'):
        ac = p1/p*eff(v1, p, m) + p2/p*eff(v2, p, m)
    yield 'inputs weighted by power', same(
        got, wrap(limit(np.asarray(ac), np.asarray(p), m), p1), loose=True)
    yield 'lengths must agree', raises(
        ValueError, pv.inverter.sandia_multi, (v1,), (p1, p2), m)


@lemma('C11', I_ + 'sandia_multi',
       args=dict(v=E(1, 600), p=E(1, 6e3, gt=0), m=SAND),
       kinds=('array', 'series'))
def sandia_multi_single(v, p, m):
    yield 'one input is the plain model', same(
        pv.inverter.sandia_multi([v], [p], m), pv.inverter.sandia(v, p, m),
        loose=True)
    yield 'equal inputs behave as one', same(
        pv.inverter.sandia_multi([v, v], [p, p], m),
        pv.inverter.sandia(v, 2*p, m), loose=True)


ADR = Dct(Pnom=P(100, 1e4, gt=0), Vnom=P(100, 500, gt=0),
          Pacmax=P(100, 1e4, gt=0), Pnt=P(-5, 5), Vmax=P(300, 800),
          Vmin=P(50, 250), Vdcmax=P(300, 800), MPPTHi=P(300, 800),
          MPPTLow=P(50, 250), ADRCoefficients=Vec(9, P(-0.1, 0.1),
                                                  ctor='list'))


@contract(I_ + 'adr', prop='C11',
          args=dict(v_dc=E(0, 900, sp=[0]), p_dc=E(-10, 1.2e4, sp=[0]),
                    inverter=ADR, vtol=Opt(0.10, P(0, 0.5, req=True))),
          kinds=('array', 'series', 'scalar'), loose=True)
def adr(v_dc, p_dc, inverter, vtol):
    m = inverter
    hi = np.maximum(np.maximum(m['Vmax'], m['Vdcmax']),
                    m['MPPTHi'])*(1 + vtol)
    lo = np.maximum(m['Vmin'], m['MPPTLow'])*(1 - vtol)
    v = np.asarray(v_dc)
    p = np.asarray(p_dc)/m['Pnom']
    x = v/m['Vnom'] - 1
    with np.errstate(all='ignore'):
        y = 1/(v/m['Vnom']) - 1
    c = m['ADRCoefficients']
    with np.errstate(all='ignore'):
        loss = (c[0] + c[1]*p + c[2]*p**2 + x*(c[3] + c[4]*p + c[5]*p**2)
                + (c[6]*y + c[7]*(p*y) + c[8]*(p**2*y)))
    tare = -np.abs(m['Pnt'])
    ac = m['Pnom']*(p - loss)
    ac = np.where((v > hi) | (v < lo), np.nan, ac)
    ac = np.where(v == 0, tare, ac)
    ac = np.minimum(np.maximum(ac, tare), m['Pacmax'])
    return wrap(ac, p_dc)


@lemma('C11', I_ + 'adr',
       args=dict(v=E(0, 900, sp=[0]), p=E(-10, 1.2e4, sp=[0]), m=ADR),
       kinds=('array',))
def adr_facts(v, p, m):
    ac = pv.inverter.adr(v, p, m)
    yield 'never above the AC limit', le(ac, m['Pacmax'])
    yield 'never below the night tare', implies(
        m['Pacmax'] >= -np.abs(m['Pnt']), le(-np.abs(m['Pnt']), ac))


@contract(I_ + 'pvwatts', prop='C11',
          args=dict(pdc=E(-10, 1.2e4, sp=[0]), pdc0=P(1, 1e4, gt=0),
                    eta_inv_nom=Opt(0.96, P(0.5, 1, req=True)),
                    eta_inv_ref=Opt(0.9637, P(0.5, 1, req=True))),
          kinds=('array', 'series', 'scalar'), loose=True)
def pvwatts(pdc, pdc0, eta_inv_nom, eta_inv_ref):
    p = np.asarray(pdc)
    z = p/pdc0
    # (eta_nom/eta_ref) (-0.0162 z - 0.0059/z + 0.9858) pdc, without the
    # division at pdc = 0
    ac = eta_inv_nom/eta_inv_ref*(-0.0162*z*p - 0.0059*pdc0 + 0.9858*p)
    ac = np.where(p == 0, 0, ac)
    return wrap(np.maximum(np.minimum(ac, eta_inv_nom*pdc0), 0), pdc)


@lemma('C11', I_ + 'pvwatts',
       args=dict(p=E(-10, 1.2e4, sp=[0]), q=E(0, 1e4), pdc0=P(1, 1e4, gt=0),
                 nom=P(0.5, 1, req=True), ref=P(0.5, 1, req=True)),
       kinds=('array', 'series'))
def pvwatts_facts(p, q, pdc0, nom, ref):
    f = pv.inverter.pvwatts
    ac = f(p, pdc0, nom, ref)
    yield 'within [0, rating]', between(ac, 0, nom*pdc0)
    yield 'no output without input', implies(p <= 0, eq(ac, 0))
    yield 'several inputs act as their sum', same(
        pv.inverter.pvwatts_multi((p, q), pdc0, nom, ref),
        f(p + q, pdc0, nom, ref))
