"""Module models: single diode parameters, SAPM, PVWatts, losses (C09)."""
from pvc.api import *
import numpy as np
import pandas as pd
from scipy import constants

V_ = 'pvlib.pvsystem.'
ALL = ('array', 'series', 'scalar')
MIX = ALL + ('mixed', 'mixed2')
KB = constants.k
Q = constants.e
KB_EV = constants.value('Boltzmann constant in eV/K')


def desoto(e, t, alpha, a_ref, il_ref, io_ref, rsh_ref, rs, eg, deg, g0, t0):
    tk, rk = t + 273.15, t0 + 273.15
    il = e/g0*(il_ref + alpha*(t - t0))
    egt = eg*(1 + deg*(t - t0))
    i0 = io_ref*(tk/rk)**3*np.exp(eg/(KB_EV*rk) - egt/(KB_EV*tk))
    with np.errstate(divide='ignore'):
        rsh = rsh_ref*np.divide(g0, e)
    return il, i0, rs, rsh, a_ref*tk/rk


SHAPE = dict(effective_irradiance=E(0, 1300, sp=[0]),
             temp_cell=E(-50, 100, gt=-273))
REF = dict(alpha_sc=P(-0.01, 0.02), a_ref=P(0.5, 5), I_L_ref=P(0.5, 12),
           I_o_ref=P(1e-12, 1e-8), R_sh_ref=P(50, 2000, gt=0),
           R_s=P(0, 2))
TR = dict(irrad_ref=Opt(1000, P(500, 1500, gt=0)),
          temp_ref=Opt(25, P(0, 40, req=True)))


def nozero(effective_irradiance, **k):
    """a Python float irradiance of zero raises ZeroDivisionError"""
    return [] if isinstance(effective_irradiance, (np.ndarray, pd.Series)) \
        else [neg(effective_irradiance == 0)]


@contract(V_ + 'calcparams_desoto', prop='C09',
          args=dict(SHAPE, **REF, EgRef=Opt(1.121, P(0.5, 2)),
                    dEgdT=Opt(-0.0002677, P(-1e-3, 0)), **TR),
          pre=nozero, kinds=MIX, loose=True)
def calc_desoto(effective_irradiance, temp_cell, alpha_sc, a_ref, I_L_ref,
                I_o_ref, R_sh_ref, R_s, EgRef, dEgdT, irrad_ref, temp_ref):
    e, t = effective_irradiance, temp_cell
    return pack5(desoto(e, t, alpha_sc, a_ref, I_L_ref, I_o_ref, R_sh_ref,
                        R_s, EgRef, dEgdT, irrad_ref, temp_ref), e, t)


def pack5(out, e, t):
    """broadcast to the common shape; missing values stay where they are"""
    like = e if isinstance(e, pd.Series) else t
    if isinstance(like, pd.Series):
        return tuple(pd.Series(a, index=like.index) for a in out)
    if isinstance(e, np.ndarray) or isinstance(t, np.ndarray):
        return tuple(np.broadcast_arrays(*out))
    return out


@contract(V_ + 'calcparams_cec', prop='C09',
          args=dict(SHAPE, **REF, Adjust=P(-20, 20),
                    EgRef=Opt(1.121, P(0.5, 2)),
                    dEgdT=Opt(-0.0002677, P(-1e-3, 0)), **TR),
          pre=nozero, kinds=MIX, loose=True)
def calc_cec(effective_irradiance, temp_cell, alpha_sc, a_ref, I_L_ref,
             I_o_ref, R_sh_ref, R_s, Adjust, EgRef, dEgdT, irrad_ref,
             temp_ref):
    e, t = effective_irradiance, temp_cell
    return pack5(desoto(e, t, alpha_sc*(1 - Adjust/100), a_ref, I_L_ref,
                        I_o_ref, R_sh_ref, R_s, EgRef, dEgdT, irrad_ref,
                        temp_ref), e, t)


@contract(V_ + 'calcparams_pvsyst', prop='C09',
          args=dict(SHAPE, alpha_sc=P(-0.01, 0.02),
                    gamma_ref=P(0.8, 1.5, req=True),
                    mu_gamma=P(-0.002, 0.002, req=True),
                    I_L_ref=P(0.5, 12), I_o_ref=P(1e-12, 1e-8),
                    R_sh_ref=P(50, 2000), R_sh_0=P(100, 8000), R_s=P(0, 2),
                    cells_in_series=P(1, 144),
                    R_sh_exp=Opt(5.5, P(1, 10, req=True)),
                    EgRef=Opt(1.121, P(0.5, 2)), **TR),
          pre=lambda temp_cell, gamma_ref, mu_gamma, temp_ref, **k: [
              0 < gamma_ref + mu_gamma*(temp_cell - temp_ref)]
          if not hasattr(temp_cell, 'shape') else [],
          kinds=MIX, loose=True)
def calc_pvsyst(effective_irradiance, temp_cell, alpha_sc, gamma_ref,
                mu_gamma, I_L_ref, I_o_ref, R_sh_ref, R_sh_0, R_s,
                cells_in_series, R_sh_exp, EgRef, irrad_ref, temp_ref):
    e, t = effective_irradiance, temp_cell
    tk, rk = t + 273.15, temp_ref + 273.15
    g = gamma_ref + mu_gamma*(t - temp_ref)
    il = e/irrad_ref*(I_L_ref + alpha_sc*(t - temp_ref))
    i0 = I_o_ref*(tk/rk)**3*np.exp(Q*EgRef/(KB*g)*(1/rk - 1/tk))
    x = np.exp(-R_sh_exp)
    base = np.maximum(0, (R_sh_ref - R_sh_0*x)/(1 - x))
    rsh = base + (R_sh_0 - base)*np.exp(-R_sh_exp*e/irrad_ref)
    n = g*KB/Q*cells_in_series*tk
    return pack5((il, i0, R_s, rsh, n), e, t)


@lemma('C09', V_ + 'calcparams_desoto', args=dict(REF, e=E(1, 1300, gt=0)),
       kinds=('array', 'series', 'scalar'))
def reference_conditions(e, alpha_sc, a_ref, I_L_ref, I_o_ref, R_sh_ref,
                         R_s):
    f = pv.pvsystem.calcparams_desoto
    a = (alpha_sc, a_ref, I_L_ref, I_o_ref, R_sh_ref, R_s)
    r = f(1000., 25., *a)
    for name, v, w in zip(('photocurrent', 'saturation current',
                           'series resistance', 'shunt resistance',
                           'thermal voltage'), r,
                          (I_L_ref, I_o_ref, R_s, R_sh_ref, a_ref)):
        yield 'reference conditions give the reference ' + name, eq(v, w)
    s = f(e, 25., *a)
    yield 'photocurrent proportional to irradiance', eq(
        s[0]*1000, e*I_L_ref)
    yield 'shunt resistance inversely proportional to irradiance', eq(
        s[3]*e, R_sh_ref*1000 + 0*e)
    c = pv.pvsystem.calcparams_cec(e, 40., *a, 0.)
    d = f(e, 40., *a)
    for i in range(5):
        yield f'CEC without adjustment is De Soto {i}', eq(c[i], d[i])


# ---------------------------------------------------------------------- SAPM
MOD = dict(Isco=P(1, 10), Impo=P(1, 10), Voco=P(20, 70), Vmpo=P(15, 60),
           Aisc=P(-1e-3, 1e-3), Aimp=P(-1e-3, 1e-3), C0=P(0.9, 1.1),
           C1=P(-0.1, 0.1), C2=P(-1, 1, sp=[0]), C3=P(-30, -1, lt=0),
           Bvoco=P(-0.3, 0), Mbvoc=P(-0.1, 0.1), Bvmpo=P(-0.3, 0),
           Mbvmp=P(-0.1, 0.1), N=P(1, 2, gt=0),
           Cells_in_Series=P(36, 96, gt=0))
IX = dict(IXO=P(1, 10), C4=P(0.9, 1.1), C5=P(-0.1, 0.1))
IXX = dict(IXXO=P(1, 10), C6=P(0.9, 1.1), C7=P(-0.1, 0.1))


def sapm_points(e, t, m, t0, g0):
    x = np.asarray(e)/g0
    dt = np.asarray(t) - t0
    d = m['N']*KB*(np.asarray(t) + 273.15)/Q
    pos = x > 0
    n = m['Cells_in_Series']
    with np.errstate(all='ignore'):
        lg = np.where(pos, np.log(np.where(pos, x, 1)),
                      np.where(x == 0, -np.inf, np.nan))
        isc = m['Isco']*x*(1 + m['Aisc']*dt)
        imp = m['Impo']*(m['C0']*x + m['C1']*x**2)*(1 + m['Aimp']*dt)
        voc = np.maximum(0, m['Voco'] + n*d*lg
                         + (m['Bvoco'] + m['Mbvoc']*(1 - x))*dt)
        vmp = np.maximum(0, m['Vmpo'] + m['C2']*n*d*lg
                         + m['C3']*n*(d*lg)**2
                         + (m['Bvmpo'] + m['Mbvmp']*(1 - x))*dt)
        out = dict(i_sc=isc, i_mp=imp, v_oc=voc, v_mp=vmp, p_mp=imp*vmp)
        if 'IXO' in m:
            out['i_x'] = m['IXO']*(m['C4']*x + m['C5']*x**2)*(
                1 + m['Aisc']*dt)
        if 'IXXO' in m:
            out['i_xx'] = m['IXXO']*(m['C6']*x + m['C7']*x**2)*(
                1 + m['Aimp']*dt)
    return out


@contract(V_ + 'sapm', prop='C09',
          args=dict(effective_irradiance=E(-10, 1300, sp=[0]),
                    temp_cell=E(-40, 90, gt=-273),
                    module=Opt(Dct(**MOD, **IX, **IXX), Dct(**MOD),
                               Dct(**MOD, **IX), Dct(**MOD, **IXX)),
                    temperature_ref=Opt(25, P(0, 50)),
                    irradiance_ref=Opt(1000, P(500, 1200, gt=0))),
          kinds=('array', 'scalar', 'series'), loose=True)
def sapm(effective_irradiance, temp_cell, module, temperature_ref,
         irradiance_ref):
    out = sapm_points(effective_irradiance, temp_cell, module,
                      temperature_ref, irradiance_ref)
    if isinstance(temp_cell, pd.Series):
        return pd.DataFrame(out, index=temp_cell.index)
    return out


@lemma('C09', V_ + 'sapm',
       args=dict(e=E(-10, 1300, sp=[0]), t=E(-40, 90, gt=-273),
                 m=Dct(**MOD, **IX, **IXX)), kinds=('array', 'scalar'))
def sapm_facts(e, t, m):
    f = pv.pvsystem.sapm
    r = f(e, t, m)
    yield 'maximum power is current times voltage', eq(
        r['p_mp'], r['i_mp']*r['v_mp'])
    yield 'open circuit voltage not negative', le(0, r['v_oc'])
    yield 'voltage at maximum power not negative', le(0, r['v_mp'])
    s = f(1000., 25., m)
    yield 'reference short circuit current', eq(s['i_sc'], m['Isco'])
    yield 'reference open circuit voltage', eq(
        s['v_oc'], np.maximum(m['Voco'], 0))
    yield 'reference voltage at maximum power', eq(
        s['v_mp'], np.maximum(m['Vmpo'], 0))
    yield 'no current in the dark', eq(
        f(0*e, t, m)['i_sc'], 0*t + 0*e)


SEFF = Dct(A0=P(0.8, 1), A1=P(-0.1, 0.1), A2=P(-0.02, 0.02),
           A3=P(-1e-3, 1e-3), A4=P(-1e-4, 1e-4), B0=P(0.9, 1.1),
           B1=P(-1e-2, 1e-2), B2=P(-1e-3, 1e-3), B3=P(-1e-5, 1e-5),
           B4=P(-1e-7, 1e-7), B5=P(-1e-9, 1e-9), FD=P(0, 1))


@contract(V_ + 'sapm_effective_irradiance', prop='C09',
          args=dict(poa_direct=E(0, 1200), poa_diffuse=E(0, 600),
                    airmass_absolute=E(0.5, 12), aoi=E(0, 120, sp=[90]),
                    module=SEFF), kinds=ALL + ('mixed',), loose=True)
def sapm_eff(poa_direct, poa_diffuse, airmass_absolute, aoi, module):
    m = module
    a = airmass_absolute
    f1 = m['A0'] + a*(m['A1'] + a*(m['A2'] + a*(m['A3'] + a*m['A4'])))
    f1 = np.maximum(np.where(np.isnan(a), 0, f1), 0)
    z = aoi
    f2 = m['B0'] + z*(m['B1'] + z*(m['B2'] + z*(m['B3'] + z*(
        m['B4'] + z*m['B5']))))
    f2 = np.where(np.asarray(z) < 0, 0, np.maximum(f2, 0))
    return f1*(poa_direct*f2 + m['FD']*poa_diffuse)


# ------------------------------------------------------------------- PVWatts
@contract(V_ + 'pvwatts_dc', prop='C09',
          args=dict(effective_irradiance=E(-5, 1500, sp=[0, 200, 1000]),
                    temp_cell=E(-40, 90), pdc0=P(10, 1e5),
                    gamma_pdc=P(-0.01, 0), temp_ref=Opt(25., P(0, 50)),
                    k=Opt(None, P(0, 0.1)), cap_adjustment=Opt(
                        False, True)), kinds=MIX, loose=True)
def pvwatts_dc(effective_irradiance, temp_cell, pdc0, gamma_pdc, temp_ref,
               k, cap_adjustment):
    e = effective_irradiance
    p = e/1000*pdc0*(1 + gamma_pdc*(temp_cell - temp_ref))
    if k is not None:
        low = e <= 200
        err = np.where(low, k*(1 - (1 - e/200)**4), k*(1000 - e)/800)
        if cap_adjustment:
            err = np.where(e >= 1000, 0, err)
        q = np.asarray(p) - pdc0*err
        q = np.where(q < 0, 0, q)
        if isinstance(p, pd.Series):
            return pd.Series(q, index=p.index)
        return q
    return p


LO = E(0, 100)


@contract(V_ + 'pvwatts_losses', prop='C09',
          args=dict(soiling=LO, shading=LO, snow=LO, mismatch=LO, wiring=LO,
                    connections=LO, lid=LO, nameplate_rating=LO, age=LO,
                    availability=LO), kinds=ALL)
def losses(soiling, shading, snow, mismatch, wiring, connections, lid,
           nameplate_rating, age, availability):
    return (1 - (1 - soiling/100)*(1 - shading/100)*(1 - snow/100)
            * (1 - mismatch/100)*(1 - wiring/100)*(1 - connections/100)
            * (1 - lid/100)*(1 - nameplate_rating/100)*(1 - age/100)
            * (1 - availability/100))*100


@lemma('C09', V_ + 'pvwatts_losses',
       args=dict(a=E(0, 100, req=True, nan=False),
                 b=E(0, 100, req=True, nan=False)), kinds=('array',))
def loss_facts(a, b):
    f = pv.pvsystem.pvwatts_losses
    z = dict(soiling=0, shading=0, snow=0, mismatch=0, wiring=0,
             connections=0, lid=0, nameplate_rating=0, age=0, availability=0)
    yield 'no loss from nothing', eq(f(**z), 0)
    for k in z:
        yield 'a single loss is that loss: ' + k, eq(f(**dict(z, **{k: a})),
                                                     a)
    two = f(**dict(z, soiling=a, wiring=b))
    yield 'within [0, 100]', between(two, 0, 100)
    yield 'at least each single loss', both(le(a, two), le(b, two))
    d = f()
    yield 'published default', eq(
        d, 100*(1 - 0.98*0.97*1*0.98*0.98*0.995*0.985*0.99*1*0.97))


@contract(V_ + 'dc_ohms_from_percent', prop='C09',
          args=dict(vmp_ref=P(10, 60), imp_ref=P(1, 10, gt=0),
                    dc_ohmic_percent=P(0, 10),
                    modules_per_string=Opt(1, P(1, 30)),
                    strings=Opt(1, P(1, 30, gt=0))), kinds=('scalar',))
def dc_ohms(vmp_ref, imp_ref, dc_ohmic_percent, modules_per_string,
            strings):
    return dc_ohmic_percent/100*(modules_per_string*vmp_ref) / (
        strings*imp_ref)


@contract(V_ + 'dc_ohmic_losses', prop='C09',
          args=dict(resistance=P(0, 5), current=E(0, 100)), kinds=ALL)
def dc_loss(resistance, current):
    return resistance*current**2


@lemma('C09', V_ + 'dc_ohmic_losses',
       args=dict(v=P(10, 60, gt=0), i=P(1, 10, gt=0), pct=P(0, 10),
                 n=P(1, 30, gt=0), s=P(1, 30, gt=0)), kinds=('scalar',))
def ohmic_facts(v, i, pct, n, s):
    r = pv.pvsystem.dc_ohms_from_percent(v, i, pct, n, s)
    yield 'loss at the reference point is the given percentage', eq(
        pv.pvsystem.dc_ohmic_losses(r, s*i), pct/100*(n*v)*(s*i))


POINTS = ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx')


@contract(V_ + 'scale_voltage_current_power', prop='C09',
          args=dict(data=Dct('frame', **{k: E(0, 100) for k in POINTS}),
                    voltage=Opt(1, P(1, 30)), current=Opt(1, P(1, 30))),
          kinds=('series',), loose=True)
def scale(data, voltage, current):
    k = dict(i_sc=current, v_oc=voltage, i_mp=current, v_mp=voltage,
             p_mp=voltage*current, i_x=current, i_xx=current)
    return pd.DataFrame({c: data[c]*k[c] for c in data.columns},
                        index=data.index)


@contract(V_ + 'scale_voltage_current_power', prop='C09',
          name=V_ + 'scale_voltage_current_power(columns reordered)',
          args=dict(data=Dct('frame', p_mp=E(0, 100), v_mp=E(0, 100),
                             i_mp=E(0, 100)),
                    voltage=P(1, 30), current=P(1, 30)),
          kinds=('series',), loose=True)
def scale2(data, voltage, current):
    k = dict(i_mp=current, v_mp=voltage, p_mp=voltage*current)
    return pd.DataFrame({c: data[c]*k[c] for c in data.columns},
                        index=data.index)
