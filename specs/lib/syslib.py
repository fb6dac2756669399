"""shared definitions for the system and chain specifications"""
from pvc.api import *
import numpy as np
import pandas as pd

Y_ = 'pvlib.pvsystem.'
ASS = ('array', 'series', 'scalar')


def D(**k):
    return Dct(**k)


DESOTO = dict(alpha_sc=P(0, .01), a_ref=P(1, 3), I_L_ref=P(3, 10),
              I_o_ref=P(1e-11, 1e-9), R_sh_ref=P(100, 1000), R_s=P(.1, 1))
REFS = dict(EgRef=P(1, 1.3), dEgdT=P(-.0005, -.0001),
            irrad_ref=P(900, 1100), temp_ref=P(20, 30))
PVSYST = dict(gamma_ref=P(1, 1.3), mu_gamma=P(-.001, .001), I_L_ref=P(3, 10),
              I_o_ref=P(1e-11, 1e-9), R_sh_ref=P(100, 1000),
              R_sh_0=P(1000, 4000), R_s=P(.1, 1), alpha_sc=P(0, .01),
              cells_in_series=P(36, 72, integer=True))
ETC = D(effective_irradiance=E(0, 1200, gt=0), temp_cell=E(-10, 70))
SYS = dict(e0=E(10, 1200), e1=E(10, 1200), t0=E(-10, 70), t1=E(-10, 70))


def arr(params=None, tmp=None, mount=None, **k):
    return pv.pvsystem.Array(
        mount or pv.pvsystem.FixedMount(20., 180.), module_parameters=params,
        temperature_model_parameters=tmp if tmp is not None else {}, **k)


def system(*arrays, **k):
    return pv.pvsystem.PVSystem(arrays=arrays, **k)


def pick(names, d):
    return {n: d[n] for n in names if n in d}


FIVE = ('IL', 'I0', 'Rs', 'Rsh', 'nNsVth')


SAPM = dict(A0=P(.9, 1), A1=P(0, .1), A2=P(-.01, 0), A3=P(0, .001),
            A4=P(-1e-5, 0), B0=P(.99, 1), B1=P(-.003, 0), B2=P(0, 3e-4),
            B3=P(-1e-5, 0), B4=P(0, 1e-7), B5=P(-1e-9, 0),
            C0=P(.9, 1.1), C1=P(-.1, .1), C2=P(-1, 1), C3=P(-10, 10),
            Isco=P(4, 6), Impo=P(4, 6), Voco=P(40, 60), Vmpo=P(30, 50),
            Aisc=P(0, .001), Aimp=P(-.001, .001), Bvoco=P(-.3, -.1),
            Mbvoc=P(0, .01), Bvmpo=P(-.3, -.1), Mbvmp=P(0, .01), N=P(1, 1.5),
            Cells_in_Series=P(36, 96, integer=True), FD=P(0, 1))


GTI = 'pvlib.irradiance.get_total_irradiance'
POA = ('poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse',
       'poa_ground_diffuse')
IRR = {GTI: ufn(GTI, POA, form='frame'),
       'pvlib.irradiance.get_extra_radiation': ufn(
           'pvlib.irradiance.get_extra_radiation'),
       'pvlib.atmosphere.get_relative_airmass': ufn(
           'pvlib.atmosphere.get_relative_airmass')}


IAMS = dict(
    ashrae=dict(b=P(.02, .1)),
    physical=dict(n=P(1.3, 1.7), K=P(2, 6), L=P(.001, .004),
                  n_ar=P(1.1, 1.3)),
    martin_ruiz=dict(a_r=P(.1, .3)), schlick={})
IAMSTUB = {f'pvlib.iam.{n}': ufn(f'pvlib.iam.{n}')
           for n in ('ashrae', 'physical', 'martin_ruiz', 'schlick', 'sapm',
                     'interp')}
ALLIAM = {k: v for d in IAMS.values() for k, v in d.items()}


TF = dict(sapm='sapm_cell', pvsyst='pvsyst_cell', faiman='faiman',
          faiman_rad='faiman_rad', noct_sam='noct_sam', ross='ross')
TSTUB = {f'pvlib.temperature.{n}': ufn(f'pvlib.temperature.{n}')
         for n in TF.values()}


LOSS = ('soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections',
        'lid', 'nameplate_rating', 'age', 'availability')


VCP = ('i_sc', 'i_mp', 'v_oc', 'v_mp', 'p_mp', 'i_x', 'i_xx')
INV = {f'pvlib.inverter.{n}': ufn(f'pvlib.inverter.{n}') for n in (
    'sandia', 'sandia_multi', 'pvwatts', 'pvwatts_multi', 'adr')}
SND = dict(Paco=P(200, 300), Pdco=P(250, 320), Vdco=P(40, 60), Pso=P(1, 3),
           C0=P(-1e-5, 0), C1=P(-1e-4, 1e-4), C2=P(-.01, .01),
           C3=P(-.01, .01), Pnt=P(0, .2))


