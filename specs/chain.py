# include syslib
"""ModelChain composes the model functions in the documented order with each
array's own data (C16).  The model functions are used through "whatever they
return"; they have contracts of their own."""
M_ = 'pvlib.modelchain.'
SOL = ('apparent_zenith', 'zenith', 'apparent_elevation', 'elevation',
       'azimuth', 'equation_of_time')
SD = ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx')


def u(path, *a, **k):
    return {path: ufn(path, *a, **k)}


STUB = dict(IRR, **IAMSTUB, **TSTUB, **INV)
STUB.update(u('pvlib.solarposition.get_solarposition', SOL, form='frame'))
STUB.update(u('pvlib.atmosphere.get_absolute_airmass'))
STUB.update(u('pvlib.irradiance.aoi'))
STUB.update(u('pvlib.temperature.sapm_cell_from_module'))
STUB.update(u('pvlib.temperature.fuentes'))
STUB.update(u('pvlib.spectrum.spectral_factor_firstsolar'))
STUB.update(u('pvlib.spectrum.spectral_factor_sapm'))
for n in ('calcparams_desoto', 'calcparams_cec', 'calcparams_pvsyst'):
    STUB.update(u(Y_ + n, FIVE))
STUB.update(u(Y_ + 'singlediode', SD, form='frame'))
STUB.update(u(Y_ + 'sapm', VCP, form='frame'))
STUB.update(u(Y_ + 'pvwatts_dc'))
STUB.update(u(Y_ + 'pvwatts_losses'))
STUB.update(u(Y_ + 'dc_ohmic_losses'))

WX = dict(ghi=E(0, 1000), dni=E(0, 1000), dhi=E(0, 500))
MORE = dict(temp_air=E(-20, 50), wind_speed=E(0, 20))
PAR = dict(lat=P(-60, 60), lon=P(-180, 180), alt=P(0, 3000), tilt=P(0, 90),
           az=P(0, 360))


def frame(**k):
    return Dct('frame', **k)


def place(lat, lon, alt):
    return pv.location.Location(lat, lon, altitude=alt)


def mounts(tilt, az):
    m = pv.pvsystem.FixedMount
    return m(tilt, az), m(az/4, tilt)


def sky(lat, lon, alt, times, pressure=None, temperature=None,
        method='nrel_numpy', model='kastenyoung1989'):
    """solar position and air mass the chain has to use"""
    a = pv.atmosphere
    k = {}
    if temperature is not None:
        k['temperature'] = temperature
    sp = pv.solarposition.get_solarposition(
        times, latitude=lat, longitude=lon, altitude=alt,
        pressure=a.alt2pres(alt) if pressure is None else pressure,
        temperature=12 if temperature is None else temperature,
        method=method)
    z = sp['apparent_zenith' if model in a.APPARENT_ZENITH_MODELS
           else 'zenith']
    rel = a.get_relative_airmass(z, model)
    return sp, rel, a.get_absolute_airmass(rel, a.alt2pres(alt))


def poa(sp, rel, mount, w, albedo, model='haydavies'):
    k = dict(dni_extra=pv.irradiance.get_extra_radiation(w.index),
             airmass=rel, albedo=albedo, model=model)
    a = (mount.surface_tilt, mount.surface_azimuth, sp['apparent_zenith'],
         sp['azimuth'])
    return (pv.irradiance.aoi(*a),
            pv.irradiance.get_total_irradiance(
                *a, w['dni'], w['ghi'], w['dhi'], **k))


def col(w, name, default):
    return w[name] if name in w.columns else default


PW = dict(pdc0=P(100, 300), gamma_pdc=P(-.005, -.002))
TP = dict(a=P(-4, -3), b=P(-.1, 0), deltaT=P(1, 4))


@lemma('C16', M_ + 'ModelChain.run_model', args=dict(
    times=Times('Etc/GMT+7'), **PAR, w0=Opt(frame(**WX), frame(
        **WX, **MORE, albedo=E(0, 1), pressure=E(8e4, 1e5), extra=E(0, 1))),
    w1=frame(**WX, temp_air=E(-20, 50), albedo=E(0, 1)),
    p0=D(FD=P(.5, 1), **PW), p1=D(n=P(1.3, 1.7), **PW), t0=D(**TP),
    t1=D(**TP), ip=D(pdc0=P(100, 300)),
    way=Opt('one', 'one in a list', 'common', 'tuple', 'list')),
    kinds=('series',), symstubs=STUB, nconc=12)
def run_model(times, lat, lon, alt, tilt, az, w0, w1, p0, p1, t0, t1, ip,
              way):
    m0, m1 = mounts(tilt, az)
    a0, a1 = arr(p0, t0, m0, albedo=.3), arr(p1, t1, m1)
    one = way in ('one', 'one in a list')
    s = system(*([a0] if one else [a0, a1]), inverter_parameters=ip)
    ch = pv.modelchain.ModelChain(
        s, place(lat, lon, alt), aoi_model='physical',
        losses_model='pvwatts')
    data = {'one': w0, 'one in a list': [w0], 'common': w0,
            'tuple': (w0, w1), 'list': [w0, w1]}[way]
    if not one and way != 'common' and 'albedo' not in w0.columns:
        # albedo only in one frame: the arrays' own albedo is used
        pass
    ch.run_model(data)
    r = ch.results
    sp, rel, ab = sky(lat, lon, alt, times,
                      w0['pressure'] if 'pressure' in w0.columns else None,
                      w0['temp_air'] if 'temp_air' in w0.columns else None)
    yield 'solar position', same(r.solar_position, sp)
    yield 'relative air mass', same(r.airmass['airmass_relative'], rel,
                                    types=False)
    yield 'absolute air mass', same(r.airmass['airmass_absolute'], ab,
                                    types=False)
    ws = (w0,) if one else (w0, w0) if way == 'common' else (w0, w1)
    inw = all('albedo' in w.columns for w in ws)
    losses = pv.pvsystem.pvwatts_losses()
    lf = (100 - losses)/100
    dcs = []

    def nth(v, i):
        if way == 'one':
            return v
        return v[i]
    for i, (w, a, m, p, tp) in enumerate(zip(
            ws, (a0, a1), (m0, m1), (p0, p1), (t0, t1))):
        n = f'array {i} '
        alb = w['albedo'] if inw else a.albedo
        aoi, ir = poa(sp, rel, m, w, alb)
        yield n + 'aoi', same(nth(r.aoi, i), aoi)
        yield n + 'irradiance', same(nth(r.total_irrad, i), ir)
        iam = pv.iam.physical(aoi, **pick(('n', 'K', 'L', 'n_ar'), p))
        yield n + 'iam', same(nth(r.aoi_modifier, i), iam)
        eff = ir['poa_direct']*iam + p.get('FD', 1.)*ir['poa_diffuse']
        yield n + 'effective irradiance', same(
            nth(r.effective_irradiance, i), eff)
        tc = pv.temperature.sapm_cell(
            ir['poa_global'], col(w, 'temp_air', 20), col(w, 'wind_speed', 0),
            **tp)
        yield n + 'cell temperature', same(nth(r.cell_temperature, i), tc)
        dc = pv.pvsystem.pvwatts_dc(eff, tc, p['pdc0'], p['gamma_pdc'])
        dc = dc*lf
        dcs.append(dc)
        yield n + 'dc power', same(nth(r.dc, i), dc, types=False)
    yield 'losses', same(r.losses, lf)
    if one and way == 'one':
        ac = pv.inverter.pvwatts(dcs[0], ip['pdc0'])
    else:
        ac = pv.inverter.pvwatts_multi(tuple(dcs), ip['pdc0'])
    if way == 'one in a list':
        ac = pv.inverter.pvwatts(dcs[0], ip['pdc0'])
    yield 'ac power', same(r.ac, ac.fillna(0), types=False)
    yield 'times', same(r.times, times)


# ------------------------------------------- from effective irradiance onwards
DC = dict(
    sapm=dict(SAPM), desoto=dict(DESOTO, **REFS),
    cec=dict(DESOTO, Adjust=P(-5, 10)),
    pvsyst=dict(PVSYST, **{k: v for k, v in REFS.items() if k != 'dEgdT'},
                R_sh_exp=P(4, 7)),
    pvwatts=dict(PW, temp_ref=P(20, 30)))
VI = dict(V_mp_ref=P(20, 60), I_mp_ref=P(2, 10, gt=0))
CUR, VOL = ('i_sc', 'i_x', 'i_xx', 'i_mp'), ('v_oc', 'v_mp')


def dcpower(model, eff, tc, p, modules, strings):
    """electrical result of one array, and its diode parameters"""
    y = pv.pvsystem
    if model == 'pvwatts':
        return y.pvwatts_dc(eff, tc, **pick(PWK, p))*modules*strings, None
    five = None
    if model == 'sapm':
        r = y.sapm(eff, tc, p)
    else:
        f = {'desoto': y.calcparams_desoto, 'cec': y.calcparams_cec,
             'pvsyst': y.calcparams_pvsyst}[model]
        k = pick(set(DC[model]), p)
        five = f(eff, tc, **k)
        r = y.singlediode(*five)
    d = {n: r[n]*(strings if n in CUR else modules if n in VOL else
                  modules*strings) for n in SD if n in r}
    if five is not None:
        d = {n: v.fillna(0) for n, v in d.items()}
    return d, five


PWK = ('pdc0', 'gamma_pdc', 'temp_ref')
EFF = dict(effective_irradiance=E(1, 1200))


def inverter_of(kind):
    return dict(SND) if kind != 'pvwatts' else dict(pdc0=P(100, 300))


def dc_chain(model, two, ohmic, lossy):
    """one electrical configuration of run_model_from_effective_irradiance"""
    args = dict(
        times=Times('Etc/GMT+7'), lat=P(-60, 60), lon=P(-180, 180),
        w0=frame(**EFF, cell_temperature=E(-10, 70)),
        w1=frame(**EFF, cell_temperature=E(-10, 70)),
        p0=D(**DC[model], **VI), p1=D(**DC[model], **VI), t=D(**TP),
        m0=P(1, 20), s0=P(1, 20, gt=0), m1=P(1, 20),
        s1=P(1, 20, gt=0), pct=P(0, 3),
        ip=D(**inverter_of(model)), loss=P(0, 20))
    name = model + (', two arrays' if two else '') + (
        ', wiring' if ohmic else '') + (', losses' if lossy else '')

    @lemma('C16', M_ + 'ModelChain.run_model_from_effective_irradiance',
           args=args, kinds=('series',), symstubs=STUB, nconc=10,
           name='run_model_from_effective_irradiance: ' + name)
    def _(times, lat, lon, w0, w1, p0, p1, t, m0, s0, m1, s1, pct, ip, loss):
        al = dict(array_losses_parameters={'dc_ohmic_percent': pct})
        arrays = [arr(p0, t, modules_per_string=m0, strings=s0, **al)]
        if two:
            arrays.append(arr(p1, t, modules_per_string=m1, strings=s1, **al))
        s = system(*arrays, inverter_parameters=ip,
                   losses_parameters={'soiling': loss})
        ch = pv.modelchain.ModelChain(
            s, place(lat, lon, 0), dc_model=model, aoi_model='no_loss',
            dc_ohmic_model='dc_ohms_from_percent' if ohmic else 'no_loss',
            losses_model='pvwatts' if lossy else 'no_loss')
        ch.run_model_from_effective_irradiance((w0, w1) if two else w0)
        r = ch.results
        y = pv.pvsystem
        lf = (100 - y.pvwatts_losses(soiling=loss))/100
        dcs = []
        for i, (w, p, m, n) in enumerate(
                ((w0, p0, m0, s0), (w1, p1, m1, s1))[:2 if two else 1]):
            lab = f'array {i} '

            def nth(v):
                return v[i] if two else v
            dc, five = dcpower(model, w['effective_irradiance'],
                               w['cell_temperature'], p, m, n)
            if five is not None:
                for q, v in zip(('I_L', 'I_o', 'R_s', 'R_sh', 'nNsVth'),
                                five):
                    g = nth(r.diode_params)[q]
                    yield lab + 'diode ' + q, eq(g, v)
            if ohmic:
                rw = pct/100 * (p['V_mp_ref']*m)/(p['I_mp_ref']*n)
                lo = y.dc_ohmic_losses(rw, dc['i_mp'])
                yield lab + 'ohmic losses', same(nth(r.dc_ohmic_losses), lo,
                                                 types=False)
                dc['p_mp'] = dc['p_mp'] - lo
            if model == 'pvwatts':
                dc = dc*lf if lossy else dc
                yield lab + 'dc', same(nth(r.dc), dc, types=False)
            else:
                if lossy:
                    dc = {k: v*lf for k, v in dc.items()}
                for k in dc:
                    yield lab + k, same(nth(r.dc)[k], dc[k], types=False)
            dcs.append(dc)
        iv = pv.inverter
        if model == 'pvwatts':
            ac = iv.pvwatts_multi(tuple(dcs), ip['pdc0']) if two else \
                iv.pvwatts(dcs[0], ip['pdc0'])
            ac = ac.fillna(0)
        elif two:
            ac = iv.sandia_multi(tuple(d['v_mp'] for d in dcs), tuple(
                d['p_mp'] for d in dcs), ip)
        else:
            ac = iv.sandia(dcs[0]['v_mp'], dcs[0]['p_mp'], ip)
        yield 'ac', same(r.ac, ac, types=False)


for _m in DC:
    dc_chain(_m, False, False, False)
    dc_chain(_m, True, False, True)
for _m in ('sapm', 'desoto', 'pvsyst'):
    dc_chain(_m, False, True, False)
    dc_chain(_m, True, True, True)


# --------------------------------------------------------- cell temperature
@lemma('C16', M_ + 'ModelChain._prepare_temperature', args=dict(
    times=Times('Etc/GMT+7'), lat=P(-60, 60), lon=P(-180, 180),
    w0=Opt(frame(**EFF), frame(**EFF, poa_global=E(0, 1200), **MORE),
           frame(**EFF, poa_global=E(0, 1200),
                 module_temperature=E(-10, 70)),
           frame(**EFF, module_temperature=E(-10, 70), poa_global=E(0, 1200),
                 cell_temperature=E(-10, 70))),
    w1=Opt(frame(**EFF, poa_global=E(0, 1200), **MORE),
           frame(**EFF, poa_global=E(0, 1200),
                 module_temperature=E(-10, 70)),
           frame(**EFF, poa_global=E(0, 1200), cell_temperature=E(-10, 70))),
    p=D(**PW), t0=D(**TP), t1=D(**TP), way=Opt('one', 'tuple')),
    kinds=('series',), symstubs=STUB, nconc=8)
def cell_temperature(times, lat, lon, w0, w1, p, t0, t1, way):
    arrays = [arr(p, t0), arr(p, t1)][:1 if way == 'one' else 2]
    ch = pv.modelchain.ModelChain(
        system(*arrays, inverter_parameters={'pdc0': 200.}),
        place(lat, lon, 0), aoi_model='no_loss')
    ws = (w0, w1)[:len(arrays)]
    ch.run_model_from_effective_irradiance(ws if way == 'tuple' else w0)
    got = ch.results.cell_temperature
    T = pv.temperature
    glob = all('poa_global' in w.columns for w in ws)
    for i, (w, t) in enumerate(zip(ws, (t0, t1))):
        g = got[i] if way == 'tuple' else got
        irr = w['poa_global' if glob else 'effective_irradiance']
        if 'cell_temperature' in w.columns:
            want = w['cell_temperature']
        elif 'module_temperature' in w.columns:
            want = T.sapm_cell_from_module(w['module_temperature'], irr,
                                           t['deltaT'])
        else:
            want = T.sapm_cell(irr, col(w, 'temp_air', 20),
                               col(w, 'wind_speed', 0), **t)
        yield f'cell temperature {i}', same(g, want, types=False)


TMODELS = dict(
    sapm=dict(TP), pvsyst=dict(u_c=P(20, 35), u_v=P(0, 5)),
    faiman=dict(u0=P(20, 30), u1=P(3, 8)),
    noct_sam=dict(noct=P(40, 50), module_efficiency=P(.1, .25)))


@lemma('C16', M_ + 'ModelChain.temperature_model', args=dict(
    times=Times('Etc/GMT+7'), lat=P(-60, 60), lon=P(-180, 180),
    w0=frame(**EFF, poa_global=E(0, 1200), module_temperature=E(-10, 70),
             **MORE),
    p=D(**PW), model=Opt(*TMODELS), given=Opt(True, False),
    **{f't_{k}': D(**v) for k, v in TMODELS.items()}),
    kinds=('series',), symstubs=STUB, nconc=8)
def temperature_models(times, lat, lon, w0, p, model, given, **ts):
    tp = ts['t_' + model]
    ch = pv.modelchain.ModelChain(
        system(arr(p, tp), inverter_parameters={'pdc0': 200.}),
        place(lat, lon, 0), aoi_model='no_loss',
        temperature_model=model if given else None)
    ch.run_model_from_effective_irradiance(w0)
    T = pv.temperature
    k = {}
    if model == 'noct_sam':
        k['effective_irradiance'] = w0['effective_irradiance']
    if model == 'sapm':
        want = T.sapm_cell_from_module(w0['module_temperature'],
                                       w0['poa_global'], tp['deltaT'])
    else:
        f = {'pvsyst': T.pvsyst_cell, 'faiman': T.faiman,
             'noct_sam': T.noct_sam}[model]
        want = f(w0['poa_global'], w0['temp_air'], w0['wind_speed'], **k,
                 **tp)
    yield 'temperature', same(ch.results.cell_temperature, want, types=False)
    other = 'pvsyst' if model == 'sapm' else 'sapm'
    yield 'inconsistent model refused', raises(
        ValueError, setattr, ch, 'temperature_model', other)
    yield 'unknown model refused', raises(
        ValueError, setattr, ch, 'temperature_model', 'no such')


# -------------------------------------------------------------------- from poa
WPOA = dict(poa_global=E(0, 1200), poa_direct=E(0, 1000),
            poa_diffuse=E(0, 500))
AOIM = dict(physical=dict(n=P(1.3, 1.7), K=P(2, 6), L=P(.001, .004)),
            ashrae=dict(b=P(.02, .1)), martin_ruiz=dict(a_r=P(.1, .3)),
            schlick={}, sapm={k: v for k, v in SAPM.items()
                              if k[0] == 'B' and len(k) == 2}, no_loss={})


def poa_chain(model, two):
    @lemma('C16', M_ + 'ModelChain.run_model_from_poa', args=dict(
        times=Times('Etc/GMT+7'), **PAR, w0=Opt(frame(**WPOA), frame(
            **WPOA, **MORE, pressure=E(8e4, 1e5))),
        w1=frame(**WPOA, temp_air=E(-20, 50)),
        p0=D(FD=P(.5, 1), **PW, **AOIM[model]), p1=D(**PW, **AOIM[model]),
        t0=D(**TP), t1=D(**TP)), kinds=('series',), symstubs=STUB, nconc=8,
        name=f'run_model_from_poa: {model}' + (', two arrays' if two else ''))
    def _(times, lat, lon, alt, tilt, az, w0, w1, p0, p1, t0, t1):
        m0, m1 = mounts(tilt, az)
        arrays = [arr(p0, t0, m0), arr(p1, t1, m1)][:2 if two else 1]
        ch = pv.modelchain.ModelChain(
            system(*arrays, inverter_parameters={'pdc0': 200.}),
            place(lat, lon, alt), aoi_model=model)
        ch.run_model_from_poa((w0, w1) if two else w0)
        r = ch.results
        sp, rel, ab = sky(lat, lon, alt, times,
                          w0['pressure'] if 'pressure' in w0.columns else None,
                          w0['temp_air'] if 'temp_air' in w0.columns else None)
        yield 'solar position', same(r.solar_position, sp)
        yield 'air mass', same(r.airmass['airmass_absolute'], ab, types=False)
        for i, (w, m, p, t) in enumerate(
                ((w0, m0, p0, t0), (w1, m1, p1, t1))[:len(arrays)]):
            def nth(v):
                return v[i] if two else v
            lab = f'array {i} '
            aoi = pv.irradiance.aoi(m.surface_tilt, m.surface_azimuth,
                                    sp['apparent_zenith'], sp['azimuth'])
            yield lab + 'aoi', same(nth(r.aoi), aoi)
            if model == 'no_loss':
                iam = 1.
            elif model == 'sapm':
                iam = pv.iam.sapm(aoi, p)
            else:
                iam = getattr(pv.iam, model)(aoi, **pick(AOIM[model], p))
                yield lab + 'iam', same(nth(r.aoi_modifier), iam)
            for q in WPOA:
                yield lab + q, same(nth(r.total_irrad)[q], w[q])
            eff = w['poa_direct']*iam + p.get('FD', 1.)*w['poa_diffuse']
            yield lab + 'effective irradiance', same(
                nth(r.effective_irradiance), eff, types=False)
            tc = pv.temperature.sapm_cell(
                w['poa_global'], col(w, 'temp_air', 20),
                col(w, 'wind_speed', 0), **t)
            yield lab + 'cell temperature', same(nth(r.cell_temperature), tc,
                                                 types=False)
            dc = pv.pvsystem.pvwatts_dc(eff, tc, p['pdc0'], p['gamma_pdc'])
            yield lab + 'dc', same(nth(r.dc), dc, types=False)


for _m in AOIM:
    poa_chain(_m, False)
for _m in ('physical', 'no_loss', 'ashrae'):
    poa_chain(_m, True)


# ----------------------------------------------------- options of the models
@lemma('C16', M_ + 'ModelChain.prepare_inputs', args=dict(
    times=Times('Etc/GMT+7'), **PAR, w=frame(**WX, precipitable_water=E(.5, 4)),
    sm=Opt('nrel_numpy', 'ephemeris'),
    am=Opt('simple', 'kastenyoung1989', 'young1994', 'pickering2002'),
    tm=Opt('isotropic', 'haydavies'), p=D(**SAPM, **PW),
    spec=Opt('sapm', 'first_solar', 'no_loss', None)), kinds=('series',),
    symstubs=STUB, nconc=6)
def options(times, lat, lon, alt, tilt, az, w, sm, am, tm, p, spec):
    p = dict(p, Technology='CdTe')
    m0, m1 = mounts(tilt, az)
    ch = pv.modelchain.ModelChain(
        system(arr(p, dict(a=-3.5, b=-.06, deltaT=3.), m0),
               inverter_parameters={'pdc0': 200.}),
        place(lat, lon, alt), solar_position_method=sm, airmass_model=am,
        transposition_model=tm, spectral_model=spec, aoi_model='no_loss',
        dc_model='pvwatts')
    ch.run_model(w)
    r = ch.results
    sp, rel, ab = sky(lat, lon, alt, times, method=sm, model=am)
    yield 'solar position', same(r.solar_position, sp)
    yield 'relative air mass', same(r.airmass['airmass_relative'], rel,
                                    types=False)
    aoi, ir = poa(sp, rel, m0, w, .25, tm)
    yield 'irradiance', same(r.total_irrad, ir)
    if spec == 'sapm':
        s = pv.spectrum.spectral_factor_sapm(ab, p)
    elif spec == 'first_solar':
        s = pv.spectrum.spectral_factor_firstsolar(
            w['precipitable_water'], ab, 'cdte', None)
    else:
        s = 1
    yield 'effective irradiance', same(
        r.effective_irradiance,
        s*(ir['poa_direct'] + p['FD']*ir['poa_diffuse']), types=False)


COMPLETE = dict(STUB, **u(
    'pvlib.irradiance.complete_irradiance', ('ghi', 'dhi', 'dni'),
    form='frame'), **u('pvlib.clearsky.simplified_solis', (
        'ghi', 'dni', 'dhi'), form='frame'))


@lemma('C16', M_ + 'ModelChain.complete_irradiance', args=dict(
    times=Times('Etc/GMT+7'), lat=P(-60, 60), lon=P(-180, 180), alt=P(0, 3000),
    w=frame(**WX, **MORE), miss=Opt('ghi', 'dni', 'dhi', None),
    way=Opt('one', 'two')), kinds=('series',), symstubs=COMPLETE, nconc=8)
def complete_irradiance(times, lat, lon, alt, w, miss, way):
    a = arr(dict(pdc0=200., gamma_pdc=-.003), dict(a=-3.5, b=-.06, deltaT=3.))
    ch = pv.modelchain.ModelChain(
        system(*[a]*(1 if way == 'one' else 2),
               inverter_parameters={'pdc0': 200.}),
        place(lat, lon, alt), clearsky_model='simplified_solis',
        aoi_model='no_loss')
    sp = sky(lat, lon, alt, times)[0]
    d = w[[c for c in w.columns if c != miss]]
    data = d if way == 'one' else (d, w)
    ch.complete_irradiance(data)
    got = ch.results.weather
    g = got if way == 'one' else got[0]
    k = dict(ghi=w['ghi'], dhi=w['dhi'], dni=w['dni'])
    if miss:
        k[miss] = None
        if miss == 'dni':
            k['dni_clear'] = pv.clearsky.simplified_solis(
                sp['apparent_elevation'], pressure=pv.atmosphere.alt2pres(
                    alt), dni_extra=pv.irradiance.get_extra_radiation(times)
                )['dni']
        f = pv.irradiance.complete_irradiance(
            solar_zenith=sp['zenith'], **k)
        k.pop('dni_clear', None)
        k[miss] = f[miss]
    for n in k:
        yield n, same(g[n], k[n], types=False)
    for n in MORE:
        yield n, same(g[n], w[n])
    if way == 'two':
        for n in WX:
            yield n + ' of the second array', same(got[1][n], w[n])
    yield 'solar position', same(ch.results.solar_position, sp)
    yield 'input not completed in place', miss not in d.columns


# ------------------------------------------------------------------ inference
def chain_of(mp=None, tp=None, ip=None, n=1, mp2=None, **k):
    base = dict(pdc0=200., gamma_pdc=-.003)
    t = dict(a=-3.5, b=-.06, deltaT=3.) if tp is None else tp
    arrays = [arr(base if mp is None else mp, t)]
    if n == 2:
        arrays.append(arr(base if mp2 is None else mp2, t))
    k.setdefault('aoi_model', 'no_loss')
    return pv.modelchain.ModelChain(
        system(*arrays, inverter_parameters=dict(pdc0=200.) if ip is None
               else ip), place(32., -110., 700.), **k)


def which(f):
    return f.__name__


ONE = dict.fromkeys
DKEYS = dict(
    sapm=set(SAPM), cec=set(DESOTO) | {'Adjust'}, desoto=set(DESOTO),
    pvsyst=set(PVSYST) | {'R_sh_exp', 'EgRef', 'irrad_ref', 'temp_ref'},
    pvwatts_dc={'pdc0', 'gamma_pdc'})
MINIMUM = dict(
    sapm={'A0', 'A1', 'C3'},
    cec={'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'Adjust'},
    desoto={'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s'},
    pvsyst={'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref',
            'R_sh_0', 'R_sh_exp', 'R_s'},
    pvwatts_dc={'pdc0', 'gamma_pdc'})
ORDER = ('sapm', 'cec', 'desoto', 'pvsyst', 'pvwatts_dc')


def first_model(keys):
    for n in ORDER:
        if MINIMUM[n] <= keys:
            return n
    return None


@lemma('C16', M_ + 'ModelChain.infer_dc_model', args=dict(
    a=Opt(*ORDER), b=Opt(*ORDER, None), drop=Opt(None, 'first', 'last'),
    ), kinds=('scalar',), nconc=1)
def infer_dc(a, b, drop):
    """every pair of parameter sets, also with one entry missing; the
    arrays' common keys decide"""
    keys = set(DKEYS[a]) | (set(DKEYS[b]) if b else set())
    if drop:
        ks = sorted(MINIMUM[a])
        keys.discard(ks[0 if drop == 'first' else -1])
    mp = ONE(keys, 1.)
    ch = chain_of()
    ch.system = system(arr(mp))
    want = first_model(keys)
    if want is None:
        yield 'refused', raises(ValueError, ch.infer_dc_model)
    else:
        f, n = ch.infer_dc_model()
        yield 'method', which(f) == want
        yield 'name', n == want.replace('_dc', '')
    if b:
        ch.system = system(arr(ONE(DKEYS[a], 1.)), arr(ONE(keys, 1.)))
        want = first_model(set(DKEYS[a]) & keys)
        if want is None:
            yield 'common keys, refused', raises(ValueError,
                                                 ch.infer_dc_model)
        else:
            yield 'common keys', which(ch.infer_dc_model()[0]) == want


AKEYS = dict(
    physical={'n', 'K', 'L'},
    sapm={'B0', 'B1', 'B2', 'B3', 'B4', 'B5'}, ashrae={'b'},
    martin_ruiz={'a_r'}, interp={'theta_ref', 'iam_ref'})


@lemma('C16', M_ + 'ModelChain.infer_aoi_model', args=dict(
    a=Opt(*AKEYS), b=Opt(*AKEYS)), kinds=('scalar',), nconc=1)
def infer_aoi(a, b):
    for keys in (AKEYS[a] | AKEYS[b], (AKEYS[a] | AKEYS[b]) - {
            sorted(AKEYS[a])[0]}):
        want = [n for n in AKEYS if AKEYS[n] <= keys]
        ch = chain_of()
        ch.system = system(arr(ONE(keys, 1.)))
        if want:
            yield f'{sorted(keys)}', which(ch.infer_aoi_model()) == \
                want[0] + '_aoi_loss'
        else:
            yield f'{sorted(keys)}', raises(ValueError, ch.infer_aoi_model)
    ch.system = system(arr(ONE(AKEYS[a], 1.)), arr(ONE(AKEYS[b], 1.)))
    if a == b:
        yield 'common', which(ch.infer_aoi_model()) == a + '_aoi_loss'
    else:
        yield 'nothing in common', raises(ValueError, ch.infer_aoi_model)


TKEYS = dict(sapm={'a', 'b', 'deltaT'}, pvsyst={'u_c', 'u_v'},
             faiman={'u0', 'u1'}, fuentes={'noct_installed'},
             noct_sam={'noct', 'module_efficiency'})


@lemma('C16', M_ + 'ModelChain.infer_temperature_model', args=dict(
    a=Opt(*TKEYS), b=Opt(*TKEYS)), kinds=('scalar',), nconc=1)
def infer_temperature(a, b):
    ch = chain_of()
    for keys in (TKEYS[a] | TKEYS[b], TKEYS[a] - {sorted(TKEYS[a])[-1]}):
        want = [n for n in TKEYS if TKEYS[n] <= keys]
        ch.system = system(arr({}, ONE(keys, 1.)))
        if want:
            yield f'{sorted(keys)}', which(ch.infer_temperature_model()) == \
                want[0] + '_temp'
        else:
            yield f'{sorted(keys)}', raises(ValueError,
                                            ch.infer_temperature_model)
    ch.system = system(arr({}, ONE(TKEYS[a], 1.)), arr({}, ONE(
        TKEYS[b], 1.)))
    if a == b:
        yield 'common', which(ch.infer_temperature_model()) == a + '_temp'
    else:
        yield 'nothing in common', raises(ValueError,
                                          ch.infer_temperature_model)


IKEYS = dict(sandia_inverter={'C0', 'C1', 'C2'},
             adr_inverter={'ADRCoefficients'}, pvwatts_inverter={'pdc0'})


@lemma('C16', M_ + 'ModelChain.infer_ac_model', args=dict(
    a=Opt(*IKEYS), b=Opt(*IKEYS)), kinds=('scalar',), nconc=1)
def infer_ac(a, b):
    ch = chain_of()
    keys = IKEYS[a] | IKEYS[b]
    want = [n for n in IKEYS if IKEYS[n] <= keys][0]
    ch.system = system(arr({}), inverter_parameters=ONE(keys, 1.))
    yield 'inverter model', which(ch.infer_ac_model()) == want
    ch.system = system(arr({}), arr({}), inverter_parameters=ONE(keys, 1.))
    if want == 'adr_inverter':
        yield 'adr has one input', raises(ValueError, ch.infer_ac_model)
    else:
        yield 'two arrays', which(ch.infer_ac_model()) == want
    ch.system = system(arr({}), inverter_parameters={'C0': 1.})
    yield 'refused', raises(ValueError, ch.infer_ac_model)


@lemma('C16', M_ + 'ModelChain.__init__', args=dict(
    s=E(0, 10)), kinds=('scalar',), nconc=1)
def setters(s):
    names = []

    def user(mc):
        names.append(mc)
    for attr, known in dict(
            dc_model=dict(pvwatts='pvwatts_dc', PVWatts='pvwatts_dc'),
            ac_model=dict(sandia='sandia_inverter', adr='adr_inverter',
                          pvwatts='pvwatts_inverter',
                          Sandia='sandia_inverter'),
            aoi_model={n: n + '_aoi_loss' for n in (
                'ashrae', 'physical', 'sapm', 'martin_ruiz', 'schlick',
                'interp')} | {'no_loss': 'no_aoi_loss',
                              'Physical': 'physical_aoi_loss'},
            spectral_model=dict(first_solar='first_solar_spectral_loss',
                                sapm='sapm_spectral_loss',
                                no_loss='no_spectral_loss'),
            temperature_model=dict(sapm='sapm_temp', SAPM='sapm_temp'),
            dc_ohmic_model=dict(dc_ohms_from_percent='dc_ohms_from_percent',
                                no_loss='no_dc_ohmic_loss'),
            losses_model=dict(pvwatts='pvwatts_losses',
                              no_loss='no_extra_losses')).items():
        for k, w in known.items():
            ch = chain_of(**{attr: k})
            yield f'{attr} {k}', which(getattr(ch, attr)) == w
        yield f'{attr} unknown', raises(ValueError, chain_of,
                                        **{attr: 'no such model'})
        ch = chain_of(**{attr: user})
        del names[:]
        getattr(ch, attr)()
        yield f'{attr} of the user is called with the chain', \
            len(names) == 1 and names[0] is ch
    mcs = pv.modelchain
    loc = place(32., -110., 700.)
    c = mcs.ModelChain.with_pvwatts(chain_of().system, loc)
    yield 'with_pvwatts', [
        c.transposition_model, which(c.dc_model), which(c.ac_model),
        which(c.losses_model), which(c.aoi_model), which(c.spectral_model),
        which(c.temperature_model)] == [
            'perez', 'pvwatts_dc', 'pvwatts_inverter', 'pvwatts_losses',
            'physical_aoi_loss', 'no_spectral_loss', 'sapm_temp']
    sy = system(arr(ONE(SAPM, 1.), dict(a=1., b=1., deltaT=1.)),
                inverter_parameters=ONE(SND, 1.))
    c = mcs.ModelChain.with_sapm(sy, loc)
    yield 'with_sapm', [
        c.transposition_model, which(c.dc_model), which(c.ac_model),
        which(c.losses_model), which(c.aoi_model), which(c.spectral_model),
        which(c.temperature_model)] == [
            'haydavies', 'sapm', 'sandia_inverter', 'no_extra_losses',
            'sapm_aoi_loss', 'sapm_spectral_loss', 'sapm_temp']
    c = mcs.ModelChain.with_pvwatts(chain_of().system, loc,
                                    losses_model='no_loss')
    yield 'with_pvwatts, option', which(c.losses_model) == 'no_extra_losses'


@lemma('C16', M_ + 'ModelChain._check_multiple_input', args=dict(
    times=Times('Etc/GMT+7'), w0=frame(**WX), w1=frame(**WX)), kinds=('series',),
    symstubs=STUB, nconc=4)
def refused(times, w0, w1):
    two = chain_of(n=2)
    part = w0[['ghi', 'dni']]
    yield 'column missing', raises(ValueError, two.run_model, part)
    yield 'column missing in one of two', raises(
        ValueError, two.run_model, (w0, part))
    yield 'three frames for two arrays', raises(
        ValueError, two.run_model, (w0, w1, w1))
    yield 'one frame for two arrays', raises(
        ValueError, two.run_model, (w0,))
    one = chain_of()
    yield 'two frames for one array', raises(ValueError, one.run_model,
                                             [w0, w1])
    yield 'from poa, one frame for two arrays', raises(
        TypeError, two.run_model_from_poa, w0)
    yield 'from poa, columns missing', raises(
        ValueError, one.run_model_from_poa, w0)
    yield 'effective irradiance missing', raises(
        ValueError, one.run_model_from_effective_irradiance, w0)
