# include syslib
"""PVSystem, Array and mounts hand the right values to the model functions
(C15).  The model functions themselves are used through "whatever they
return" (they have contracts of their own)."""
def both_ways(label, method, args, direct, mp, **kw):
    """one array: unwrapped (or a 1-tuple on request); two arrays: a tuple in
    array order, values matched to arrays by position"""
    one = system(arr(mp[0], **kw))
    two = system(arr(mp[0], **kw), arr(mp[1], **kw))
    w0 = direct(*[a[0] for a in args], mp[0])
    w1 = direct(*[a[1] for a in args], mp[1])
    yield label + ' of one array', same(
        getattr(one, method)(*[a[0] for a in args]), w0)
    u = getattr(one, method)(*[a[0] for a in args], unwrap=False)
    yield label + ' not unwrapped', isinstance(u, tuple) and len(u) == 1
    yield label + ' not unwrapped, value', same(u[0], w0)
    r = getattr(two, method)(*[tuple(a) for a in args])
    yield label + ' number of results', isinstance(r, tuple) and len(r) == 2
    yield label + ' first array', same(r[0], w0)
    yield label + ' second array', same(r[1], w1)
    if args:
        yield label + ' wrong number of values', raises(
            ValueError, getattr(two, method), *[a[0] for a in args])
        yield label + ' too many values', raises(
            ValueError, getattr(one, method), *[tuple(a) for a in args])
        yield from counts(getattr(two, method), *[tuple(a) for a in args])


def counts(method, *args, **named):
    """every tuple argument must have one value per array"""
    def bad(label, v, call):
        for t in (v[:1], v + v[:1], v + (None,), ()):
            yield f'{label} given {len(t)} values', raises(
                ValueError, call, t)
    for i, v in enumerate(args):
        if isinstance(v, tuple):
            yield from bad(f'argument {i}', v, lambda t, i=i: method(
                *args[:i], t, *args[i + 1:], **named))
    for n, v in named.items():
        if isinstance(v, tuple):
            yield from bad(n, v, lambda t, n=n: method(
                *args, **dict(named, **{n: t})))


def calc(name, spec, extra=None):
    """calcparams_* of a system"""
    more = dict(spec, **(extra or {}))

    @lemma('C15', Y_ + 'PVSystem.' + name, args=dict(
        SYS, p0=Opt(D(**spec), D(unrelated=P(0, 9), **more)), p1=D(**more)),
        kinds=ASS, symstubs={Y_ + name: ufn(Y_ + name, FIVE)},
        name=f'PVSystem.{name}')
    def _(e0, e1, t0, t1, p0, p1):
        f = getattr(pv.pvsystem, name)
        yield from both_ways(
            name, name, [(e0, e1), (t0, t1)],
            lambda e, t, p: f(e, t, **pick(more, p)), (p0, p1))


calc('calcparams_desoto', DESOTO, REFS)
calc('calcparams_cec', dict(DESOTO, Adjust=P(-5, 10)), REFS)
calc('calcparams_pvsyst', PVSYST, dict(
    R_sh_exp=P(4, 7), EgRef=P(1, 1.3), irrad_ref=P(900, 1100),
    temp_ref=P(20, 30)))

@lemma('C15', Y_ + 'PVSystem.sapm', args=dict(
    SYS, p0=D(**SAPM), p1=D(**SAPM)), kinds=ASS, symstubs={
        Y_ + 'sapm': ufn(Y_ + 'sapm', (
            'i_sc', 'i_mp', 'v_oc', 'v_mp', 'p_mp', 'i_x', 'i_xx'),
            form='frame')})
def sapm(e0, e1, t0, t1, p0, p1):
    yield from both_ways('sapm', 'sapm', [(e0, e1), (t0, t1)],
                         pv.pvsystem.sapm, (p0, p1))


@lemma('C15', Y_ + 'PVSystem.sapm_effective_irradiance', args=dict(
    b0=E(0, 900), b1=E(0, 900), d0=E(0, 500), d1=E(0, 500), am=E(.7, 10),
    a0=E(0, 80), a1=E(0, 80), p0=D(**SAPM), p1=D(**SAPM)), kinds=ASS,
    symstubs={Y_ + 'sapm_effective_irradiance': ufn(
        Y_ + 'sapm_effective_irradiance')})
def sapm_effective_irradiance(b0, b1, d0, d1, am, a0, a1, p0, p1):
    f = pv.pvsystem.sapm_effective_irradiance
    s = system(arr(p0), arr(p1))
    r = s.sapm_effective_irradiance((b0, b1), (d0, d1), am, (a0, a1))
    yield 'first', same(r[0], f(b0, d0, am, a0, p0))
    yield 'second', same(r[1], f(b1, d1, am, a1, p1))
    yield 'one array', same(system(arr(p1)).sapm_effective_irradiance(
        b1, d1, am, a1), f(b1, d1, am, a1, p1))


@lemma('C15', Y_ + 'PVSystem.sapm_spectral_loss', args=dict(
    am=E(.7, 10), p0=D(**SAPM), p1=D(**SAPM)), kinds=ASS, symstubs={
        'pvlib.spectrum.spectral_factor_sapm': ufn(
            'pvlib.spectrum.spectral_factor_sapm')})
def sapm_spectral_loss(am, p0, p1):
    f = pv.spectrum.spectral_factor_sapm
    r = system(arr(p0), arr(p1)).sapm_spectral_loss(am)
    yield 'first', same(r[0], f(am, p0))
    yield 'second', same(r[1], f(am, p1))
    yield 'one array', same(system(arr(p0)).sapm_spectral_loss(am),
                            f(am, p0))


TECH = {'Multi-c-Si': 'multisi', 'Mono-c-Si': 'monosi', 'Thin Film': 'cigs',
        'a-Si/nc': 'asi', 'CIS': 'cigs', 'CIGS': 'cigs', '1-a-Si': 'asi',
        'CdTe': 'cdte', 'a-Si': 'asi', '2-a-Si': None, '3-a-Si': None,
        'HIT-Si': 'monosi', 'mc-Si': 'multisi', 'c-Si': 'multisi',
        'Si-Film': 'asi', 'EFG mc-Si': 'multisi', 'GaAs': None,
        'a-Si / mono-Si': 'monosi'}


@lemma('C15', Y_ + 'Array._infer_cell_type', args=dict(), kinds=('scalar',),
       nconc=1)
def infer_cell_type():
    for k, w in TECH.items():
        for key in ('Technology', 'Material'):
            yield f'{key} {k}', arr({key: k})._infer_cell_type() == w
    yield 'Technology before Material', arr(
        {'Technology': 'CdTe', 'Material': 'c-Si'})._infer_cell_type() == \
        'cdte'
    yield 'unknown', arr({})._infer_cell_type() is None
    yield 'system', system(arr({'Material': 'c-Si'}), arr(
        {'Material': 'CdTe'}))._infer_cell_type() == ('multisi', 'cdte')


FS = 'pvlib.spectrum.spectral_factor_firstsolar'


@lemma('C15', Y_ + 'PVSystem.first_solar_spectral_loss', args=dict(
    pw0=E(.5, 5), pw1=E(.5, 5), am=E(1, 5)), kinds=('array', 'series'),
    symstubs={FS: ufn(FS)})
def first_solar_spectral_loss(pw0, pw1, am):
    f = pv.spectrum.spectral_factor_firstsolar
    co = (0.84, -0.03, -0.008, 0.14, 0.04, -0.002)
    s = system(arr({'Technology': 'CdTe'}), arr(
        {'first_solar_spectral_coefficients': co, 'Technology': 'c-Si'}))
    r = s.first_solar_spectral_loss((pw0, pw1), am)
    yield 'cell type', same(r[0], f(pw0, am, 'cdte', None))
    yield 'coefficients', same(r[1], f(pw1, am, None, co))
    r = s.first_solar_spectral_loss(pw0, am)
    yield from counts(s.first_solar_spectral_loss, (pw0, pw1), am)
    yield 'one water column for all', same(r[1], f(pw0, am, None, co))


# -------------------------------------------------------------- orientation
MOUNT = dict(tilt=P(0, 90), az=P(0, 360), z=E(0, 120), a=E(0, 360))
TRK = ('tracker_theta', 'aoi', 'surface_azimuth', 'surface_tilt')
SAX = {'pvlib.tracking.singleaxis': ufn('pvlib.tracking.singleaxis', TRK,
                                        form='frame')}


@lemma('C15', Y_ + 'FixedMount.get_orientation', args=MOUNT, kinds=ASS)
def fixed_mount(tilt, az, z, a):
    o = pv.pvsystem.FixedMount(tilt, az).get_orientation(z, a)
    yield 'tilt', eq(o['surface_tilt'], tilt)
    yield 'azimuth', eq(o['surface_azimuth'], az)
    yield 'nothing else', set(o) == {'surface_tilt', 'surface_azimuth'}


@lemma('C15', Y_ + 'SingleAxisTrackerMount.get_orientation', args=dict(
    z=E(0, 120), a=E(0, 360), at=P(0, 30), aa=P(0, 360), mx=P(30, 90),
    bt=Opt(True, False), gcr=P(.2, .8), cr=P(-5, 5)), kinds=ASS,
    symstubs=SAX)
def tracker_mount(z, a, at, aa, mx, bt, gcr, cr):
    m = pv.pvsystem.SingleAxisTrackerMount(at, aa, mx, bt, gcr, cr)
    yield 'orientation', same(m.get_orientation(z, a), pv.tracking.singleaxis(
        z, a, axis_tilt=at, axis_azimuth=aa, max_angle=mx, backtrack=bt,
        gcr=gcr, cross_axis_tilt=cr))


@lemma('C15', Y_ + 'PVSystem.get_aoi', args=dict(
    MOUNT, tilt1=P(0, 90), az1=P(0, 360)), kinds=ASS, symstubs=dict(SAX, **{
        'pvlib.irradiance.aoi': ufn('pvlib.irradiance.aoi')}))
def get_aoi(tilt, az, z, a, tilt1, az1):
    m = pv.pvsystem
    f = pv.irradiance.aoi
    a0 = arr(mount=m.FixedMount(tilt, az))
    a1 = arr(mount=m.FixedMount(tilt1, az1))
    a2 = arr(mount=m.SingleAxisTrackerMount(gcr=0.4))
    yield 'one array', same(system(a0).get_aoi(z, a), f(tilt, az, z, a))
    r = system(a0, a1, a2).get_aoi(z, a)
    yield 'first', same(r[0], f(tilt, az, z, a))
    yield 'second', same(r[1], f(tilt1, az1, z, a))
    o = pv.tracking.singleaxis(z, a, gcr=0.4)
    yield 'tracker', same(r[2], f(o['surface_tilt'], o['surface_azimuth'],
                                  z, a))


@lemma('C15', Y_ + 'Array.get_irradiance', args=dict(
    times=Times('Etc/GMT+7'), z=E(0, 80), a=E(0, 360), dni=E(0, 1000),
    ghi=E(0, 1000), dhi=E(0, 500), tilt=P(0, 90), az=P(0, 360),
    extra=Opt(None, E(1300, 1400)), am=Opt(None, E(1, 5)),
    albedo=Opt(None, E(0, 1)), own=Opt(None, P(0, 1)),
    model=Opt('haydavies', 'perez')), kinds=('series', 'array', 'scalar'),
    symstubs=IRR, nconc=15)
def array_irradiance(times, z, a, dni, ghi, dhi, tilt, az, extra, am, albedo,
                     own, model):
    x = arr(mount=pv.pvsystem.FixedMount(tilt, az), albedo=own,
            surface_type='snow')
    got = x.get_irradiance(z, a, dni, ghi, dhi, dni_extra=extra, airmass=am,
                           albedo=albedo, model=model)
    if extra is None:
        extra = pv.irradiance.get_extra_radiation(z.index) if isinstance(
            z, pd.Series) else 1367.0
    if am is None:
        am = pv.atmosphere.get_relative_airmass(z)
    if albedo is None:
        albedo = 0.65 if own is None else own
    yield 'irradiance', same(got, pv.irradiance.get_total_irradiance(
        tilt, az, z, a, dni, ghi, dhi, dni_extra=extra, airmass=am,
        albedo=albedo, model=model))


@lemma('C15', Y_ + 'PVSystem.get_irradiance', args=dict(
    z=E(0, 80), a=E(0, 360), dni0=E(0, 1000), ghi0=E(0, 1000),
    dhi0=E(0, 500), dni1=E(0, 1000), ghi1=E(0, 1000), dhi1=E(0, 500),
    tilt=P(0, 90), az=P(0, 360), extra=E(1300, 1400), am=E(1, 5),
    b0=E(0, 1), b1=E(0, 1), per=Opt(True, False)), kinds=('array', 'series'),
    symstubs=IRR, nconc=15)
def system_irradiance(z, a, dni0, ghi0, dhi0, dni1, ghi1, dhi1, tilt, az,
                      extra, am, b0, b1, per):
    s = system(arr(mount=pv.pvsystem.FixedMount(tilt, az)),
               arr(mount=pv.pvsystem.FixedMount(az/4, tilt)))
    k = dict(dni_extra=extra, airmass=am, model='isotropic')
    f = pv.irradiance.get_total_irradiance
    if per:
        r = s.get_irradiance(z, a, (dni0, dni1), (ghi0, ghi1), (dhi0, dhi1),
                             albedo=(b0, b1), **k)
    else:
        r = s.get_irradiance(z, a, dni0, ghi0, dhi0, albedo=b0, **k)
        dni1, ghi1, dhi1, b1 = dni0, ghi0, dhi0, b0
    yield 'two results', len(r) == 2
    yield 'first', same(r[0], f(tilt, az, z, a, dni0, ghi0, dhi0, albedo=b0,
                                **k))
    yield 'second', same(r[1], f(az/4, tilt, z, a, dni1, ghi1, dhi1,
                                 albedo=b1, **k))
    yield from counts(s.get_irradiance, z, a, (dni0, dni1), (ghi0, ghi1),
                      (dhi0, dhi1), albedo=(b0, b1), **k)


@lemma('C15', Y_ + 'Array.__init__', args=dict(al=P(0, 1)),
       kinds=('scalar',), nconc=2)
def array_albedo(al):
    A_ = pv.pvsystem.Array
    m = pv.pvsystem.FixedMount()
    yield 'explicit albedo', eq(A_(m, albedo=al, surface_type='snow').albedo,
                                al)
    for n, v in (('urban', .18), ('grass', .20), ('snow', .65), ('sand', .40),
                 ('asphalt', .12), ('sea', .06), (None, .25),
                 ('no such surface', .25)):
        yield f'albedo of {n}', eq(A_(m, surface_type=n).albedo, v)
    p = {'a': 1}
    yield 'dicts given are used', A_(m, module_parameters=p
                                     ).module_parameters is p
    q = A_(m).module_parameters
    yield 'defaults are not shared', q == {} and \
        q is not A_(m).module_parameters
    T = pv.temperature.TEMPERATURE_MODEL_PARAMETERS
    for rack, mod, w in (
            ('open_rack', 'glass_polymer', T['sapm']['open_rack_glass_polymer'
                                                     ]),
            ('close_mount', 'glass_glass', T['sapm']['close_mount_glass_glass'
                                                     ]),
            ('freestanding', None, T['pvsyst']['freestanding']),
            ('insulated', 'glass_polymer', T['pvsyst']['insulated']),
            ('insulated_back', 'glass_polymer', T['sapm'][
                'insulated_back_glass_polymer']),
            ('semi_integrated', None, T['pvsyst']['semi_integrated']),
            (None, None, {})):
        yield f'temperature parameters of {rack} {mod}', A_(
            pv.pvsystem.FixedMount(racking_model=rack), module_type=mod
        ).temperature_model_parameters == w


# ------------------------------------------------------------------------ iam
@lemma('C15', Y_ + 'PVSystem.get_iam', args=dict(
    a0=E(0, 89), a1=E(0, 89), p0=Opt(D(**ALLIAM), D(n=P(1.3, 1.7), b=P(
        .02, .1))), p1=D(**ALLIAM), model=Opt(*IAMS, 'SAPM', 'Physical')),
    kinds=('array', 'scalar'), symstubs=IAMSTUB)
def get_iam(a0, a1, p0, p1, model):
    name = model.lower()
    p0, p1 = dict(p0), dict(p1)
    if name == 'sapm':
        for p in (p0, p1):
            p.update({f'B{i}': v for i, v in enumerate(
                (1., -.002, 3e-4, -1e-5, 2e-7, -1e-9))})

    def direct(aoi, p):
        if name == 'sapm':
            return pv.iam.sapm(aoi, p)
        return getattr(pv.iam, name)(aoi, **pick(IAMS[name], p))
    s = system(arr(p0), arr(p1))
    r = s.get_iam((a0, a1), model)
    yield 'first', same(r[0], direct(a0, p0))
    yield 'second', same(r[1], direct(a1, p1))
    yield 'one', same(system(arr(p1)).get_iam(a1, iam_model=model),
                      direct(a1, p1))
    if name == 'physical':
        yield 'default', same(system(arr(p1)).get_iam(a1), direct(a1, p1))
    yield from counts(s.get_iam, (a0, a1), model)
    yield 'unknown model', raises(ValueError, s.get_iam, (a0, a1), 'no')


# ------------------------------------------------------------ cell temperature
TM = dict(
    sapm=(('a', 'b', 'deltaT'), ('irrad_ref',)),
    pvsyst=((), ('u_c', 'u_v', 'module_efficiency', 'alpha_absorption')),
    faiman=((), ('u0', 'u1')),
    faiman_rad=((), ('u0', 'u1', 'sky_view', 'emissivity')),
    noct_sam=(('noct', 'module_efficiency'),
              ('transmittance_absorptance', 'array_height',
               'mount_standoff')),
    ross=((), ('noct', 'k')))
TP = dict(a=P(-4, -3), b=P(-.1, 0), deltaT=P(1, 4), irrad_ref=P(900, 1100),
          u_c=P(20, 35), u_v=P(0, 5), u0=P(20, 30), u1=P(3, 8),
          sky_view=P(.5, 1), emissivity=P(.8, 1), noct=P(40, 50),
          module_efficiency=P(.1, .25), transmittance_absorptance=P(.8, 1))
def direct_temp(model, poa, ta, ws, tp, mp, ee, lw):
    req, opt = TM[model]
    k = pick(req + opt, tp)
    if model == 'pvsyst':
        k.pop('module_efficiency', None)
        k.update(pick(('module_efficiency', 'alpha_absorption'), mp))
    f = getattr(pv.temperature, TF[model])
    if model == 'ross':
        return f(poa, ta, **k)
    if model == 'faiman_rad':
        return f(poa, ta, ws, ir_down=lw, **k)
    if model == 'noct_sam':
        return f(poa, ta, ws, effective_irradiance=ee, **k)
    return f(poa, ta, ws, **k)


@lemma('C15', Y_ + 'PVSystem.get_cell_temperature', args=dict(
    poa0=E(0, 1200), poa1=E(0, 1200), ta0=E(-20, 50), ta1=E(-20, 50),
    ws0=E(0, 20), ws1=E(0, 20), ee=Opt(None, E(0, 1200)), lw=E(200, 500),
    t0=D(**TP), t1=D(k=P(.02, .04), noct=P(40, 50), **{
        n: TP[n] for n in ('a', 'b', 'deltaT', 'module_efficiency')}),
    mp0=D(module_efficiency=P(.1, .2), alpha_absorption=P(.8, .95)),
    model=Opt(*TM)), kinds=('array', 'series'), symstubs=TSTUB)
def get_cell_temperature(poa0, poa1, ta0, ta1, ws0, ws1, ee, lw, t0, t1, mp0,
                         model):
    t0, t1 = dict(t0), dict(t1)
    if model == 'ross':
        t1.pop('noct')
    if model == 'noct_sam':
        for q in (t0, t1):
            q['array_height'], q['mount_standoff'] = 2, 5.
    s = system(arr(mp0, t0), arr({}, t1))
    eff = (None, None) if ee is None else (ee, 2*ee)
    k = dict(longwave_down=lw)
    if ee is not None:
        k['effective_irradiance'] = eff
    r = s.get_cell_temperature((poa0, poa1), (ta0, ta1), (ws0, ws1), model,
                               **k)
    yield 'first', same(r[0], direct_temp(model, poa0, ta0, ws0, t0, mp0,
                                          eff[0], lw))
    yield 'second', same(r[1], direct_temp(model, poa1, ta1, ws1, t1, {},
                                           eff[1], lw))
    r = s.get_cell_temperature((poa0, poa1), ta0, ws0, model, **k)
    yield 'common weather', same(r[1], direct_temp(
        model, poa1, ta0, ws0, t1, {}, eff[1], lw))
    yield from counts(s.get_cell_temperature, (poa0, poa1), (ta0, ta1),
                      (ws0, ws1), model, effective_irradiance=(poa1, poa0),
                      longwave_down=(lw, lw))
    yield 'irradiance per array', raises(
        ValueError, s.get_cell_temperature, poa0, ta0, ws0, model)
    yield 'unknown model', raises(
        ValueError, s.get_cell_temperature, (poa0, poa1), ta0, ws0, 'no')
    if TM[model][0]:
        yield 'missing parameters are named', raises(
            KeyError, system(arr({}, {})).get_cell_temperature, poa0, ta0,
            ws0, model)


# ---------------------------------------------------------------------- dc, ac
@lemma('C15', Y_ + 'PVSystem.pvwatts_dc', args=dict(
    SYS, p0=D(pdc0=P(50, 300), gamma_pdc=P(-.005, -.002)),
    p1=D(pdc0=P(50, 300), gamma_pdc=P(-.005, -.002), temp_ref=P(20, 30),
         k=P(0, .02), cap_adjustment=Val(True))), kinds=ASS, symstubs={
             Y_ + 'pvwatts_dc': ufn(Y_ + 'pvwatts_dc')})
def pvwatts_dc(e0, e1, t0, t1, p0, p1):
    yield from both_ways(
        'pvwatts_dc', 'pvwatts_dc', [(e0, e1), (t0, t1)],
        lambda e, t, p: pv.pvsystem.pvwatts_dc(e, t, **p), (p0, p1))


@lemma('C15', Y_ + 'PVSystem.pvwatts_losses', args=dict(
    p=Opt(D(**{n: P(0, 10) for n in LOSS}), D(age=P(0, 5), other=P(0, 1)),
          D())), kinds=('scalar',), symstubs={
              Y_ + 'pvwatts_losses': ufn(Y_ + 'pvwatts_losses')})
def pvwatts_losses(p):
    s = system(arr({}), losses_parameters=p)
    yield 'losses', same(s.pvwatts_losses(), pv.pvsystem.pvwatts_losses(
        **pick(LOSS, p)))


SC = Y_ + 'scale_voltage_current_power'


@lemma('C15', Y_ + 'PVSystem.scale_voltage_current_power', args=dict(
    d0=Dct('frame', **{n: E(0, 50) for n in VCP}),
    d1=Dct('frame', **{n: E(0, 50) for n in VCP}),
    m0=P(1, 20), s0=P(1, 20), m1=P(1, 20), s1=P(1, 20)), kinds=('series',),
    symstubs={SC: ufn(SC, VCP, form='frame')})
def scale(d0, d1, m0, s0, m1, s1):
    f = pv.pvsystem.scale_voltage_current_power
    a0 = arr({}, modules_per_string=m0, strings=s0)
    a1 = arr({}, modules_per_string=m1, strings=s1)
    r = system(a0, a1).scale_voltage_current_power((d0, d1))
    yield 'first', same(r[0], f(d0, voltage=m0, current=s0))
    yield 'second', same(r[1], f(d1, voltage=m1, current=s1))
    yield from counts(system(a0, a1).scale_voltage_current_power, (d0, d1))
    yield 'one', same(system(a1).scale_voltage_current_power(d1),
                      f(d1, voltage=m1, current=s1))


@lemma('C15', Y_ + 'PVSystem.get_ac', args=dict(
    p0=E(0, 300), p1=E(0, 300), v0=E(20, 60), v1=E(20, 60), ip=D(**SND),
    wp=Opt(D(pdc0=P(100, 300)), D(pdc0=P(100, 300), eta_inv_nom=P(.9, 1),
                                  eta_inv_ref=P(.9, 1), other=P(0, 1)))),
    kinds=ASS, symstubs=INV)
def get_ac(p0, p1, v0, v1, ip, wp):
    one, two = (lambda q: system(arr({}), inverter_parameters=q)), \
        (lambda q: system(arr({}), arr({}), inverter_parameters=q))
    i = pv.inverter
    k = pick(('eta_inv_nom', 'eta_inv_ref'), wp)
    yield 'sandia', same(one(ip).get_ac('Sandia', p0, v_dc=v0),
                         i.sandia(v0, p0, ip))
    yield 'sandia, two inputs', same(
        two(ip).get_ac('sandia', (p0, p1), v_dc=(v0, v1)),
        i.sandia_multi((v0, v1), (p0, p1), ip))
    yield 'pvwatts', same(one(wp).get_ac('pvwatts', p0),
                          i.pvwatts(p0, wp['pdc0'], **k))
    yield 'pvwatts, two inputs', same(
        two(wp).get_ac('pvwatts', (p0, p1)),
        i.pvwatts_multi((p0, p1), wp['pdc0'], **k))
    yield 'adr takes one input', raises(
        ValueError, two(ip).get_ac, 'adr', (p0, p1), (v0, v1))
    yield 'unknown model', raises(ValueError, one(ip).get_ac, 'no', p0)
    yield 'one power per array', raises(ValueError, two(wp).get_ac,
                                        'pvwatts', p0)
    yield from counts(two(wp).get_ac, 'pvwatts', (p0, p1))
    yield from counts(two(ip).get_ac, 'sandia', (p0, p1), v_dc=(v0, v1))


ADR = dict(Pnom=P(900, 1100), Vnom=P(380, 420), Vmax=P(600, 700), Vmin=P(
    100, 200), ADRCoefficients=Vec(9, P(-.01, .01), ctor='list'),
    Pnt=P(0, 1), Pacmax=P(900, 1100), Vdcmax=P(600, 700),
    MPPTHi=P(500, 600), MPPTLow=P(150, 250))


@lemma('C15', Y_ + 'PVSystem.get_ac', args=dict(
    p0=E(0, 1000), v0=E(100, 600), ip=D(**ADR)), kinds=ASS, symstubs=INV,
    name='PVSystem.get_ac(adr)')
def get_ac_adr(p0, v0, ip):
    yield 'adr', same(system(arr({}), inverter_parameters=ip).get_ac(
        'adr', p0, v_dc=v0), pv.inverter.adr(v0, p0, ip))


OHM = Y_ + 'dc_ohms_from_percent'


@lemma('C15', Y_ + 'PVSystem.dc_ohms_from_percent', args=dict(
    v=P(20, 60), c=P(2, 10), v2=P(20, 60), c2=P(2, 10), pct=P(0, 5),
    m=P(1, 20), s=P(1, 20)), kinds=('scalar',), symstubs={OHM: ufn(OHM)})
def dc_ohms(v, c, v2, c2, pct, m, s):
    f = pv.pvsystem.dc_ohms_from_percent

    def mk(p):
        return arr(p, modules_per_string=m, strings=s,
                   array_losses_parameters={'dc_ohmic_percent': pct})
    w = f(v, c, pct, m, s)
    for a, b in (('V_mp_ref', 'I_mp_ref'), ('Vmpo', 'Impo'),
                 ('Vmpp', 'Impp')):
        yield a, same(system(mk({a: v, b: c})).dc_ohms_from_percent(), w)
    yield 'order of preference', same(mk(dict(
        V_mp_ref=v, I_mp_ref=c, Vmpo=v2, Impo=c2)).dc_ohms_from_percent(), w)
    r = system(mk(dict(Vmpo=v, Impo=c)), mk(dict(Vmpp=v2, Impp=c2))
               ).dc_ohms_from_percent()
    yield 'second array', same(r[1], f(v2, c2, pct, m, s))
    yield 'nothing found', raises(ValueError, mk({}).dc_ohms_from_percent)


# -------------------------------------------------------------- construction
@lemma('C15', Y_ + 'PVSystem.__init__', args=dict(
    tilt=P(0, 90), az=P(0, 360), al=P(0, 1), m=P(1, 20), s=P(1, 20),
    pct=P(0, 5)), kinds=('scalar',), nconc=2)
def construction(tilt, az, al, m, s, pct):
    mp, tp, ip = {'x': 1}, {'y': 2}, {'z': 3}
    p = pv.pvsystem.PVSystem(
        None, tilt, az, al, 'snow', 'mod', 'glass_glass', mp, tp, m, s,
        'inv', ip, 'open_rack', {'dc_ohmic_percent': pct, 'age': 1.}, 'nm')
    a, = p.arrays
    for n, g, w in (
            ('tilt', a.mount.surface_tilt, tilt),
            ('azimuth', a.mount.surface_azimuth, az),
            ('albedo', a.albedo, al), ('modules', a.modules_per_string, m),
            ('strings', a.strings, s),
            ('ohmic', a.array_losses_parameters['dc_ohmic_percent'], pct)):
        yield n, eq(g, w)
    yield 'names', (a.mount.racking_model, a.surface_type, a.module,
                    a.module_type, p.inverter, p.name) == (
        'open_rack', 'snow', 'mod', 'glass_glass', 'inv', 'nm')
    yield 'dicts', a.module_parameters is mp and \
        a.temperature_model_parameters is tp and p.inverter_parameters is ip
    yield 'only ohmic losses go to the array', \
        set(a.array_losses_parameters) == {'dc_ohmic_percent'}
    yield 'no arrays', raises(ValueError, pv.pvsystem.PVSystem, arrays=[])
    x, y = arr({}), arr({})
    q = pv.pvsystem.PVSystem(arrays=[x, y])
    yield 'arrays kept in order', q.arrays[0] is x and q.arrays[1] is y \
        and q.num_arrays == 2
    yield 'a single array', pv.pvsystem.PVSystem(arrays=x).arrays == (x,)
