# include readersbase
"""What the web services send is what the functions return (C26).

No network: requests.get and requests.post are replaced by a stand-in that
answers in the documented format and keeps the request."""


def read(col):
    return np.asarray(pd.to_numeric(pd.Series(list(col)), errors='coerce'),
                      float)


def stamps_of(r, n, freq, tz=None):
    t0 = pd.Timestamp(2019, 1, 1) + pd.Timedelta(
        hours=int(r.integers(0, 700*24)))
    return pd.date_range(t0, periods=n, freq=freq, tz=tz)


def pick(r, names, k=4):
    return [str(x) for x in r.permutation(list(names))[:k]]


def refused(fn, *a, reply=None, **k):
    import requests
    with Web(reply or Reply(js={'message': 'no'}, ok=False)):
        return raises(requests.HTTPError, fn, *a, **k)


# ------------------------------------------------------------------- PVGIS
PVGIS = {'G(h)': 'ghi', 'Gb(n)': 'dni', 'Gd(h)': 'dhi', 'G(i)': 'poa_global',
         'Gb(i)': 'poa_direct', 'Gd(i)': 'poa_sky_diffuse',
         'Gr(i)': 'poa_ground_diffuse', 'H_sun': 'solar_elevation',
         'T2m': 'temp_air', 'RH': 'relative_humidity', 'SP': 'pressure',
         'WS10m': 'wind_speed', 'WD10m': 'wind_direction', 'P': 'P',
         'IR(h)': 'IR(h)'}


def pvgis_hourly(r, form):
    n = int(r.integers(1, 30))
    times = stamps_of(r, n, '1h') + pd.Timedelta(minutes=10)
    keys = pick(r, PVGIS, 5)
    cols = {k: num(r, -10, 1000, 2, n) for k in keys}
    whole = r.integers(0, 2, n)
    lat, lon, alt = num(r, -90, 90, 3), num(r, -180, 180, 3), num(r, 0, 9, 1)
    if form == 'json':
        text = json.dumps({
            'inputs': {'location': {'latitude': lat, 'longitude': lon,
                                    'elevation': alt}},
            'outputs': {'hourly': [
                {'time': t.strftime('%Y%m%d:%H%M'),
                 **{k: cols[k][i] for k in keys}, 'Int': float(whole[i])}
                for i, t in enumerate(times)]},
            'meta': {'inputs': {'location': {'description': 'x'}},
                     'outputs': {}}})
    else:
        text = (f'Latitude (decimal degrees):\t{lat}\n'
                f'Longitude (decimal degrees):\t{lon}\nElevation (m):\t{alt}\n'
                'Radiation database:\tPVGIS-SARAH\n\n\nSlope: 30 deg. \n'
                'Azimuth: 0 deg. \n' + ','.join(['time', *keys, 'Int']) + '\n'
                + ''.join(','.join(map(str, [
                    t.strftime('%Y%m%d:%H%M'), *[cols[k][i] for k in keys],
                    float(whole[i])])) + '\n' for i, t in enumerate(times))
                + '\nT2m: 2-m air temperature (degree Celsius)\n\n\n'
                'PVGIS (c) European Union, 2001-2021\n')
    return text, times, cols, whole, (lat, lon, alt)


def pvgis_check(data, meta, form, times, cols, whole, place, mapped=True):
    yield 'universal time, minutes kept', data.index.tz is not None and near(
        utc(data.index), seconds(times))
    for k in cols:
        yield f'column {k}', near(data[PVGIS[k] if mapped else k], cols[k])
    yield 'reconstructed or not', list(data['Int']) == list(whole) and \
        data['Int'].dtype.kind == 'i'
    where = meta['inputs']['location'] if form == 'json' else meta['inputs']
    yield 'place', both(*[eq(where[a], b) for a, b in zip(
        ('latitude', 'longitude', 'elevation'), place)])


@lemma('C26', I_ + 'pvgis.read_pvgis_hourly', bounded=True, args=dict(
    SEED, form=Opt('json', 'csv'), kind=Opt('path', 'buffer'),
    mapped=Opt(True, False)), kinds=('scalar',), samples=15)
def pvgis_file(seed, form, kind, mapped):
    text, *rest = pvgis_hourly(rng_of(seed), form)
    with Scratch(text, 'a.' + form) as path:
        if kind == 'path':
            data, meta = pv.iotools.read_pvgis_hourly(
                path, map_variables=mapped)
        else:
            data, meta = pv.iotools.read_pvgis_hourly(
                io.StringIO(text), pvgis_format=form, map_variables=mapped)
    yield from pvgis_check(data, meta, form, *rest, mapped)
    yield 'other formats are refused', raises(
        ValueError, pv.iotools.read_pvgis_hourly, io.StringIO(text),
        pvgis_format='basic')


@lemma('C26', I_ + 'pvgis.get_pvgis_hourly', bounded=True, args=dict(
    SEED, form=Opt('json', 'csv')), kinds=('scalar',), samples=30)
def pvgis_request(seed, form):
    r = rng_of(seed)
    text, *rest = pvgis_hourly(r, form)
    lat, lon = r.uniform(-90, 90), r.uniform(-180, 180)
    tilt, azi = num(r, 0, 90, 1), num(r, 0, 360, 1)
    flags = [bool(x) for x in r.integers(0, 2, 5)]
    hor = [int(x) for x in r.integers(0, 30, 4)]
    kw = dict(components=flags[0], usehorizon=flags[1],
              pvcalculation=flags[2], optimalangles=flags[3],
              optimal_surface_tilt=flags[4], userhorizon=hor, loss=14,
              peakpower=3, raddatabase='PVGIS-SARAH2', trackingtype=2,
              mountingplace='building', pvtechchoice='CIS')
    years = [(2013, 2014), (pd.Timestamp(2013, 5, 1), '2014-06-01')][
        r.integers(2)]
    with Web(Reply(text)) as web:
        data, meta = pv.iotools.get_pvgis_hourly(
            lat, lon, *years, surface_tilt=tilt, surface_azimuth=azi,
            outputformat=form, url='http://x/', **kw)
    q = params(web)
    yield 'asks at the point', both(q['lat'] == lat, q['lon'] == lon)
    yield 'south is zero for the service, west positive', both(
        eq(q['aspect'], azi - 180), eq(q['angle'], tilt))
    yield 'asks for the years', both(q['startyear'] == 2013,
                                     q['endyear'] == 2014)
    yield 'switches', [q[k] for k in (
        'components', 'usehorizon', 'pvcalculation', 'optimalangles',
        'optimalinclination')] == [int(f) for f in flags]
    yield 'the rest of the request', both(
        q['userhorizon'] == ','.join(map(str, hor)), q['loss'] == 14,
        q['peakpower'] == 3, q['raddatabase'] == 'PVGIS-SARAH2',
        q['trackingtype'] == 2, q['mountingplace'] == 'building',
        q['pvtechchoice'] == 'CIS', q['outputformat'] == form,
        web.calls[0][0] == 'http://x/seriescalc')
    yield from pvgis_check(data, meta, form, *rest)
    yield 'a refusal is raised', refused(
        pv.iotools.get_pvgis_hourly, lat, lon)


@lemma('C26', I_ + 'pvgis.get_pvgis_tmy', bounded=True, args=dict(
    SEED, form=Opt('json', 'csv'), kind=Opt('get', 'path')),
    kinds=('scalar',), samples=3)
def pvgis_tmy(seed, form, kind):
    r = rng_of(seed)
    lat, lon, alt = num(r, -90, 90, 3), num(r, -180, 180, 3), num(r, 0, 9, 1)
    years = [int(y) for y in r.integers(2005, 2021, 12)]
    times = pd.DatetimeIndex([
        t.replace(year=years[t.month - 1])
        for t in pd.date_range('2019-01-01', periods=8760, freq='1h')])
    keys = pick(r, ['T2m', 'RH', 'G(h)', 'Gb(n)', 'Gd(h)', 'WS10m', 'SP'], 3)
    cols = {k: num(r, -10, 1000, 2, 8760) for k in keys}
    if form == 'json':
        text = json.dumps({
            'inputs': {'location': {'latitude': lat, 'longitude': lon,
                                    'elevation': alt}},
            'outputs': {
                'months_selected': [{'month': i + 1, 'year': y}
                                    for i, y in enumerate(years)],
                'tmy_hourly': [
                    {'time(UTC)': t.strftime('%Y%m%d:%H%M'),
                     **{k: cols[k][i] for k in keys}}
                    for i, t in enumerate(times)]},
            'meta': {'inputs': {}, 'outputs': {}}})
    else:
        text = (f'Latitude (decimal degrees): {lat}\r\n'
                f'Longitude (decimal degrees): {lon}\r\n'
                f'Elevation (m): {alt}\r\n'
                + ('Irradiance Time Offset (h): 0.1761\r\n'
                   if seed < 5e5 else '') + 'month,year\r\n'
                + ''.join(f'{i + 1},{y}\r\n' for i, y in enumerate(years))
                + ','.join(['time(UTC)', *keys]) + '\r\n'
                + ''.join(','.join(map(str, [
                    t.strftime('%Y%m%d:%H%M'), *[cols[k][i] for k in keys]]))
                    + '\r\n' for i, t in enumerate(times))
                + '\r\nT2m: 2-m air temperature (degree Celsius)\r\n')
    roll = int(r.integers(-12, 13))*int(r.random() < .8)
    if kind == 'path':
        with Scratch(text.encode(), 'a.' + form, 'wb') as path:
            data, meta = pv.iotools.read_pvgis_tmy(path)
        yield 'universal time', near(utc(data.index), seconds(times))
        order = np.arange(8760)
    else:
        with Web(Reply(text)) as web:
            data, meta = pv.iotools.get_pvgis_tmy(
                lat, lon, outputformat=form, roll_utc_offset=roll,
                coerce_year=1999, usehorizon=False, userhorizon=[1, 2, 3],
                startyear=2005, endyear=2020)
        q = params(web)
        yield 'the request', both(
            q['lat'] == lat, q['lon'] == lon, q['outputformat'] == form,
            q['usehorizon'] == 0, q['userhorizon'] == '1,2,3',
            q['startyear'] == 2005, q['endyear'] == 2020)
        yield 'one year of local time', near(utc(data.index), seconds(
            pd.date_range('1999-01-01', periods=8760, freq='1h'), roll))
        # the first local hour is universal hour -roll
        order = (np.arange(8760) - roll) % 8760
    for k in keys:
        yield f'column {k}', near(data[PVGIS[k]], cols[k][order])
    yield 'months', [m['year'] for m in meta['months_selected']] == years \
        and [m['month'] for m in meta['months_selected']] == list(
            range(1, 13))
    where = meta['inputs']['location'] if form == 'json' else meta['inputs']
    yield 'place', both(*[eq(where[a], b) for a, b in zip(
        ('latitude', 'longitude', 'elevation'), (lat, lon, alt))])


@lemma('C26', I_ + 'pvgis.get_pvgis_horizon', bounded=True, args=SEED,
       kinds=('scalar',), samples=15)
def pvgis_horizon(seed):
    r = rng_of(seed)
    n = int(r.choice([4, 8, 48]))
    azi = np.linspace(-180, 180, n + 1)
    elev = num(r, 0, 40, 1, n + 1)
    with Web(Reply(js={'meta': {}, 'outputs': {'horizon_profile': [
            {'A': a, 'H_hor': e} for a, e in zip(azi, elev)]}})) as web:
        data, meta = pv.iotools.get_pvgis_horizon(45, 8)
    yield 'the point', both(params(web)['lat'] == 45, params(web)['lon'] == 8)
    yield 'north is zero, east is 90', near(data.index, azi[:-1] + 180)
    yield 'elevations', near(data.values, elev[:-1])


# -------------------------------------------------------------------- CAMS
CAMS = {'TOA': 'ghi_extra', 'Clear sky GHI': 'ghi_clear',
        'Clear sky BHI': 'bhi_clear', 'Clear sky DHI': 'dhi_clear',
        'Clear sky BNI': 'dni_clear', 'GHI': 'ghi', 'BHI': 'bhi',
        'DHI': 'dhi', 'BNI': 'dni'}
SUMMED = {'1min': ('0 year 0 month 0 day 0 h 1 min 0 s', 'PT01M'),
          '15min': ('0 year 0 month 0 day 0 h 15 min 0 s', 'PT15M'),
          '1h': ('0 year 0 month 0 day 1 h 0 min 0 s', 'PT01H'),
          '1d': ('0 year 0 month 1 day 0 h 0 min 0 s', 'P01D'),
          '1M': ('0 year 1 month 0 day 0 h 0 min 0 s', 'P01M')}


@lemma('C26', I_ + 'sodapro.read_cams', bounded=True, args=dict(
    SEED, step=Opt(*SUMMED), label=Opt(None, 'left', 'right'),
    integrated=Opt(False, True)), kinds=('scalar',), samples=6)
def cams(seed, step, label, integrated):
    r = rng_of(seed)
    n = int(r.integers(1, 20))
    if step == '1M':
        left = pd.date_range('2020-01-01', periods=n, freq='1MS')
        right = left + pd.offsets.MonthBegin(1)
    else:
        d = pd.Timedelta({'1min': '1min', '15min': '15min', '1h': '1h',
                          '1d': '1D'}[step])
        left = stamps_of(r, n, d).floor('D') if step == '1d' else \
            stamps_of(r, n, d)
        right = left + d
    keys = pick(r, CAMS, 3)
    cols = {k: num(r, 0, 1000, 4, n) for k in keys}
    rel = num(r, 0, 1, 3, n)
    lat, lon, alt = num(r, -60, 60, 4), num(r, -60, 60, 4), num(r, 0, 9, 2)
    fmt = '%Y-%m-%dT%H:%M:%S.0'
    text = ('# Coding: utf-8\n# Title: CAMS Radiation Service\n'
            f'# Latitude (positive North, ISO 19115): {lat}\n'
            f'# Longitude (positive East, ISO 19115): {lon}\n'
            f'# Altitude (m): {alt}\n'
            '# Time reference: Universal time (UT)\n#\n'
            f'# Summarization (integration) period: {SUMMED[step][0]}\n#\n'
            '# Observation period;' + ';'.join(keys) + ';Reliability\n'
            + ''.join(';'.join(map(str, [
                f'{a.strftime(fmt)}/{b.strftime(fmt)}',
                *[cols[k][i] for k in keys], rel[i]])) + '\n'
                for i, (a, b) in enumerate(zip(left, right))))
    if r.random() < .5:
        with Web(Reply(text)) as web:
            data, meta = pv.iotools.get_cams(
                lat, lon, '2020-01-01', '2020-01-02', 'a@b.org',
                identifier='cams_radiation', time_step=step, label=label,
                integrated=integrated)
        url = web.calls[0][0]
        yield 'the request', all(x in url for x in (
            f'latitude={lat};', f'longitude={lon};', 'altitude=-999;',
            'date_begin=2020-01-01;', 'date_end=2020-01-02;',
            f'summarization={SUMMED[step][1]};', 'username=a%2540b.org'))
    else:
        data, meta = pv.iotools.read_cams(
            io.StringIO(text), integrated=integrated, label=label)
    side = label or ('right' if step == '1M' else 'left')
    want = left if side == 'left' else right
    if step == '1M' and side == 'right':
        want = want - pd.Timedelta(days=1)      # the last day of the month
    yield 'one edge of each period', near(utc(data.index), seconds(want))
    hours = np.asarray((right - left)/pd.Timedelta(hours=1))
    for k in keys:
        yield f'column {k}', near(
            data[CAMS[k]], cols[k] if integrated else cols[k]/hours, 1e-9)
    yield 'reliability is no irradiation', near(data['Reliability'], rel)
    yield 'place and units', both(
        eq(meta['latitude'], lat), eq(meta['longitude'], lon),
        eq(meta['altitude'], alt), meta['time_step'] == step,
        meta['radiation_unit'] == ('Wh/m^2' if integrated else 'W/m^2'))


# ---------------------------------------------------------------- Solargis
SOLARGIS = {'GHI': ('ghi', None), 'GHI_C': ('ghi_clear', None),
            'DNI': ('dni', None), 'DNI_C': ('dni_clear', None),
            'DIF': ('dhi', None), 'GTI': ('poa_global', None),
            'GTI_C': ('poa_global_clear', None),
            'SE': ('solar_elevation', None),
            'SA': ('solar_azimuth', lambda x: x + 180),
            'TEMP': ('temp_air', None), 'TD': ('temp_dew', None),
            'AP': ('pressure', lambda x: x*100),
            'RH': ('relative_humidity', None), 'WS': ('wind_speed', None),
            'WD': ('wind_direction', None),
            'PWAT': ('precipitable_water', lambda x: x/10),
            'CI_FLAG': ('CI_FLAG', None)}
MINUS9 = ('GHI', 'DNI', 'DIF', 'GTI', 'PWAT')


@lemma('C26', I_ + 'solargis.get_solargis', bounded=True, args=dict(
    SEED, mapped=Opt(True, False)), kinds=('scalar',), samples=25)
def solargis(seed, mapped):
    r = rng_of(seed)
    n = int(r.integers(1, 20))
    times = stamps_of(r, n, '1h', 'UTC') + pd.Timedelta(minutes=30)
    keys = pick(r, SOLARGIS, 5)
    cols = {k: num(r, -40 if k in ('TEMP', 'TD', 'SA') else 0, 90, 2, n)
            for k in keys}
    for k in keys:
        if k in MINUS9:
            cols[k][r.random(n) < .2] = -9
    lat, lon, alt = num(r, -60, 60, 4), num(r, -180, 180, 4), num(r, 0, 9, 1)
    text = ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>'
            '<dataDeliveryResponse xmlns="http://geomodel.eu/schema/ws/data">'
            '<site id="a" lat="0" lng="0"><metadata>#15 MINUTE VALUES\n#\n'
            '#Issued: 2017-09-03 12:40\n#\n#--------- PROVIDER\n'
            '#--------- LOCATION\n#Site name: here\n'
            f'#Latitude: {lat}\n#Longitude: {lon}\n'
            f'#Elevation: {alt} m a.s.l.\n#http://solargis.info/x/#a\n'
            '#Summarization type: instantaneous\n'
            '#Summarization period: 28/04/2014 - 28/04/2014\n</metadata>'
            '<columns>' + ' '.join(keys) + '</columns>'
            + ''.join('<row dateTime="' + t.strftime(
                '%Y-%m-%dT%H:%M:%S.000Z') + '" values="' + ' '.join(
                    str(cols[k][i]) for k in keys) + '"/>'
                for i, t in enumerate(times))
            + '</site></dataDeliveryResponse>')
    res, name = [(60, 'HOURLY'), (15, 'MIN_15'), ('PT05M', 'MIN_5'),
                 ('P1M', 'MONTHLY'), ('DAILY', 'DAILY')][r.integers(5)]
    with Web(Reply(text)) as web:
        data, meta = pv.iotools.get_solargis(
            lat, lon, '2020-01-01', pd.Timestamp(2020, 1, 5, 3), keys, 'KEY',
            time_resolution=res, timestamp_type='start', tz='GMT+05',
            terrain_shading=False, map_variables=mapped)
    ask = web.calls[0][2]['data'].decode()
    yield 'the request', all(x in ask for x in (
        'dateFrom="2020-01-01"', 'dateTo="2020-01-05"', f'lat="{lat}"',
        f'lng="{lon}"', 'key="' + ' '.join(keys) + '"',
        f'summarization="{name}"', 'terrainShading="false"',
        '<timestampType>START<', '<timeZone>GMT+05<'))
    yield 'times', near(utc(data.index), utc(times))
    for k in keys:
        v = cols[k].copy()
        if k in MINUS9:
            v[v == -9] = np.nan
        n_, conv = SOLARGIS[k]
        yield f'column {k}', near(
            read(data[n_ if mapped else k]), conv(v) if conv and mapped
            else v)
    yield 'place', both(eq(meta['latitude'], lat), eq(meta['longitude'], lon),
                        eq(meta['altitude'], alt))
    yield 'a refusal is raised', refused(
        pv.iotools.get_solargis, lat, lon, '2020-01-01', '2020-01-02', keys,
        'KEY', 60)


# ------------------------------------------------------------ SolarAnywhere
ANY_FILE = {'Global Horizontal Irradiance (GHI) W/m2': 'ghi',
            'Direct Normal Irradiance (DNI) W/m2': 'dni',
            'Diffuse Horizontal Irradiance (DIF) W/m2': 'dhi',
            'AmbientTemperature (deg C)': 'temp_air',
            'WindSpeed (m/s)': 'wind_speed',
            'Relative Humidity (%)': 'relative_humidity',
            'Clear Sky GHI': 'ghi_clear', 'Clear Sky DNI': 'dni_clear',
            'Clear Sky DHI': 'dhi_clear', 'Albedo': 'albedo',
            'Snow Depth (m)': 'Snow Depth (m)'}
ANY_API = {'GlobalHorizontalIrradiance_WattsPerMeterSquared': 'ghi',
           'DirectNormalIrradiance_WattsPerMeterSquared': 'dni',
           'DiffuseHorizontalIrradiance_WattsPerMeterSquared': 'dhi',
           'AmbientTemperature_DegreesC': 'temp_air',
           'WindSpeed_MetersPerSecond': 'wind_speed',
           'RelativeHumidity_Percent': 'relative_humidity',
           'ClearSkyGHI_WattsPerMeterSquared': 'ghi_clear',
           'Albedo_Unitless': 'albedo', 'DataVersion': 'DataVersion'}


@lemma('C26', I_ + 'solaranywhere.read_solaranywhere', bounded=True,
       args=dict(SEED, mapped=Opt(True, False)), kinds=('scalar',),
       samples=30)
def solaranywhere(seed, mapped):
    r = rng_of(seed)
    n = int(r.integers(1, 20))
    tz = float(r.choice([-8, -5, 0, 5.5]))
    times = stamps_of(r, n, '15min')
    keys = pick(r, ANY_FILE, 5)
    cols = {k: num(r, -10, 900, 3, n) for k in keys}
    for k in keys:
        cols[k][r.random(n) < .1] = -999
    lat, lon, alt = num(r, -60, 60, 4), num(r, -180, 180, 4), num(r, 0, 9, 1)
    text = (f'0,Burlington  United States,NA,{tz},{lat},{lon},{alt},"Data '
            'Version: 3.6 / Type: Timeseries / LatLon Resolution: 0.005 / '
            'Time Resolution: 5 minutes / Copyright 2010-2022"\n'
            'ObservationTime(LST),' + ','.join(keys) + '\n' + ''.join(
                ','.join(map(str, [t.strftime('%m/%d/%Y %H:%M'),
                                   *[cols[k][i] for k in keys]])) + '\n'
                for i, t in enumerate(times)))
    with Scratch(text, 'a.csv') as path:
        data, meta = pv.iotools.read_solaranywhere(
            path, map_variables=mapped)
    yield 'local standard time', near(utc(data.index), seconds(times, tz))
    for k in keys:
        yield f'column {k}', near(
            data[ANY_FILE[k] if mapped else k],
            np.where(cols[k] == -999, np.nan, cols[k]))
    yield 'place', both(
        eq(meta['latitude'], lat), eq(meta['longitude'], lon),
        eq(meta['altitude'], alt), eq(meta['TZ'], tz),
        eq(meta['LatLon Resolution'], .005), meta['Type'] == 'Timeseries')


@lemma('C26', I_ + 'solaranywhere.get_solaranywhere', bounded=True,
       args=SEED, kinds=('scalar',), samples=20)
def solaranywhere_request(seed):
    r = rng_of(seed)
    n = int(r.integers(1, 20))
    times = stamps_of(r, n, '1h', 'Etc/GMT+5')
    keys = pick(r, ANY_API, 4)
    cols = {k: num(r, -10, 900, 3, n) for k in keys}
    done = {'Status': 'Done', 'WeatherDataResults': [{
        'Status': 'Success', 'WeatherDataPeriods': {
            'TimeResolution_Minutes': 60, 'WeatherDataPeriods': [
                {'ObservationTime': t.isoformat(),
                 **{k: cols[k][i] for k in keys}}
                for i, t in enumerate(times)]},
        'WeatherSourceInformation': {
            'Latitude': '12.5', 'Longitude': '-7.25',
            'Elevation_Meters': '41'}}]}
    start = pd.Timestamp(2020, 1, 1, 6, tz=[None, 'Etc/GMT+7'][
        r.integers(2)])
    end = start + pd.Timedelta(days=2)
    with Web(Reply(js={'WeatherRequestId': 'id7'}), Reply(js=done)) as web:
        data, meta = pv.iotools.get_solaranywhere(
            12.5, -7.25, 'KEY', start, end, time_resolution=30,
            spatial_resolution=.1, variables=keys, true_dynamics=True,
            probability_of_exceedance=75)
    ask = json.loads(web.calls[0][2]['data'])
    o = ask['Options']
    yield 'asks at the point', ask['Sites'] == [
        {'Latitude': 12.5, 'Longitude': -7.25}]
    world = [t.tz_localize('UTC') if t.tz is None else t
             for t in (start, end)]
    yield 'asks for the period, universal time unless told', both(
        pd.Timestamp(o['StartTime']) == world[0],
        pd.Timestamp(o['EndTime']) == world[1])
    yield 'options', both(
        o['OutputFields'] == keys, o['TimeResolution_Minutes'] == 30,
        o['SpatialResolution_Degrees'] == .1, o['ApplyTrueDynamics'],
        o['ProbabilityOfExceedance'] == 75)
    yield 'collects the answer', web.calls[1][0].endswith('id7')
    yield 'times', near(utc(data.index), utc(times))
    for k in keys:
        yield f'column {k}', near(data[ANY_API[k]], cols[k])
    yield 'place', both(eq(meta['latitude'], 12.5),
                        eq(meta['longitude'], -7.25),
                        eq(meta['altitude'], 41),
                        meta['time_resolution'] == 60)


# ----------------------------------------------------------------- Solcast
SOLCAST = {'air_temp': ('temp_air', None),
           'surface_pressure': ('pressure', lambda x: x*100),
           'dewpoint_temp': ('temp_dew', None), 'gti': ('poa_global', None),
           'wind_speed_10m': ('wind_speed', None),
           'wind_direction_10m': ('wind_direction', None),
           # west is positive for the service
           'azimuth': ('solar_azimuth', lambda x: np.where(
               x > 0, 360 - x, -x)),
           'precipitable_water': ('precipitable_water', lambda x: x/10),
           'zenith': ('solar_zenith', None),
           'clearsky_dhi': ('dhi_clear', None),
           'clearsky_dni': ('dni_clear', None),
           'clearsky_ghi': ('ghi_clear', None),
           'clearsky_gti': ('poa_global_clear', None),
           'ghi': ('ghi', None), 'cloud_opacity': ('cloud_opacity', None)}


@lemma('C26', I_ + 'solcast.get_solcast_historic', bounded=True, args=dict(
    SEED, which=Opt('tmy', 'historic', 'forecast', 'live'),
    mapped=Opt(True, False)), kinds=('scalar',), samples=15)
def solcast(seed, which, mapped):
    r = rng_of(seed)
    n = int(r.integers(1, 20))
    step = int(r.choice([5, 10, 15, 30, 60]))
    ends = stamps_of(r, n, f'{step}min', 'UTC')
    keys = pick(r, SOLCAST, 5)
    cols = {k: num(r, -179 if k in ('azimuth', 'air_temp') else 0, 180, 1, n)
            for k in keys}
    rows = [{**{k: cols[k][i] for k in keys},
             'period_end': t.strftime('%Y-%m-%dT%H:%M:%S.0000000Z'),
             'period': 'PT60M' if step == 60 else f'PT{step}M'}
            for i, t in enumerate(ends)]
    get = getattr(pv.iotools, 'get_solcast_' + which)
    kw = dict(start='2020-01-01', duration='P1D') \
        if which == 'historic' else {}
    with Web(Reply(js={'estimated_actuals': rows})) as web:
        data, meta = get(12.5, -7.25, api_key='KEY', map_variables=mapped,
                         period=f'PT{step}M', **kw)
    q = params(web)
    yield 'the request', both(
        q['latitude'] == 12.5, q['longitude'] == -7.25,
        q['format'] == 'json', q['period'] == f'PT{step}M',
        *[q[k] == v for k, v in kw.items()],
        web.calls[0][2]['url'].endswith(
            f'{which}/radiation_and_weather') if 'url' in web.calls[0][2]
        else web.calls[0][0].endswith(f'{which}/radiation_and_weather'),
        web.calls[0][2]['headers']['Authorization'] == 'Bearer KEY')
    if mapped:
        yield 'the middle of each period', near(
            utc(data.index), utc(ends) - step*30)
    for k in keys:
        n_, conv = SOLCAST[k]
        yield f'column {k}', near(
            data[n_ if mapped else k], conv(cols[k]) if conv and mapped
            else cols[k])
    yield 'place', both(meta['latitude'] == 12.5, meta['longitude'] == -7.25)
    with Web(Reply(js={'error': 'no'}, ok=False)):
        yield 'a refusal is raised', raises(
            Exception, get, 12.5, -7.25, api_key='KEY', **kw)


# -------------------------------------------------------------- NASA POWER
POWER = {'ALLSKY_SFC_SW_DWN': ('ghi', 1), 'ALLSKY_SFC_SW_DIFF': ('dhi', 1),
         'ALLSKY_SFC_SW_DNI': ('dni', 1), 'ALLSKY_SRF_ALB': ('albedo', 1),
         'ALLSKY_SFC_LW_DWN': ('longwave_down', 1),
         'CLRSKY_SFC_SW_DIFF': ('dhi_clear', 1),
         'CLRSKY_SFC_SW_DNI': ('dni_clear', 1),
         'CLRSKY_SFC_SW_DWN': ('ghi_clear', 1), 'PS': ('pressure', 1000),
         'RH2M': ('relative_humidity', 1), 'T2M': ('temp_air', 1),
         'T2MDEW': ('temp_dew', 1), 'TQV': ('precipitable_water', .1),
         'TOA_SW_DWN': ('ghi_extra', 1), 'WS2M': ('wind_speed_2m', 1),
         'WS10M': ('wind_speed', 1)}


@lemma('C26', I_ + 'nasa_power.get_nasa_power', bounded=True, args=dict(
    SEED, mapped=Opt(True, False)), kinds=('scalar',), samples=30)
def nasa_power(seed, mapped):
    r = rng_of(seed)
    n = int(r.integers(1, 50))
    times = stamps_of(r, n, '1h')
    keys = pick(r, POWER, 5)
    cols = {k: num(r, -10, 900, 2, n) for k in keys}
    for k in keys:
        cols[k][r.random(n) < .1] = -999
    js = {'properties': {'parameter': {k: {
        t.strftime('%Y%m%d%H'): cols[k][i] for i, t in enumerate(times)}
        for k in keys}}, 'header': {'title': 'x', 'fill_value': -999.0},
        'times': {'data': 1.}, 'parameters': {},
        'geometry': {'coordinates': [-7.25, 12.5, 41.]}}
    ask = [POWER[k][0] if r.random() < .7 else k for k in keys]
    with Web(Reply(js=js)) as web:
        data, meta = pv.iotools.get_nasa_power(
            12.5, -7.25, '2020-02-01 05:00', pd.Timestamp(2020, 2, 3), ask,
            map_variables=mapped, elevation=7, wind_height=9,
            wind_surface='seaice', community='sb')
    q = params(web)
    yield 'the request', both(
        q['latitude'] == 12.5, q['longitude'] == -7.25,
        q['start'] == '20200201', q['end'] == '20200203',
        q['parameters'].split(',') == keys, q['time-standard'] == 'utc',
        q['site-elevation'] == 7, q['wind-elevation'] == 9,
        q['wind-surface'] == 'seaice', q['community'] == 'sb')
    yield 'universal time', data.index.tz is not None and near(
        utc(data.index), seconds(times))
    for k in keys:
        v = np.where(cols[k] == -999, np.nan, cols[k])
        name, f = POWER[k]
        yield f'column {k}', near(data[name if mapped else k],
                                  v*f if mapped else v)
    yield 'place', both(eq(meta['latitude'], 12.5),
                        eq(meta['longitude'], -7.25),
                        eq(meta['altitude'], 41))
    yield 'a refusal is raised', refused(
        pv.iotools.get_nasa_power, 1, 2, '2020-01-01', '2020-01-02')


# --------------------------------------------------------------- Meteonorm
NORM = {'global_horizontal_irradiance': 'ghi',
        'diffuse_horizontal_irradiance': 'dhi',
        'direct_normal_irradiance': 'dni',
        'direct_horizontal_irradiance': 'bhi',
        'global_clear_sky_irradiance': 'ghi_clear',
        'diffuse_clear_sky_irradiance': 'dhi_clear',
        'direct_normal_clear_sky_irradiance': 'dni_clear',
        'direct_horizontal_clear_sky_irradiance': 'bhi_clear',
        'diffuse_tilted_irradiance': 'poa_diffuse',
        'direct_tilted_irradiance': 'poa_direct',
        'global_tilted_irradiance': 'poa', 'temperature': 'temp_air',
        'dew_point_temperature': 'temp_dew', 'wind_speed': 'wind_speed'}


@lemma('C26', I_ + 'meteonorm._get_meteonorm', bounded=True, args=dict(
    SEED, which=Opt('forecast_basic', 'forecast_precision',
                    'observation_realtime', 'observation_training', 'tmy'),
    mapped=Opt(True, False)), kinds=('scalar',), samples=12)
def meteonorm(seed, which, mapped):
    r = rng_of(seed)
    n = int(r.integers(1, 30))
    step, name = [('1h', '1_hour'), ('15min', '15_minutes'),
                  ('1min', '1_minute')][r.integers(3)]
    left = stamps_of(r, n, step, 'UTC')
    right = left + pd.Timedelta(step)
    keys = pick(r, NORM, 4)
    cols = {k: num(r, -10, 900, 2, n) for k in keys}
    fmt = '%Y-%m-%dT%H:%M:%SZ'
    js = {'start_times': [t.strftime(fmt) for t in left],
          'end_times': [t.strftime(fmt) for t in right],
          'values': {**{k: list(cols[k]) for k in keys}, 'empty': None},
          'meta': {'lat': 12.5, 'lon': -7.25, 'altitude': 41}}
    ask = [NORM[k] if r.random() < .7 else k for k in keys]
    interval = bool(r.integers(2))
    kw = dict(surface_tilt=20, surface_azimuth=200, horizon=[1, 2, 3],
              interval_index=interval, map_variables=mapped)
    zone = [None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata'][r.integers(4)]
    when = [pd.Timestamp(2024, 3, 1, 6, tz=zone),
            pd.Timestamp(2024, 3, 3, 7, 30, tz=zone)]
    get = getattr(pv.iotools, 'get_meteonorm_' + which)
    with Web(Reply(js=js)) as web:
        if which == 'tmy':
            data, meta = get(12.5, -7.25, 'KEY', ask, time_step=step,
                             turbidity=[4.5]*12, random_seed=7, **kw)
        elif which == 'forecast_basic':
            data, meta = get(12.5, -7.25, *when, 'KEY', ask, **kw)
        else:
            data, meta = get(12.5, -7.25, *when, 'KEY', ask, time_step=step,
                             **kw)
    q = params(web)
    yield 'asks at the point', both(
        q['lat'] == 12.5, q['lon'] == -7.25, q['surface_tilt'] == 20,
        q['surface_azimuth'] == 200, q['horizon'] == '1,2,3',
        q['parameters'].split(',') == keys)
    if which == 'tmy':
        yield 'asks for the climate', both(
            q['turbidity'] == ','.join(['4.5']*12), q['random_seed'] == 7)
    else:
        world = [t.tz_localize('UTC') if zone is None else t for t in when]
        yield 'asks for the period, universal time unless told', both(
            pd.Timestamp(q['start']) == world[0],
            pd.Timestamp(q['end']) == world[1])
    if which != 'forecast_basic':
        yield 'asks for the step', q['frequency'] == name
    if interval:
        yield 'the intervals', both(
            near(utc(data.index.left), utc(left)),
            near(utc(data.index.right), utc(right)),
            data.index.closed == 'left')
    else:
        yield 'the middle of each interval', near(
            utc(data.index), (utc(left) + utc(right))/2)
    for k in keys:
        yield f'column {k}', near(data[NORM[k] if mapped else k], cols[k])
    yield 'no empty columns', 'empty' not in data.columns
    if mapped:
        yield 'place', both(meta['latitude'] == 12.5,
                            meta['longitude'] == -7.25,
                            meta['altitude'] == 41)
    if which != 'tmy':
        with Web(Reply(js=js)) as web:
            get(12.5, -7.25, 'now', '+3hours', 'KEY', ask)
        yield 'relative times are passed on', both(
            params(web)['start'] == 'now', params(web)['end'] == '+3hours')
    yield 'a refusal is raised', refused(
        get, 12.5, -7.25, *([] if which == 'tmy' else when), 'KEY',
        reply=Reply(js={'error': {'message': 'no'}}, ok=False))


# -------------------------------------------------------------------- ERA5
ERA5 = {'d2m': ('temp_dew', lambda x: x - 273.15),
        't2m': ('temp_air', lambda x: x - 273.15), 'sp': ('pressure', None),
        'ssrd': ('ghi', lambda x: x/3600), 'fdir': ('bhi', lambda x: x/3600),
        'tp': ('precipitation', lambda x: x*100),
        'strd': ('longwave_down', lambda x: x/3600), 'u10': ('u10', None),
        'sst': ('sst', lambda x: x - 273.15)}
ERA5_ASK = {'ghi': 'surface_solar_radiation_downwards',
            'temp_air': '2m_temperature', 'pressure': 'surface_pressure',
            'temp_dew': '2m_dewpoint_temperature',
            'bhi': 'total_sky_direct_solar_radiation_at_surface',
            'longwave_down': 'surface_thermal_radiation_downwards',
            'precipitation': 'total_precipitation',
            'snow_depth': 'snow_depth'}


@lemma('C26', I_ + 'era5.get_era5', bounded=True, args=dict(
    SEED, mapped=Opt(True, False)), kinds=('scalar',), samples=25)
def era5(seed, mapped):
    import zipfile
    r = rng_of(seed)
    n = int(r.integers(1, 50))
    times = stamps_of(r, n, '1h')
    keys = pick(r, ERA5, 4)
    cols = {k: num(r, 0, 9000, 2, n) for k in keys}
    text = 'valid_time,' + ','.join(keys) + ',latitude,longitude\n' + ''.join(
        ','.join(map(str, [t.strftime('%Y-%m-%d %H:%M:%S'),
                           *[cols[k][i] for k in keys], 12.5, -7.25])) + '\n'
        for i, t in enumerate(times))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr('a.csv', text)
    ask = pick(r, ERA5_ASK, 3)
    start = pd.Timestamp(2020, 2, 1, 20, tz=[None, 'Etc/GMT+7'][
        r.integers(2)])
    day = '2020-02-01' if start.tz is None else '2020-02-02'
    with Web(Reply(js={'jobID': 'j7', 'metadata': {'a': 1}}),
             Reply(js={'status': 'successful'}),
             Reply(js={'asset': {'value': {'href': 'http://d/x.zip'}}}),
             Reply(content=buf.getvalue())) as web:
        data, meta = pv.iotools.get_era5(
            12.5, -7.25, start, '2020-02-05', ask, 'KEY',
            map_variables=mapped, url='http://x/')
    q = web.calls[0][2]['json']['inputs']
    yield 'the request', both(
        q['location'] == {'longitude': -7.25, 'latitude': 12.5},
        q['variable'] == [ERA5_ASK[k] for k in ask],
        q['date'] == [f'{day}/2020-02-05'],
        'j7' in web.calls[1][0], 'j7' in web.calls[2][0],
        web.calls[3][0] == 'http://d/x.zip')
    yield 'universal time', data.index.tz is not None and near(
        utc(data.index), seconds(times))
    for k in keys:
        name, conv = ERA5[k]
        yield f'column {k}', near(
            data[name if mapped else k],
            conv(cols[k]) if conv and mapped else cols[k])
    yield 'place', both(eq(meta['latitude'], 12.5),
                        eq(meta['longitude'], -7.25), meta['jobID'] == 'j7')
    with Web(Reply(js={'jobID': 'j7', 'metadata': {}}),
             Reply(js={'status': 'failed'})):
        yield 'a failed job is raised', raises(
            Exception, pv.iotools.get_era5, 1, 2, start, '2020-02-05', ask,
            'KEY')
    with Web(Reply(js={'x': 1}, ok=False)):
        yield 'a refusal is raised', raises(
            Exception, pv.iotools.get_era5, 1, 2, start, '2020-02-05', ask,
            'KEY')


# ------------------------------------------------------------------ MERRA2
MERRA = {'SWGDN': 'ghi', 'SWGDNCLR': 'ghi_clear', 'ALBEDO': 'albedo',
         'LWGNT': 'longwave_net', 'LWGAB': 'longwave_down',
         'T2M': 'temp_air', 'PS': 'pressure', 'TOTEXTTAU': 'aod550',
         'TQV': 'precipitable_water', 'TO3': 'TO3'}


@lemma('C26', I_ + 'merra2.get_merra2', bounded=True, args=dict(
    SEED, mapped=Opt(True, False)), kinds=('scalar',), samples=25)
def merra2(seed, mapped):
    r = rng_of(seed)
    n = int(r.integers(1, 50))
    times = stamps_of(r, n, '1h') + pd.Timedelta(minutes=30)
    keys = pick(r, MERRA, 3)
    cols = {k: num(r, 0, 900, 2, n) for k in keys}
    replies = [Reply(js={'access_token': 'TOK'})]
    for k in keys:
        cols[k][r.random(n) < .1] = 1e15
        replies.append(Reply(
            f'prod_name,x\nparam_short_name,{k}\nunit,K\nundef,1e15\n'
            'begin_time,2020-01-01T00:30:00\nlat,12.5\nlon,-7.25\n\n'
            'Timestamp (UTC),Data\n' + ''.join(
                f'{t.strftime("%Y-%m-%dT%H:%M:%S")},{cols[k][i]}\n'
                for i, t in enumerate(times))))
    many = bool(r.integers(2))
    sets = ['M2T1NXRAD.5.12.4', 'M2T1NXSLV.5.12.4', 'M2T1NXAER.5.12.4']
    zone = [None, 'Etc/GMT+7'][r.integers(2)]
    start = pd.Timestamp(2020, 2, 1, 20, tz=zone)
    end = pd.Timestamp(2020, 2, 5, 20, tz=zone)
    with Web(*replies) as web:
        data, meta = pv.iotools.get_merra2(
            12.5, -7.25, start, end, 'me', 'secret',
            sets if many else sets[0], keys, map_variables=mapped)
    world = [t if zone is None else t.tz_convert('UTC').tz_localize(None)
             for t in (start, end)]
    for j, k in enumerate(keys):
        q = params(web, j + 1)
        name = (sets[j] if many else sets[0]).replace('.', '_')
        yield 'the requests', both(
            q['data'] == f'{name}_{k}', q['location'] == '[12.5,-7.25]',
            [pd.Timestamp(t) for t in q['time'].split('/')] == world)
    yield 'universal time', data.index.tz is not None and near(
        utc(data.index), seconds(times))
    for k in keys:
        v = np.where(cols[k] == 1e15, np.nan, cols[k])
        yield f'column {k}', near(
            data[MERRA[k] if mapped else k],
            v - 273.15 if mapped and k == 'T2M' else v)
    yield 'place', both(eq(meta['latitude'], 12.5),
                        eq(meta['longitude'], -7.25))


# -------------------------------------------------------------------- ACIS
ACIS = {'pcpn': 'precipitation', 'maxt': 'temp_air_max',
        'avgt': 'temp_air_average', 'obst': 'temp_air_observation',
        'mint': 'temp_air_min', 'cdd': 'cooling_degree_days',
        'hdd': 'heating_degree_days', 'gdd': 'growing_degree_days',
        'snow': 'snowfall', 'snwd': 'snowdepth'}


@lemma('C26', I_ + 'acis._get_acis', bounded=True, args=dict(
    SEED, which=Opt('prism', 'nrcc', 'mpe', 'station_data'),
    mapped=Opt(True, False)), kinds=('scalar',), samples=15)
def acis(seed, which, mapped):
    r = rng_of(seed)
    n = int(r.integers(1, 30))
    times = stamps_of(r, n, '1D').floor('D')
    get = getattr(pv.iotools, 'get_acis_' + which)
    start, end = times[0], str(times[-1].date())
    fields = {'mpe': ['pcpn'], 'station_data': [
        'maxt', 'mint', 'avgt', 'obst', 'pcpn', 'snow', 'snwd', 'cdd', 'hdd',
        'gdd']}.get(which, ['pcpn', 'maxt', 'mint', 'avgt', 'cdd', 'hdd',
                            'gdd'])
    units = dict(pcpn='mm', snow='cm', snwd='cm')
    state = {}

    def reply(url, json=None, **k):
        """the service answers in the order it was asked"""
        state['ask'] = json
        cols = state['cols'] = {}
        rows = [[str(t.date())] for t in times]
        for e in json['elems']:
            v = num(r, -10, 60, 1, n)
            for i in range(n):
                x = r.random()
                if which == 'station_data':
                    cell = str(v[i])
                    if x < .1:
                        cell, v[i] = 'M', np.nan
                    elif x < .2:
                        cell, v[i] = 'T', .25
                else:
                    cell = v[i]
                    if x < .1:
                        cell, v[i] = -999, np.nan
                rows[i].append(cell)
            cols[e['name']] = v
        meta = {'ll': [-7.25, 12.5], 'name': 'x'}
        if which != 'mpe':
            meta['elev'] = 1000.
        return Reply(js={'meta': meta, 'data': rows})
    with mock.patch('requests.post', reply):
        if which == 'nrcc':
            data, meta = get(12.5, -7.25, start, end, 3,
                             map_variables=mapped)
        elif which == 'station_data':
            data, meta = get('ABC', start, end, trace_val=.25,
                             map_variables=mapped)
        else:
            data, meta = get(12.5, -7.25, start, end, map_variables=mapped)
    q, cols = state['ask'], state['cols']
    yield 'asks for the days', both(
        q['sdate'] == str(times[0].date()), q['edate'] == end)
    yield 'asks for the place', q['sid'] == 'ABC' if which == \
        'station_data' else q['loc'] == '-7.25,12.5'
    yield 'asks in metric units', both(
        {e['name'] for e in q['elems']} == set(fields),
        all(e['units'] == units.get(e['name'], 'degreeC')
            and e['interval'] == 'dly' for e in q['elems']))
    if which != 'station_data':
        yield 'asks for the data set', str(q['grid']) == {
            'prism': '21', 'nrcc': '3', 'mpe': '2'}[which]
    yield 'days', near(utc(data.index), seconds(times))
    for k in fields:
        yield f'column {k}', near(data[ACIS[k] if mapped else k].astype(
            float), cols[k])
    names = ('latitude', 'longitude', 'altitude') if mapped else (
        'lat', 'lon', 'elev')
    yield 'place', both(meta[names[0]] == 12.5, meta[names[1]] == -7.25)
    if which != 'mpe':
        yield 'altitude in metres', eq(meta[names[2]], 304.8)
    with mock.patch('requests.post', lambda *a, **k: Reply(
            js={'error': 'no'})):
        import requests
        a = ('ABC',) if which == 'station_data' else (1, 2)
        yield 'an error is raised', raises(
            requests.HTTPError, get, *a, start, end,
            *([3] if which == 'nrcc' else []))


# ------------------------------------------------------- archives by the day
@lemma('C26', I_ + 'surfrad.get_surfrad', bounded=True, args=dict(
    SEED, which=Opt('surfrad', 'solrad', 'srml'), mapped=Opt(True, False)),
    kinds=('scalar',), samples=15)
def archives(seed, which, mapped):
    """the files of the period, in order, one after the other"""
    import urllib.error
    import requests
    r = rng_of(seed)
    start = pd.Timestamp(2019, 1, 1) + pd.Timedelta(
        minutes=int(r.integers(0, 700*1440)))
    end = start + pd.Timedelta(minutes=int(r.integers(
        0, (90 if which == 'srml' else 6)*1440)))
    if which == 'srml':
        want = [f'EUPO{p.strftime("%y%m")}.txt' for p in pd.period_range(
            start, end, freq='M')]
    else:
        want = [f'abq/{d.year}/abq{d.strftime("%y%j")}.dat'
                for d in pd.date_range(start.date(), end.date())]
    gone = [f for f in want if r.random() < .2] if len(want) > 1 else []
    gone = gone[:len(want) - 1]
    seen, asked = [], []
    opts = {} if which == 'solrad' else {'map_variables': mapped}

    def reader(f, *a, **k):
        name = f.split('http://x/')[1]
        seen.append(name)
        asked.append(bool(k.get('map_variables', a[0] if a else True)))
        if name in gone:
            if which == 'solrad':
                raise requests.exceptions.HTTPError('404')
            raise urllib.error.HTTPError(f, 404, 'none', {}, None)
        df = pd.DataFrame({'ghi': [float(want.index(name))]}, index=[
            start.floor('D') + pd.Timedelta(days=want.index(name))])
        return df if which == 'srml' else (df, {'name': 'x'})
    module = getattr(pv.iotools, which)
    get = getattr(pv.iotools, 'get_' + which)
    with mock.patch.object(module, 'read_' + which, reader), \
            warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        data, meta = get('EU' if which == 'srml' else 'ABQ', start, end,
                         url='http://x/', **opts)
    if opts:
        yield 'names as asked for', all(v == mapped for v in asked)
    yield 'every file of the period', seen == want
    yield 'in order', list(data['ghi']) == [
        float(i) for i, f in enumerate(want) if f not in gone]
    yield 'missing files are told', sum(
        'not found' in str(x.message) for x in w) == len(gone)
    yield 'named in the metadata', list(meta['filenames']) == want


# ------------------------------------------------- stations of the ACIS
@lemma('C26', I_ + 'acis.get_acis_available_stations', bounded=True,
       args=SEED, kinds=('scalar',), samples=15)
def acis_stations(seed):
    r = rng_of(seed)
    south, west = num(r, -90, 80, 2), num(r, -180, 170, 2)
    north, east = south + 5., west + 7.
    n = int(r.integers(1, 6))
    lat, lon = num(r, south, north, 3, n), num(r, west, east, 3, n)
    meta = [{'name': f'S{i}', 'elev': 100.*i, 'll': [lon[i], lat[i]],
             'sids': [f'{i} 2', f'U{i} 6'], 'tzo': -5} for i in range(n)]
    start = pd.Timestamp(2020, 1, 1) + pd.Timedelta(
        days=int(r.integers(0, 300)))
    end = start + pd.Timedelta(days=int(r.integers(0, 30)))
    period = [(), (start, end), (str(start.date()), str(end.date()))][
        int(r.integers(3))]
    get = pv.iotools.get_acis_available_stations
    with Web(Reply(js={'meta': meta})) as web:
        data = get([south, north], [west, east], *period)
    ask = web.calls[0][2]['json']
    yield 'the box: west, south, east, north', near(
        [float(x) for x in ask['bbox'].split(',')],
        [west, south, east, north])
    if period:
        yield 'the days', both(ask['sdate'] == str(start.date()),
                               ask['edate'] == str(end.date()))
    else:
        yield 'all stations', 'sdate' not in ask and 'edate' not in ask
    yield 'a row for every station', list(data['name']) == [
        m['name'] for m in meta]
    yield 'place', both(near(data['latitude'], lat),
                        near(data['longitude'], lon))
    yield 'identifiers', list(data['sids']) == [m['sids'] for m in meta]
    import requests
    with Web(Reply(js={'error': 'no'})):
        yield 'an error is raised', raises(
            requests.HTTPError, get, [1, 2], [3, 4])
    with Web(Reply(ok=False, js={})):
        yield 'a refusal is raised', raises(
            requests.HTTPError, get, [1, 2], [3, 4])


# ------------------------------------------------------------- MIDC, raw
@lemma('C26', I_ + 'midc.read_midc_raw_data_from_nrel', bounded=True,
       args=SEED, kinds=('scalar',), samples=20)
def midc_raw(seed):
    r = rng_of(seed)
    zone, hours = [('PST', -8), ('MST', -7), ('CST', -6), ('EST', -5)][
        r.integers(4)]
    n = int(r.integers(1, 40))
    t0 = pd.Timestamp(2020, 1, 1) + pd.Timedelta(
        minutes=int(r.integers(0, 366*1440 - n)))
    times = pd.date_range(t0, periods=n, freq='1min')
    ghi, temp = num(r, 0, 1000, 3, n), num(r, -20, 40, 2, n)
    more = bool(r.random() < .5)      # rows longer than the header
    text = f',Year,DOY,{zone},Global [W/m^2],Temp [deg C]\n' + ''.join(
        ','.join(map(str, [1, t.year, t.dayofyear, t.hour*100 + t.minute,
                           a, b] + [7, 8]*more)) + '\n'
        for t, a, b in zip(times, ghi, temp))
    get = pv.iotools.read_midc_raw_data_from_nrel
    days = [t0, times[-1]] if r.random() < .5 else [
        t0.strftime('%Y%m%d'), times[-1].strftime('%Y%m%d')]
    with Web(Reply(text)) as web:
        data = get('UAT', *days, variable_map={'Global [W/m^2]': 'ghi'})
    q = params(web)
    yield 'station and days', both(
        q['site'] == 'UAT', q['begin'] == t0.strftime('%Y%m%d'),
        q['end'] == times[-1].strftime('%Y%m%d'))
    yield 'local standard time', near(utc(data.index), seconds(times, hours))
    yield 'mapped', near(data['ghi'], ghi)
    yield 'not mapped', near(data['Temp [deg C]'], temp)
    import requests
    with Web(Reply(text, ok=False)):
        yield 'a refusal is raised', raises(requests.HTTPError, get, 'UAT',
                                            *days)


# --------------------------------------------- what cannot be served
@lemma('C26', I_ + 'pvgis.read_pvgis_tmy', bounded=True, args=dict(
    seed=P(0, 1e6), kind=Opt(*range(8))), kinds=('scalar',), samples=16)
def refusals(seed, kind):
    import requests
    io_ = pv.iotools
    bad = Reply('no', ok=False)
    told = Reply(js={'message': 'out of range'}, ok=False)
    day = (pd.Timestamp(2020, 1, 1), pd.Timestamp(2020, 1, 2))
    if kind == 0:
        for reply in (bad, told):
            with Web(reply):
                for f in (io_.get_pvgis_tmy, io_.get_pvgis_horizon,
                          io_.get_pvgis_hourly):
                    yield f.__name__ + ' refused', raises(
                        requests.HTTPError, f, 40, 5)
        with Web(told):
            try:
                io_.get_pvgis_tmy(40, 5)
            except requests.HTTPError as e:
                yield 'the reason is given', 'out of range' in str(e)
    elif kind == 1:
        with Scratch('x', 'a.csv') as path:
            for f in ('basic', 'xml'):
                yield 'unknown form ' + f, raises(
                    ValueError, io_.read_pvgis_tmy, path, pvgis_format=f)
        with Web(Reply('x')):
            yield 'basic no longer served', raises(
                ValueError, io_.get_pvgis_tmy, 40, 5, outputformat='basic')
        yield 'no data section', raises(
            ValueError, io_.read_pvgis_hourly, io.StringIO(
                'Latitude (decimal degrees):\t45\nLongitude (decimal degrees):'
                '\t8\nElevation (m):\t1389\nRadiation database:\tPVGIS\n'
                'Slope: 30 deg.\n\n'),
            pvgis_format='csv')
    elif kind == 2:
        get = io_.get_cams
        yield 'unknown step', raises(ValueError, get, 40, 5, *day,
                                     'a@b.org', time_step='5min')
        yield 'unknown product', raises(ValueError, get, 40, 5, *day,
                                        'a@b.org', identifier='snow')
        class Xml(Reply):
            def raise_for_status(self):
                raise requests.HTTPError(self.reason, response=self)
        with Web(Xml('<ows:ExceptionText>Too far</ows:ExceptionText>',
                     ok=False)) as web:
            web.replies[0].reason = 'Bad Request'
            try:
                get(40, 5, *day, 'a@b.org')
                yield 'refused', False
            except requests.HTTPError as e:
                yield 'the reason is given', 'Too far' in str(e)
    elif kind == 3:
        get = io_.get_solaranywhere
        with Web(Reply(js={'Message': 'no key'}, ok=False)):
            yield 'refused', raises(ValueError, get, 40, 5, 'KEY', *day)
        fail = {'Status': 'Done', 'WeatherDataResults': [{
            'Status': 'Failure', 'ErrorMessages': [{'Message': 'gone'}]}]}
        with Web(Reply(js={'WeatherRequestId': 'id7'}), Reply(js=fail)):
            yield 'failed', raises(RuntimeError, get, 40, 5, 'KEY', *day)
        wait = {'Status': 'InProgress'}
        with Web(Reply(js={'WeatherRequestId': 'id7'}), Reply(js=wait)), \
                mock.patch('time.sleep', lambda s: None):
            yield 'too late', raises(TimeoutError, get, 40, 5, 'KEY', *day,
                                     timeout=-1)
        yield 'a whole percentage', raises(
            ValueError, get, 40, 5, 'KEY', *day,
            probability_of_exceedance=.5)
    elif kind == 4:
        for f in ('tmy', 'conus', 'full_disc', 'aggregated', 'polar',
                  'polar_tmy'):
            get = getattr(io_, 'get_nsrdb_psm4_' + f)
            for reply in (Reply('<html>no</html>', ok=False),
                          Reply(js={'errors': ['no']}, ok=False)):
                with Web(reply):
                    yield f + ' refused', raises(
                        requests.HTTPError, get, 40, -100, 'KEY', 'a@b.org',
                        year='tmy' if 'tmy' in f else 2020)
    elif kind == 5:
        n = int(seed) % 3
        yield 'not a BSRN record', raises(ValueError, io_.read_bsrn, (
            io.StringIO('*C0001\n 21  1 2020  1\n')), ('0900',)) if n else \
            True
    elif kind == 6:
        with Web(Reply('x', ok=False)):
            yield 'a refused SOLRAD file', raises(
                requests.HTTPError, io_.read_solrad, 'https://h.org/a.dat')

        def none(req, *a, **k):
            raise urllib.error.HTTPError('u', 404, 'not found', {}, None)
        import urllib.error
        with mock.patch('urllib.request.urlopen', none), mock.patch.object(
                io_.surfrad, 'urlopen', none, create=True), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield 'an unknown SURFRAD station', raises(
                ValueError, io_.get_surfrad, 'ZZZ', *day)
    else:
        polls = []

        def slow(url, *a, **k):
            polls.append(url)
            return Reply(js={'jobID': 'j7', 'status': 'running'})
        with mock.patch('requests.get', slow), mock.patch(
                'requests.post', slow), mock.patch(
                    'time.sleep', lambda s: None):
            yield 'ERA5 gives up', raises(
                requests.exceptions.Timeout, io_.get_era5, 40, 5, *day,
                ['ghi'], 'KEY', timeout=5)
        yield 'after asking more than once', len(polls) > 2
