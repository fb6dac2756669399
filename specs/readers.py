# include readersbase
"""Readers give back what the file says: values, units, times, places (C26)"""


# -------------------------------------------------------------------- TMY3
TMY3 = {'GHI (W/m^2)': 'ghi', 'ETR (W/m^2)': 'ghi_extra',
        'DNI (W/m^2)': 'dni', 'ETRN (W/m^2)': 'dni_extra',
        'DHI (W/m^2)': 'dhi', 'Pressure (mbar)': 'pressure',
        'Wdir (degrees)': 'wind_direction', 'Wspd (m/s)': 'wind_speed',
        'Dry-bulb (C)': 'temp_air', 'Dew-point (C)': 'temp_dew',
        'RHum (%)': 'relative_humidity', 'Alb (unitless)': 'albedo',
        'Pwat (cm)': 'precipitable_water'}


@lemma('C26', I_ + 'tmy.read_tmy3', bounded=True, args=dict(
    SEED, kind=Opt('path', 'buffer')), kinds=('scalar',), samples=40)
def tmy3(seed, kind):
    r = rng_of(seed)
    tz = float(r.choice([-11, -8, -5, 0, 3, 5.5, 12]))
    lat, lon, alt = num(r, -90, 90, 3), num(r, -180, 180, 3), num(r, 0, 3e3, 1)
    days, years = [], {}
    for m, d in ((1, 1), (2, 28), (3, 1), (int(r.integers(4, 13)),
                                           int(r.integers(1, 29)))):
        y = years.setdefault(m, int(r.integers(1980, 2005)))
        days.append((y, m, d))
    if r.random() < .5:
        days.append((int(r.integers(1980, 2005)), 12, 31))
    extra = list(r.permutation(list(TMY3))[:5])
    rows, stamps = [], []
    for y, m, d in days:
        for h in range(1, 25):
            minute = int(r.choice([0, 0, 0, 30])) if h < 24 else 0
            vals = num(r, 0, 1000, 2, len(extra))
            rows.append((f'{m:02d}/{d:02d}/{y}', f'{h:02d}:{minute:02d}',
                         *vals, 7))
            stamp = pd.Timestamp(y, m, d) + pd.Timedelta(
                hours=h, minutes=minute)
            if (stamp.month, stamp.day) == (2, 29):
                stamp += pd.Timedelta(days=1)     # years have 365 days
            stamps.append(stamp)
    text = f'703165,"SAND POINT",AK,{tz},{lat},{lon},{alt}\n' + ','.join(
        ['Date (MM/DD/YYYY)', 'Time (HH:MM)', *extra, 'AOD (unitless)']
    ) + '\n' + ''.join(','.join(map(str, row)) + '\n' for row in rows)
    year = None if r.random() < .5 else int(r.integers(1990, 2030))
    mapped = bool(r.random() < .7)
    with Scratch(text, 'tmy3.csv') as path:
        src = path if kind == 'path' else io.StringIO(text)
        data, meta = pv.iotools.read_tmy3(
            src, coerce_year=year, map_variables=mapped)
    if year is not None:
        stamps = [t.replace(year=year) for t in stamps]
        stamps[-1] = stamps[-1].replace(year=year + 1)
    yield 'a row for every hour', len(data) == len(rows)
    yield 'hours ending, at the local standard time', near(
        utc(data.index), seconds(stamps, tz))
    yield 'aware of its time zone', data.index.tz is not None and \
        data.index[0].utcoffset().total_seconds() == tz*3600
    for k, c in enumerate(extra):
        name = TMY3[c] if mapped else c
        yield f'column {c}', near(data[name], [row[2 + k] for row in rows])
    yield 'other columns keep their name', near(
        data['AOD (unitless)'], [7]*len(rows))
    yield 'place', both(eq(meta['latitude'], lat), eq(meta['longitude'], lon),
                        eq(meta['altitude'], alt), eq(meta['TZ'], tz),
                        meta['USAF'] == 703165, meta['State'] == 'AK')


# -------------------------------------------------------------------- TMY2
# field, width in characters, is it a number (TMY2 user's manual, table 3-2)
TMY2 = [('year', 2, 1), ('month', 2, 1), ('day', 2, 1), ('hour', 2, 1),
        ('ETR', 4, 1), ('ETRN', 4, 1)]
for _n, _w in (('GHI', 4), ('DNI', 4), ('DHI', 4), ('GHillum', 4),
               ('DNillum', 4), ('DHillum', 4), ('Zenithlum', 4),
               ('TotCld', 2), ('OpqCld', 2), ('DryBulb', 4), ('DewPoint', 4),
               ('RHum', 3), ('Pressure', 4), ('Wdir', 3), ('Wspd', 3),
               ('Hvis', 4), ('CeilHgt', 5)):
    TMY2 += [(_n, _w, 1), (_n + 'Source', 1, 0), (_n + 'Uncertainty', 1, 1)]
TMY2 += [('PresentWeather', 10, 1)]
for _n, _w in (('Pwat', 3), ('AOD', 3), ('SnowDepth', 3),
               ('LastSnowfall', 2)):
    TMY2 += [(_n, _w, 1), (_n + 'Source', 1, 0), (_n + 'Uncertainty', 1, 1)]
SIGNED = ('DryBulb', 'DewPoint')


@lemma('C26', I_ + 'tmy.read_tmy2', bounded=True, args=SEED,
       kinds=('scalar',), samples=25)
def tmy2(seed):
    r = rng_of(seed)
    tz = int(r.integers(-12, 13))
    north, east = bool(r.integers(2)), bool(r.integers(2))
    d1, m1 = int(r.integers(0, 90)), int(r.integers(0, 60))
    d2, m2 = int(r.integers(0, 180)), int(r.integers(0, 60))
    elev = int(r.integers(0, 3000))
    head = (f' 14944 SIOUX_FALLS            SD {tz:3d} {"SN"[north]} {d1:2d} '
            f'{m1:2d} {"WE"[east]} {d2:3d} {m2:2d} {elev:5d}\n')
    year = int(r.integers(61, 91))
    month, day = int(r.integers(1, 13)), int(r.integers(1, 29))
    lines, rows = [], []
    for h in range(1, 25):
        row = {}
        for name, w, number in TMY2:
            if not number:
                row[name] = str(r.choice(list('ABCDEFGHI')))
            elif name in SIGNED:
                row[name] = int(r.integers(-400, 401))
            else:
                row[name] = int(r.integers(0, 10**w - 1))
        row.update(year=year, month=month, day=day, hour=h)
        lines.append(' ' + ''.join(
            str(row[n]).rjust(w, '0' if n in ('year', 'month', 'day', 'hour')
                              else ' ') for n, w, _ in TMY2) + '\n')
        rows.append(row)
    with Scratch(head + ''.join(lines), 'a.tm2') as path:
        data, meta = pv.iotools.read_tmy2(path)
    yield 'a row for every hour', len(data) == 24
    yield 'stamped at the start of the hour', near(utc(data.index), seconds(
        [pd.Timestamp(1900 + year, month, day, h) for h in range(24)], tz))
    for n, w, number in TMY2:
        if n not in data.columns:
            yield f'column {n}', False
        elif number:
            yield f'column {n}', near(data[n], [x[n] for x in rows])
        else:
            yield f'column {n}', list(data[n]) == [x[n] for x in rows]
    yield 'latitude', eq(meta['latitude'], (d1 + m1/60)*(1 if north else -1))
    yield 'longitude', eq(meta['longitude'],
                          (d2 + m2/60)*(1 if east else -1))
    yield 'altitude, zone and names', both(
        eq(meta['altitude'], elev), meta['TZ'] == tz, meta['WBAN'] == '14944',
        meta['City'] == 'SIOUX_FALLS', meta['State'] == 'SD')


# --------------------------------------------------------------------- EPW
EPW = ['year', 'month', 'day', 'hour', 'minute', 'data_source_unct',
       'temp_air', 'temp_dew', 'relative_humidity', 'atmospheric_pressure',
       'etr', 'etrn', 'ghi_infrared', 'ghi', 'dni', 'dhi',
       'global_hor_illum', 'direct_normal_illum',
       'diffuse_horizontal_illum', 'zenith_luminance', 'wind_direction',
       'wind_speed', 'total_sky_cover', 'opaque_sky_cover', 'visibility',
       'ceiling_height', 'present_weather_observation',
       'present_weather_codes', 'precipitable_water',
       'aerosol_optical_depth', 'snow_depth', 'days_since_last_snowfall',
       'albedo', 'liquid_precipitation_depth',
       'liquid_precipitation_quantity']


@lemma('C26', I_ + 'epw.read_epw', bounded=True, args=dict(
    SEED, kind=Opt('path', 'buffer')), kinds=('scalar',), samples=40)
def epw(seed, kind):
    r = rng_of(seed)
    tz = float(r.choice([-11, -8, -5, 0, 3, 5.5, 12]))
    lat, lon, alt = num(r, -90, 90, 3), num(r, -180, 180, 3), num(r, 0, 3e3, 1)
    rows, stamps = [], []
    year = None if r.random() < .5 else int(r.integers(1990, 2030))
    for m, d in ((1, 1), (2, 28), (int(r.integers(3, 13)),
                                   int(r.integers(1, 29)))):
        y = int(r.integers(1980, 2005))
        for h in range(1, 25):
            vals = list(num(r, 0, 1000, 2, len(EPW) - 6))
            rows.append([y, m, d, h, int(r.choice([0, 60])), '?9?9'] + vals)
            stamps.append(pd.Timestamp(year or y, m, d, h - 1))
    head = [f'LOCATION,A City,ST,USA,TMY3,724666,{lat},{lon},{tz},{alt}',
            'DESIGN CONDITIONS,0', 'TYPICAL/EXTREME PERIODS,0',
            'GROUND TEMPERATURES,0', 'HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0',
            'COMMENTS 1,x', 'COMMENTS 2,y',
            'DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31']
    text = '\n'.join(head + [','.join(map(str, x)) for x in rows]) + '\n'
    with Scratch(text, 'a.epw') as path:
        data, meta = pv.iotools.read_epw(
            path if kind == 'path' else io.StringIO(text), coerce_year=year)
        if year is None and seed % 5 < 2:
            with Web(Reply(text)):
                for same in (pv.iotools.read_pvgis_tmy(path),
                             pv.iotools.get_pvgis_tmy(
                                 lat, lon, outputformat='epw',
                                 coerce_year=None)):
                    yield 'the form of PVGIS', both(
                        same[0].equals(data), str(same[1]) == str(meta))
    if seed % 5 < 1:
        yield 'read from a server', served(
            pv.iotools.read_epw, text, 'https://h.org/a.epw', (data, meta),
            coerce_year=year)
    yield 'a row for every hour', len(data) == len(rows)
    yield 'stamped at the start of the hour', near(
        utc(data.index), seconds(stamps, tz))
    yield 'local standard time', \
        data.index[0].utcoffset().total_seconds() == tz*3600
    yield 'the names', list(data.columns) == EPW
    for k, n in enumerate(EPW):
        if k > 0 and n != 'data_source_unct':
            yield f'column {n}', near(data[n], [x[k] for x in rows])
    yield 'year', near(data['year'], [year or x[0] for x in rows])
    yield 'place', both(eq(meta['latitude'], lat), eq(meta['longitude'], lon),
                        eq(meta['altitude'], alt), eq(meta['TZ'], tz),
                        meta['city'] == 'A City', meta['country'] == 'USA',
                        meta['WMO_code'] == '724666')


# -------------------------------------------------------------------- BSRN
def fixed(slots, values, width):
    line = [' ']*width
    for (a, b), v in zip(slots, values):
        s = v if isinstance(v, str) else f'{v:g}'
        s = s.rjust(b - a)
        line[a:b] = s
    return ''.join(line).rstrip() + '\n'


# technical plan for BSRN data management, 2013, table 4-4
LR0100A = [(0, 3), (4, 8), (11, 16), (17, 22), (23, 27), (28, 32), (35, 39),
           (40, 45), (46, 50), (51, 55)]
LR0100B = [(11, 16), (17, 22), (23, 27), (28, 32), (35, 39), (40, 45),
           (46, 50), (51, 55), (58, 64), (65, 70), (71, 75)]
N0100A = ['ghi', 'ghi_std', 'ghi_min', 'ghi_max', 'dni', 'dni_std',
          'dni_min', 'dni_max']
N0100B = ['dhi', 'dhi_std', 'dhi_min', 'dhi_max', 'lwd', 'lwd_std',
          'lwd_min', 'lwd_max', 'temp_air', 'relative_humidity', 'pressure']
LR0300 = [(1, 3), (4, 8), (11, 16), (17, 22), (23, 27), (28, 31), (33, 38),
          (39, 44), (45, 49), (50, 54), (56, 61), (62, 67), (68, 72),
          (73, 78)]
N0300 = ['gri', 'gri_std', 'gri_min', 'gri_max', 'lwu', 'lwu_std',
         'lwu_min', 'lwu_max', 'net_radiation', 'net_radiation_std',
         'net_radiation_min', 'net_radiation_max']
LR0500A = [(1, 3), (4, 8), (9, 14), (15, 20), (21, 26), (27, 32), (33, 38),
           (39, 44), (45, 50), (51, 56)]
LR0500B = [(9, 14), (15, 20), (21, 26), (27, 32), (33, 38), (39, 44),
           (45, 50), (51, 56), (57, 62), (63, 68), (69, 74), (75, 80)]
N0500A = ['uva_global', 'uva_global_std', 'uva_global_min',
          'uva_global_max', 'uvb_direct', 'uvb_direct_std',
          'uvb_direct_min', 'uvb_direct_max']
N0500B = ['uvb_global', 'uvb_global_std', 'uvb_global_min',
          'uvb_global_max', 'uvb_diffuse', 'uvb_diffuse_std',
          'uvb_diffuse_min', 'uvb_diffuse_max', 'uvb_reflected',
          'uvb_reflected_std', 'uvb_reflected_min', 'uvb_reflected_max']


@lemma('C26', I_ + 'bsrn.read_bsrn', bounded=True, args=dict(
    SEED, kind=Opt('path', 'gzip', 'buffer')), kinds=('scalar',), samples=25)
def bsrn(seed, kind):
    r = rng_of(seed)
    year, month = int(r.integers(1992, 2024)), int(r.integers(1, 13))
    lat, lon = num(r, 0, 180, 3), num(r, 0, 360, 3)
    alt = int(r.integers(0, 4000))
    azi = sorted(int(a) for a in r.choice(360, 11, replace=False))
    elev = [int(e) for e in r.integers(0, 30, 11)]
    pairs = [(a, e) for a, e in zip(azi, elev)]
    pairs = [pairs[i] for i in r.permutation(11)]
    cells = [f'{a:3d} {e:2d}' for a, e in pairs] + [' -1 -1']*3
    n = int(r.integers(2, 20))
    when = [(int(d), int(m)) for d, m in zip(
        np.sort(r.integers(1, 29, n)), np.arange(n)*7 % 1440)]
    have = [k for k in ('0100', '0300', '0500') if r.random() < .8] or [
        '0100']

    def value(lo, hi, digits, missing):
        if r.random() < .1:
            return np.nan, missing
        v = float(num(r, lo, hi, digits))
        return v, (f'{v:.{digits}f}' if digits else f'{v:.0f}')

    def one(name):
        """a value and how the file spells it"""
        if name.startswith('uv'):
            return value(0, 70, 1, '-99.9')
        if name.endswith('_std'):
            return value(0, 50, 1, '-99.9')
        if name == 'temp_air':
            return value(-40, 40, 1, '-99.9')
        if name == 'relative_humidity':
            return value(0, 100, 1, '-99.9')
        return value(0, 900, 0, '-999')

    text, expect = [], {}

    def put(names):
        vals = [one(k) for k in names]
        for k, (v, _) in zip(names, vals):
            expect.setdefault(k, []).append(v)
        return [s for _, s in vals]
    body = {k: [] for k in ('0100', '0300', '0500')}
    for d, m in when:
        if '0100' in have:
            body['0100'] += [fixed(LR0100A, [d, m] + put(N0100A), 80),
                             fixed(LR0100B, put(N0100B), 80)]
        if '0300' in have:
            # the narrow slot cannot spell the marker: always measured
            vals = put(N0300)
            if np.isnan(expect['gri_max'][-1]):
                expect['gri_max'][-1], vals[3] = 5., '5'
            body['0300'] += [fixed(LR0300, [d, m] + vals, 80)]
        if '0500' in have:
            body['0500'] += [fixed(LR0500A, [d, m] + put(N0500A), 80),
                             fixed(LR0500B, put(N0500B), 80)]
    head = ['*C0001\n', f'{21:3d} {month:2d} {year:4d} {1:2d}\n',
            '        2         3         4\n', '*U0002\n', '-1 -1 -1\n',
            'nobody\n', '*U0004\n', '01 1200\n', '  5  7\n',
            'Somewhere 1\n', '+1 555 0100          +1 555 0101         \n',
            '127.0.0.1       someone@example.org\n',
            f'{lat:7.3f} {lon:7.3f} {alt:4d} 12345\n', '01 1200\n',
            ' '.join(cells[:7]) + '\n', ' '.join(cells[7:]) + '\n']
    text = ''.join(head)
    for k in ('0100', '0300', '0500'):
        if k in have:
            text += f'*{"CU"[int(r.integers(2))]}{k}\n' + ''.join(body[k])
        if r.random() < .3:
            text += '*U0200\n 1 2 3\n'
    want = [k for k in ('0100', '0300', '0500') if r.random() < .7] or have
    if kind == 'gzip':
        import gzip
        with Scratch(gzip.compress(text.encode()), 'a.dat.gz', 'wb') as path:
            data, meta = pv.iotools.read_bsrn(path, want)
    elif kind == 'path':
        with Scratch(text, 'a.dat') as path:
            data, meta = pv.iotools.read_bsrn(path, want)
    else:
        data, meta = pv.iotools.read_bsrn(io.StringIO(text), want)
    names = {'0100': N0100A + N0100B, '0300': N0300,
             '0500': N0500A + N0500B}
    got = [k for k in ('0100', '0300', '0500') if k in want and k in have]
    if not got:
        yield 'nothing asked for is there', both(
            len(data) == 0, set(data.columns) == {
                c for k in want for c in names[k]})
        return
    yield 'the records asked for', list(data.columns) == [
        c for k in got for c in names[k]]
    yield 'minutes in UTC', data.index.tz is not None and near(
        utc(data.index), seconds([
            pd.Timestamp(year, month, 1) + pd.Timedelta(days=d - 1, minutes=m)
            for d, m in when]))
    for k in got:
        for c in names[k]:
            yield f'column {c}', near(data[c], expect[c])
    yield 'place, north and east positive', both(
        eq(meta['latitude'], lat - 90), eq(meta['longitude'], lon - 180),
        eq(meta['altitude'], alt))
    yield 'station', both(
        meta['station identification number'] == 21,
        meta['surface type'] == 5, meta['topography type'] == 7,
        meta['start date'] == pd.Timestamp(year, month, 1, tz='UTC'))
    h = meta['horizon']
    yield 'horizon by azimuth', list(h.index) == azi and \
        list(h.values) == [dict(pairs)[a] for a in azi]


# -------------------------------------------------------------------- MIDC
@lemma('C26', I_ + 'midc.read_midc', bounded=True, args=dict(
    SEED, raw=Opt(False, True)), kinds=('scalar',), samples=40)
def midc(seed, raw):
    r = rng_of(seed)
    zone, hours = [('PST', -8), ('MST', -7), ('CST', -6), ('EST', -5)][
        r.integers(4)]
    if not raw and zone == 'MST' and r.random() < .5:
        zone, hours = 'HST', -10
    n = int(r.integers(1, 40))
    t0 = pd.Timestamp(2020, 1, 1) + pd.Timedelta(
        minutes=int(r.integers(0, 366*1440 - n)))
    times = pd.date_range(t0, periods=n, freq='1min')
    ghi, temp = num(r, 0, 1000, 3, n), num(r, -20, 40, 2, n)
    if raw:
        cols = ['', 'Year', 'DOY', zone, 'Global [W/m^2]', 'Temp [deg C]']
        rows = [[1, t.year, t.dayofyear, t.hour*100 + t.minute, a, b]
                for t, a, b in zip(times, ghi, temp)]
    else:
        cols = ['DATE (MM/DD/YYYY)', zone, 'Global [W/m^2]', 'Temp [deg C]']
        rows = [[t.strftime('%m/%d/%Y'), t.strftime('%H:%M'), a, b]
                for t, a, b in zip(times, ghi, temp)]
    text = ','.join(cols) + '\n' + ''.join(
        ','.join(map(str, x)) + '\n' for x in rows)
    data = pv.iotools.read_midc(
        io.StringIO(text), variable_map={'Global [W/m^2]': 'ghi'},
        raw_data=raw)
    yield 'local standard time', near(utc(data.index), seconds(times, hours))
    yield 'mapped', near(data['ghi'], ghi)
    yield 'not mapped', near(data['Temp [deg C]'], temp)


# --------------------------------------------------------------- PAN, OND
@lemma('C26', I_ + 'panond.read_panond', bounded=True, args=SEED,
       kinds=('scalar',), samples=40)
def panond(seed):
    r = rng_of(seed)
    count = [0]

    def key():
        count[0] += 1
        return f'Key{count[0]}'

    def scalar():
        return [lambda: int(r.integers(-500, 500)),
                lambda: float(num(r, -50, 50, 3)),
                lambda: 'text ' + str(r.integers(100)),
                lambda: [float(x) for x in num(r, 0, 9, 2, 3)],
                lambda: [1, 'a', 2.5]][r.integers(5)]()

    def spell(v):
        return ','.join(map(spell, v)) if isinstance(v, list) else str(v)

    def block(name, head, depth):
        """lines, and what they mean"""
        pad = '  '*depth
        lines, out = [f'{pad}{name}={head}'], {name: head}
        for _ in range(int(r.integers(1, 5))):
            if depth < 3 and r.random() < .35:
                k = key()
                ls, sub = block(k, 'pv' + k, depth + 1)
                lines += ls
                out[k] = sub
            else:
                k, v = key(), scalar()
                lines.append(f'{pad}  {k}={spell(v)}')
                out[k] = v
        if r.random() < .5:
            lines.append('')
        lines.append(f'{pad}End of {name}')
        out_end = f'End of {name}'
        return lines, (out, out_end) if depth == 0 else out
    lines, (exp, end) = block('PVObject_', 'pvModule', 0)
    with Scratch('\n'.join(lines) + '\n', 'a.PAN') as path:
        got = pv.iotools.read_panond(path)

    def clean(d):
        """without the markers of block ends"""
        return {k: clean(v) if isinstance(v, dict) else v
                for k, v in d.items() if not k.startswith('End of')}

    def typed(a, b):
        if isinstance(b, dict):
            return isinstance(a, dict) and set(a) == set(b) and all(
                typed(a[k], b[k]) for k in b)
        if isinstance(b, list):
            return isinstance(a, list) and len(a) == len(b) and all(
                typed(x, y) for x, y in zip(a, b))
        return type(a) is type(b) and a == b
    yield 'nested as in the file, with types', typed(
        clean(got), {'PVObject_': exp})


# --------------------------------------------------------------------- CRN
CRN = [('WBANNO', 5, 'WBANNO'), ('UTC_DATE', 8, 'UTC_DATE'),
       ('UTC_TIME', 4, 'UTC_TIME'), ('LST_DATE', 8, 'LST_DATE'),
       ('LST_TIME', 4, 'LST_TIME'), ('CRX_VN', 6, 'CRX_VN'),
       ('LONGITUDE', 7, 'longitude'), ('LATITUDE', 7, 'latitude'),
       ('AIR_TEMPERATURE', 7, 'temp_air'),
       ('PRECIPITATION', 7, 'PRECIPITATION'), ('SOLAR_RADIATION', 6, 'ghi'),
       ('SR_FLAG', 1, 'ghi_flag'),
       ('SURFACE_TEMPERATURE', 7, 'SURFACE_TEMPERATURE'),
       ('ST_TYPE', 1, 'ST_TYPE'), ('ST_FLAG', 1, 'ST_FLAG'),
       ('RELATIVE_HUMIDITY', 5, 'relative_humidity'),
       ('RH_FLAG', 1, 'relative_humidity_flag'),
       ('SOIL_MOISTURE_5', 7, 'SOIL_MOISTURE_5'),
       ('SOIL_TEMPERATURE_5', 7, 'SOIL_TEMPERATURE_5'),
       ('WETNESS', 5, 'WETNESS'), ('WET_FLAG', 1, 'WET_FLAG'),
       ('WIND_1_5', 6, 'wind_speed'), ('WIND_FLAG', 1, 'wind_speed_flag')]
CRN_MISSING = dict(
    AIR_TEMPERATURE='-9999.0', PRECIPITATION='-9999.0',
    SOLAR_RADIATION='-99999', SURFACE_TEMPERATURE='-9999.0',
    RELATIVE_HUMIDITY='-9999', SOIL_MOISTURE_5='-99.000',
    SOIL_TEMPERATURE_5='-9999.0', WETNESS='-9999', WIND_1_5='-99.00')
CRN_RANGE = dict(
    AIR_TEMPERATURE=(-40, 40, 1), PRECIPITATION=(0, 20, 1),
    SOLAR_RADIATION=(0, 1200, 0), SURFACE_TEMPERATURE=(-40, 60, 1),
    RELATIVE_HUMIDITY=(0, 100, 0), SOIL_MOISTURE_5=(0, 1, 3),
    SOIL_TEMPERATURE_5=(-20, 40, 1), WETNESS=(0, 999, 0),
    WIND_1_5=(0, 20, 2))


@lemma('C26', I_ + 'crn.read_crn', bounded=True, args=SEED,
       kinds=('scalar',), samples=40)
def crn(seed):
    r = rng_of(seed)
    n = int(r.integers(1, 30))
    t0 = pd.Timestamp(2020, 1, 1) + pd.Timedelta(
        minutes=5*int(r.integers(0, 366*288 - n)))
    times = pd.date_range(t0, periods=n, freq='5min')
    rows, lines = [], []
    for t in times:
        row, cells = {}, []
        for name, w, _ in CRN:
            if name in CRN_RANGE:
                lo, hi, d = CRN_RANGE[name]
                v = float(num(r, lo, hi, d))
                s = f'{v:.{d}f}'
                if r.random() < .1:
                    v, s = np.nan, CRN_MISSING[name]
            elif name == 'ST_TYPE':
                v = s = str(r.choice(list('CRU')))
            elif name.endswith('FLAG'):
                v = int(r.choice([0, 3]))
                s = str(v)
            else:
                v, s = {'WBANNO': (53131, '53131'),
                        'UTC_DATE': (0, t.strftime('%Y%m%d')),
                        'UTC_TIME': (0, t.strftime('%H%M')),
                        'LST_DATE': (0, (t - pd.Timedelta(hours=7)).strftime(
                            '%Y%m%d')),
                        'LST_TIME': (0, (t - pd.Timedelta(hours=7)).strftime(
                            '%H%M')),
                        'CRX_VN': ('2.422', ' 2.422'),
                        'LONGITUDE': (-111.17, '-111.17'),
                        'LATITUDE': (32.24, '32.24')}[name]
            row[name] = v
            cells.append(s.rjust(w))
        rows.append(row)
        lines.append(' '.join(cells))
    with Scratch('\n'.join(lines) + '\n') as path:
        data = pv.iotools.read_crn(path)
        plain = pv.iotools.read_crn(path, map_variables=False)
    yield 'universal time', data.index.tz is not None and near(
        utc(data.index), seconds(times))
    yield 'names', list(data.columns) == [c for _, _, c in CRN] and \
        list(plain.columns) == [c for c, _, _ in CRN]
    for name, _, mapped in CRN:
        want = [x[name] for x in rows]
        if name in CRN_RANGE or name in ('LONGITUDE', 'LATITUDE', 'WBANNO') \
                or name.endswith('FLAG'):
            yield f'column {name}', near(data[mapped], want)
        elif name == 'ST_TYPE':
            yield f'column {name}', list(data[mapped]) == want


# ----------------------------------------------------------------- SURFRAD
SURFRAD = [('zen', 'solar_zenith', 0)] + [(a, b, 1) for a, b in (
    ('dw_solar', 'ghi'), ('uw_solar', 'uw_solar'), ('direct_n', 'dni'),
    ('diffuse', 'dhi'), ('dw_ir', 'dw_ir'), ('dw_casetemp', 'dw_casetemp'),
    ('dw_dometemp', 'dw_dometemp'), ('uw_ir', 'uw_ir'),
    ('uw_casetemp', 'uw_casetemp'), ('uw_dometemp', 'uw_dometemp'),
    ('uvb', 'uvb'), ('par', 'par'), ('netsolar', 'netsolar'),
    ('netir', 'netir'), ('totalnet', 'totalnet'), ('temp', 'temp_air'),
    ('rh', 'relative_humidity'), ('windspd', 'wind_speed'),
    ('winddir', 'wind_direction'), ('pressure', 'pressure'))]


@lemma('C26', I_ + 'surfrad.read_surfrad', bounded=True, args=SEED,
       kinds=('scalar',), samples=40)
def surfrad(seed):
    r = rng_of(seed)
    n = int(r.integers(1, 30))
    t0 = pd.Timestamp(2020, 1, 1) + pd.Timedelta(
        minutes=int(r.integers(0, 366*1440 - n)))
    times = pd.date_range(t0, periods=n, freq='1min')
    lat, lon = num(r, -90, 90, 2), num(r, -180, 180, 2)
    alt = int(r.integers(0, 3000))
    cols = {k: num(r, -10, 1000, 1, n) for k, _, _ in SURFRAD}
    flags = {k: r.integers(0, 3, n) for k, _, f in SURFRAD if f}
    lines = [' Table Mountain', f'   {lat}  {lon} {alt} m version 1']
    for i, t in enumerate(times):
        cells = [t.year, t.dayofyear, t.month, t.day, t.hour, t.minute,
                 round(t.hour + t.minute/60, 3)]
        for k, _, f in SURFRAD:
            if k != 'zen' and r.random() < .1:
                cols[k][i] = np.nan
            cells.append('-9999.9' if np.isnan(cols[k][i]) else cols[k][i])
            if f:
                cells.append(flags[k][i])
        lines.append(' '.join(str(c) for c in cells))
    with Scratch('\n'.join(lines) + '\n') as path:
        data, meta = pv.iotools.read_surfrad(path)
        plain, _ = pv.iotools.read_surfrad(path, map_variables=False)
    for url in ('ftp://h.org/a.dat', 'https://h.org/a.dat'):
        yield 'read from ' + url, served(
            pv.iotools.read_surfrad, '\n'.join(lines) + '\n', url,
            (data, meta))
    yield 'universal time', data.index.tz is not None and near(
        utc(data.index), seconds(times))
    for k, m, f in SURFRAD:
        yield f'column {k}', near(data[m], cols[k])
        yield f'column {k} as named in the file', near(plain[k], cols[k])
        if f:
            name = (m if k in ('dw_solar', 'direct_n', 'diffuse', 'temp',
                               'rh', 'windspd', 'winddir') else k) + '_flag'
            yield f'flag of {k}', near(data[name], flags[k])
    yield 'place', both(
        meta['name'] == 'Table Mountain', eq(meta['latitude'], lat),
        eq(meta['longitude'], lon), eq(meta['elevation'], alt),
        meta['surfrad_version'] == 1, meta['tz'] == 'UTC')


# ------------------------------------------------------------------ SOLRAD
@lemma('C26', I_ + 'solrad.read_solrad', bounded=True, args=dict(
    SEED, station=Opt('abq', 'msn')), kinds=('scalar',), samples=40)
def solrad(seed, station):
    r = rng_of(seed)
    n = int(r.integers(1, 30))
    t0 = pd.Timestamp(2020, 1, 1) + pd.Timedelta(
        minutes=int(r.integers(0, 366*1440 - n)))
    times = pd.date_range(t0, periods=n, freq='1min')
    lat, lon = num(r, -90, 90, 4), num(r, -180, 180, 4)
    alt, tz = int(r.integers(0, 3000)), int(r.integers(-8, 1))
    names = ['ghi', 'dni', 'dhi', 'uvb', 'uvb_temp']
    stds = ['std_dw_psp', 'std_direct', 'std_diffuse', 'std_uvb']
    if station == 'msn':
        names += ['dpir', 'dpirc', 'dpird']
        stds += ['std_dpir', 'std_dpirc', 'std_dpird']
    cols = {k: num(r, -10, 1000, 1, n) for k in names}
    cols.update({k: num(r, 0, 100, 3, n) for k in stds})
    cols['solar_zenith'] = num(r, 0, 180, 2, n)
    flags = {k: r.integers(0, 2, n) for k in names}
    lines = [' Station Name', f' {lat} {lon} {alt} {tz}']
    for i, t in enumerate(times):
        line = (f'{t.year:4d} {t.dayofyear:3d} {t.month:2d} {t.day:2d} '
                f'{t.hour:2d} {t.minute:2d} {t.hour + t.minute/60:6.3f} '
                f'{cols["solar_zenith"][i]:6.2f}')
        for k in names:
            if r.random() < .1:
                cols[k][i] = np.nan
            v = -9999.9 if np.isnan(cols[k][i]) else cols[k][i]
            line += f' {v:7.1f} {flags[k][i]:1d}'
        for k in stds:
            line += f' {cols[k][i]:9.3f}'
        lines.append(line)
    with Scratch('\n'.join(lines) + '\n', station + '20001.dat') as path:
        data, meta = pv.iotools.read_solrad(path)
    url = f'https://h.org/{station}20001.dat'
    yield 'read from a server', served(
        pv.iotools.read_solrad, '\n'.join(lines) + '\n', url, (data, meta))
    yield 'universal time', data.index.tz is not None and near(
        utc(data.index), seconds(times))
    for k in cols:
        yield f'column {k}', near(data[k], cols[k])
    for k in flags:
        yield f'flag of {k}', near(data[k + '_flag'], flags[k])
    yield 'place', both(
        meta['station_name'] == 'Station Name', eq(meta['latitude'], lat),
        eq(meta['longitude'], lon), eq(meta['altitude'], alt),
        meta['TZ'] == tz)


# -------------------------------------------------------------------- SRML
@lemma('C26', I_ + 'srml.read_srml', bounded=True, args=dict(
    SEED, step=Opt(1, 5, 15, 60)), kinds=('scalar',), samples=20)
def srml(seed, step):
    r = rng_of(seed)
    n = int(r.integers(3, 1700//step))
    t0 = pd.Timestamp(int(r.choice([2019, 2020])), int(r.integers(1, 13)),
                      int(r.integers(1, 28)))
    starts = [t0 + pd.Timedelta(minutes=step*i) for i in range(n)]
    # the archive stamps the end of the interval; midnight is 2400 of the day
    lines = []
    heads = {'1000': 'ghi_0', '2010': 'dni_0', '3002': 'dhi_2',
             '9300': 'temp_air_0', '9212': 'wind_speed_2', '7937': '7937',
             '1501': '1501'}
    keys = list(r.permutation(list(heads))[:3])
    cols = {k: num(r, -5, 1000, 1, n) for k in keys}
    flags = {k: r.choice([11, 12, 22, 99], n) for k in keys}
    for i, s in enumerate(starts):
        e = s + pd.Timedelta(minutes=step)
        stamp = e.hour*100 + e.minute or 2400
        lines.append('\t'.join(map(str, [s.dayofyear, stamp] + [
            x for k in keys for x in (cols[k][i], flags[k][i])])))
    # the station number, the year, and pairs of value and flag
    head = '\t'.join(['94255', str(t0.year)] + [
        x for k in keys for x in (k, '0')])
    text = head + '\n' + '\n'.join(lines) + '\n'
    with Scratch(text) as path:
        data = pv.iotools.read_srml(path)
        plain = pv.iotools.read_srml(path, map_variables=False)
    yield 'stamped at the start, Pacific standard time', near(
        utc(data.index), seconds(starts, -8))
    for k in keys:
        want = np.where(flags[k] == 99, np.nan, cols[k])
        yield f'column {k}', near(data[heads[k]], want)
        yield f'flag of {k}', near(data[heads[k] + '_flag'], flags[k])
        yield f'column {k} as named in the file', near(plain[k], want)


# ------------------------------------------------------------- NSRDB PSM4
PSM4 = {'GHI': 'ghi', 'DHI': 'dhi', 'DNI': 'dni', 'Clearsky GHI': 'ghi_clear',
        'Clearsky DHI': 'dhi_clear', 'Clearsky DNI': 'dni_clear',
        'Solar Zenith Angle': 'solar_zenith', 'Temperature': 'temp_air',
        'Dew Point': 'temp_dew', 'Relative Humidity': 'relative_humidity',
        'Pressure': 'pressure', 'Wind Speed': 'wind_speed',
        'Wind Direction': 'wind_direction', 'Surface Albedo': 'albedo',
        'Precipitable Water': 'precipitable_water', 'AOD': 'aod',
        'Ozone': 'Ozone'}
PSM4_ASK = dict(
    ghi='ghi', dhi='dhi', dni='dni', ghi_clear='clearsky_ghi',
    dhi_clear='clearsky_dhi', dni_clear='clearsky_dni',
    solar_zenith='solar_zenith_angle', temp_air='air_temperature',
    temp_dew='dew_point', relative_humidity='relative_humidity',
    pressure='surface_pressure', wind_speed='wind_speed',
    wind_direction='wind_direction', albedo='surface_albedo',
    precipitable_water='total_precipitable_water', aod='aod', ozone='ozone')


def psm4_file(r):
    tz = int(r.integers(-12, 13))
    local = int(r.choice([0, tz]))
    n = int(r.integers(1, 30))
    step = int(r.choice([5, 30, 60]))
    t0 = pd.Timestamp(2020, 1, 1) + pd.Timedelta(
        minutes=5*int(r.integers(0, 300*288)))
    times = pd.date_range(t0, periods=n, freq=f'{step}min')
    keys = list(r.permutation(list(PSM4))[:6])
    cols = {k: num(r, -10, 1000, 2, n) for k in keys}
    place = dict(lat=num(r, -90, 90, 2), lon=num(r, -180, 180, 2),
                 alt=int(r.integers(0, 3000)))
    head = ('Source,Location ID,City,State,Country,Latitude,Longitude,'
            'Time Zone,Elevation,Local Time Zone,Dew Point Units\n'
            f'NSRDB,145809,"-, b",-,-,{place["lat"]},{place["lon"]},{local},'
            f'{place["alt"]},{tz},c\n')
    head += ','.join(['Year', 'Month', 'Day', 'Hour', 'Minute'] + keys)
    head += ',' * int(r.integers(0, 3)) + '\n'
    for i, t in enumerate(times):
        head += ','.join(map(str, [t.year, t.month, t.day, t.hour, t.minute]
                             + [cols[k][i] for k in keys])) + '\n'
    return head, times, local, tz, cols, place


def psm4_check(data, meta, times, local, tz, cols, place, mapped=True):
    yield 'in the time zone of the file', near(
        utc(data.index), seconds(times, local))
    yield 'offset', data.index[0].utcoffset().total_seconds() == local*3600
    for k in cols:
        yield f'column {k}', near(data[PSM4[k] if mapped else k], cols[k])
    names = ('latitude', 'longitude', 'altitude') if mapped else (
        'Latitude', 'Longitude', 'Elevation')
    yield 'place', both(*[eq(meta[a], place[b]) for a, b in zip(
        names, ('lat', 'lon', 'alt'))])
    yield 'zones', both(meta['Time Zone'] == local,
                        meta['Local Time Zone'] == tz,
                        meta['City'] == '-, b')


@lemma('C26', I_ + 'psm4.read_nsrdb_psm4', bounded=True, args=dict(
    SEED, kind=Opt('path', 'buffer'), mapped=Opt(True, False)),
    kinds=('scalar',), samples=30)
def psm4(seed, kind, mapped):
    text, *rest = psm4_file(rng_of(seed))
    with Scratch(text, 'a.csv') as path:
        data, meta = pv.iotools.read_nsrdb_psm4(
            path if kind == 'path' else io.StringIO(text), mapped)
    yield from psm4_check(data, meta, *rest, mapped)


@lemma('C26', I_ + 'psm4.get_nsrdb_psm4_aggregated', bounded=True, args=dict(
    SEED, which=Opt('aggregated', 'tmy', 'conus', 'full_disc', 'polar',
                    'polar_tmy')), kinds=('scalar',), samples=20)
def psm4_request(seed, which):
    r = rng_of(seed)
    text, *rest = psm4_file(r)
    lat, lon = r.uniform(-90, 90), r.uniform(-180, 180)
    ask = list(r.permutation(list(PSM4_ASK))[:4])
    leap, step = bool(r.integers(2)), int(r.choice([5, 30, 60]))
    world = bool(r.integers(2))
    get = getattr(pv.iotools, 'get_nsrdb_psm4_' + which)
    year = 'tmy-2020' if 'tmy' in which else 2020
    with Web(Reply(text)) as web:
        data, meta = get(lat, lon, 'key', 'me@example.org', year=year,
                         time_step=step, parameters=ask, leap_day=leap,
                         utc=world)
    q = params(web)
    pt = q['wkt'].replace('POINT(', '').replace(')', '').split()
    yield 'asks at the point, longitude first', both(
        eq(float(pt[0]), lon, atol=6e-5, rtol=1e-12),
        eq(float(pt[1]), lat, atol=6e-5, rtol=1e-12))
    yield 'asks for the variables', q['attributes'].split(',') == [
        PSM4_ASK[k] for k in ask]
    yield 'asks for the year and the step', both(
        str(q['names']) == str(year), str(q['interval']) == str(step),
        q['leap_day'] == str(leap).lower(), q['utc'] == str(world).lower(),
        q['api_key'] == 'key', q['email'] == 'me@example.org')
    yield from psm4_check(data, meta, *rest)
    with Web(Reply(js={'errors': ['no']}, ok=False)):
        import requests
        yield 'a refusal is raised', raises(
            requests.HTTPError, get, lat, lon, 'key', 'me@example.org',
            year=year)


# ------------------------------------------------------- unit conversions
@lemma('C26', I_ + 'era5.get_era5', args=dict(x=E(-50, 1e6)))
def era5_units(x):
    units = pv.iotools.era5.UNITS
    want = {'u100': (1, 0), 'v100': (1, 0), 'u10': (1, 0), 'v10': (1, 0),
            'd2m': (1, -273.15), 't2m': (1, -273.15), 'sst': (1, -273.15),
            'skt': (1, -273.15), 'msl': (1, 0), 'sp': (1, 0),
            'ssrd': (1/3600, 0), 'fdir': (1/3600, 0), 'strd': (1/3600, 0),
            'tp': (100, 0)}
    for k, (m, b) in want.items():
        yield k, eq(units.get(k, lambda v: v)(x), m*x + b)


@lemma('C26', I_ + 'merra2.get_merra2', args=dict(x=E(-50, 1e6)))
def merra2_units(x):
    yield 'T2M', eq(pv.iotools.merra2.UNITS['T2M'](x), x - 273.15)


@lemma('C26', I_ + 'solcast._solcast2pvlib', args=dict(x=E(-50, 1e4)))
def solcast_units(x):
    want = {'air_temp': ('temp_air', x), 'azimuth': (
        'solar_azimuth', -x % 360),
        'precipitable_water': ('precipitable_water', x/10),
        'surface_pressure': ('pressure', x*100),
        'wind_speed_10m': ('wind_speed', x), 'zenith': ('solar_zenith', x),
        'dewpoint_temp': ('temp_dew', x), 'dni': ('dni', x),
        'ghi': ('ghi', x), 'dhi': ('dhi', x)}
    for v in pv.iotools.solcast.VARIABLE_MAP:
        if v.solcast_name in want:
            name, y = want[v.solcast_name]
            yield 'name of ' + name, v.pvlib_name == name
            yield 'value of ' + name, eq(v.conversion(x), y)


# ------------------------------------------------------- the BSRN archive
@lemma('C26', I_ + 'bsrn.get_bsrn', bounded=True, args=dict(
    SEED, event=Opt('all', 'all', 'some', 'none', 'station', 'refused',
                    'broken')), kinds=('scalar',), samples=35)
def bsrn_archive(seed, event):
    import ftplib
    import gzip
    r = rng_of(seed)
    start = pd.Timestamp(int(r.integers(1995, 2023)), int(r.integers(1, 13)),
                         int(r.integers(1, 29)), int(r.integers(24)))
    end = start + pd.Timedelta(days=int(r.integers(0, 130)))
    months, y, m = [], start.year, start.month
    while (y, m) <= (end.year, end.month):
        months.append((y, m))
        y, m = (y + 1, 1) if m == 12 else (y, m + 1)
    store, rows = {}, {}
    for y, m in months:
        if event == 'none' or event == 'some' and r.random() < .4:
            continue
        when = sorted(int(d) for d in r.integers(1, 29, 3))
        names = N0100A + N0100B
        vals = {k: [float(v) for v in r.integers(1, 50, 3)] for k in names}
        text = ''.join([
            '*C0001\n', f'{21:3d} {m:2d} {y:4d} {1:2d}\n', 'x\n', '*U0002\n',
            '-1 -1 -1\n', 'nobody\n', '*U0004\n', '01 1200\n', '  5  7\n',
            'Somewhere 1\n', '+1 555 0100          +1 555 0101         \n',
            '127.0.0.1       someone@example.org\n',
            f'{100:7.3f} {190:7.3f} {m:4d} 12345\n', '01 1200\n',
            ' '.join([' -1 -1']*7) + '\n', '*C0100\n'])
        for i, d in enumerate(when):
            text += fixed(LR0100A, [d, 60*i] + [
                f'{vals[k][i]:.0f}' for k in N0100A], 80)
            text += fixed(LR0100B, [
                f'{vals[k][i]:.0f}' for k in N0100B], 80)
        name = f'pay{m:02d}{y % 100:02d}.dat.gz'
        store[name] = gzip.compress(text.encode('latin1'))
        rows[name] = ([pd.Timestamp(y, m, d) + pd.Timedelta(hours=i)
                       for i, d in enumerate(when)], vals, m)
    wanted = [f'pay{m:02d}{y % 100:02d}.dat.gz' for y, m in months]
    log, asked = [], []

    class Server:
        def __init__(self, *a, **k):
            log.append(('login', *a, *k.values()))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def quit(self):
            pass

        close = quit

        def cwd(self, path):
            log.append(('cwd', path.strip('/')))
            if event == 'station':
                raise ftplib.error_perm('550 Failed to change directory.')

        def retrbinary(self, cmd, callback, *a, **k):
            name = cmd.split()[-1]
            asked.append(name)
            if event == 'refused':
                raise ftplib.error_perm('550 Permission denied.')
            if name not in store:
                raise ftplib.error_perm('550 Failed to open file.')
            callback(store[name])
            return '426 aborted' if event == 'broken' else \
                '226 Transfer complete.'
    station = str(r.choice(['pay', 'PAY', 'Pay']))
    dates = [start, end]
    if r.random() < .4:
        dates = [str(t) for t in dates]
    get = pv.iotools.get_bsrn
    with mock.patch.object(ftplib, 'FTP', Server), \
            tempfile.TemporaryDirectory() as folder, \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        args = (station, *dates, 'me', 'secret')
        if event == 'station':
            yield 'an unknown station', raises(KeyError, get, *args)
            return
        if event in ('refused', 'broken'):
            yield 'an error of the server', raises(
                ftplib.Error if event == 'broken' else ftplib.error_perm,
                get, *args)
            return
        keep = bool(r.random() < .5)
        data, meta = get(*args, save_path=folder if keep else None)
        saved = sorted(os.listdir(folder))
    yield 'station and user', both(
        'me' in log[0] and 'secret' in log[0], ('cwd', 'pay') in log)
    yield 'every month once, in order', asked == wanted
    yield 'files kept', saved == (sorted(store) if keep else [])
    there = [w for w in wanted if w in store]
    times = [t for w in there for t in rows[w][0]]
    yield 'columns', sorted(data.columns) == sorted(N0100A + N0100B)
    yield 'minutes of all months', len(data) == len(times) and (
        not times or near(utc(data.index), seconds(times)))
    for c in N0100A + N0100B:
        if times:
            yield f'column {c}', near(
                data[c], [v for w in there for v in rows[w][1][c]])
    yield 'about the last file', meta == {} if not there else eq(
        meta['altitude'], rows[there[-1]][2])


# ------------------------------------------------- SAM component libraries
@lemma('C26', 'pvlib.pvsystem.retrieve_sam', bounded=True, args=dict(
    SEED, kind=Opt('path', 'url')), kinds=('scalar',), samples=30)
def sam_library(seed, kind):
    import csv
    r = rng_of(seed)
    n, k = int(r.integers(1, 6)), int(r.integers(1, 5))
    letters = list('AbZ09') + list(' -.()[]:+/",_')
    names = []
    while len(names) < n:
        name = 'M' + ''.join(r.choice(letters, 8)) + str(len(names))
        names.append(name)
    adr = bool(r.random() < .4)
    fields = [f'Par {i}' if r.random() < .3 else f'Par{i}' for i in range(k)]
    vals = num(r, -9, 9, 4, (n, k))
    gap = (int(r.integers(n)), int(r.integers(k)))
    coefs = num(r, -1, 1, 5, (n, 9))
    head = ['Name', *fields] + ['ADRCoefficients']*adr
    out = io.StringIO()
    w = csv.writer(out)
    w.writerow(head)
    w.writerow(['Units'] + ['W']*(len(head) - 1))
    w.writerow(['[0]'] + ['x']*(len(head) - 1))
    for i, name in enumerate(names):
        row = ['' if (i, j) == gap else v for j, v in enumerate(vals[i])]
        if adr:
            row.append('[ ' + '  '.join(map(str, coefs[i])) + ' ]')
        w.writerow([name, *row])
    text = out.getvalue()
    if kind == 'path':
        with Scratch(text, 'lib.csv') as path:
            db = pv.pvsystem.retrieve_sam(path=path)
    else:
        asked = []

        class Reply(io.BytesIO):
            pass

        def urlopen(url, *a, **k):
            asked.append(url)
            return Reply(text.encode())
        url = str(r.choice(['http://h.org/Lib.csv', 'HTTPS://h.org/Lib.csv']))
        with mock.patch('urllib.request.urlopen', urlopen), mock.patch.object(
                pv.pvsystem, 'urlopen', urlopen, create=True):
            db = pv.pvsystem.retrieve_sam(path=url)
        yield 'the url as given', asked == [url]
    clean = [name.translate({ord(c): '_' for c in ' -.()[]:+/",'})
             for name in names]
    yield 'a column for every product', list(db.columns) == clean
    yield 'a row for every parameter', list(db.index) == [
        f.replace(' ', '_') for f in head[1:]]
    got = db.iloc[:k].astype(float).to_numpy().T
    want = vals.copy()
    want[gap] = np.nan
    yield 'values of the product', near(got, want)
    if adr:
        for i, name in enumerate(clean):
            yield 'coefficients as a list', near(
                db[name]['ADRCoefficients'], coefs[i])


@lemma('C26', 'pvlib.pvsystem.retrieve_sam', bounded=True, args=dict(
    name=Opt('ADRInverter', 'adrinverter', 'CECInverter', 'SandiaInverter',
             'sandiainverter', 'SandiaMod', 'SANDIAMOD')),
    kinds=('scalar',), samples=7)
def sam_bundled(name):
    import csv
    files = {'adr': 'adr-library-cec-inverters-2019-03-05.csv',
             'cec': 'sam-library-cec-inverters-2019-03-05.csv',
             'sandiainverter': 'sam-library-cec-inverters-2019-03-05.csv',
             'sandiamod': 'sam-library-sandia-modules-2015-6-30.csv'}
    file = [f for k, f in files.items() if name.lower().startswith(k)][0]
    path = os.path.join(os.path.dirname(pv.pvsystem.__file__), 'data', file)
    with open(path, newline='', encoding='utf-8', errors='ignore') as f:
        rows = list(csv.reader(f))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        db = pv.pvsystem.retrieve_sam(name)
    names = [row[0].translate({ord(c): '_' for c in ' -.()[]:+/",'})
             for row in rows[3:] if row]
    yield 'a column for every product', list(db.columns) == names
    body = [row for row in rows[3:] if row]
    for j, field in enumerate(rows[0][1:], 1):
        ours = db.loc[field.replace(' ', '_')].to_list()
        if field == 'ADRCoefficients':
            yield field, near(ours, [[float(x) for x in
                                      row[j].strip(' []').split()]
                                     for row in body])
            continue
        for row, x in zip(body, ours):
            text = row[j].strip()
            try:
                ok = same(float(x), float(text))
            except (TypeError, ValueError):
                ok = str(x).strip() == text or (
                    text in ('', 'NA', 'N/A', 'n/a') and pd.isna(x))
            if not ok:
                yield f'{field} of {row[0]}: {text} read as {x}', False
        yield field, True
    yield 'an unknown name is refused', both(
        raises(KeyError, lambda: pv.pvsystem.retrieve_sam('nosuch')),
        raises(ValueError, lambda: pv.pvsystem.retrieve_sam()),
        raises(ValueError, lambda: pv.pvsystem.retrieve_sam(name, path=path)))
