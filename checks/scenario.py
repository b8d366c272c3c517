"""Single event scenarios: results belong to the present input, whatever ran before."""
import copy
import random

from .common import *
from .windfield import read_stations

LIMIT = (150., 160., -20., -12.)
NEVENT = 8

# what the user may set; 'R' a region, 'S' station output, 'E' all time steps
SETTINGS = [
    {},
    {'WindfieldInterface': {'profileType': 'powell'}},
    {'WindfieldInterface': {'windFieldType': 'mcconochie', 'beta': 1.7}},
    {'WindfieldInterface': {'Resolution': 0.25}},
    {'Region': {'gridLimit': "{'xMin':151.,'xMax':159.,'yMin':-19.,'yMax':-13.}"}},
    {'Timeseries': {'Extract': 'True'}},
    {'Timeseries': {'Windfields': 'True'}},
    {'Timeseries': {'Extract': 'True', 'Windfields': 'True'}},
    {'WindfieldInterface': {'Resolution': 0.3, 'Margin': 1.5},
     'Timeseries': {'Windfields': 'True'}},
]
COLS = 'num,season,index,date,lat,lon,pressure,rmax,poci'


def pool():
    rng = random.Random(777)
    out = []
    for i in range(NEVENT):
        n = rng.choice([2, 3, 4, 5, 6])
        dt = rng.choice([1, 2, 3])
        t = np.datetime64('%d-0%d-%02dT%02d:00' % (1990 + i, rng.randint(1, 3),
                                                   rng.randint(1, 25), rng.randrange(24)))
        if i == 6:                   # passes outside the region of the settings
            lon, lat = 156., -25.
        else:
            lon, lat = rng.uniform(152, 158), rng.uniform(-18, -14)
        b, s = rng.uniform(0, 360), rng.uniform(8, 35)
        pc, rm = rng.uniform(930, 985), rng.uniform(20, 50)
        rows = []
        for k in range(n):
            rows.append((str(t).replace('T', ' ') + ':00', round(lat, 3), round(lon, 3),
                         round(pc, 2), round(rm * (1 + .06 * k), 2), 1008.0 + i % 3 + .4 * k))
            lat += s * dt / 111. * np.cos(np.radians(b))
            lon += s * dt / 111. * np.sin(np.radians(b))
            b += rng.gauss(0, 8)
            pc += rng.gauss(0, 3)
            t = t + np.timedelta64(dt, 'h')
        out.append(rows)
    return out


def numbers(events, form):
    """Cyclones of a table are counted; those of a catalogue have their own numbers."""
    n = len(events)
    return [(i + 1, n) if form == 'csv' else (i, 3) for i in range(n)]


def write_events(path, events):
    p = pool()
    with open(path, 'w') as f:
        f.write(COLS + '\n')
        for n, e in enumerate(events):
            for k, r in enumerate(p[e]):
                f.write('%d,%d,%d,%s,%s,%s,%s,%s,%s\n' % ((n + 1, 1990 + e, int(k == 0)) + r))


def write_event_tracks(path, events):
    """The same events in the form in which synthetic cyclones are stored."""
    p, tracks = pool(), []
    for n, e in enumerate(events):
        a = np.zeros(len(p[e]), fx.TRACK_DTYPE)
        t = np.array([np.datetime64(r[0].replace(' ', 'T')) for r in p[e]])
        a['CycloneNumber'] = n
        a['Datetime'] = (t - np.datetime64('1900-01-01T00:00')) / np.timedelta64(1, 'h')
        a['TimeElapsed'] = a['Datetime'] - a['Datetime'][0]
        for k, r in enumerate(p[e]):
            a['Latitude'][k], a['Longitude'][k] = r[1:3]
            a['CentralPressure'][k], a['rMax'][k], a['EnvPressure'][k] = r[3:6]
        a['Speed'], a['Bearing'] = 20., 180.
        tracks.append((numbers(events, 'nc')[n], a))
    fx.write_track_file(path, tracks, 'standard')


def untrue(tracks, events, form):
    """Compare the tracks of a run with the events given to it: text or None."""
    p = pool()
    ids = numbers(events, form)
    if [tuple(int(x) for x in ast.literal_eval(t)) for t, _ in tracks] != ids:
        return 'tracks %s, events %s' % ([t for t, _ in tracks], ids)
    for (tid, a), e in zip(tracks, events):
        t = np.array([(np.datetime64(r[0].replace(' ', 'T')) -
                       np.datetime64('1900-01-01T00:00')) / np.timedelta64(1, 'h')
                      for r in p[e]])
        x = np.asarray(a['Datetime'], 'f8')
        if abs(x[0] - t[0]) > 0.02 or abs(x[-1] - t[-1]) > 0.02 or \
                np.any(np.diff(x) <= 0) or np.any(np.diff(x) > 0.2):
            return 'cyclone %s: times %s .. %s in %d steps, given %s .. %s' % (
                tid, x[0], x[-1], len(x), t[0], t[-1])
        at = [int(np.argmin(abs(x - u))) for u in t]
        for name, col, tol in (('Latitude', 1, .005), ('Longitude', 2, .005),
                               ('CentralPressure', 3, .3), ('rMax', 4, .01),
                               ('EnvPressure', 5, .01)):
            have = np.asarray(a[name], 'f8')
            want = np.array([r[col] for r in p[e]])
            if np.any(abs(have[at] - want) > tol):
                return 'cyclone %s: %s %s, given %s' % (tid, name, have[at], want)
            if col > 2 and np.any(abs(have - np.interp(x, t, want)) > tol):
                return 'cyclone %s: %s is not between the values given' % (tid, name)
    return None


def misplaced(gust, rows):
    """The strongest wind blows near the cyclone, and the pressure is lowest there."""
    v = gust['vars']
    lon, lat = v['lon'][0].astype('f8'), v['lat'][0].astype('f8')
    cell = abs(lon[1] - lon[0])
    trk = np.array([(r[2], r[1]) for r in rows])
    f = np.linspace(0, len(trk) - 1, 200)
    trk = np.array([np.interp(f, np.arange(len(trk)), trk[:, k]) for k in (0, 1)]).T
    inside = (trk[:, 0] >= lon.min()) & (trk[:, 0] <= lon.max()) & \
        (trk[:, 1] >= lat.min()) & (trk[:, 1] <= lat.max())
    if not np.any(inside):
        return None
    for name, pick, far in (('strongest wind', np.argmax(v['vmax'][0]), 3 * rows[0][4] / 100.),
                            ('lowest pressure', np.argmin(v['slp'][0]), 0.)):
        j, i = np.unravel_index(int(pick), v['vmax'][0].shape)
        d = np.hypot(trk[:, 0] - lon[i], trk[:, 1] - lat[j]).min()
        if d > far + 1.5 * cell:
            return '%s at %.2f %.2f, %.2f degrees from the track' % (name, lon[i], lat[j], d)
    low, env = min(r[3] for r in rows), max(r[5] for r in rows)
    if not low - 1 <= v['slp'][0].min() / 100. <= env + 1:
        return 'lowest pressure %.1f hPa, %.1f in the cyclone' % (v['slp'][0].min() / 100., low)
    if not 5. < v['vmax'][0].max() < 120.:
        return 'strongest wind %.1f m/s' % v['vmax'][0].max()
    return None


def spots():
    return [(str(3000 + i), 'E%d' % i, round(r[len(r) // 2][2] + 0.17, 2),
             round(r[len(r) // 2][1] - 0.11, 2)) for i, r in enumerate(pool())] + \
        [('3900', 'Far', 100., -40.)]


def read_results(out):
    """{name: content} of everything the scenario is run for."""
    res = {}
    wd = pjoin(out, 'windfield')
    for n in sorted(os.listdir(wd)) if os.path.isdir(wd) else []:
        if n.endswith('.nc') and n.split('.')[0] in ('gust', 'evolution'):
            res[n] = nc_content(pjoin(wd, n))
    for n, rows in read_stations(out).items():
        res[n] = rows
    return res


def read_run(out):
    return read_results(out), read_tracks(pjoin(out, 'tracks', 'tracks.interp.nc'))


class Scenario(Property):
    id = 'V01'
    level = 'fault_enumeration'
    preload = ('Utilities.parallel', 'wind', 'Utilities.nctools', 'Utilities.config',
               'Utilities.track', 'wind.windmodels', 'Evaluate.interpolateTracks')
    real = ['tcevent.py entry point'] + REAL[1:] + ['track interpolation', 'wind stage']
    stubbed = STUB
    assumptions = ASSUME
    rule = ('one evaluation = one history of scenario runs in one output directory (other '
            'events, other settings, kills, failing file operations); after every run that '
            'reports success the results are compared with those of an empty directory')

    def prepare(self, ctx):
        st = pjoin(ctx.shared, 'static')
        fx.write_static(st)
        fx.write_stations(pjoin(st, 'spots'), spots())

    def config(self, ctx, out, r):
        logdir = clean(ctx.path('log'))
        st = pjoin(ctx.shared, 'static')
        c = fx.base_config(st, out, logdir, set(), LIMIT)
        del c['Region']['gridLimit']
        c['SIM']['Columns'] = COLS
        form = r.get('form', 'csv')
        given = ctx.path({'csv': 'event.csv', 'nc': 'tracks.000-00003.nc'}[form])
        c['DataProcess']['InputFile'] = given
        c['WindfieldInterface'].update({'Resolution': 0.5, 'Margin': 2.0})
        c['Timeseries'] = {'StationID': 'WMO', 'LocationFile': pjoin(st, 'spots.shp')}
        for k, v in SETTINGS[r['settings']].items():
            c.setdefault(k, {}).update(v)
        {'csv': write_events, 'nc': write_event_tracks}[form](given, r['events'])
        os.utime(given, (1.5e9, 1.5e9))
        return c, logdir

    def run_event(self, ctx, cfg, env, out, **kw):
        return run_tcrm(ctx, cfg, env, out, script=TCEVENT, **kw)

    def cases(self, rng, tier):
        out = []

        def r(ev, s, **kw):
            return {'events': ev, 'settings': s, 'launch': dict(serial_env(), **kw)}
        for s in range(len(SETTINGS)):
            out.append({'rounds': [r([0, 1], s)]})
            out.append({'rounds': [r([0], 0), r([0], s), r([1], s)]})
        for s in (0, 7, 4):
            out.append({'rounds': [dict(r([3, 1], s), form='nc'), r([0], s),
                                   dict(r([0], s), form='nc')]})
        n = 80 if tier == 'thorough' else 10
        for k in range(n):
            f = {'kind': 'crash' if k % 2 else 'torn', 'at': round(k / (n - 1), 4),
                 'frac': rng.choice([0.0, 0.3, 0.9])}
            out.append({'rounds': [r([2], 7, mask='mutate+', faults=[f]), r([2], 7)]})
            f = {'kind': rng.choice(['enospc', 'eio']), 'at': round(k / (n - 1), 4),
                 'sticky': bool(k % 2)}
            out.append({'rounds': [r([2], 7, mask='mutate+', faults=[f]), r([2], 7)]})
        return out

    def gen(self, rng, i, tier):
        rounds = []
        ev = rng.sample(range(NEVENT), rng.choice([1, 1, 1, 2, 3]))
        s = rng.randrange(len(SETTINGS))
        for k in range(rng.choice([1, 2, 2, 3])):
            if k:
                if rng.random() < 0.5:
                    ev = rng.sample(range(NEVENT), rng.choice([1, 1, 1, 2, 3]))
                if rng.random() < 0.5:
                    s = rng.randrange(len(SETTINGS))
            e = gen_env(rng, 1, masks=('mutate', 'mutate+'))
            if rng.random() < 0.5:
                kind = rng.choice(['crash', 'torn', 'enospc', 'eio', 'eacces', 'short'])
                f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random()}
                if kind not in ('crash', 'torn'):
                    f['sticky'] = kind != 'short' and rng.random() < 0.5
                if rng.random() < 0.5:
                    f['path'] = rng.choice(['tracks/*', 'windfield/*', 'process/*'])
                e['faults'] = [f]
            rounds.append({'events': ev, 'settings': s, 'launch': e})
            if rng.random() < 0.25:
                rounds[-1]['form'] = 'nc'
        if rounds[-1]['launch'].get('faults'):
            rounds.append(dict(rounds[-1], launch=gen_env(rng, 1)))
        return {'rounds': rounds}

    def shrink(self, case):
        for k in range(len(case['rounds']) - 1):
            c = copy.deepcopy(case)
            del c['rounds'][k]
            yield c
        for k, r in enumerate(case['rounds']):
            if r['launch'].get('faults'):
                c = copy.deepcopy(case)
                c['rounds'][k]['launch']['faults'] = []
                yield c
            else:
                if r['launch'] != serial_env():
                    c = copy.deepcopy(case)
                    c['rounds'][k]['launch'] = serial_env()
                    yield c
            for j in range(len(r['events'])):
                if len(r['events']) > 1:
                    c = copy.deepcopy(case)
                    del c['rounds'][k]['events'][j]
                    yield c

    # ------------------------------------------------------------ what is expected
    def fresh(self, ctx, events, s, form='csv'):
        """Results of these events in an empty directory."""
        def build():
            out = ctx.fresh('ref')
            cfg, ld = self.config(ctx, out, {'events': events, 'settings': s, 'form': form})
            o = self.run_event(ctx, cfg, serial_env('absent'), out, name='ref',
                               explore=False)
            bad = abnormal(ctx, o, None, 'reference run')
            return (bad, {}, []) if bad else ([],) + read_run(out)
        return cached(ctx, ('event', events, s, form), build)

    def expected(self, ctx, events, s, form='csv'):
        bad, res, tracks = self.fresh(ctx, events, s, form)
        if bad:
            return None, [Violation('single-' + b['cls'], b['msg']) for b in bad]
        d = untrue(tracks, events, form)
        if d:
            return None, [Violation('wrong-track', d)]
        n = len(events)
        opt = SETTINGS[s].get('Timeseries', {})
        ids = numbers(events, form)
        for i, e in enumerate(events):
            inside = not ('Region' in SETTINGS[s] and e == 6)
            kinds = ['gust'] + (['evolution'] if 'Windfields' in opt else [])
            for kind in kinds:
                name = '%s.%03d-%05d.nc' % ((kind,) + ids[i])
                if (name in res) != inside:
                    return None, [Violation('missing-result', 'event %d of %s: %s is %s' % (
                        i + 1, events, name, 'there' if name in res else 'missing'))]
                bad, one, _ = self.fresh(ctx, [e], s, form)
                if bad or not inside:
                    continue
                alone = '%s.%03d-%05d.nc' % ((kind,) + numbers([e], form)[0])
                if kind == 'gust':
                    d = misplaced(res[name], pool()[e])
                    if d:
                        return None, [Violation('wrong-field', 'event %d: %s' % (i + 1, d))]
                if form != 'csv' and kind == 'gust':
                    bad, alt, _ = self.fresh(ctx, [e], s)
                    d = bad or self.unlike(one[alone], alt['gust.001-00001.nc'])
                    if d:
                        return None, [Violation('form-matters', 'event %d of %s differs from '
                                                'the same event in a table: %s'
                                                % (i + 1, events, d))]
                d = diff_nc(res[name], one[alone])
                if d:
                    return None, [Violation('mixed-events', '%s of %d events differs from '
                                            'the event alone: %s' % (name, n, d))]
            if inside and 'Windfields' in opt:
                d = self.peaks(res, ids[i])
                if d:
                    return None, [Violation('wrong-steps', d)]
        if 'Extract' in opt and not any(x.startswith('ts.') for x in res):
            return None, [Violation('missing-result', 'no station series for %s' % events)]
        return res, []

    def unlike(self, one, alt):
        a, b = one['vars'], alt['vars']
        for k in a:
            x, y = a[k][0], b[k][0]
            if x.shape != y.shape:
                return '%s has shape %s, not %s' % (k, x.shape, y.shape)
            if x.dtype.kind == 'f' and not np.allclose(x, y, rtol=.02, atol=.5,
                                                         equal_nan=True):
                return '%s by up to %s' % (k, np.nanmax(abs(x - y)))
        return None

    def peaks(self, res, i):
        """The largest gust over the saved steps is the field of the event."""
        f = res['gust.%03d-%05d.nc' % i]['vars']
        g = f['vmax'][0]
        e = res['evolution.%03d-%05d.nc' % i]['vars']
        if len(e['time'][0]) == 0:
            return None if not np.any(g) else 'no time step saved, but there is wind'
        m = e['gust_speed'][0].max(axis=0)[::-1]
        if m.shape != g.shape or not np.allclose(m, g, rtol=1e-3, atol=1e-3):
            return 'event %s: largest gust over the saved steps is %s %s, field %s %s' % (
                i, m.shape, m.max(), g.shape, g.max())
        for x, y in ((e['lon'][0], f['lon'][0]), (e['lat'][0], f['lat'][0][::-1])):
            if not np.allclose(x, y, atol=1e-3):
                return 'event %s: steps saved at %s .. %s, field at %s .. %s' % (
                    i, x[0], x[-1], y[0], y[-1])
        return None

    def judge(self, ctx, out, exp, s):
        opt = SETTINGS[s].get('Timeseries', {})
        got, err = apart(read_results, out)
        if err:
            return [Violation('unreadable-result', err)]
        if 'Windfields' not in opt:
            got = {k: v for k, v in got.items() if not k.startswith('evolution')}
        if 'Extract' not in opt:
            got = {k: v for k, v in got.items() if k.endswith('.nc')}
        if sorted(got) != sorted(exp):
            return [Violation('result-files', 'results %s, expected %s'
                              % (sorted(got), sorted(exp)))]
        for n in sorted(got):
            d = diff_nc(got[n], exp[n]) if n.endswith('.nc') else (
                None if got[n] == exp[n] else '%d rows, expected %d other ones'
                % (len(got[n]), len(exp[n])))
            if d:
                return [Violation('wrong-result', '%s: %s' % (n, d))]
        return []

    def run(self, ctx, case):
        out = ctx.fresh('out')
        for k, r in enumerate(case['rounds']):
            exp, v = self.expected(ctx, r['events'], r['settings'], r.get('form', 'csv'))
            if v:
                return v
            cfg, ld = self.config(ctx, out, r)
            if k and os.path.isdir(pjoin(out, 'windfield')) and \
                    os.listdir(pjoin(out, 'windfield')):
                ctx.probe('results of an earlier run present')
            o = self.run_event(ctx, cfg, r['launch'], out)
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            if o.deadlock or o.step_cap or o.cpu_cap or not o.fired:
                v = abnormal(ctx, o)
                if v:
                    v[0]['msg'] += ' | ' + logs(ld)[-300:]
                    return v
            elif ended_badly(o):
                ctx.probe('failed run')
                continue
            v = self.judge(ctx, out, exp, r['settings'])
            if v:
                if o.fired:
                    v[0]['cls'] = 'silent-failure'
                return v
        return []


PLACES = ['docs', 'doc', 'vics', '3000', 'csv', 'ts.1']
PLOTS = [
    {'WindfieldInterface': {'PlotOutput': 'True'}, 'Timeseries': {'Extract': 'True'}},
    {'WindfieldInterface': {'PlotOutput': 'True'}},
    {'Timeseries': {'Extract': 'True'}},
    {'WindfieldInterface': {'PlotOutput': 'True', 'windFieldType': 'mcconochie'},
     'Timeseries': {'Extract': 'True'}},
    {'WindfieldInterface': {'PlotOutput': 'True'}, 'Timeseries': {'Extract': 'True'},
     'Region': {'gridLimit': "{'xMin':151.,'xMax':159.,'yMin':-19.,'yMax':-13.}"}},
]


def shown(d):
    """{file: data drawn} of the figures of a scenario."""
    res = {}
    for sub in ('', 'timeseries'):
        p = pjoin(d, 'plots', sub)
        for n in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if os.path.isfile(pjoin(p, n)):
                with open(pjoin(p, n), 'rb') as f:
                    b = f.read()
                try:
                    res[n] = json.loads(b)
                except ValueError:
                    res[n] = repr(b[:20])
    return res


def misdrawn(out, opts, number):
    """Compare the figures with field and series in the same folder: text or None."""
    figs = shown(out)
    if opts.get('WindfieldInterface', {}).get('PlotOutput'):
        g = nc_content(pjoin(out, 'windfield', 'gust.%03d-%05d.nc' % number))['vars']
        v = g['vmax'][0].astype('f8')
        if 'Region' in opts:
            lim = ast.literal_eval(opts['Region']['gridLimit'])
            lon, lat = g['lon'][0], g['lat'][0]
            v = v[np.ix_((lat >= lim['yMin']) & (lat <= lim['yMax']),
                         (lon >= lim['xMin']) & (lon <= lim['xMax']))]
        f = figs.pop('maxwind.png', None)
        if not isinstance(f, list):
            return 'no map of the largest winds'
        z = next((np.array(ax['field'], 'f8') for ax in f if ax['field'] is not None), None)
        if z is None or z.shape != v.shape or not np.allclose(z, v, rtol=1e-5):
            return 'the map does not show the field of the event'
    if 'Timeseries' in opts:
        ser = read_stations(out)
        want = {'ts.%s.png' % n[3:-4]: rows for n, rows in ser.items() if n.startswith('ts.')}
        got = {n: f for n, f in figs.items() if n.startswith('ts.')}
        if sorted(got) != sorted(want):
            return 'figures %s for the series %s' % (sorted(got), sorted(want))
        for n, f in got.items():
            if not isinstance(f, list):
                return '%s is incomplete: %s' % (n, f)
            rows = sorted(r.split(',') for r in want[n] if r[:1].strip() and '#' not in r
                          and not r.startswith('Station'))
            cols = list(zip(*[(float(r[4]), float(r[7]), float(r[8]) / 100.) for r in
                              sorted(rows, key=lambda r: r[1])]))
            day = [(np.datetime64(r[1].strip().replace(' ', 'T')) - np.datetime64('1970-01-01'))
                   / np.timedelta64(1, 'D') for r in sorted(rows, key=lambda r: r[1])]
            have = [y for ax in f for x, y in ax['lines']]
            if not all(len(x) == len(day) and np.allclose(x, day, rtol=0, atol=1e-4)
                       for ax in f for x, _ in ax['lines']):
                return '%s does not show the times of the station' % n
            if len(have) != len(cols):
                return '%s shows %d lines' % (n, len(have))
            for name, c in zip(('wind speed', 'direction', 'pressure'), cols):
                if not any(len(y) == len(c) and np.allclose(y, c, rtol=1e-4, atol=1e-3)
                           for y in have):
                    return '%s does not show the %s of the station' % (n, name)
    return None


class ScenarioFigures(Scenario):
    id = 'V02'
    preload = Scenario.preload + ('PlotInterface.maps', 'PlotInterface.plotTimeseries')
    real = Scenario.real + ['plotting up to the drawing library']
    rule = ('one evaluation = one history of scenario runs with figures in one output '
            'directory (other events, other settings, kills, failing file operations); after '
            'every run that reports success the data drawn are compared with its field and '
            'its station series')

    def prepare(self, ctx):
        st = pjoin(ctx.shared, 'static')
        fx.write_static(st)
        p = spots()
        fx.write_stations(pjoin(st, 'spots'), [(PLACES[i % len(PLACES)],) + p[i][1:]
                                               for i in range(len(PLACES))])

    def config(self, ctx, out, r):
        c, ld = Scenario.config(self, ctx, out, dict(r, settings=0))
        for k, v in PLOTS[r['settings']].items():
            c.setdefault(k, {}).update(v)
        return c, ld

    def run_event(self, ctx, cfg, env, out, **kw):
        return run_tcrm(ctx, cfg, env, out, script=TCEVENT, extra={'hooks': ['figures']}, **kw)

    def cases(self, rng, tier):
        out = []

        def r(ev, s, **kw):
            return {'events': [ev], 'settings': s, 'launch': dict(serial_env(), **kw)}
        for s in range(len(PLOTS)):
            out.append({'rounds': [r(0, s)]})
            out.append({'rounds': [r(1, 0), r(2, s)]})
        out.insert(1, {'rounds': [r(1, 0), dict(r(2, 0), form='nc')]})
        for path in ('windfield/gust*', 'process/timeseries/*', 'plots/*'):
            for k in range(4):
                f = {'kind': 'eio', 'path': path, 'at': k / 4 + 0.1, 'sticky': bool(k % 2)}
                if k < 2:
                    f['ops'] = ['open', 'read', 'pread']
                out.append({'rounds': [r(2, 0, mask='fine', faults=[f]), r(2, 0)]})
        return out

    def gen(self, rng, i, tier):
        rounds = []
        for k in range(rng.choice([1, 2, 2, 3])):
            e = gen_env(rng, 1, masks=('mutate', 'mutate+', 'fine'))
            if rng.random() < 0.5:
                kind = rng.choice(['crash', 'torn', 'enospc', 'eio', 'eio', 'eacces'])
                f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random()}
                if kind not in ('crash', 'torn'):
                    f['sticky'] = rng.random() < 0.4
                if rng.random() < 0.6:
                    f['path'] = rng.choice(['plots/*', 'windfield/*', 'process/*'])
                if kind == 'eio' and rng.random() < 0.4:
                    e['mask'] = 'fine'
                    f['ops'] = ['open', 'read', 'pread']
                e['faults'] = [f]
            rounds.append({'events': [rng.choice([0, 1, 2, 3, 4, 5, 7])],
                           'settings': rng.randrange(len(PLOTS)), 'launch': e})
            if rng.random() < 0.2:
                rounds[-1]['form'] = 'nc'
        if rounds[-1]['launch'].get('faults'):
            rounds.append(dict(rounds[-1], launch=gen_env(rng, 1)))
        return {'rounds': rounds}

    def run(self, ctx, case):
        out = ctx.fresh('out')
        for k, r in enumerate(case['rounds']):
            cfg, ld = self.config(ctx, out, r)
            if os.path.isdir(pjoin(out, 'plots')) and shown(out):
                ctx.probe('figures of an earlier run present')
            o = self.run_event(ctx, cfg, r['launch'], out)
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            if o.deadlock or o.step_cap or o.cpu_cap or not o.fired:
                v = abnormal(ctx, o)
                if v:
                    v[0]['msg'] += ' | ' + logs(ld)[-300:]
                    return v
            elif ended_badly(o):
                ctx.probe('failed run')
                continue
            d, err = apart(misdrawn, out, PLOTS[r['settings']],
                           numbers(r['events'], r.get('form', 'csv'))[0])
            if err or d:
                return [Violation('silent-failure' if o.fired else 'wrong-figure',
                                  '%s%s' % (err or d, ', success reported despite %s' %
                                            (o.fired[0],) if o.fired else ''))]
        return []


HOUSES = 'LID,LATITUDE,LONGITUDE,WIND_VULNERABILITY_FUNCTION_ID,REPLACEMENT_VALUE\n'


def houses():
    return [('H%d' % i, round(r[0][1] + 0.2, 2), round(r[0][2] - 0.3, 2), 100000 + 777 * i)
            for i, r in enumerate(pool())]


def misjudged(out, events, inside, form):
    """Compare the losses with the fields in the same folder: text or None."""
    d = pjoin(out, 'impact')
    have = sorted(os.listdir(d)) if os.path.isdir(d) else []
    want = ['gust.%03d-%05d.csv' % t for t, i in zip(numbers(events, form), inside) if i]
    if have != want:
        return 'losses %s, expected %s' % (have, want)
    for name in have:
        v = nc_content(pjoin(out, 'windfield', name[:-4] + '.nc'))['vars']
        lon, lat, g = (v[k][0].astype('f8') for k in ('lon', 'lat', 'vmax'))
        with open(pjoin(d, name)) as f:
            rows = [r.split(',') for r in f.read().splitlines()[1:]]
        if [r[0] for r in rows] != [h[0] for h in houses()]:
            return '%s has %d rows' % (name, len(rows))
        for (_, wind, loss), (h, y, x, value) in zip(rows, houses()):
            w = g[abs(lat - y).argmin(), abs(lon - x).argmin()]
            if abs(float(wind) - w) > 1e-3 or abs(float(loss) - value * w / 1000.) > .2:
                return '%s: building %s has wind %s and loss %s, field %s' % (
                    name, h, wind, loss, w)
    return None


class Losses(Scenario):
    id = 'I01'
    real = Scenario.real + ['impact stage up to the loss program']
    stubbed = STUB + ['the loss program, which is not part of the repository']
    rule = ('one evaluation = one history of scenario runs with losses in one output '
            'directory (other events, other settings, a missing or failing loss program, '
            'kills, failing file operations); after every run that reports success the '
            'losses are compared with the fields of its events')

    def prepare(self, ctx):
        Scenario.prepare(self, ctx)
        with open(pjoin(ctx.shared, 'static', 'houses.csv'), 'w') as f:
            f.write(HOUSES)
            for h, y, x, value in houses():
                f.write('%s,%s,%s,dw253,%s\n' % (h, y, x, value))

    def config(self, ctx, out, r):
        c, ld = Scenario.config(self, ctx, out, r)
        c['Actions']['ExecuteImpact'] = str(r.get('losses', True))
        c['Impact'] = {'Exposure': pjoin(ctx.shared, 'static', 'houses.csv')}
        return c, ld

    def run_event(self, ctx, cfg, env, out, **kw):
        tmp = pjoin(out, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        extra = {'hooks': ['commands', 'tmpdir'], 'tmpdir': tmp,
                 'commands': env.get('commands', [])}
        env = {k: v for k, v in env.items() if k != 'commands'}
        o = run_tcrm(ctx, cfg, env, out, script=TCEVENT, extra=extra, **kw)
        o.calls = 0
        if os.path.exists(pjoin(o.work, 'commands.0')):
            with open(pjoin(o.work, 'commands.0')) as f:
                o.calls = json.load(f)
        return o

    def cases(self, rng, tier):
        out = []

        def r(ev, s=0, **kw):
            return {'events': ev, 'settings': s, 'launch': dict(serial_env(), **kw)}
        for s in (0, 3, 4):
            out.append({'rounds': [r([0, 1, 6], s)]})
            out.append({'rounds': [r([0, 1, 2]), r([0], s), dict(r([1], s), losses=False)]})
        for bad in ([0], [1], [2], [3]):
            out.append({'rounds': [r([3, 4, 5], commands=bad), r([3, 4, 5])]})
            out.append({'rounds': [r([1, 4, 5]), r([3, 4, 5], commands=bad)]})
        n = 40 if tier == 'thorough' else 8
        for k in range(n):
            f = {'kind': ('crash', 'torn', 'enospc', 'eio')[k % 4], 'at': round(k / (n - 1), 4),
                 'frac': 0.4, 'path': 'impact/*' if k % 2 else 'tmp/*'}
            out.append({'rounds': [r([2, 3], 0, mask='mutate+', faults=[f]), r([2, 3])]})
        return out

    def gen(self, rng, i, tier):
        rounds = []
        for k in range(rng.choice([1, 2, 2, 3])):
            e = gen_env(rng, 1, masks=('mutate', 'mutate+', 'fine'))
            if rng.random() < 0.3:
                e['commands'] = [rng.randrange(4)]
            elif rng.random() < 0.6:
                kind = rng.choice(['crash', 'torn', 'enospc', 'eio', 'eio', 'eacces'])
                f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random()}
                if kind not in ('crash', 'torn'):
                    f['sticky'] = rng.random() < 0.4
                if rng.random() < 0.7:
                    f['path'] = rng.choice(['impact/*', 'impact', 'tmp/*', 'windfield/*'])
                if kind == 'eio' and rng.random() < 0.4:
                    e['mask'] = 'fine'
                    f['ops'] = ['open', 'read', 'pread']
                e['faults'] = [f]
            rounds.append({'events': rng.sample(range(NEVENT), rng.choice([1, 1, 2, 3])),
                           'settings': rng.choice([0, 1, 3, 4]), 'launch': e})
            if rng.random() < 0.2:
                rounds[-1]['losses'] = False
            if rng.random() < 0.2:
                rounds[-1]['form'] = 'nc'
        if rounds[-1]['launch'].get('faults') or rounds[-1]['launch'].get('commands'):
            rounds.append(dict(rounds[-1], launch=gen_env(rng, 1)))
        return {'rounds': rounds}

    def shrink(self, case):
        for c in Scenario.shrink(self, case):
            yield c
        for k, r in enumerate(case['rounds']):
            if r['launch'].get('commands'):
                c = copy.deepcopy(case)
                del c['rounds'][k]['launch']['commands']
                yield c

    def run(self, ctx, case):
        out = ctx.fresh('out')
        for k, r in enumerate(case['rounds']):
            cfg, ld = self.config(ctx, out, r)
            wanted = r.get('losses', True)
            inside = [not ('Region' in SETTINGS[r['settings']] and e == 6)
                      for e in r['events']]
            if k and os.path.isdir(pjoin(out, 'impact')) and os.listdir(pjoin(out, 'impact')):
                ctx.probe('losses of an earlier run present')
            o = self.run_event(ctx, cfg, r['launch'], out)
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            bad = r['launch'].get('commands', [])
            failing = wanted and any(inside) and (bad == [0] or any(
                0 < b <= sum(inside) for b in bad))
            if o.deadlock or o.step_cap or o.cpu_cap or not (o.fired or failing):
                v = abnormal(ctx, o)
                if v:
                    v[0]['msg'] += ' | ' + logs(ld)[-300:]
                    return v
            elif ended_badly(o):
                ctx.probe('failed run')
                continue
            elif failing:
                return [Violation('silent-failure', 'success reported although the loss '
                                  'program %s' % ('is missing' if bad == [0] else 'failed'))]
            if not wanted:
                if o.calls:
                    return [Violation('unasked', 'the loss program was called')]
                continue
            d, err = apart(misjudged, out, r['events'], inside, r.get('form', 'csv'))
            if not (err or d) and o.calls != sum(inside):
                d = 'the loss program was called %d times for %d fields' % (o.calls, sum(inside))
            if err or d:
                return [Violation('silent-failure' if o.fired else 'wrong-losses',
                                  '%s%s' % (err or d, ', success reported despite %s' %
                                            (o.fired[0],) if o.fired else ''))]
        return []
