"""Figures of the hazard: what is drawn, on any process count, under failures."""
import copy

from .common import *
from . import model as md

UNITS = {'mps': 1., 'mph': 2.2369, 'kts': 1.944, 'kph': 3.6, 'kmh': 3.6}
BASES = {
    'six': {'Hazard': {'ExtremeValueDistribution': 'emp', 'Years': '2,3'}},
    'bounds': {'TrackGenerator': {'NumSimulations': 20, 'Frequency': 6},
               'Hazard': {'CalculateCI': 'True', 'SampleSize': 5, 'Years': '2,5,10,2500'}},
    'none': {'Hazard': {'MinimumRecords': 50}},
}


def drawn(d):
    """Everything in the figures of a folder."""
    res = {}
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            with open(pjoin(d, n), 'rb') as f:
                b = f.read()
            try:
                res[n] = json.loads(b)
            except ValueError:
                res[n] = b[:40]
    return res


def same_fig(a, b):
    return json.dumps(a) == json.dumps(b)


def wrong(figs, out, units, base):
    """Compare figures with the hazard map and the database: text or None."""
    nc = nc_content(pjoin(out, 'hazard', 'hazard.nc'))
    v, atts, _ = nc['vars']['wspd']
    ari, lat, lon = (nc['vars'][k][0] for k in ('ari', 'lat', 'lon'))
    w = np.array(v, 'f8')
    w[v == atts['_FillValue']] = np.nan
    k = UNITS[units]
    want = set()
    for i, y in enumerate(ari):
        name = '%d_yrRP_hazard_map.png' % y
        want.add(name)
        if name not in figs:
            return 'no map for %d years' % y
        z = next((np.array(ax['field'], 'f8') for ax in figs[name]
                  if ax.get('field') is not None), None)
        if z is None or z.shape != w[i].shape or not np.allclose(z, k * w[i], rtol=1e-4,
                                                                 equal_nan=True):
            return 'the map for %d years does not show the return period wind speeds' % y
        x, t = next(np.array(ax['grid'], 'f8') for ax in figs[name]
                    if ax.get('field') is not None)
        x, t = (np.broadcast_to(v, z.shape) for v in (x if x.ndim == 2 else x[None],
                                                      t if t.ndim == 2 else t[:, None]))
        # whatever the projection, east is to the right of west and north above south
        if (np.diff(x, axis=1) * np.diff(lon) <= 0).any() or (
                np.diff(t, axis=0) * np.diff(lat)[:, None] <= 0).any():
            return 'the map for %d years shows the wind speeds of other places' % y
    db = pjoin(out, 'hazard.db')
    speeds = {}
    for l, s in db_rows(db, 'tblWindSpeed', 'locId, wspd'):
        speeds.setdefault(int(l), []).append(s)
    for l, x, y in db_rows(db, 'tblLocations', 'locId, locLon, locLat'):
        col = w[:, int(np.argmin(abs(lat - y))), int(np.argmin(abs(lon - x)))]
        name = 'ARI_curve_%d.png' % l
        if np.isnan(col).all():
            continue
        want.add(name)
        if name not in figs:
            return 'no curve for location %s' % l
        ax = figs[name][0]
        if not any(np.allclose(p, ari) and np.allclose(q, k * col, rtol=1e-4, equal_nan=True)
                   for p, q in ax['lines'] if len(p) == len(ari)):
            return 'location %s: no curve of its return period wind speeds' % l
        got = sorted(q for p in ax['points'] for _, q in p if q > 0)
        # records with a return period of more than a year
        rec = sorted(k * s for s in speeds.get(int(l), []) if s > 0)
        if len(got) > len(rec) or got and not np.allclose(got, rec[-len(got):], rtol=1e-4):
            return 'location %s: points %s are not its largest recorded speeds %s' % (
                l, got[-4:], rec[-4:])
        if not got and rec:
            return 'location %s: no recorded speeds shown' % l
        if 'wspdlower' in nc['vars']:
            cell = (slice(None), int(np.argmin(abs(lat - y))), int(np.argmin(abs(lon - x))))
            low, upp = (nc['vars'][n][0][cell].astype('f8') for n in ('wspdlower', 'wspdupper'))
            seen = [p for a in ax['areas'] for p in a]
            for t, q in list(zip(ari, low)) + list(zip(ari, upp)):
                if min(low.min(), upp.min()) > 0 and not any(
                        np.allclose(p, (t, k * q), rtol=1e-4) for p in seen):
                    return 'location %s: the confidence limit %s at %s years is not shown' % (
                        l, k * q, t)
    odd = set(figs) - want
    return 'figures of nothing in the results: %s' % sorted(odd) if odd else None


class Figures(Property):
    id = 'F01'
    preload = md.Model.preload + ('PlotInterface.AutoPlotHazard', 'PlotInterface.maps')
    real = REAL + ['hazard plotting stage up to the drawing library']
    stubbed = STUB
    assumptions = ASSUME
    level = 'fault_enumeration'
    rule = ('one evaluation = runs of the hazard plotting on generated processes, some killed '
            'or hit by a failing file operation; the data drawn are compared with the hazard '
            'map and the database')

    def prepare(self, ctx):
        st = pjoin(ctx.shared, 'static')
        fx.write_static(st)

    def config(self, ctx, base, stages, out, units='mps'):
        logdir = clean(ctx.path('log'))
        c = fx.base_config(pjoin(ctx.shared, 'static'), out, logdir, set(stages), md.LIMIT)
        c['WindfieldInterface'].update({'Resolution': 0.5, 'windFieldType': 'hubbert'})
        c['TrackGenerator'].update({'NumTimeSteps': 16, 'NumSimulations': 6, 'Frequency': 2})
        c['Hazard'].update({'Years': '2,5,10', 'PlotSpeedUnits': units})
        for s, opts in BASES[base].items():
            c[s].update(opts)
        return c, logdir

    def results(self, ctx, base):
        """Model results to draw, made once by a single process."""
        d = pjoin(ctx.shared, 'base-' + base)

        def build():
            out = ctx.fresh('base')
            cfg, ld = self.config(ctx, base, md.STAGES, out)
            o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'base', explore=False)
            bad = abnormal(ctx, o, ld, 'single-process model run')
            if not bad:
                shutil.rmtree(pjoin(out, 'plots'), ignore_errors=True)
                shutil.copytree(out, d)
            return bad
        return [Violation('model-' + b['cls'], b['msg'])
                for b in cached(ctx, ('base', base), build)], d

    def one(self, ctx, case, env, out, explore=True):
        cfg, ld = self.config(ctx, case['base'], ['PlotHazard'], out, case['units'])
        return run_tcrm(ctx, cfg, env, out, explore=explore, extra={'hooks': ['figures']}), ld

    def cases(self, rng, tier):
        res = [{'base': b, 'units': u, 'launches': [gen_env(rng, r, masks=('none',))]}
               for b, u, r in (('six', 'mps', 1), ('bounds', 'kmh', 3), ('six', 'kts', 2),
                               ('none', 'mph', 2), ('bounds', 'kph', 1))]
        for path in ('*hazard.nc', '*hazard.db', '*_yrRP_*', '*ARI_curve*'):
            for nth in (1, 2, 3):
                m = 'mutate+' if 'RP' in path or 'ARI' in path else 'fine'
                f = {'kind': 'eio', 'path': path, 'nth': nth, 'sticky': False}
                if m == 'fine':
                    f['ops'] = ['open', 'read', 'pread']
                res.append({'base': 'six', 'units': 'mps', 'launches': [
                    dict(serial_env(), mask=m, faults=[f]), serial_env()]})
        return res

    def gen(self, rng, i, tier):
        ls = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            e = gen_env(rng, rng.choice([1, 2, 3]), masks=('mutate', 'mutate+'))
            kind = rng.choice(['crash', 'torn', 'kill', 'enospc', 'eio', 'eacces',
                               'unreadable', 'unreadable'])
            f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
                 'sticky': kind not in ('crash', 'torn', 'kill') and rng.random() < 0.4}
            if kind == 'unreadable':
                e['mask'] = 'fine'
                f.update(kind='eio', ops=rng.choice([['open'], ['read', 'pread']]))
                if rng.random() < 0.6:
                    f['path'] = '*hazard*'
            if kind == 'kill':
                f.update(rank=rng.randrange(e['ranks']), linger=rng.choice([0, 3, 20]))
            e['faults'] = [f]
            ls.append(e)
        ls.append(gen_env(rng, rng.choice([1, 2, 3, 5]), masks=('none', 'mutate')))
        return {'base': rng.choice(list(BASES)), 'units': rng.choice(list(UNITS)),
                'launches': ls}

    def run(self, ctx, case):
        v, src = self.results(ctx, case['base'])
        if v:
            return v
        out = ctx.fresh('out')
        shutil.copytree(src, out, dirs_exist_ok=True)

        def build():
            ref = ctx.fresh('ref')
            shutil.copytree(src, ref, dirs_exist_ok=True)
            o, ld = self.one(ctx, case, serial_env('absent'), ref, explore=False)
            bad = abnormal(ctx, o, ld, 'single-process plotting')
            if bad:
                return bad, None
            figs = drawn(pjoin(ref, 'plots', 'hazard'))
            d, err = apart(wrong, figs, ref, case['units'], case['base'])
            if err or d:
                return [Violation('wrong-figure', err or d)], None
            return [], figs
        bad, ref = cached(ctx, ('fig', case['base'], case['units']), build)
        if bad:
            return [Violation('single-' + b['cls'], b['msg']) for b in bad]
        for env in case['launches']:
            o, ld = self.one(ctx, case, env, out)
            what = 'plotting on %d processes' % env['ranks']
            if o.deadlock or o.step_cap or o.cpu_cap or not o.fired:
                v = abnormal(ctx, o, ld, what)
                if v:
                    return v
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            if ended_badly(o):
                ctx.probe('failure reported')
                continue
            figs = drawn(pjoin(out, 'plots', 'hazard'))
            d = None
            if set(figs) != set(ref):
                d = 'figures %s missing, %s unexpected' % (
                    sorted(set(ref) - set(figs)), sorted(set(figs) - set(ref)))
            else:
                for n in sorted(ref):
                    if not same_fig(figs[n], ref[n]):
                        d = '%s shows other data' % n
                        break
            if d:
                return [Violation('silent-failure' if o.fired else 'wrong-figure',
                                  '%s: %s%s' % (what, d, ', success reported despite %s'
                                                % o.fired[:1] if o.fired else ''))]
        if len(ref) > 3:
            ctx.probe('curves drawn')
        return []

    def shrink(self, case):
        yield from shrink_faults(case)
        yield from shrink_env(case)
        for k in range(len(case['launches']) - 1):
            c = copy.deepcopy(case)
            del c['launches'][k]
            yield c


# ------------------------------------------------------------ figures of the observations
HISTORIES = [dict(seed=11, nstorms=60), dict(seed=12, nstorms=25), dict(seed=13, nstorms=40,
                                                                       missing=0.15),
             dict(seed=14, nstorms=30, form='split')]


def column(out, name):
    d = np.loadtxt(pjoin(out, 'process', name), comments='%', delimiter=',')
    return np.where(d > 1e18, np.nan, d)


def misread(csv, out):
    """Compare the processed observations with the input: text or None."""
    with open(csv) as f:
        rows = [l.rstrip('\n').split(',') for l in f]
    if rows.pop(0)[0] == 'Observations':
        more = [(float(r[10]) * .5144, float(r[11]) * 1.852) for r in rows[1:]]
        rows = [[r[0], '', '', '%04d-%02d-%02d %02d:%02d' % tuple(int(x) for x in r[2:7]), r[7],
                 r[8], float(r[9]) / 100.] for r in rows[1:]]
        wind, size = np.array(more).T
        for name, x in (('wind_speed', wind), ('all_rmax', size)):
            y = column(out, name)
            if len(y) != len(x) or not np.allclose(y, x, rtol=.002, atol=.02):
                return 'other values in %s' % name
    new = np.array([k == 0 or r[0] != rows[k - 1][0] for k, r in enumerate(rows)])
    lat, lon, prs = (np.array([float(r[k]) for r in rows]) for k in (4, 5, 6))
    prs = np.where((prs < 600) | (prs > 1100), np.nan, prs)
    t = np.array([r[3].replace(' ', 'T') for r in rows], 'M8[h]')
    c = column(out, 'cyclone_tracks')
    if len(c) != len(rows):
        return '%d positions processed, %d in the input' % (len(c), len(rows))
    if not same(c[:, 0] == 1, new):
        return 'cyclones begin at other positions'
    if abs(c[:, 1] - lon).max() > 0.011 or abs(c[:, 2] - lat).max() > 0.011:
        return 'other positions'
    if not np.allclose(column(out, 'all_pressure'), prs, atol=0.011, rtol=0, equal_nan=True):
        return 'other pressures'
    hours = np.diff(t).astype(float)
    rate = np.where(new[1:], np.nan, np.diff(prs) / hours)
    if not np.allclose(column(out, 'pressure_rate')[1:], rate, atol=0.011, rtol=0,
                       equal_nan=True):
        return 'other rates of pressure change'
    dx = np.diff(lon) * np.cos(np.radians((lat[1:] + lat[:-1]) / 2.))
    v = np.where(new[1:], np.nan, 111.2 * np.hypot(dx, np.diff(lat)) / hours)
    if not np.allclose(column(out, 'all_speed')[1:], v, atol=0.02, rtol=0.01, equal_nan=True):
        return 'other speeds'
    years = t.astype('M8[Y]').astype(int) + 1970
    f = column(out, 'frequency')
    want = {y: int((years[new] == y).sum()) for y in range(years.min(), years.max() + 1)}
    got = {int(y): int(n) for y, n in f}
    if {y: n for y, n in want.items() if n} != {y: n for y, n in got.items() if n}:
        return 'cyclones per year %s, expected %s' % (got, want)
    return None


def misdrawn(figs, out):
    """Compare figures with the processed observations: text or None."""
    d = {n: column(out, n) for n in (
        'pressure_rate', 'all_pressure', 'bearing_rate', 'all_bearing', 'speed_rate',
        'all_speed', 'frequency', 'cyclone_tracks', 'jday_obs', 'jday_genesis')}
    new = d['cyclone_tracks'][:, 0] == 1
    dlon, dlat = (np.diff(d['cyclone_tracks'][:, k])[~new[1:]] for k in (1, 2))
    cos = np.cos(d['all_bearing'] / 2.)
    pairs = {'pressure': (d['all_pressure'],), 'pressure_rate': (d['pressure_rate'],),
             'bearing': (cos,), 'bearing_rate': (d['bearing_rate'],),
             'speed': (d['all_speed'],), 'speed_rate': (d['speed_rate'],),
             'delta_lon': (dlon,), 'delta_lat': (dlat,), 'lonlat_corr': (dlon, dlat)}
    for n, xy in sorted(pairs.items()):
        x, y = xy if len(xy) == 2 else (xy[0][1:], xy[0][:-1])
        ok = ~np.isnan(x) & ~np.isnan(y)
        if n + '.png' not in figs:
            return 'no figure %s' % n
        pts = [p for ax in figs[n + '.png'] for p in ax['points']]
        exp = np.column_stack([x[ok], y[ok]])
        if len(pts) != 1 or len(pts[0]) != len(exp) or not np.allclose(pts[0], exp):
            return '%s shows %s points, expected the %d pairs of values' % (
                n, [len(p) for p in pts], len(exp))
    for n, v in (('pressure_rate', d['pressure_rate']), ('bearing_rate', d['bearing_rate']),
                 ('speed_rate', d['speed_rate']), ('delta_lon', dlon), ('delta_lat', dlat)):
        v = np.sort(v[~np.isnan(v)])
        name = 'qqplot_%s.png' % n
        if name not in figs:
            return 'no figure %s' % name
        if len(figs[name]) > 1:
            return '%s also shows other data' % name
        ax = figs[name][0]
        if not any(len(q) == len(v) and np.allclose(q, (v - v.mean()) / v.std())
                   for _, q in ax['lines']):
            return '%s does not show all values' % name
    low = [np.nanmin(p) for p in np.split(d['all_pressure'], np.where(new)[0][1:])
           if not np.isnan(p).all()]
    h, e = np.histogram(low, np.arange(850., 1020., 5), density=True)
    bars = figs['min_pressure_hist.png'][0]['bars']
    if len(figs['min_pressure_hist.png']) > 1 or len(bars) != len(h) or not np.allclose([b[2] for b in bars], h):
        return 'the lowest pressures are not those of the cyclones'
    for n, k, v in (('frequency', 0, d['frequency']), ('julian_day', 0, d['jday_obs']),
                    ('julian_day', 1, d['jday_genesis'])):
        bars = [b for b in figs[n + '.png'][k]['bars'] if b[2]]
        got = {int(round(x + w / 2.)): y for x, w, y in bars}
        if got != {i: y for i, (_, y) in enumerate(v) if y}:
            return '%s does not show the counts' % n
    want = {n + '.png' for n in list(pairs) + ['min_pressure_hist', 'frequency', 'julian_day']} | {
        'qqplot_%s.png' % n for n in ('pressure_rate', 'bearing_rate', 'speed_rate',
                                      'delta_lon', 'delta_lat')}
    odd = set(figs) ^ want
    return 'figures %s' % sorted(odd) if odd else None


class DataFigures(Property):
    id = 'F02'
    preload = md.Model.preload + ('PlotInterface.plotStats',)
    real = REAL + ['processing and plotting of observations up to the drawing library']
    stubbed = STUB
    assumptions = ASSUME
    level = 'fault_enumeration'
    rule = ('one evaluation = runs that process observations and draw them, some killed or hit '
            'by a failing file operation; the processed observations are compared with the '
            'input and the data drawn with the processed observations')

    def prepare(self, ctx):
        st = pjoin(ctx.shared, 'static')
        fx.write_static(st)
        for k, h in enumerate(HISTORIES):
            fx.write_history_csv(pjoin(st, 'history%d.csv' % k), **h)

    def csv(self, ctx, k):
        return pjoin(ctx.shared, 'static', 'history%d.csv' % k)

    def one(self, ctx, k, stages, env, out, explore=True):
        ld = clean(ctx.path('log'))
        c = fx.base_config(pjoin(ctx.shared, 'static'), out, ld, set(stages), md.LIMIT)
        c['DataProcess']['InputFile'] = self.csv(ctx, k)
        if HISTORIES[k].get('form') == 'split':
            c['SIM'].update(fx.SPLIT)
        return run_tcrm(ctx, c, env, out, explore=explore,
                        extra={'hooks': ['figures', 'bands']}), ld

    def processed(self, ctx, k):
        d = pjoin(ctx.shared, 'processed-%d' % k)

        def build():
            out = ctx.fresh('base')
            o, ld = self.one(ctx, k, ['DataProcess'], serial_env('absent'), out, explore=False)
            bad = abnormal(ctx, o, ld, 'single-process run')
            if not bad:
                x, err = apart(misread, self.csv(ctx, k), out)
                if err or x:
                    bad = [Violation('wrong-data', err or x)]
                shutil.copytree(out, d)
            return bad
        return [Violation('single-' + b['cls'], b['msg'])
                for b in cached(ctx, ('processed', k), build)], d

    def cases(self, rng, tier):
        res = []
        for k, n, s in ((0, 1, 1), (1, 3, 1), (2, 2, 0), (3, 1, 0), (0, 2, 0), (2, 1, 1)):
            res.append({'runs': [{'data': k, 'first': s,
                                  'launch': gen_env(rng, n, masks=('none',))}]})
        for path in ('*process/*', '*cyclone_tracks', '*jday*', '*plots/stats/*'):
            for nth in (1, 3, 8):
                m = 'mutate+' if 'plots' in path else 'fine'
                f = {'kind': 'eio', 'path': path, 'nth': nth, 'sticky': False}
                if m == 'fine':
                    f['ops'] = ['open', 'read', 'pread']
                res.append({'runs': [
                    {'data': 0, 'first': 1, 'launch': dict(serial_env(), mask=m, faults=[f])},
                    {'data': 0, 'first': 1, 'launch': serial_env()}]})
        return res

    def gen(self, rng, i, tier):
        runs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            e = gen_env(rng, rng.choice([1, 2, 3]), masks=('mutate', 'mutate+'))
            r = {'data': rng.randrange(len(HISTORIES)), 'first': 0, 'launch': e}
            if runs and r['data'] == runs[-1]['data'] or not runs and rng.random() < 0.6:
                r['first'] = rng.choice([0, 1])
            if runs and runs[-1]['launch'].get('faults') and not runs[-1]['first']:
                r['first'] = 0
            if rng.random() < 0.6:
                kind = rng.choice(['crash', 'torn', 'kill', 'enospc', 'eio', 'eacces',
                                   'unreadable', 'unreadable'])
                f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
                     'sticky': kind not in ('crash', 'torn', 'kill') and rng.random() < 0.4}
                if kind == 'unreadable':
                    e['mask'] = 'fine'
                    f.update(kind='eio', ops=rng.choice([['open'], ['read', 'pread']]))
                if kind == 'kill':
                    f.update(rank=rng.randrange(e['ranks']), linger=rng.choice([0, 3, 20]))
                e['faults'] = [f]
            runs.append(r)
        if runs[-1]['launch'].get('faults'):
            runs.append(dict(runs[-1], launch=gen_env(rng, rng.choice([1, 2, 4]),
                                                      masks=('none', 'mutate'))))
        return {'runs': runs}

    def run(self, ctx, case):
        out = ctx.fresh('out')
        for n, r in enumerate(case['runs']):
            v, src = self.processed(ctx, r['data'])
            if v:
                return v
            if not n and r['first']:
                shutil.copytree(src, out, dirs_exist_ok=True)
            o, ld = self.one(ctx, r['data'], ['DataProcess', 'PlotData'][r['first']:],
                             r['launch'], out)
            what = 'run on %d processes' % r['launch']['ranks']
            if o.deadlock or o.step_cap or o.cpu_cap or not o.fired:
                v = abnormal(ctx, o, ld, what)
                if v:
                    return v
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            if ended_badly(o):
                ctx.probe('failure reported')
                continue
            d, err = apart(misread, self.csv(ctx, r['data']), out)
            cls = 'wrong-data'
            if not d and not err:
                cls = 'wrong-figure'
                d, err = apart(misdrawn, drawn(pjoin(out, 'plots', 'stats')), out)
            if d or err:
                return [Violation('silent-failure' if o.fired else cls, '%s: %s%s' % (
                    what, d or err, ', success reported despite %s' % o.fired[:1]
                    if o.fired else ''))]
            ctx.probe('all figures')
        return []

    def shrink(self, case):
        for k in range(len(case['runs']) - 1):
            c = copy.deepcopy(case)
            del c['runs'][k]
            yield c
        for k, r in enumerate(case['runs']):
            if r['launch'].get('faults'):
                c = copy.deepcopy(case)
                c['runs'][k]['launch']['faults'] = []
                yield c
            if r['launch']['ranks'] > 1:
                c = copy.deepcopy(case)
                c['runs'][k]['launch']['ranks'] -= 1
                yield c
