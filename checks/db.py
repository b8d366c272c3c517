"""Event database: exact content under any parallelism, fault and repetition."""
import copy
import random

from .common import *

LIMIT = (150., 160., -20., -12.)
LIMITS = [LIMIT, (150., 155.2, -20., -12.), (152.3, 160., -17.7, -13.1)]
LON = np.round(np.arange(149.0, 161.01, 0.5), 4)
LAT = np.round(np.arange(-21.0, -10.99, 0.5), 4)[::-1]
YEARS = [2, 5, 10, 25, 50, 100, 1000]
NAMES = ['Alpha', 'Beta', "O'Hara", 'Delta "quoted"', 'St. Éloi', 'Foxtrot', 'Golf; DROP',
         'Hotel', 'India', 'Juliet']


MISSING = -9999.


class Data:
    """Inputs of the database stage as a pure function of a small description."""

    def __init__(self, d):
        rng = random.Random('db%s' % d['seed'])
        self.litter = d.get('litter')
        self.limit = LIMITS[d.get('limit', 0)]
        nr = np.random.RandomState(rng.getrandbits(31))
        self.stations = []
        for n in range(d['nst']):
            inside = n == 0 or rng.random() < 0.75
            if inside:
                lon, lat = rng.uniform(150.01, 159.99), rng.uniform(-19.99, -12.01)
            else:
                lon, lat = rng.choice([(149.9, -15.), (160.1, -15.), (155., -20.1),
                                       (155., -11.9), (10., 40.)])
            # keep away from cell midpoints, where "nearest" is a matter of rounding
            lon, lat = self.off(lon), self.off(lat)
            if inside and rng.random() < 0.15:
                lon -= 360.
            elif inside and rng.random() < 0.3:     # on the edge of the region
                k, lim = rng.randrange(4), rng.choice(LIMITS)
                lon, lat = (lim[k], lat) if k < 2 else (lon, lim[k])
            self.stations.append((str(1000 + n), NAMES[n % len(NAMES)] +
                                  rng.choice(['', str(n)]), lon, lat))
        self.tracks = {}
        ids = []
        for k in range(d['ntf']):
            n = rng.choice([1, 1, 2, 3])
            lst = []
            for j in range(n):
                a = fx.make_track(rng, j + 1, rng.choice([2, 3, 6, 11]),
                                  (151., 159., -19., -13.))
                lst.append(((j, k), a))
                ids.append((j, k))
            self.tracks['tracks.%05d.nc' % k] = lst
        extra = [(7, 90000 + k) for k in range(d['nev'])]
        rng.shuffle(ids)
        self.events = {}
        for (j, k) in (ids + extra)[:d['nev']]:
            shp = (LAT.size, LON.size)
            v = (95. * nr.rand(*shp)).astype('f4')
            u = (80. * nr.rand(*shp) - 40.).astype('f4')
            w = (80. * nr.rand(*shp) - 40.).astype('f4')
            p = (86000. + 15000. * nr.rand(*shp)).astype('f4')
            for x in (v, u, w):             # no wind in the east of the field
                x[:, -int(shp[1] // 4):] = 0.
            self.events['gust.%03d-%05d.nc' % (j, k)] = \
                ('%03d-%05d' % (j, k), 'tracks.%05d.nc' % k, v, u, w, p)
        ny = rng.choice([1, 3, len(YEARS)])
        self.years = YEARS[:ny]
        shp = (ny, LAT.size, LON.size)
        self.haz = {n: (30. + 60. * nr.rand(*shp)).astype('f4')
                    for n in ('wspd', 'wspdupper', 'wspdlower')}
        for n in ('loc', 'scale', 'shp'):
            self.haz[n] = nr.rand(*shp[1:]).astype('f4')
        # no wind in some cells, no fit in others
        none, unfit = nr.rand(*shp[1:]) < 0.15, nr.rand(*shp[1:]) < 0.15
        for x in self.haz.values():
            x[..., none] = 0.
            x[..., unfit] = MISSING

    @staticmethod
    def off(x):
        f = (x * 2) % 1.
        return round(x + 0.1, 3) if 0.4 < f < 0.6 else round(x, 3)

    def write(self, out):
        from netCDF4 import Dataset
        clean(pjoin(out, 'windfield'))
        for f, (eid, tf, v, u, w, p) in self.events.items():
            fx.write_gust(pjoin(out, 'windfield', f), LON, LAT, v, u, w, p, trackfile=tf,
                          extra={'tcrm_version': 'v9'})
        if self.litter and self.events:
            litter(pjoin(out, 'windfield'), None, sorted(self.events)[0])
        clean(pjoin(out, 'tracks'))
        for f, lst in self.tracks.items():
            fx.write_track_file(pjoin(out, 'tracks', f), lst)
        clean(pjoin(out, 'hazard'))
        nc = Dataset(pjoin(out, 'hazard', 'hazard.nc'), 'w')
        for n, x in (('ari', np.array(self.years, 'f8')), ('lat', LAT), ('lon', LON)):
            nc.createDimension(n, len(x))
            nc.createVariable(n, 'f8', (n,))[:] = x
        for n, x in self.haz.items():
            dims = ('ari', 'lat', 'lon') if x.ndim == 3 else ('lat', 'lon')
            nc.createVariable(n, 'f4', dims, fill_value=MISSING)[:] = x
        nc.tcrm_version = 'v9'
        nc.close()
        fx.write_stations(pjoin(out, '..', 'loc', 'stations'), self.stations)

    # ------------------------------------------------------- expected table rows
    def expect(self):
        def txt(x):
            return x
        locs, wind, haz, trk, ev = [], [], [], [], []
        for n, (code, name, lon, lat) in enumerate(self.stations):
            lon = lon % 360.
            if self.limit[0] <= lon <= self.limit[1] and self.limit[2] <= lat <= self.limit[3]:
                locs.append((n + 1, code, name, lon, lat, 10.0 + n, 'Testland'))
        for f, (eid, tf, v, u, w, p) in self.events.items():
            ev.append((eid, f, tf, float(v.max()), float(p.min())))
            for l in locs:
                i = int(np.argmin(abs(LON - l[3])))
                j = int(np.argmin(abs(LAT - l[4])))
                wind.append((l[0], eid, float(v[j, i]), float(u[j, i]), float(w[j, i]),
                             float(p[j, i])))
        for l in locs:
            i = int(np.argmin(abs(LON - l[3])))
            j = int(np.argmin(abs(LAT - l[4])))
            for k, y in enumerate(self.years):
                row = [float(self.haz[n][k, j, i]) for n in ('wspd', 'wspdupper', 'wspdlower')] \
                    + [float(self.haz[n][j, i]) for n in ('loc', 'scale', 'shp')]
                haz.append((l[0], float(y)) + tuple(None if x == MISSING else x for x in row))
        for f, lst in self.tracks.items():
            for (j, k), a in lst:
                for l in locs:
                    trk.append((l[0], '%03d-%05d' % (j, k),
                                mindist(a['Longitude'], a['Latitude'], l[3], l[4]) * 111.1251))
        return dict(tblLocations=locs, tblEvents=ev, tblWindSpeed=wind, tblHazard=haz,
                    tblTracks=trk)


def mindist(x, y, px, py):
    if len(x) == 1:
        return float(np.hypot(x[0] - px, y[0] - py))
    best = 1e9
    for k in range(len(x) - 1):
        ax, ay, bx, by = x[k], y[k], x[k + 1], y[k + 1]
        dx, dy = bx - ax, by - ay
        q = dx * dx + dy * dy
        t = 0. if q == 0 else min(1., max(0., ((px - ax) * dx + (py - ay) * dy) / q))
        best = min(best, float(np.hypot(ax + t * dx - px, ay + t * dy - py)))
    return best


COLS = {'tblLocations': 'locId,locCode,locName,locLon,locLat,locElev,locCountry',
        'tblEvents': 'eventId,eventFile,eventTrackFile,eventMaxWind,eventMinPressure',
        'tblWindSpeed': 'locId,eventId,wspd,umax,vmax,pmin',
        'tblHazard': 'locId,returnPeriod,wspd,wspdUpper,wspdLower,loc,scale,shape',
        'tblTracks': 'locId,eventId,distClosest'}


def norm(row):
    return tuple(x.decode() if isinstance(x, bytes) else
                 (round(x, 3) if isinstance(x, float) else x) for x in row)


def key(row):
    return tuple(str(x) for x in row)


def compare_db(path, exp):
    """First difference between the database and the expected rows, or None."""
    if not os.path.exists(path):
        return 'no database'
    for t, want in exp.items():
        try:
            got = [norm(r) for r in db_rows(path, t, COLS[t])]
        except sqlite3.Error as e:
            return '%s: %s' % (t, e)
        want = [norm(r) for r in want]
        if len(got) != len(want):
            return '%s has %d rows, expected %d' % (t, len(got), len(want))
        g, w = sorted(got, key=lambda r: key(r[:2])), sorted(want, key=lambda r: key(r[:2]))
        for a, b in zip(g, w):
            if len(a) != len(b) or not all(
                    (abs(x - y) < 2e-3 * max(1, abs(y) * 1e-3))
                    if isinstance(y, float) and isinstance(x, (int, float)) else x == y
                    for x, y in zip(a, b)):
                return '%s: row %s, expected %s' % (t, a, b)
    return None


def numbers(path):
    return sorted(db_rows(path, 'tblEvents', 'eventNumber,eventId'))


class Database(Property):
    preload = ('Utilities.parallel', 'database', 'Utilities.config', 'Utilities.track',
               'Utilities.maputils', 'shapefile')
    real = REAL + ['database stage', 'SQLite with its locking and journal']
    stubbed = STUB
    assumptions = ASSUME

    def setup(self, ctx, data, out):
        os.makedirs(out, exist_ok=True)
        clean(pjoin(out, '..', 'loc'))
        data.write(out)
        return self.config(ctx, out, data.limit)

    def config(self, ctx, out, limit):
        logdir = clean(ctx.path('log'))
        c = fx.base_config(pjoin(ctx.shared, 'static'), out, logdir, {'CreateDatabase'}, limit)
        c['Input']['LocationFile'] = os.path.normpath(pjoin(out, '..', 'loc', 'stations.shp'))
        return c, logdir

    def serial(self, ctx, d):
        def build():
            out = ctx.fresh('ref')
            data = Data(d)
            cfg, ld = self.setup(ctx, data, out)
            o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'ref', explore=False)
            bad = abnormal(ctx, o, ld, 'single-process run')
            if not bad:
                x = compare_db(pjoin(out, 'hazard.db'), data.expect())
                if x:
                    bad = [Violation('wrong-content', 'single process: ' + x)]
            return bad, (numbers(pjoin(out, 'hazard.db')) if not bad else None)
        return cached(ctx, ('db', sorted(d.items())), build)

    def gen_data(self, rng, small=False):
        return {'seed': rng.randrange(12), 'nev': rng.choice([0, 1, 2, 3] if small else
                                                              [0, 1, 2, 3, 5, 8, 13]),
                'ntf': rng.choice([1, 2, 3] if small else [0, 1, 2, 4, 7]),
                'nst': rng.choice([1, 2, 4] if small else [1, 2, 4, 9, 30]),
                'litter': rng.random() < 0.3, 'limit': rng.choice([0, 0, 1, 2])}

    def shrink(self, case):
        for c in shrink_faults(case):
            yield c
        for k in range(len(case['data'])):
            for f, lo in (('nst', 1), ('nev', 0), ('ntf', 0)):
                for v in sorted({lo, case['data'][k][f] // 2, case['data'][k][f] - 1}):
                    if lo <= v < case['data'][k][f]:
                        c = copy.deepcopy(case)
                        c['data'][k][f] = v
                        yield c
        for c in shrink_env(case):
            yield c


class Content(Database):
    id = 'D01'
    rule = ('one evaluation = one database build by several processes from generated wind '
            'fields, tracks, hazard map and locations; every table is compared row by row '
            'with rows derived independently from the same inputs')

    def cases(self, rng, tier):
        out = []
        for n in (1, 2, 3, 5):
            for nev, ntf, nst in ((0, 0, 2), (1, 1, 1), (5, 3, 4), (3, 7, 9), (13, 2, 30), (45, 20, 120)):
                out.append({'data': [{'seed': n, 'nev': nev, 'ntf': ntf, 'nst': nst}],
                            'launches': [gen_env(rng, n, masks=('none', 'mutate'))]})
        return out

    def gen(self, rng, i, tier):
        return {'data': [self.gen_data(rng)],
                'launches': [gen_env(rng, rng.choice([1, 2, 2, 3, 4, 5, 8]),
                                     masks=('none', 'mutate', 'mutate', 'fine'))]}

    def run(self, ctx, case):
        d = case['data'][0]
        bad, num = self.serial(ctx, d)
        if bad:
            return [Violation('single-' + b['cls'], b['msg']) for b in bad]
        out = ctx.fresh('out')
        data = Data(d)
        cfg, ld = self.setup(ctx, data, out)
        o = run_tcrm(ctx, cfg, case['launches'][0], out)
        v = abnormal(ctx, o, ld)
        if v:
            return v
        db = pjoin(out, 'hazard.db')
        x = compare_db(db, data.expect())
        if x:
            return [Violation('wrong-content', x)]
        if o.unmatched:
            return [Violation('message-left', 'messages never received: %s' % o.unmatched[:4])]
        got = numbers(db)
        if got != num:
            return [Violation('numbering', 'event numbers %s, single process gives %s'
                              % (got[:4], num[:4]))]
        if case['launches'][0]['ranks'] > d['nev'] + 1:
            ctx.probe('more processes than events')
        return []


class Rebuild(Database):
    id = 'D02'
    level = 'fault_enumeration'
    rule = ('one evaluation = one history of builds, each possibly killed or hit by failing '
            'file operations, possibly with new inputs in between, ended by an undisturbed '
            'build; the final tables are compared row by row with rows derived from the '
            'current inputs')

    def cases(self, rng, tier):
        out = []
        d = {'seed': 3, 'nev': 2, 'ntf': 2, 'nst': 3}
        out.append({'data': [d, d], 'launches': [serial_env(), serial_env()]})
        out.append({'data': [d, d, dict(d, nev=3)],
                    'launches': [serial_env(), dict(serial_env(), ranks=3), serial_env()]})
        out.append({'data': [dict(d, nst=9, limit=k) for k in (0, 1, 2)],
                    'launches': [serial_env(), serial_env(), dict(serial_env(), ranks=2)]})
        n = 200 if tier == 'thorough' else 24
        for k in range(n):
            for kind in ('torn', 'enospc'):
                out.append({'data': [d, d], 'launches': [
                    dict(serial_env(), mask='mutate+', faults=[
                        {'kind': kind, 'at': round(k / (n - 1), 4), 'frac': 0.5,
                         'sticky': bool(k % 2)}]),
                    dict(serial_env(), faults=[])]})
        # every single operation on the database file and its journal fails once
        n = 1000 if tier == 'thorough' else 240
        for k in range(n):
            out.append({'data': [d], 'launches': [
                dict(serial_env(), mask='mutate+', faults=[
                    {'kind': ('enospc', 'eio')[k % 2], 'at': round(k / (n - 1), 4),
                     'path': 'hazard.db*'}])]})
        return out

    def gen(self, rng, i, tier):
        d = self.gen_data(rng, small=True)
        data, ls = [], []
        for k in range(rng.choice([1, 1, 2, 3])):
            e = gen_env(rng, rng.choice([1, 2, 3]), masks=('mutate', 'mutate+'))
            e['faults'] = []
            if rng.random() < 0.85:
                kind = rng.choice(['crash', 'torn', 'torn', 'enospc', 'eio', 'eacces', 'kill',
                                   'unreadable'])
                if kind == 'unreadable':
                    e['mask'] = 'fine'
                    e['faults'] = [{'kind': rng.choice(['eio', 'eacces']), 'ops': ['open'],
                                    'at': gen_at(rng), 'sticky': rng.random() < .5,
                                    'path': rng.choice(['windfield/*', 'hazard/*', 'tracks/*',
                                                        '*'])}]
                    data.append(dict(d))
                    ls.append(e)
                    continue
                f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
                     'sticky': rng.random() < 0.5}
                if kind == 'kill':
                    f.update(rank=rng.randrange(e['ranks']), linger=rng.choice([0, 3, 20]))
                r = rng.random()
                if r < 0.3:
                    f.update(path='locations*')
                elif r < 0.7:
                    f.update(path='hazard.db*')
                e['faults'] = [f]
            data.append(dict(d))
            ls.append(e)
        if rng.random() < 0.4:
            d = dict(d, nev=rng.choice([0, 1, 2, 4]), ntf=rng.choice([1, 2, 3]),
                     limit=rng.choice([0, 1, 2]))
        data.append(dict(d))
        ls.append(dict(gen_env(rng, rng.choice([1, 2, 3]), masks=('none', 'mutate')),
                       faults=[]))
        return {'data': data, 'launches': ls}

    def run(self, ctx, case):
        out = ctx.fresh('out')
        db = pjoin(out, 'hazard.db')
        prev = None
        for k, (d, l) in enumerate(zip(case['data'], case['launches'])):
            data = Data(d)
            if d != prev:
                cfg, ld = self.setup(ctx, data, out)
                prev = d
            o = run_tcrm(ctx, cfg, l, out)
            if o.deadlock or o.step_cap or o.cpu_cap:
                return abnormal(ctx, o, ld)
            if not o.fired:
                v = abnormal(ctx, o, ld, 'build %d of %d' % (k + 1, len(case['launches'])))
                if v:
                    return v
            if not o.crashed and not ended_badly(o):
                x = compare_db(db, data.expect())
                if x:
                    return [Violation('silent-failure' if o.fired else 'wrong-content',
                                      'build %d reported success (faults %s) but %s'
                                      % (k + 1, o.fired[:1], x))]
            if o.crashed and os.path.exists(db + '-journal'):
                ctx.probe('crash left an unfinished transaction')
            if o.fired and k == 0 and not os.path.exists(db):
                ctx.probe('crash before the database existed')
        return []
