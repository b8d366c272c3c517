"""Hazard stage: the return period map under any parallelism and fault."""
import copy
import itertools
import random

from .common import *

RES = 0.02
YEARS = [2, 5, 10, 20, 50, 100, 2500]

# name: (columns, rows, margin cells, simulated years, seed)
DATA = {
    'one': (40, 2, 3, 12, 1),
    'edge': (100, 2, 0, 9, 2),
    'two': (101, 2, 2, 14, 3),
    'three': (260, 2, 5, 10, 4),
    'nine': (870, 1, 4, 8, 5),
    'square': (130, 120, 2, 7, 6),
    'tall': (2, 320, 3, 11, 7),
    'south': (30, 8, 2, 9, 8),
    'busy': (12, 2, 1, 105, 9),     # more than 100 years and fields, many in one year
    'few': (24, 2, 1, 8, 10),       # two samples per cell for the confidence limits
    'pair': (20, 2, 1, 7, 11),      # a single sample
    'crowd': (6, 2, 1, 5, 13),      # more than 100 fields in one year
    'tiny': (10, 2, 1, 3, 12),      # too few years for any sample
}
SAMPLE = 4
ORIGIN = {'south': (150.0, -16.06)}


def grids(name):
    """Full wind field axes (lat north to south) and the region inside them."""
    nx, ny, m, nsim, seed = DATA[name]
    lon0, lat0 = ORIGIN.get(name, (150.0, -15.0))
    lon = np.round(lon0 + RES * np.arange(-m, nx + m), 4)
    lat = np.round(lat0 + RES * np.arange(-m, ny + m), 4)[::-1]
    limit = (lon0, round(lon0 + RES * (nx - 1), 4), lat0, round(lat0 + RES * (ny - 1), 4))
    return lon, lat, limit


def events(name):
    """[(track number, simulated year, vmax array)] of one data set."""
    nx, ny, m, nsim, seed = DATA[name]
    lon, lat, _ = grids(name)
    rng = np.random.RandomState(seed)
    shape = (lat.size, lon.size)
    # cells that ever see wind: tile borders, corners and a random sprinkle
    cols = sorted({c + m for b in range(0, nx, 100) for c in (b, b + 1, b + 50, b + 99)
                   if c < nx} | {m + nx - 1, 0, lon.size - 1})
    rows = sorted({c + m for b in range(0, ny, 100) for c in (b, b + 99) if c < ny}
                  | {m + ny - 1, 0, lat.size - 1})
    mask = np.zeros(shape, bool)
    mask[np.ix_([shape[0] - 1 - r for r in rows], cols)] = True
    k = rng.randint(0, mask.size, 25)
    mask.flat[k] = True
    base = 20. + 15. * rng.rand(*shape)
    out = []
    for year in range(nsim):
        n = rng.choice([0, 1, 1, 2, 3])
        if year == 0:
            n = 1
        if year == nsim - 1:
            n = 2
        if name == 'busy' and year == 7:
            n = 26
        if name == 'crowd' and year == 2:
            n = 130
        for j in range(n):
            v = base * (0.4 + 1.2 * rng.rand(*shape) ** 0.7)
            v[rng.rand(*shape) < 0.15] = 0.
            v[~mask] = 0.
            if name in ('few', 'pair') and year != 2:
                v[:, 1::3] = 0.         # places hit in one year only
            out.append((j, year, v.astype('f4')))
    return out


def write_data(d, name):
    lon, lat, _ = grids(name)
    clean(d)
    for j, year, v in events(name):
        z = np.zeros_like(v)
        fx.write_gust(pjoin(d, 'gust.%03d-%05d.nc' % (j, year)), lon, lat, v, z, z,
                      z + 100000.)


# ------------------------------------------------------------ independent model
def gev_k(t3):
    """GEV shape from L-skewness, solved numerically."""
    from scipy.optimize import brentq

    def f(k):
        if abs(k) < 1e-9:
            return 2. * np.log(3.) / np.log(2.) - 3. - t3
        return 2. * (1. - 3. ** -k) / (1. - 2. ** -k) - 3. - t3
    return brentq(f, -0.9999, 60.)


def gev_cell(x, years, minrec):
    """x: yearly maxima (any order). -> wspd list, loc, scale, shape or None to skip."""
    from math import gamma, log
    nod = -9999.
    x = np.sort(np.asarray(x, 'f8'))
    if x.max() <= 0:
        return [0.] * len(years), 0., 0., 0.
    nz = x[x != 0]
    bad = [nod] * len(years), nod, nod, nod
    if nz.min() == nz.max() or nz.size < minrec:
        return bad
    n = x.size
    i = np.arange(n)
    b0 = x.mean()
    b1 = (i * x).sum() / n / (n - 1)
    b2 = (i * (i - 1) * x).sum() / n / (n - 1) / (n - 2)
    l1, l2 = b0, 2 * b1 - b0
    t3 = (6 * b2 - 6 * b1 + b0) / l2
    if l2 <= 0 or abs(t3) >= 1:
        return bad
    k = gev_k(t3)
    if abs(k) < 2e-3:
        return None
    g = gamma(1 + k)
    a = l2 * k / (g * (1 - 2. ** -k))
    xi = l1 - a * (1 - g) / k
    if k <= 0:
        return [nod] * len(years), xi, a, k
    w = [xi + a / k * (1 - (-log(1 - 1. / t)) ** k) for t in years]
    return w, xi, a, k


def emp_cell(x, years, nsim):
    nod = -9999.
    if np.max(x) <= 0:
        return [0.] * len(years), 0., 0., 0.
    nobs = 365.25 * nsim
    m = int(nobs)
    y = np.zeros(m)
    y[m - len(x):] = np.sort(x)
    rp = 1. / (1. - np.arange(1, m + 1) / (nobs + 1)) / 365.25
    return list(np.interp(years, rp, y)), nod, nod, nod


def inside(name):
    """Columns and rows of the wind fields in the region."""
    lon, lat, lim = grids(name)
    return (np.flatnonzero((lon >= lim[0] - 1e-6) & (lon <= lim[1] + 1e-6)),
            np.flatnonzero((lat >= lim[2] - 1e-6) & (lat <= lim[3] + 1e-6)))


def annual(name):
    """Axes of the region and the largest value of every year in every cell."""
    lon, lat, _ = grids(name)
    ii, jj = inside(name)
    res = np.zeros((DATA[name][3], jj.size, ii.size), 'f4')
    for _, y, v in events(name):
        res[y] = np.maximum(res[y], v[np.ix_(jj, ii)])
    return lon[ii], lat[jj], res


def model(name, evd, years, minrec):
    """{(row, col) in the region: expected} for cells that see wind."""
    lon, lat, yearly = annual(name)
    ii, jj = inside(name)
    allv = np.array([v[np.ix_(jj, ii)] for _, _, v in events(name)])
    res = {}
    for r, c in np.argwhere(allv.max(axis=0) > 0):
        if evd == 'GEV':
            res[(r, c)] = gev_cell(yearly[:, r, c], years, minrec)
        else:
            res[(r, c)] = emp_cell(allv[:, r, c], years, DATA[name][3])
    return lon, lat, res


def limits(x, years):
    """All (lower, upper) limits of a cell that some choice of samples gives.

    Samples are disjoint groups of the yearly maxima, one short of the sample size or of the
    full size.  None: a fit too close to the other branch of the formula to be judged."""
    n = len(x) // SAMPLE
    for size in (SAMPLE - 1, SAMPLE):
        fits = {}
        for g in itertools.combinations(range(len(x)), size):
            e = gev_cell(x[list(g)], years, 0.3)
            fits[g] = e and np.array(e[0])
        for gs in itertools.combinations(fits, n):
            if len(set(sum(gs, ()))) < n * size:
                continue
            ws = [fits[g] for g in gs]
            if any(w is None for w in ws):
                yield None
                continue
            lim = np.full((2, len(years)), -9999.)
            for k in range(len(years)):
                ok = sorted(w[k] for w in ws if w[k] != -9999.)
                if ok:
                    lim[:, k] = np.percentile(ok, [5, 95])
            yield lim


class Hazard(Property):
    preload = ('Utilities.parallel', 'hazard', 'Utilities.nctools', 'Utilities.config')
    real = REAL + ['hazard stage']
    stubbed = STUB
    assumptions = ASSUME

    def prepare(self, ctx):
        for n in DATA:
            write_data(pjoin(ctx.shared, 'wind-' + n), n)

    def years(self, case):
        n = DATA[case['data']][3]
        if case['evd'] != 'emp':
            return YEARS
        nobs = 365.25 * n
        top = 1. / (1. - int(nobs) / (nobs + 1)) / 365.25
        return [y for y in YEARS if y < top - 0.1] or [1]

    def setup(self, ctx, case, out):
        name = case['data']
        _, _, lim = grids(name)
        os.makedirs(out, exist_ok=True)
        wd = pjoin(out, 'windfield')
        if not os.path.isdir(wd):
            shutil.copytree(pjoin(ctx.shared, 'wind-' + name), wd)
            if case.get('litter') and 'ref' not in out:
                litter(wd, None, sorted(os.listdir(wd))[0])
        logdir = clean(ctx.path('log'))
        c = fx.base_config(pjoin(ctx.shared, 'static'), out, logdir,
                           {'ExecuteHazard'}, lim)
        c['TrackGenerator']['NumSimulations'] = DATA[name][3]
        c['Hazard'].update({'ExtremeValueDistribution': case['evd'],
                            'CalculateCI': str(case['ci']), 'MinimumRecords': 3,
                            'SampleSize': SAMPLE,
                            'Years': ','.join(str(y) for y in self.years(case))})
        return c, logdir

    def serial(self, ctx, case):
        key = {k: case[k] for k in ('data', 'evd', 'ci')}

        def build():
            out = ctx.fresh('ref')
            cfg, ld = self.setup(ctx, case, out)
            o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'ref', explore=False)
            bad = abnormal(ctx, o, ld, 'single-process run')
            if bad:
                return bad, None
            p = pjoin(out, 'hazard', 'hazard.nc')
            if not os.path.exists(p):
                return [Violation('no-map', 'single-process run wrote no map')], None
            got = nc_content(p)
            bad = self.judge(case, got)
            return bad, got
        return cached(ctx, ('serial', sorted(key.items())), build)

    def judge(self, case, got):
        """Compare a map with the independent model."""
        if case['evd'] not in ('GEV', 'emp'):
            return []
        years = self.years(case)
        lon, lat, exp = model(case['data'], case['evd'], years, 3)
        w = got['vars']['wspd'][0]
        shape = (len(years), lat.size, lon.size)
        if w.shape != shape:
            return [Violation('wrong-shape', 'map shape %s, expected %s' % (w.shape, shape))]
        for nm, want in (('lon', lon), ('lat', lat), ('ari', np.array(years))):
            if not np.allclose(got['vars'][nm][0], want, atol=1e-4):
                return [Violation('wrong-axis', '%s axis %s' % (nm, got['vars'][nm][0][:5]))]
        cold = np.ones(w.shape[1:], bool)
        for (r, c), e in exp.items():
            cold[r, c] = False
            if e is None:
                continue
            ew, el, es, ek = e
            gw = w[:, r, c]
            if not np.allclose(gw, ew, rtol=2e-3, atol=2e-2):
                return [Violation('wrong-value', 'return levels at row %d col %d are %s, '
                                  'expected %s' % (r, c, gw, np.round(ew, 3)))]
            for nm, ev in (('loc', el), ('scale', es), ('shp', ek)):
                g = got['vars'][nm][0][r, c]
                if not np.isclose(g, ev, rtol=5e-3, atol=2e-2):
                    return [Violation('wrong-value', '%s at row %d col %d is %s, expected %s'
                                      % (nm, r, c, g, ev))]
        if np.any(w[:, cold] > 0):
            return [Violation('wrong-value', 'positive return level where no wind was felt')]
        if case['ci'] and case['evd'] == 'GEV':
            d = self.judge_limits(case['data'], years, got)
            return [Violation('wrong-limits', d)] if d else []
        return []

    def judge_limits(self, name, years, got):
        lon, lat, x = annual(name)
        low, upp = (got['vars'][k][0].astype('f8') for k in ('wspdlower', 'wspdupper'))
        for r, c in np.argwhere(x.max(axis=0) > 0):
            lo, up = low[:, r, c], upp[:, r, c]
            where = 'row %d col %d' % (r, c)
            if np.isnan(lo).any() or np.isnan(up).any():
                return 'limits at %s are not numbers' % where
            have = (lo != -9999.) & (up != -9999.)
            if np.any((lo == -9999.) != (up == -9999.)):
                return 'only one limit at %s: %s %s' % (where, lo, up)
            if np.any(lo[have] > up[have] + 1e-4):
                return 'lower limit above upper limit at %s: %s %s' % (where, lo, up)
            top = x[:, r, c].max()
            if np.any(lo[have] < -3 * top):
                return 'limits at %s are no wind speeds: %s %s' % (where, lo, up)
            rec = x[:, r, c]
            if np.unique(rec[rec > 0]).size < 2 and np.any(up[have] != 0):
                return 'limits at %s, hit only once: %s %s' % (where, lo, up)
            if name in ('few', 'pair', 'tiny'):
                if len(rec) < SAMPLE:
                    if have.any():
                        return 'limits at %s without enough years: %s %s' % (where, lo, up)
                    continue
                for lim in limits(rec, years):
                    if lim is None or (np.allclose(lo, lim[0], rtol=3e-3, atol=3e-2) and
                                       np.allclose(up, lim[1], rtol=3e-3, atol=3e-2)):
                        break
                else:
                    return 'limits at %s fit no sample of its records %s: %s %s' % (
                        where, np.round(rec, 2), lo, up)
        return None

    def shrink(self, case):
        for c in shrink_faults(case):
            yield c
        order = ['one', 'tiny', 'crowd', 'pair', 'few', 'south', 'edge', 'two', 'three', 'tall',
                 'square', 'nine', 'busy']
        for d in order[:order.index(case['data'])]:
            c = copy.deepcopy(case)
            c['data'] = d
            yield c
        for c in shrink_env(case):
            yield c


class MapParallel(Hazard):
    id = 'H01'
    rule = ('one evaluation = one multi-process run of the hazard stage on a generated '
            'set of wind fields; the map is compared bit for bit with the single-process '
            'map, which is itself compared with an independent calculation per cell')

    def cases(self, rng, tier):
        out = []
        for d in DATA:
            for evd, ci in (('GEV', False), ('emp', False), ('GEV', True)):
                if d == 'square' and ci:
                    continue
                out.append({'data': d, 'evd': evd, 'ci': ci,
                            'launches': [gen_env(rng, rng.choice([2, 3, 4, 5]),
                                                 masks=('none', 'mutate'))]})
        out.append({'data': 'two', 'evd': 'GPD', 'ci': False,
                    'launches': [gen_env(rng, 3, masks=('none',))]})
        out.append({'data': 'two', 'evd': 'power', 'ci': False,
                    'launches': [gen_env(rng, 3, masks=('none',))]})
        return out

    def gen(self, rng, i, tier):
        evd = rng.choice(['GEV', 'GEV', 'GEV', 'emp', 'GPD', 'power'])
        d = rng.choice(list(DATA))
        if evd in ('GPD', 'power') and d in ('square', 'nine', 'tall'):
            d = 'three'
        return {'data': d, 'evd': evd, 'litter': rng.random() < 0.25,
                'ci': evd in ('GEV', 'GPD') and rng.random() < 0.4,
                'launches': [gen_env(rng, rng.choice([1, 2, 2, 3, 4, 5, 6, 9, 12]),
                                     masks=('none', 'mutate', 'none', 'fine'))]}

    def run(self, ctx, case):
        bad, ref = self.serial(ctx, case)
        if bad:
            return [Violation('single-' + b['cls'], b['msg']) for b in bad]
        out = ctx.fresh('out')
        cfg, ld = self.setup(ctx, case, out)
        o = run_tcrm(ctx, cfg, case['launches'][0], out)
        v = abnormal(ctx, o, ld)
        if v:
            return v
        p = pjoin(out, 'hazard', 'hazard.nc')
        got = nc_try(p)
        if got is None:
            return [Violation('no-map', 'no readable map was written')]
        ntiles = -(-DATA[case['data']][0] // 100) * -(-DATA[case['data']][1] // 100)
        if case['launches'][0]['ranks'] - 1 > ntiles:
            ctx.probe('idle workers')
        if case['launches'][0]['ranks'] - 1 < ntiles:
            ctx.probe('workers given several tiles')
        if o.unmatched:
            v.append(Violation('message-left', 'messages never received: %s' % o.unmatched[:4]))
        d = diff_nc(got, ref)
        if d:
            v.append(Violation('differs-from-serial', d))
        return v


class MapAtomic(Hazard):
    id = 'H02'
    level = 'fault_enumeration'
    rule = ('one evaluation = one hazard run interrupted or hit by a failing file '
            'operation, over an earlier finished map or none, followed by a rerun; after '
            'the fault the map is the old one, the new one or absent, never a mixture, '
            'and a failure is reported')

    def cases(self, rng, tier):
        out = []
        n = 120 if tier == 'thorough' else 24
        for k in range(n):
            for kind in ('torn', 'enospc'):
                out.append({'data': 'one', 'evd': 'GEV', 'ci': False, 'old': bool(k % 2),
                            'launches': [dict(serial_env(), mask='mutate+', faults=[
                                {'kind': kind, 'at': round(k / (n - 1), 4), 'frac': 0.5,
                                 'path': 'hazard/*',
                                 'sticky': bool(k % 4 < 2)}]),
                                dict(serial_env(), mask='none', faults=[])]})
        return out

    def gen(self, rng, i, tier):
        r = rng.choice([1, 2, 3])
        e = gen_env(rng, r, masks=('mutate', 'mutate+'))
        kind = rng.choice(['crash', 'torn', 'enospc', 'eio', 'eacces', 'short', 'kill'])
        f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
             'sticky': kind != 'short' and rng.random() < 0.5}
        if kind == 'kill':
            f.update(rank=0, linger=rng.choice([0, 3, 20]))
        if rng.random() < 0.7:
            f['path'] = 'hazard/*'
        if rng.random() < 0.2:
            e['mask'] = 'fine'
            f = {'kind': rng.choice(['eio', 'eacces']), 'ops': ['open'], 'at': gen_at(rng),
                 'sticky': rng.random() < 0.3, 'path': 'windfield/*'}
        e['faults'] = [f]
        return {'data': rng.choice(['one', 'edge', 'two']), 'evd': 'GEV', 'ci': False,
                'old': rng.random() < 0.5,
                'launches': [e, dict(gen_env(rng, rng.choice([1, 2, 3]), masks=('none',)),
                                     faults=[])]}

    def run(self, ctx, case):
        bad, ref = self.serial(ctx, case)
        if bad:
            return [Violation('single-' + b['cls'], b['msg']) for b in bad]
        out = ctx.fresh('out')
        cfg, ld = self.setup(ctx, case, out)
        p = pjoin(out, 'hazard', 'hazard.nc')
        old = None
        if case['old']:
            ocase = dict(case, data='one' if case['data'] != 'one' else 'edge')
            _, old = self.serial(ctx, ocase)
            src = pjoin(ctx.shared, 'old-%s.nc' % ocase['data'])
            os.makedirs(pjoin(out, 'hazard'))
            _dump(p, old)
            old = nc_content(p)
        o = run_tcrm(ctx, cfg, case['launches'][0], out)
        if o.deadlock or o.step_cap or o.cpu_cap:
            return abnormal(ctx, o, ld)
        there = os.path.exists(p)
        got = nc_try(p) if there else None
        new_ok = got is not None and diff_nc(got, ref) is None
        old_ok = old is not None and got is not None and diff_nc(got, old) is None
        if there and not new_ok and not old_ok:
            return [Violation('partial-map', 'after %s the map file is neither the old nor '
                              'the new map (%s)' % (o.fired[:1], 'unreadable' if got is None
                                                   else diff_nc(got, ref)))]
        if not there and old is not None:
            return [Violation('map-lost', 'after %s the earlier map is gone' % o.fired[:1])]
        if not new_ok and not o.crashed and not ended_badly(o):
            return [Violation('silent-failure', 'the map was not written (%s) but the run '
                              'reported success' % o.fired[:1])]
        if o.fired and old_ok:
            ctx.probe('old map kept after the fault')
        o = run_tcrm(ctx, cfg, case['launches'][1], out)
        v = abnormal(ctx, o, ld)
        if v:
            return v
        got = nc_try(p)
        if got is None:
            return [Violation('no-map', 'rerun wrote no readable map')]
        d = diff_nc(got, ref)
        return [Violation('wrong-after-rerun', d)] if d else []


def _dump(path, content):
    """Write an nc_content() result back to a file (earlier map fixture)."""
    from netCDF4 import Dataset
    nc = Dataset(path, 'w')
    for n, (v, a, d) in content['vars'].items():
        for k, dn in enumerate(d):
            if dn not in nc.dimensions:
                nc.createDimension(dn, v.shape[k])
    for n, (v, a, d) in content['vars'].items():
        x = nc.createVariable(n, v.dtype, d, fill_value=a.get('_FillValue'))
        x[...] = v
        x.setncatts({k: y for k, y in a.items() if k != '_FillValue'})
    nc.close()
