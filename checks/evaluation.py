"""Comparison of the catalogue with the history: any process count, any interruption."""
import copy
import random

from .common import *

LIMIT = (150., 162., -21., -12.)
SPACE = {'x': 3., 'y': 3.}
YEARS = 5
FILES = ['pressureDistribution.nc', 'density.nc', 'lonCrossings.nc', 'genesis_density.nc',
         'histCP.csv', 'synCP.csv']
GATES = [(154., -22.), (154.5, -19.), (155., -17.), (154., -15.), (154.5, -12.),
         (151., -11.), (150.5, -22.)]


def catalogue(kind, n):
    """n simulations with a few cyclones each."""
    rng = random.Random('%s-%d' % (kind, n))
    res = {}
    for s in range(n):
        k = {'small': 4, 'mixed': rng.choice([3, 3, 5, 8]), 'long': 4}[kind]
        if kind == 'mixed' and s == n // 2:
            k = 12
        res['tracks.%05d.nc' % s] = [
            ((j, s), fx.make_track(rng, j, rng.randint(20, 40) if kind == 'long' else
                                   rng.randint(4, 14),
                                   (LIMIT[0] + 0.5, LIMIT[1] - 0.5, LIMIT[2] + 0.5,
                                    LIMIT[3] - 0.5))) for j in range(k)]
        # one reaches the coast, one leaves it, one comes from outside
        for lon, bear in ((157., 270.), (152., 90.)):
            d = fx.make_track(rng, k, 14, (lon, lon + 0.5, -18., -13.))
            d['Latitude'] = d['Latitude'][0] + 0.05 * rng.random() * np.arange(14)
            d['Longitude'] = d['Longitude'][0] + (0.3 + 0.1 * rng.random()) * \
                np.arange(14) * (1 if bear == 90. else -1)
            res['tracks.%05d.nc' % s].append(((k, s), d))
            k += 1
        # in the first or last hours across one of the lines of longitude, then away from it
        for lon in (150., 160.):
            for bear in (-1, 1):
                for steps in ([-0.05, 0.2, 0.4, 0.5], [0.05, 0.1, 0.2, -0.1]):
                    if rng.random() < 0.5:
                        continue
                    d = fx.make_track(rng, k, 4, (lon, lon + 0.5, -20., -13.))
                    d['Longitude'] = lon + bear * np.array(steps)
                    res['tracks.%05d.nc' % s].append(((k, s), d))
                    k += 1
        d = res['tracks.%05d.nc' % s][0][1]
        if kind != 'small' and s % 2:
            res['tracks.%05d.nc' % s].append(
                ((k, s), np.array(d, copy=True)))
            res['tracks.%05d.nc' % s][-1][1]['Longitude'] -= 13.
    return res


def crossings(tracks, glon, glat):
    """Latitudes where the tracks pass a longitude: all, westward, eastward."""
    res = [[], [], []]
    for _, d in tracks:
        x, y = d['Longitude'], d['Latitude']
        for i in range(len(x) - 1):
            if (x[i] - glon) * (x[i + 1] - glon) < 0:
                c = y[i] + (y[i + 1] - y[i]) * (glon - x[i]) / (x[i + 1] - x[i])
                if glat[0] <= c <= glat[-1]:
                    res[0].append(c)
                    res[1 if x[i + 1] < x[i] else 2].append(c)
    return [np.histogram(r, glat, density=True)[0] if r else np.zeros(len(glat) - 1)
            for r in res]


def onland(x, y, coast):
    """Even-odd rule."""
    inside = False
    for (x1, y1), (x2, y2) in zip(coast, coast[1:] + coast[:1]):
        if (y1 > y) != (y2 > y) and x < x1 + (y - y1) * (x2 - x1) / (y2 - y1):
            inside = not inside
    return inside


def meets(p, q, a, b):
    def side(o, u, v):
        return (u[0] - o[0]) * (v[1] - o[1]) - (u[1] - o[1]) * (v[0] - o[0])
    return side(p, q, a) * side(p, q, b) < 0 and side(a, b, p) * side(a, b, q) < 0


def landfalls(tracks, gates):
    on, off = [], []
    for _, d in tracks:
        pts = list(zip(d['Longitude'], d['Latitude']))
        for p, q in zip(pts, pts[1:]):
            a, b = onland(*p, gates), onland(*q, gates)
            if a != b:
                for j in range(1, len(gates) - 1):
                    if meets(p, q, gates[j - 1], gates[j]):
                        (on if b else off).append(j)
    with np.errstate(all='ignore'):
        return [np.histogram(r, np.arange(len(gates)), density=True)[0] for r in (on, off)]


def expected(cat):
    """The statistics of the synthetic part, computed from the track files alone."""
    from scipy.stats import scoreatpercentile as pct
    from statsmodels.nonparametric.kernel_density import KDEMultivariate
    lon = np.arange(LIMIT[0], LIMIT[1] + 0.1, SPACE['x'])
    lat = np.arange(LIMIT[2], LIMIT[3] + 0.1, SPACE['y'])
    glon = np.arange(lon.min(), lon.max() + 0.5, 10.)
    glat = np.arange(lat.min(), lat.max() + 0.5, 2.)
    dens, gen, mean, low, cp, dist, cross, land = [], [], [], [], [], [], [], []
    for f in sorted(cat):
        tr = cat[f]
        x = np.concatenate([d['Longitude'] for _, d in tr])
        y = np.concatenate([d['Latitude'] for _, d in tr])
        p = np.concatenate([d['CentralPressure'] for _, d in tr])
        dens.append(np.histogram2d(x, y, [lon, lat])[0].T / YEARS)
        m = np.full((len(lat) - 1, len(lon) - 1), np.nan)
        l = m.copy()
        for i in range(len(lat) - 1):
            for j in range(len(lon) - 1):
                k = (y >= lat[i]) & (y < lat[i] + 3) & (x >= lon[j]) & (x < lon[j] + 3)
                if k.any():
                    m[i, j], l[i, j] = p[k].mean(), p[k].min()
        mean.append(m)
        low.append(l)
        first = np.array([(d['Longitude'][0], d['Latitude'][0]) for _, d in tr])
        ins = ((first[:, 0] >= LIMIT[0]) & (first[:, 0] <= LIMIT[1]) &
               (first[:, 1] >= LIMIT[2]) & (first[:, 1] <= LIMIT[3]))
        least = [d['CentralPressure'].min() if k else 0. for (_, d), k in zip(tr, ins)]
        cp += least
        dist.append(np.histogram(least, np.arange(850., 1020., 5.), density=True)[0])
        lo, la = (np.arange(LIMIT[k], LIMIT[k + 1] + 0.1) for k in (0, 2))
        xy = np.array([(a, b) for b in la for a in lo]).T
        gen.append(KDEMultivariate(first[ins].T, bw='cv_ml', var_type='cc')
                   .pdf(data_predict=xy).reshape(len(la), len(lo)))
        c = [crossings(tr, g, glat) for g in glon]
        cross.append([np.array([v[k] for v in c]).T for k in range(3)])
        land.append(landfalls(tr, GATES))
    def stats(v):
        v = np.array(v)
        return v.mean(axis=0), pct(v, per=95, axis=0), pct(v, per=5, axis=0)
    res = {}
    for name, v, names in (
            ('density.nc', dens, ('syn_density', 'syn_density_upper', 'syn_density_lower')),
            ('genesis_density.nc', gen,
             ('syn_density', 'syn_density_upper', 'syn_density_lower')),
            ('lonCrossings.nc', [c[0] for c in cross], ('syn_mean', 'syn_upper', 'syn_lower')),
            ('lonCrossings.nc', [c[1] for c in cross],
             ('syn_mean_ew', 'syn_upper_ew', 'syn_lower_ew')),
            ('lonCrossings.nc', [c[2] for c in cross],
             ('syn_mean_we', 'syn_upper_we', 'syn_lower_we'))):
        for n, val in zip(names, stats(v)):
            res[name, n] = val
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res['pressureDistribution.nc', 'syn_mean'] = np.nanmean(mean, axis=0)
        res['pressureDistribution.nc', 'syn_min'] = np.nanmean(low, axis=0)
        res['land'] = [stats([v[k] for v in land]) for k in (0, 1)]
    res['synCP.csv'] = np.array(cp)
    res['dist'] = stats(dist)[0]
    return res


def contents(out):
    """What the evaluation leaves behind."""
    d = pjoin(out, 'process')
    res = {}
    for n in FILES:
        p = pjoin(d, n)
        if not os.path.exists(p):
            continue
        res[n] = nc_content(p) if n.endswith('.nc') else np.atleast_1d(np.loadtxt(p))
    p = pjoin(out, 'plots', 'stats')
    res['plots'] = sorted(os.listdir(p)) if os.path.isdir(p) else []
    for n in res['plots']:
        with open(pjoin(p, n), 'rb') as f:
            b = f.read()
        if n == 'minPressureQuantiles.png':
            # the band around the quantiles is drawn at random
            b = json.dumps([ax['points'] for ax in json.loads(b)]).encode()
        res['plot ' + n] = b
    return res


def differ(got, ref):
    """(class, text) of the first difference from a run of one process."""
    for n in ['plots'] + sorted(ref):
        if n not in got:
            return 'missing-output', 'no %s' % n
        a, b = got[n], ref[n]
        if n.endswith('.nc'):
            d = diff_nc(a, b)
        elif n.endswith('.csv'):
            d = None if same(a, b) else '%d values, expected %d; %s' % (
                len(a), len(b), 'other order' if same(np.sort(a), np.sort(b)) else
                'other values')
        elif n == 'plots':
            d = None if a == b else 'figures %s, expected %s' % (
                sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        else:
            d = None if a == b else 'other data drawn'
        if d:
            return 'wrong-output', '%s: %s' % (n, d)
    return None


def wrong(got, want):
    """First difference from the independently computed statistics."""
    for k in sorted(want, key=str):
        w = want[k]
        if k == 'land':
            for ax, (mean, _, _), what in zip(json.loads(got['plot landfall_rates.png']), w,
                                              ('landfall', 'offshore')):
                if not any(len(l) == len(mean) and np.allclose(l, mean, rtol=1e-6)
                           for _, l in ax['lines']):
                    return 'no curve of the %s rates %s in the figure' % (what, mean)
            continue
        if k == 'dist':
            if not any(len(l) == len(w) and np.allclose(l, w, rtol=1e-6)
                       for _, l in json.loads(got['plot minPressureDist.png'])[0]['lines']):
                return 'no curve of the lowest pressures %s in the figure' % w
            continue
        if k == 'synCP.csv':
            q = [np.percentile(v[v > 0], range(1, 101)) for v in (got['histCP.csv'], w)]
            p = json.loads(got['plot minPressureQuantiles.png'])
            if not any(np.shape(v) == (100, 2) and np.allclose(v, np.transpose(q), rtol=1e-6)
                       for ax in p for v in ax):
                return 'the figure does not show the quantiles of the lowest pressures'
            g = got[k]
            if g.shape != w.shape or not np.allclose(np.sort(g), np.sort(w), rtol=1e-6):
                return 'lowest pressures of %d cyclones differ from the %d in the track files' \
                    % (len(g), len(w))
            continue
        v, atts, _ = got[k[0]]['vars'][k[1]]
        g = np.array(v, 'f8')
        hole = np.isnan(w)
        if g.shape != w.shape:
            return '%s %s: shape %s, expected %s' % (k + (g.shape, w.shape))
        bad = ~hole & ~np.isclose(g, w, rtol=1e-4, atol=1e-7)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return '%s %s: %d values differ from the track files, first at %s: %r, expected %r' \
                % (k + (int(bad.sum()), i, float(g[i]), float(w[i])))
    return None


class Evaluation(Property):
    preload = ('Utilities.parallel', 'Utilities.config', 'Utilities.track', 'Evaluate')
    real = REAL + ['evaluation stage', 'statsmodels']
    stubbed = STUB
    assumptions = ASSUME

    def prepare(self, ctx):
        st = pjoin(ctx.shared, 'static')
        fx.write_static(st)
        fx.write_history_csv(pjoin(st, 'history.csv'), seed=5, nstorms=10, box=LIMIT)
        with open(pjoin(st, 'gates.csv'), 'w') as f:
            for i, (x, y) in enumerate(GATES):
                f.write('%d,%s,%s\n' % (i, x, y))

    def fill(self, ctx, case, out):
        cat = catalogue(case['kind'], case['n'])
        os.makedirs(pjoin(out, 'tracks'), exist_ok=True)
        for f, tr in cat.items():
            fx.write_track_file(pjoin(out, 'tracks', f), tr)
        return cat

    def one(self, ctx, case, env, out, name='run', explore=True):
        logdir = clean(ctx.path('log'))
        st = pjoin(ctx.shared, 'static')
        c = fx.base_config(st, out, logdir, {'ExecuteEvaluate'}, LIMIT)
        c['Region']['gridSpace'] = repr(SPACE)
        c['TrackGenerator'].update({'YearsPerSimulation': YEARS, 'NumSimulations': case['n']})
        c['Input']['CoastlineGates'] = pjoin(st, 'gates.csv')
        return run_tcrm(ctx, c, env, out, name, explore=explore,
                        extra={'hooks': ['figures']}), logdir

    def reference(self, ctx, case):
        def build():
            out = ctx.fresh('ref')
            cat = self.fill(ctx, case, out)
            o, ld = self.one(ctx, case, serial_env('absent'), out, 'ref', explore=False)
            bad = abnormal(ctx, o, ld, 'single-process evaluation')
            if bad:
                return bad, None
            got, err = apart(contents, out)
            if err:
                return [Violation('unreadable', err)], None
            miss = [n for n in FILES + ['plot landfall_rates.png'] if n not in got]
            if miss:
                return [Violation('missing-output', 'not written: %s' % miss)], None
            d = wrong(got, expected(cat))
            if d:
                return [Violation('wrong-statistics', d)], None
            return [], got
        bad, got = cached(ctx, ('eval', case['kind'], case['n']), build)
        return [Violation('single-' + b['cls'], b['msg']) for b in bad], got

    def judge(self, out, ref, what):
        got, err = apart(contents, out)
        if err:
            return [Violation('unreadable', '%s: %s' % (what, err))]
        d = differ(got, ref)
        return [Violation(d[0], '%s: %s' % (what, d[1]))] if d else []

    def shrink(self, case):
        yield from shrink_faults(case)
        yield from shrink_env(case)
        if case['n'] > 2:
            yield dict(copy.deepcopy(case), n=case['n'] - 1)


class Parallel(Evaluation):
    id = 'E01'
    rule = ('one evaluation = the comparison of a generated catalogue with the history on '
            'generated processes; every file and figure is compared with one '
            'process, whose results are compared with statistics computed from the tracks')

    def cases(self, rng, tier):
        return [{'kind': k, 'n': n, 'launches': [gen_env(rng, r, masks=('none',))]}
                for k, n, r in (('small', 2, 2), ('mixed', 3, 4), ('mixed', 7, 3),
                                ('small', 2, 6))]

    def gen(self, rng, i, tier):
        return {'kind': rng.choice(['small', 'mixed', 'mixed', 'long']),
                'n': rng.choice([1, 2, 3, 5, 7, 11] if tier == 'quick' else [1, 2, 3, 5, 7, 12, 26]),
                'launches': [gen_env(rng, rng.choice([1, 2, 3, 3, 4, 6, 8]),
                                     masks=('none', 'none', 'mutate'))
                             for _ in range(rng.choice([1, 1, 1, 2]))]}

    def run(self, ctx, case):
        v, ref = self.reference(ctx, case)
        if v:
            return v
        out = ctx.fresh('out')
        self.fill(ctx, case, out)
        for k, env in enumerate(case['launches']):
            o, ld = self.one(ctx, case, env, out)
            v = abnormal(ctx, o, ld, 'evaluation on %d processes' % env['ranks'])
            if not v and o.unmatched:
                v = [Violation('message-left', 'messages never received: %s'
                               % o.unmatched[:4])]
            v = v or self.judge(out, ref, '%d simulations on %d processes' %
                                (case['n'], env['ranks']))
            if v:
                return v
            if env['ranks'] - 1 > case['n']:
                ctx.probe('more processes than simulations')
        return []


class Failing(Evaluation):
    id = 'E02'
    level = 'fault_enumeration'
    rule = ('one evaluation = runs of the comparison, some of them killed or hit by a failing '
            'file operation, then an undisturbed one; every run that reports success must '
            'leave the results of an undisturbed one')

    def cases(self, rng, tier):
        out = []
        n = 40 if tier == 'thorough' else 6
        for k in range(n):
            for kind in ('torn', 'enospc'):
                out.append({'kind': 'small', 'n': 2, 'launches': [
                    dict(serial_env(), mask='mutate+', faults=[
                        {'kind': kind, 'at': round((k + 0.5) / n, 4), 'frac': 0.5,
                         'sticky': False}]),
                    serial_env()]})
        # every reading of a simulation, every result file
        for k in range(10):
            out.append({'kind': 'small', 'n': 2, 'launches': [
                dict(serial_env(), mask='fine', faults=[
                    {'kind': 'eio', 'ops': ['open'], 'path': '*tracks.0*', 'nth': k + 1}])]})
        for name in FILES:
            out.append({'kind': 'small', 'n': 2, 'launches': [
                dict(serial_env(), mask='mutate+', faults=[
                    {'kind': 'enospc', 'path': '*%s*' % name, 'nth': rng.choice([1, 2, 3]),
                     'sticky': True}])]})
        return out

    def gen(self, rng, i, tier):
        ls = []
        for _ in range(rng.choice([1, 1, 2])):
            e = gen_env(rng, rng.choice([1, 2, 2, 3, 4]), masks=('mutate', 'mutate+'))
            kind = rng.choice(['crash', 'torn', 'torn', 'kill', 'enospc', 'eio', 'eacces',
                               'unreadable', 'unreadable'])
            f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
                 'sticky': kind not in ('crash', 'torn', 'kill') and rng.random() < 0.4}
            if kind == 'unreadable':
                e['mask'] = 'fine'
                f.update(kind='eio', ops=['open'])
                if rng.random() < 0.6:
                    f['path'] = '*tracks.0*'
            if kind == 'kill':
                f.update(rank=rng.randrange(e['ranks']), linger=rng.choice([0, 3, 20]))
            e['faults'] = [f]
            ls.append(e)
        ls.append(gen_env(rng, rng.choice([1, 2, 3]), masks=('none',)))
        return {'kind': rng.choice(['small', 'mixed']), 'n': rng.choice([2, 3, 5]),
                'launches': ls}

    def run(self, ctx, case):
        v, ref = self.reference(ctx, case)
        if v:
            return v
        out = ctx.fresh('out')
        self.fill(ctx, case, out)
        for env in case['launches']:
            o, ld = self.one(ctx, case, env, out)
            what = 'evaluation on %d processes' % env['ranks']
            if o.deadlock or o.step_cap or o.cpu_cap or not o.fired:
                v = abnormal(ctx, o, ld, what)
                if v:
                    return v
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            if ended_badly(o):
                ctx.probe('failure reported')
                continue
            v = self.judge(out, ref, what)
            if v:
                if o.fired:
                    v[0]['cls'] = 'silent-failure'
                    v[0]['msg'] = 'success reported despite %s, but %s' % (o.fired[:1],
                                                                          v[0]['msg'])
                return v
        return []
