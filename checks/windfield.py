"""Wind field stage: one correct field per cyclone, under any parallelism and fault."""
import copy
import os
from os.path import join as pjoin
import random

from cftime import num2date

from .common import *

LIMIT = (150., 160., -20., -12.)
MARGIN = 1.0
NTRACK = 26
LONG = (26, 27)         # many time steps; only where asked for

VARIANTS = {
    'holland': {'profileType': 'holland', 'windFieldType': 'kepert'},
    'powell': {'profileType': 'powell', 'windFieldType': 'mcconochie'},
    'schloemer': {'profileType': 'schloemer', 'windFieldType': 'hubbert'},
    'full': {'profileType': 'holland', 'windFieldType': 'kepert', 'Domain': 'full'},
    'nolimit': {'profileType': 'holland', 'windFieldType': 'kepert'},
    'steps': {'profileType': 'holland', 'windFieldType': 'kepert'},
}
STEPS = {'Timeseries': {'Windfields': 'True'}}


def pool():
    """The cyclones cases are drawn from: index -> track array (without id)."""
    rng = random.Random(4242)
    out = []
    for i in range(18):
        if i in (5, 11):          # far away: outside the region
            box = (100., 105., -50., -45.)
        elif i == 7:              # close to the edge
            box = (148.6, 149.4, -16., -15.)
        else:
            box = (151., 159., -19., -13.)
        out.append(fx.make_track(rng, 1, rng.choice([1, 2, 3, 5, 8, 13]), box))
    # in the margin only, on each side; then leaving and entering on each side
    for a, b in (((149.2, -16.), (149.4, -15.)), ((160.7, -15.), (160.6, -14.)),
                 ((154., -20.6), (155., -20.7)), ((157., -11.5), (156., -11.3)),
                 ((151.5, -16.), (145., -16.5)), ((163., -15.), (157.5, -14.)),
                 ((154., -18.), (155., -24.)), ((156., -7.), (155.5, -13.5))):
        out.append(path(rng, 9, a, b))
    for a, b in (((151., -19.), (158.5, -13.)), ((159., -14.), (152., -17.))):
        out.append(path(rng, 130, a, b))
    # the same way as others but for a few hundred metres, of other strength and size
    for i in (0, 2, 8, 12):
        t = out[i].copy()
        t['Longitude'] += 0.0021
        t['Latitude'] -= 0.0017
        t['CentralPressure'] -= 12.
        t['rMax'] *= 1.2
        t['Bearing'] = (t['Bearing'] + 40.) % 360.
        out.append(t)
    return out


def path(rng, npts, a, b):
    """A cyclone going straight from a to b."""
    t = fx.make_track(rng, 1, npts, (a[0], a[0], a[1], a[1]))
    t['Longitude'] = np.linspace(a[0], b[0], npts)
    t['Latitude'] = np.linspace(a[1], b[1], npts)
    return t


def affects(tr, limit, margin):
    """The cyclone is at some time inside the region or its margin."""
    x, y = tr['Longitude'], tr['Latitude']
    return bool(np.any((x >= limit[0] - margin) & (x <= limit[1] + margin) &
                       (y >= limit[2] - margin) & (y <= limit[3] + margin)))


def affects_at(tr, limit):
    x, y = tr['Longitude'], tr['Latitude']
    return (x >= limit[0]) & (x <= limit[1]) & (y >= limit[2]) & (y <= limit[3])


POOL = pool()


def field_files(d, steps):
    """Finished fields, with the files of saved time steps if those are asked for."""
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d) if f.endswith('.nc') and
                  (f.startswith('gust') or steps and f.startswith('evolution')))


def build_tracks(d, layout):
    """layout: {file name: [[sim, number, pool index], ...]}"""
    p = POOL
    clean(d)
    for name, lst in layout.items():
        trs = []
        for sim, num, idx in lst:
            a = p[idx].copy()
            a['CycloneNumber'] = num
            trs.append(((num, sim), a))
        fx.write_track_file(pjoin(d, name), trs)


class Wind(Property):
    preload = ('Utilities.parallel', 'wind', 'Utilities.nctools', 'Utilities.config',
               'Utilities.track', 'wind.windmodels')
    real = REAL + ['wind stage']
    stubbed = STUB
    assumptions = ASSUME

    def prepare(self, ctx):
        fx.write_static(pjoin(ctx.shared, 'static'))

    def config(self, ctx, out, variant, res=0.4, more=None):
        logdir = clean(ctx.path('log'))
        c = fx.base_config(pjoin(ctx.shared, 'static'), out, logdir,
                           {'ExecuteWindfield'}, LIMIT)
        c['WindfieldInterface'].update(VARIANTS[variant])
        c['WindfieldInterface'].update({'Resolution': res, 'Margin': MARGIN})
        if variant == 'nolimit':
            del c['Region']['gridLimit']
        if variant == 'steps':
            c.setdefault('Timeseries', {}).update(STEPS['Timeseries'])
        for k, v in (more or {}).items():
            c.setdefault(k, {}).update(v)
        return c, logdir

    def alone(self, ctx, variant, fname, sim, num, idx):
        """
        The field this cyclone gets when it is the only one, computed by a
        single process without MPI: {file name: content} (0 or 1 entries).
        """
        def build():
            out = ctx.fresh('ref')
            build_tracks(pjoin(out, 'tracks'), {fname: [[sim, num, idx]]})
            cfg, ld = self.config(ctx, out, variant)
            o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'ref', explore=False)
            bad = abnormal(ctx, o, ld, 'reference run')
            wd = pjoin(out, 'windfield')
            res = {f: nc_content(pjoin(wd, f))
                   for f in field_files(wd, variant == 'steps')}
            return bad, res
        return cached(ctx, ('alone', variant, fname, sim, num, idx), build)

    def expected(self, ctx, case):
        exp, v = {}, []
        n = 0
        for fname, lst in case['layout'].items():
            for sim, num, idx in lst:
                bad, res = self.alone(ctx, case['variant'], fname, sim, num, idx)
                if bad:
                    return None, [Violation('single-' + b['cls'], 'one cyclone alone: ' +
                                            b['msg']) for b in bad]
                want = int(case['variant'] == 'nolimit' or
                           affects(POOL[idx], LIMIT, MARGIN))
                if case['variant'] == 'steps':
                    v += self.peaks(res, sim, num)
                    want *= 2
                if len(res) != want:
                    v.append(Violation('missing-field', 'cyclone %s-%s alone gives %d '
                                       'fields, expected %d' % (sim, num, len(res), want)))
                name = 'gust.%03d-%05d.nc' % (num, sim)
                for f, c in res.items():
                    if f == name.replace('gust', 'evolution'):
                        exp[f] = c
                        continue
                    src = os.path.basename(str(c['atts'].get('track_file')))
                    if f != name:
                        v.append(Violation('wrong-name', 'cyclone %s of simulation %s alone '
                                           'gives %s' % (num, sim, f)))
                    elif src != fname:
                        v.append(Violation('wrong-source', '%s: source %s, not %s'
                                           % (f, src, fname)))
                    if f in exp:
                        v.append(Violation('name-clash', 'two cyclones share ' + f))
                    exp[f] = c
        return exp, v

    def peaks(self, res, sim, num):
        """The largest gust over the saved steps is the field of the cyclone."""
        g = res.get('gust.%03d-%05d.nc' % (num, sim))
        e = res.get('evolution.%03d-%05d.nc' % (num, sim))
        if g is None or e is None:
            return []
        g, e = g['vars']['vmax'][0], e['vars']['gust_speed'][0]
        m = e.max(axis=0)[::-1] if len(e) else np.zeros_like(g)
        if m.shape != g.shape or not np.allclose(m, g, rtol=1e-3, atol=1e-3):
            return [Violation('wrong-steps', 'cyclone %s-%s: largest gust over the saved '
                              'steps is %s, field %s' % (sim, num, m.max(), g.max()))]
        return []

    def compare(self, wd, exp):
        v = []
        got = field_files(wd, any(f.startswith('evolution') for f in exp))
        miss = sorted(set(exp) - set(got))
        more = sorted(set(got) - set(exp))
        if miss:
            v.append(Violation('missing-field', 'no wind field for %s' % miss))
        if more:
            v.append(Violation('extra-field', 'unexpected wind fields %s' % more))
        for f in got:
            if f not in exp:
                continue
            c = nc_try(pjoin(wd, f))
            if c is None:
                v.append(Violation('unreadable-field', '%s cannot be read' % f))
                continue
            d = diff_nc(c, exp[f])
            if d:
                v.append(Violation('wrong-field', '%s: %s' % (f, d)))
            a, b = c['atts'].get('track_file'), exp[f]['atts'].get('track_file')
            if a and b and os.path.basename(a) != os.path.basename(b):
                v.append(Violation('wrong-source', '%s: source %s' % (f, a)))
        return v

    def gen_layout(self, rng, nfiles, ntracks):
        layout = {}
        idxs = list(range(NTRACK))
        for k in range(nfiles):
            lst = []
            for n in range(ntracks(k)):
                if not idxs:
                    break
                idx = idxs.pop(rng.randrange(len(idxs)))
                lst.append([k, len(lst) + 1, idx])
            if lst:
                layout['tracks.%05d.nc' % k] = lst
        return layout

    def shrink(self, case):
        for c in shrink_faults(case):
            yield c
        for f in sorted(case['layout']):
            if len(case['layout']) > 1:
                c = copy.deepcopy(case)
                del c['layout'][f]
                yield c
            if len(case['layout'][f]) > 1:
                for i in range(len(case['layout'][f])):
                    c = copy.deepcopy(case)
                    del c['layout'][f][i]
                    yield c
        for c in shrink_env(case):
            yield c


class FieldPerCyclone(Wind):
    id = 'W01'
    rule = ('one evaluation = one multi-process run of the wind stage on a generated '
            'track set, every produced field compared with the field the same cyclone '
            'gets alone in one process')

    def cases(self, rng, tier):
        out = []
        L1 = {'tracks.00000.nc': [[0, 1, 0], [0, 2, 1], [0, 3, 5], [0, 4, 2], [0, 5, 3]]}
        L3 = {'tracks.00000.nc': [[0, n + 1, 18 + n] for n in range(8)]}
        L2 = {'tracks.00000.nc': [[0, 1, 4]], 'tracks.00001.nc': [[1, 1, 6], [1, 2, 8]],
              'tracks.00002.nc': [[2, 1, 11]], 'tracks.00003.nc': [[3, 1, 9], [3, 2, 7]]}
        for var in VARIANTS:
            for L in (L1, L2, L3):
                e = gen_env(rng, rng.choice([2, 3, 4]))
                out.append({'variant': var, 'layout': L, 'launches': [e]})
        # many cyclones in one file, many files
        L4 = {'tracks.00000.nc': [[0, n + 1, n % NTRACK] for n in range(2 * NTRACK + 3)]}
        L5 = {'tracks.%05d.nc' % k: [[k, n + 1, (5 * k + n) % NTRACK] for n in range(k % 3)]
              for k in range(36) if k % 3}
        L6 = {'tracks.00000.nc': [[0, n + 1, k] for n, k in
                                  enumerate((0, 2, 30, 28, 8, 31, 12, 29))]}
        for L, r in ((L4, 4), (L5, 3), (L6, 1), (L6, 2)):
            out.insert(2, {'variant': 'holland', 'layout': L, 'launches': [gen_env(rng, r)]})
        return out

    def gen(self, rng, i, tier):
        nf = rng.choice([1, 1, 2, 3, 5, 8])
        layout = self.gen_layout(rng, nf, lambda k: rng.choice(
            [1, 2, 3, 7]) if nf == 1 else rng.choice([0, 1, 1, 2, 3]))
        if not layout:
            layout = {'tracks.00000.nc': [[0, 1, 0]]}
        if rng.random() < 0.15:        # large indices: wide file names
            big = rng.choice([999, 1000, 12345])
            layout = {'tracks.%05d.nc' % big: [[big, n * 40001 % 100000 + 1, idx]
                                               for n, (_, _, idx) in enumerate(l)]
                      for l in [list(layout.values())[0]]}
        return {'variant': rng.choice(list(VARIANTS)), 'layout': layout,
                'launches': [gen_env(rng, rng.choice([1, 2, 2, 3, 4, 5, 7]))]}

    def run(self, ctx, case):
        exp, v = self.expected(ctx, case)
        if v:
            return v
        out = ctx.fresh('out')
        build_tracks(pjoin(out, 'tracks'), case['layout'])
        cfg, ld = self.config(ctx, out, case['variant'])
        o = run_tcrm(ctx, cfg, case['launches'][0], out)
        v = abnormal(ctx, o, ld)
        if v:
            return v
        n = sum(len(l) for l in case['layout'].values())
        if case['launches'][0]['ranks'] > n:
            ctx.probe('more processes than cyclones')
        if any(idx in (5, 11) for l in case['layout'].values() for _, _, idx in l):
            ctx.probe('cyclone outside the region')
        return self.compare(pjoin(out, 'windfield'), exp)


class CrashResume(Wind):
    id = 'W02'
    level = 'fault_enumeration'
    rule = ('one evaluation = one interrupted run (killed at a numbered file operation, '
            'possibly with a torn write, possibly interrupted again) followed by a rerun '
            'to completion; the final fields are compared with the uninterrupted ones')

    L = {'tracks.00000.nc': [[0, 1, 0], [0, 2, 1]], 'tracks.00001.nc': [[1, 1, 2]]}

    def cases(self, rng, tier):
        out = []
        # every mutating operation of a one-process run is a crash point
        n = 200 if tier == 'thorough' else 24
        for k in range(n):
            out.append({'variant': 'holland', 'layout': self.L, 'launches': [
                dict(serial_env(), mask='mutate+',
                     faults=[{'kind': 'crash' if k % 2 else 'torn',
                              'at': round(k / (n - 1), 4),
                              'frac': rng.choice([0.0, 0.3, 0.9])}]),
                dict(serial_env(), mask='mutate')]})
        return out

    def gen(self, rng, i, tier):
        layout = self.gen_layout(rng, rng.choice([1, 2, 3, 4]),
                                 lambda k: rng.choice([1, 1, 2]))
        ls = []
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            e = gen_env(rng, rng.choice([1, 2, 3, 4]), masks=('mutate', 'mutate+'))
            kind = rng.choice(['crash', 'crash', 'torn', 'torn', 'kill'])
            f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random()}
            if kind == 'kill':
                f['linger'] = rng.choice([0, 1, 5, 30])
                f['rank'] = rng.randrange(e['ranks'])
            if rng.random() < 0.5:
                f['path'] = 'windfield/*'
            e['faults'] = [f]
            ls.append(e)
        ls.append(dict(gen_env(rng, rng.choice([1, 2, 3])), faults=[]))
        return {'variant': rng.choice(['holland', 'holland', 'steps']), 'layout': layout,
                'launches': ls}

    def run(self, ctx, case):
        exp, v = self.expected(ctx, case)
        if v:
            return v
        out = ctx.fresh('out')
        build_tracks(pjoin(out, 'tracks'), case['layout'])
        cfg, ld = self.config(ctx, out, case['variant'])
        wd = pjoin(out, 'windfield')
        for k, l in enumerate(case['launches']):
            before = self.good(wd, exp)
            o = run_tcrm(ctx, cfg, l, out)
            if o.crashed:
                part = [f for f in field_files(wd, case['variant'] == 'steps') if nc_try(pjoin(wd, f)) is None]
                if part:
                    ctx.probe('unreadable partial field left by the crash')
                if self.good(wd, exp):
                    ctx.probe('crash after at least one finished field')
            elif k == len(case['launches']) - 1 or not o.fired:
                v = abnormal(ctx, o, ld)
                if v:
                    return v
            # finished fields are kept, not computed again
            after = file_state(wd) if os.path.isdir(wd) else {}
            redone = [f for f in before if after.get(f) != before[f]]
            if redone:
                v.append(Violation('finished-field-redone', '%s was finished before the '
                                   'rerun but was written again' % redone))
                return v
        return self.compare(wd, exp)

    def good(self, wd, exp):
        if not os.path.isdir(wd):
            return {}
        st = file_state(wd)
        return {f: st[f] for f in gust_files(wd) if f in exp and
                (lambda c: c is not None and diff_nc(c, exp[f]) is None)(
                    nc_try(pjoin(wd, f)))}


class WriteFailure(Wind):
    id = 'W03'
    level = 'fault_enumeration'
    rule = ('one evaluation = one run with a failing file operation (disk full, I/O '
            'error, denied, short write) followed by a rerun on a healthy disk; the '
            'failure must be reported and no field taken as finished may be wrong')

    def cases(self, rng, tier):
        out = []
        n = 120 if tier == 'thorough' else 16
        for k in range(n):
            for kind in ('enospc', 'eio'):
                out.append({'variant': 'holland', 'layout': CrashResume.L, 'launches': [
                    dict(serial_env(), mask='mutate+',
                         faults=[{'kind': kind, 'at': round(k / (n - 1), 4),
                                  'sticky': bool(k % 2),
                                  'path': 'windfield/*'}]),
                    dict(serial_env(), mask='mutate', faults=[])]})
        return out

    def gen(self, rng, i, tier):
        layout = self.gen_layout(rng, rng.choice([1, 2, 3]), lambda k: rng.choice([1, 2]))
        e = gen_env(rng, rng.choice([1, 1, 2, 3]), masks=('mutate', 'mutate+'))
        kind = rng.choice(['enospc', 'enospc', 'eio', 'eacces', 'short'])
        e['faults'] = [{'kind': kind,
                        'at': gen_at(rng),
                        'sticky': kind != 'short' and rng.random() < 0.5,
                        'path': 'windfield/*'}]
        return {'variant': rng.choice(['holland', 'holland', 'steps']), 'layout': layout,
                'launches': [e, dict(gen_env(rng, rng.choice([1, 2])), faults=[])]}

    def run(self, ctx, case):
        exp, v = self.expected(ctx, case)
        if v:
            return v
        out = ctx.fresh('out')
        build_tracks(pjoin(out, 'tracks'), case['layout'])
        cfg, ld = self.config(ctx, out, case['variant'])
        wd = pjoin(out, 'windfield')
        o = run_tcrm(ctx, cfg, case['launches'][0], out)
        if o.deadlock or o.step_cap or o.cpu_cap:
            return abnormal(ctx, o, ld)
        bad = self.compare(wd, exp) if os.path.isdir(wd) else [1]
        if bad and not ended_badly(o):
            return [Violation('silent-failure', 'file operation failed (%s), fields are '
                              'incomplete (%s) but the run reported success' %
                              (o.fired[:1], bad[0] if bad[0] == 1 else bad[0]['msg']))]
        if o.fired and not bad:
            ctx.probe('failure absorbed by the program')
        o = run_tcrm(ctx, cfg, case['launches'][1], out)
        v = abnormal(ctx, o, ld)
        return v or self.compare(wd, exp)


HEAD = 'Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure'


def points():
    """Stations: on the way of some cyclones, on the edge, outside."""
    res = [(1004, 150.0, -20.0), (1005, 161.0, -20.0), (1006, 100.0, -40.0)]
    for idx, tr in enumerate(POOL[:18]):
        if idx % 3 != 1:
            k = len(tr) // 2
            res.append((2000 + idx, round(float(tr['Longitude'][k]) + 0.21, 2),
                        round(float(tr['Latitude'][k]) - 0.13, 2)))
    return res


def read_stations(out):
    """{station file or extreme file: sorted rows}"""
    res = {}
    proc = pjoin(out, 'process')
    for d, names in ((proc, ('maxima.csv', 'minima.csv')),
                     (pjoin(proc, 'timeseries'), None)):
        if not os.path.isdir(d):
            continue
        for n in sorted(os.listdir(d)):
            if names is not None and n not in names:
                continue
            with open(pjoin(d, n), errors='replace') as f:
                res[n] = sorted(f.read().splitlines())
    return res


class Stations(Wind):
    id = 'W04'
    level = 'fault_enumeration'
    rule = ('one evaluation = one history of wind stage runs with station output (any '
            'process count, optionally interrupted or hit by a failing file operation, '
            'then run again); the station files are compared with those of one process')
    preload = Wind.preload + ('Utilities.timeseries', 'Utilities.shptools')

    def prepare(self, ctx):
        Wind.prepare(self, ctx)
        with open(pjoin(ctx.shared, 'static', 'points.csv'), 'w') as f:
            for p in points():
                f.write('%d,%s,%s\n' % p)
        fx.write_stations(pjoin(ctx.shared, 'static', 'points'),
                          [(str(i), 'S%d' % i, x, y) for i, x, y in points()])

    def cases(self, rng, tier):
        out = []
        L = {'tracks.00000.nc': [[0, 1, 0], [0, 2, 1], [0, 3, 2], [0, 4, 4]]}
        long = {'tracks.00000.nc': [[0, 1, 26], [0, 2, 0]], 'tracks.00001.nc': [[1, 1, 27]],
                'tracks.00002.nc': [[2, 1, 1], [2, 2, 2], [2, 3, 4]]}
        for n in (1, 2, 3):
            out.append({'variant': 'holland', 'layout': long, 'stations': 'csv',
                        'launches': [gen_env(rng, n)]})
        for kind in ('csv', 'shp'):
            for n in (1, 2, 3, 6):
                out.append({'variant': 'holland', 'layout': L, 'stations': kind,
                            'launches': [gen_env(rng, n)]})
        return out

    def gen(self, rng, i, tier):
        layout = self.gen_layout(rng, rng.choice([1, 2, 3, 5]),
                                 lambda k: rng.choice([1, 1, 2, 3]))
        ls = []
        if rng.random() < 0.15:
            layout[sorted(layout)[-1]].append([int(sorted(layout)[-1][7:12]), 9,
                                               rng.choice(LONG)])
        how = rng.choice(['clean', 'clean', 'crash', 'fail'])
        if how != 'clean':
            e = gen_env(rng, rng.choice([1, 2, 3]), masks=('mutate', 'mutate+'))
            kind = rng.choice(['crash', 'torn'] if how == 'crash' else
                              ['enospc', 'eio', 'eacces', 'short'])
            f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random()}
            if how == 'fail':
                f['sticky'] = kind != 'short' and rng.random() < 0.5
                f['path'] = rng.choice(['process/*', 'process/timeseries/*',
                                        'process/m*.csv', 'windfield/*'])
            elif rng.random() < 0.4:
                f['path'] = 'process/*'
            e['faults'] = [f]
            ls.append(e)
        ls.append(gen_env(rng, rng.choice([1, 2, 3, 4, 6])))
        return {'variant': rng.choice(['holland', 'powell', 'full']), 'layout': layout,
                'stations': rng.choice(['csv', 'shp']), 'launches': ls}

    def settings(self, ctx, case):
        f = 'points.' + case['stations']
        return {'Timeseries': {'Extract': 'True', 'StationID': 'WMO',
                               'LocationFile': pjoin(ctx.shared, 'static', f)}}

    def one_process(self, ctx, case, layout):
        def build():
            out = ctx.fresh('ref')
            build_tracks(pjoin(out, 'tracks'), layout)
            cfg, ld = self.config(ctx, out, case['variant'],
                                  more=self.settings(ctx, case))
            o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'ref', explore=False)
            return abnormal(ctx, o, ld, 'reference run'), read_stations(out)
        return cached(ctx, ('stations', case['variant'], case['stations'],
                            sorted(layout.items())), build)

    def run(self, ctx, case):
        bad, exp = self.one_process(ctx, case, case['layout'])
        if bad:
            return [Violation('single-' + b['cls'], b['msg']) for b in bad]
        fields, v = self.expected(ctx, case)
        v = v or self.sums(ctx, case, exp) or self.truth(ctx, case, exp)
        if v:
            return v
        out = ctx.fresh('out')
        build_tracks(pjoin(out, 'tracks'), case['layout'])
        cfg, ld = self.config(ctx, out, case['variant'], more=self.settings(ctx, case))
        if any(n.startswith('ts.') for n in exp):
            ctx.probe('stations with wind')
        for l in case['launches']:
            o = run_tcrm(ctx, cfg, l, out)
            if o.deadlock or o.step_cap or o.cpu_cap or not o.fired:
                v = abnormal(ctx, o, ld)
                if v:
                    return v
            elif o.crashed:
                ctx.probe('interrupted run')
                continue
            elif ended_badly(o):
                ctx.probe('failed run')
                continue
            bad = self.judge(read_stations(out), exp)
            if bad:
                if o.fired:
                    bad[0]['cls'] = 'silent-failure'
                return bad
        return self.compare(pjoin(out, 'windfield'), fields)

    def series(self, ctx, variant, tr):
        """
        {station: [(time, speed, pressure)]} of one cyclone, sampled from its saved
        time steps (one step for every time the centre is inside the region).
        """
        def build():
            out = ctx.fresh('ref')
            build_tracks(pjoin(out, 'tracks'), {'tracks.00000.nc': [[0, 1, tr]]})
            cfg, ld = self.config(ctx, out, variant, more=STEPS)
            o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'ref', explore=False)
            bad = abnormal(ctx, o, ld, 'reference run')
            f = pjoin(out, 'windfield', 'evolution.001-00000.nc')
            return bad, nc_content(f)['vars'] if os.path.exists(f) else None
        bad, e = cached(ctx, ('series', variant, tr), build)
        if bad:
            return bad, {}
        t = POOL[tr]
        inside = affects_at(t, LIMIT)
        times = [d.strftime('%Y-%m-%d %H:%M') for d in num2date(
            t['Datetime'][inside], 'hours since 1900-01-01 00:00', 'julian')]
        res = {}
        n = len(e['time'][0]) if e else 0
        if n != len(times):
            return [Violation('wrong-steps', 'cyclone %d alone: %d saved steps, %d times '
                              'inside the region' % (tr, n, len(times)))], {}
        for sid, x, y in points():
            res[sid] = rows = []
            for k in range(n):
                p = e['pressure'][0][k]
                ok = ~np.isnan(p)
                lat, lon = e['lat'][0].astype(float), e['lon'][0].astype(float)
                la, lo = lat[ok.any(axis=1)], lon[ok.any(axis=0)]
                j0, i0 = np.argmax(ok.any(axis=1)), np.argmax(ok.any(axis=0))
                if la.min() - 1e-4 <= y <= la.max() + 1e-4 and \
                        lo.min() - 1e-4 <= x <= lo.max() + 1e-4:
                    near = [(j, i) for j in np.where(abs(la - y) < abs(la - y).min() + 1e-3)[0]
                            for i in np.where(abs(lo - x) < abs(lo - x).min() + 1e-3)[0]]
                    rows.append((times[k], [(float(e['gust_speed'][0][k][j0 + j, i0 + i]),
                                             float(p[j0 + j, i0 + i])) for j, i in near]))
                else:
                    rows.append((times[k], [(0., float(p[j0, i0]))]))
        return [], res

    def truth(self, ctx, case, exp):
        """The files of one process against the saved steps of the single cyclones."""
        want = {}
        for fname, lst in sorted(case['layout'].items()):
            for sim, num, idx in lst:
                if not affects(POOL[idx], LIMIT, MARGIN):
                    continue
                bad, res = self.series(ctx, case['variant'], idx)
                if bad:
                    return bad
                for sid, rows in res.items():
                    want.setdefault(sid, []).extend(rows)
        top = {}
        for sid, rows in want.items():
            # a station file read as numbers gives the identifier as 2000.0
            n = [n for n in ('ts.%d.0.csv' % sid, 'ts.%d.csv' % sid) if n in exp]
            n = n[0] if n else 'ts.%d.csv' % sid
            if not any(max(c)[0] > 0 for _, c in rows):
                if n in exp:
                    return [Violation('station-files', '%s without wind' % n)]
                continue
            got = [r.split(',') for r in exp.get(n, ()) if r != HEAD]
            if len(got) != len(rows):
                return [Violation('station-rows', 'one process: %s has %d rows, %d time '
                                  'steps of the cyclones' % (n, len(got), len(rows)))]
            left = list(got)
            for t, cands in rows:
                hit = [g for g in left if g[1][:16] == t and any(
                    abs(float(g[4]) - s) < 0.02 and abs(float(g[8]) - q) < 0.5
                    for s, q in cands)]
                if not hit:
                    return [Violation('station-values', 'one process: %s has no row with '
                                      '%s %s' % (n, t, cands))]
                left.remove(hit[0])
            top[float(sid)] = (max(float(g[4]) for g in got), min(float(g[8]) for g in got))
        for n, col, k in (('maxima.csv', 4, 0), ('minima.csv', 8, 1)):
            got = {float(r.split(',')[0]): float(r.split(',')[col]) for r in exp.get(n, ())
                   if r != HEAD}
            if got != {i: v[k] for i, v in top.items()}:
                return [Violation('station-extremes', 'one process: %s holds %s, rows give '
                                  '%s' % (n, got, {i: v[k] for i, v in top.items()}))]
        return []

    def sums(self, ctx, case, exp):
        """Every cyclone's own rows are in the files of the whole set."""
        for fname, lst in case['layout'].items():
            for tr in lst:
                bad, one = self.one_process(ctx, case, {fname: [tr]})
                for n, rows in one.items():
                    if not n.startswith('ts.'):
                        continue
                    miss = [r for r in rows if r not in exp.get(n, ())]
                    if miss:
                        return [Violation('row-lost', 'one process, several cyclones: %s '
                                          'lacks %s' % (n, miss[0]))]
        return []

    def judge(self, got, exp):
        if sorted(got) != sorted(exp):
            return [Violation('station-files', 'station files %s, expected %s'
                              % (sorted(got), sorted(exp)))]
        for n in sorted(got):
            if n.startswith('ts.'):
                if got[n] != exp[n]:
                    return [Violation('station-rows', '%s has %d rows, expected %d'
                                      % (n, len(got[n]), len(exp[n])))]
                continue
            col = 4 if n == 'maxima.csv' else 8
            # the extreme may occur at several times: any of these rows will do
            a = [(r.split(',')[0], r.split(',')[col]) for r in got[n]]
            b = [(r.split(',')[0], r.split(',')[col]) for r in exp[n]]
            rows = {r for m in exp if m.startswith('ts.') for r in exp[m]} | {HEAD}
            if a != b or not set(got[n]) <= rows:
                return [Violation('station-extremes', '%s holds %s, expected %s'
                                  % (n, got[n], exp[n]))]
        return []


SETTINGS = [
    {},
    {'WindfieldInterface': {'profileType': 'powell'}},
    {'WindfieldInterface': {'windFieldType': 'mcconochie'}},
    {'WindfieldInterface': {'Resolution': 0.5}},
    {'WindfieldInterface': {'Margin': 2.0}},
    {'WindfieldInterface': {'beta': 1.7}},
    {'WindfieldInterface': {'thetaMax': 50.0}},
    {'Region': {'gridLimit': "{'xMin':151.,'xMax':159.,'yMin':-19.,'yMax':-13.}"}},
    {'WindfieldInterface': {'windFieldType': 'mcconochie', 'thetaMax': 50.0}},
    {'WindfieldInterface': {'profileType': 'willoughby'}},
    {'WindfieldInterface': {'Domain': 'full'}},
    STEPS,
]
# pairs that differ in a setting which only matters together with another one
ALIKE = [(2, 8), (8, 2)]


class Current(Wind):
    id = 'W05'
    rule = ('one evaluation = one run of the wind stage in an output directory that '
            'already holds fields of earlier runs with other tracks or settings; the '
            'fields afterwards are compared with those of an empty directory')

    def cases(self, rng, tier):
        out = []
        A = {'tracks.00000.nc': [[0, 1, 0], [0, 2, 1]], 'tracks.00001.nc': [[1, 1, 2]]}
        B = {'tracks.00000.nc': [[0, 1, 3]], 'tracks.00001.nc': [[1, 1, 2]]}
        C = {'tracks.00001.nc': [[1, 1, 2], [1, 2, 4]]}
        for n in (1, 3):
            for X, Y in ((A, B), (B, A), (A, C), (C, A), (A, A)):
                out.append({'rounds': [{'layout': X, 'settings': 0, 'launch': serial_env()},
                                       {'layout': Y, 'settings': 0,
                                        'launch': gen_env(rng, n)}]})
            for s in range(1, len(SETTINGS)):
                out.append({'rounds': [{'layout': A, 'settings': 0, 'launch': serial_env()},
                                       {'layout': A, 'settings': s,
                                        'launch': gen_env(rng, n)}]})
            # the new track files may also be older than those before them
            out.append({'rounds': [{'layout': A, 'settings': 0, 'launch': serial_env()},
                                   {'layout': B, 'settings': 0,
                                    'launch': gen_env(rng, n)}], 'gap': -7200})
        for s, t in ALIKE:
            out.append({'rounds': [{'layout': A, 'settings': s, 'launch': serial_env()},
                                   {'layout': A, 'settings': t,
                                    'launch': gen_env(rng, rng.choice([1, 2]))}]})
        return out

    def gen(self, rng, i, tier):
        rounds = []
        layout = self.gen_layout(rng, rng.choice([1, 2, 3]), lambda k: rng.choice([1, 2]))
        s = 0
        for k in range(rng.choice([2, 2, 3])):
            if k:
                layout = copy.deepcopy(layout)
                for f in sorted(layout):
                    x = rng.random()
                    if x < 0.15 and len(layout) > 1:
                        del layout[f]
                    elif x < 0.5:
                        sim = layout[f][0][0]
                        layout[f] = [[sim, m + 1, idx] for m, idx in enumerate(
                            rng.sample(range(NTRACK), rng.choice([1, 1, 2, 3])))]
                if rng.random() < 0.3:
                    n = max(int(f[7:12]) for f in layout) + 1
                    layout['tracks.%05d.nc' % n] = [[n, 1, rng.randrange(NTRACK)]]
                if rng.random() < 0.4:
                    s = rng.choice(list(range(len(SETTINGS))) + [0, len(SETTINGS) - 1])
            e = gen_env(rng, rng.choice([1, 2, 3, 4]), masks=('mutate', 'mutate+'))
            if rng.random() < (0.3 if k == 0 else 0.2):
                e['faults'] = [{'kind': rng.choice(['crash', 'torn']), 'at': gen_at(rng),
                                'frac': rng.random(), 'path': 'windfield/*'}]
            rounds.append({'layout': layout, 'settings': s, 'launch': e})
        if rounds[-1]['launch'].get('faults'):
            rounds.append({'layout': layout, 'settings': s,
                           'launch': gen_env(rng, rng.choice([1, 2, 3]))})
        return {'rounds': rounds, 'gap': rng.choice([3, 20, 7200, -20, -7200])}

    def shrink(self, case):
        for k in range(len(case['rounds']) - 1):
            c = copy.deepcopy(case)
            del c['rounds'][k]
            yield c
        for k, r in enumerate(case['rounds']):
            if r['launch'].get('faults'):
                c = copy.deepcopy(case)
                c['rounds'][k]['launch']['faults'] = []
                yield c
            if r['launch']['ranks'] > 1:
                c = copy.deepcopy(case)
                c['rounds'][k]['launch'] = serial_env()
                yield c
            for f in sorted(r['layout']):
                if len(r['layout']) > 1:
                    c = copy.deepcopy(case)
                    del c['rounds'][k]['layout'][f]
                    yield c

    def fields(self, ctx, layout, s):
        """The fields of one cyclone set in an empty directory, one process."""
        def build():
            out = ctx.fresh('ref')
            build_tracks(pjoin(out, 'tracks'), layout)
            cfg, ld = self.config(ctx, out, 'holland', more=SETTINGS[s])
            o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'ref', explore=False)
            wd = pjoin(out, 'windfield')
            return (abnormal(ctx, o, ld, 'reference run'),
                    {f: nc_content(pjoin(wd, f))
                     for f in field_files(wd, SETTINGS[s] is STEPS)})
        return cached(ctx, ('fields', s, sorted(layout.items())), build)

    def run(self, ctx, case):
        out = ctx.fresh('out')
        wd, td = pjoin(out, 'windfield'), pjoin(out, 'tracks')
        os.makedirs(td)
        old = {}
        for k, r in enumerate(case['rounds']):
            exp = {}
            bad, exp = self.fields(ctx, r['layout'], r['settings'])
            if bad:
                return [Violation('single-' + b['cls'], b['msg']) for b in bad]
            new = ctx.path('new')
            build_tracks(new, r['layout'])
            for f in old:
                if f not in r['layout']:
                    os.remove(pjoin(td, f))
            same = True
            for f in sorted(r['layout']):
                if old.get(f) != r['layout'][f]:
                    os.replace(pjoin(new, f), pjoin(td, f))
                    # generated some time after the earlier ones
                    t = 1.6e9 + case.get('gap', 7200) * k
                    os.utime(pjoin(td, f), (t, t))
                    same = False
            old = dict(r['layout'])
            cfg, ld = self.config(ctx, out, 'holland', more=SETTINGS[r['settings']])
            if os.path.isdir(wd) and gust_files(wd) and not same:
                ctx.probe('fields of earlier tracks present')
            o = run_tcrm(ctx, cfg, r['launch'], out)
            if o.crashed:
                continue
            v = abnormal(ctx, o, ld) or self.compare(wd, exp)
            if v:
                return v
        return []
