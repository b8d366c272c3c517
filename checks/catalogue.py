"""Track generation: the synthetic catalogue under any parallelism and fault."""
import copy
import random

from .common import *

LIMIT = (150., 166., -22., -10.)


class Catalogue(Property):
    preload = ('Utilities.parallel', 'TrackGenerator', 'Utilities.config', 'Utilities.track',
               'DataProcess.DataProcess', 'StatInterface.StatInterface')
    real = REAL + ['data processing and calibration (to build the inputs)',
                   'track generation stage']
    stubbed = STUB
    assumptions = ASSUME

    def prepare(self, ctx):
        """Calibrate once with the program itself, one process, no MPI."""
        st = pjoin(ctx.shared, 'static')
        fx.write_static(st)
        out = pjoin(ctx.shared, 'cal')
        os.makedirs(out)
        logdir = clean(ctx.path('log'))
        c = fx.base_config(st, out, logdir, {'DataProcess', 'ExecuteStat'}, LIMIT)
        o = run_tcrm(ctx, c, serial_env('absent'), out, explore=False)
        bad = abnormal(ctx, o, logdir, 'calibration')
        with open(pjoin(ctx.shared, 'cal.json'), 'w') as f:
            json.dump(bad, f)

    def calibrated(self, ctx):
        with open(pjoin(ctx.shared, 'cal.json')) as f:
            return [Violation('calibration-' + b['cls'], b['msg']) for b in json.load(f)]

    def config(self, ctx, case, out):
        logdir = clean(ctx.path('log'))
        if not os.path.isdir(pjoin(out, 'process')):
            shutil.copytree(pjoin(ctx.shared, 'cal', 'process'), pjoin(out, 'process'))
        c = fx.base_config(pjoin(ctx.shared, 'static'), out, logdir,
                           {'ExecuteTrackGenerator'}, LIMIT)
        t = c['TrackGenerator']
        t.update({'NumSimulations': case['n'], 'YearsPerSimulation': case['years'],
                  'NumTimeSteps': case['steps'], 'TimeStep': case['dt'],
                  'SeasonSeed': case['seeds'][0], 'TrackSeed': case['seeds'][1]})
        if case['freq'] is None:
            del t['Frequency']
        else:
            t['Frequency'] = case['freq']
        return c, logdir

    def one(self, ctx, case, env, out, name='run', explore=True):
        cfg, ld = self.config(ctx, case, out)
        o = run_tcrm(ctx, cfg, env, out, name, explore=explore)
        return o, ld


    def reference(self, ctx, case):
        """
        Catalogue of a single process for at least as many simulations as the
        case asks for: simulation k must not depend on how many others there are.
        """
        big = dict(case, n=max(BIG, case['n']))
        key = {k: big[k] for k in ('n', 'years', 'steps', 'dt', 'seeds', 'freq')}

        def build():
            out = ctx.fresh('ref')
            o, ld = self.one(ctx, big, serial_env('absent'), out, 'ref', explore=False)
            bad = abnormal(ctx, o, ld, 'single-process run')
            cat = None
            if not bad:
                cat = read_catalogue(pjoin(out, 'tracks'))
                bad = self.sane(cat, big)
            return bad, cat
        bad, cat = cached(ctx, ('cat', sorted(key.items())), build)
        if bad:
            return [Violation('single-' + b['cls'], b['msg']) for b in bad], None
        want = {'tracks.%05d.nc' % k for k in range(case['n'])}
        return [], {f: c for f, c in cat.items() if f in want}

    def sane(self, cat, case):
        """Every simulation under its own name, every cyclone numbered once."""
        seen = {}
        for f, lst in cat.items():
            if f not in {'tracks.%05d.nc' % k for k in range(case['n'])}:
                return [Violation('stray-file', 'unexpected track file %s' % f)]
            k = int(f.split('.')[1])
            ids = [ast.literal_eval(t) for t, _ in lst]
            if [tuple(int(x) for x in t) for t in ids] != [(j, k) for j in range(len(lst))]:
                return [Violation('wrong-id', '%s holds cyclones %s' % (f, ids[:6]))]
            for t, d in lst:
                if len(d) == 0:
                    return [Violation('empty-track', '%s %s is empty' % (f, t))]
                sig = tuple(d[n].tobytes() for n in ('Longitude', 'Latitude', 'CentralPressure'))
                if sig in seen:
                    return [Violation('duplicate-cyclone', '%s %s is the same cyclone as %s'
                                      % (f, t, seen[sig]))]
                seen[sig] = (f, t)
        return []

    def compare(self, d, ref):
        got, err = apart(read_catalogue, d) if os.path.isdir(d) else ({}, None)
        if err:
            return [Violation('unreadable', 'track files cannot be read: %s' % err)]
        miss, more = sorted(set(ref) - set(got)), sorted(set(got) - set(ref))
        if miss:
            return [Violation('missing-simulation', 'no tracks for %s' % miss)]
        if more:
            return [Violation('extra-simulation', 'unexpected tracks %s' % more)]
        for f in sorted(ref):
            a, b = got[f], ref[f]
            if [x[0] for x in a] != [x[0] for x in b]:
                return [Violation('wrong-tracks', '%s holds %s, expected %s'
                                  % (f, [x[0] for x in a][:5], [x[0] for x in b][:5]))]
            for (t, x), (_, y) in zip(a, b):
                if not same(x, y):
                    cols = [n for n in x.dtype.names if x.shape != y.shape or
                            not same(x[n], y[n])]
                    return [Violation('wrong-tracks', '%s %s differs from the single-process '
                                      'catalogue in %s (%d/%d points)'
                                      % (f, t, cols, len(x), len(y)))]
        return []

    def settings(self, rng):
        return {'n': rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 12, 30]), 'years': rng.choice([1, 1, 2]),
                'steps': rng.choice([16, 24, 40]), 'dt': rng.choice([1.0, 1.0, 3.0]),
                'seeds': [rng.choice([0, 1, 7]), rng.choice([0, 1, 9, 2**31 - 1])],
                'freq': rng.choice([0.6, 2.0, None])}

    def shrink(self, case):
        for c in shrink_faults(case):
            yield c
        for k in ('n',):
            for v in (1, 2, case[k] // 2, case[k] - 1):
                if 1 <= v < case[k]:
                    c = copy.deepcopy(case)
                    c[k] = v
                    yield c
        for c in shrink_env(case):
            yield c


BIG = 12


class Reproducible(Catalogue):
    id = 'C01'
    rule = ('one evaluation = one multi-process track generation run; every cyclone is '
            'compared bit for bit with the single-process catalogue for the same seeds and '
            'settings and a larger number of simulations')

    def cases(self, rng, tier):
        out = []
        for n in (1, 2, 5, 12):
            for r in (1, 2, 3, 7):
                out.append({'n': n, 'years': 1, 'steps': 24, 'dt': 1.0, 'seeds': [7, 9],
                            'freq': 2.0, 'launches': [gen_env(rng, r)]})
        for seeds, r in (([0, 9], 1), ([7, 0], 1), ([0, 0], 3)):
            out.insert(3, {'n': 5, 'years': 1, 'steps': 24, 'dt': 1.0, 'seeds': seeds,
                           'freq': 2.0, 'launches': [gen_env(rng, r)]})
        for n, r in ((60, 4), (300, 1), (270, 3)):
            out.insert(3, {'n': n, 'years': 1, 'steps': 24, 'dt': 1.0, 'seeds': [3, n],
                           'freq': 0.7, 'launches': [gen_env(rng, r, masks=('none',))]})
        return out

    def gen(self, rng, i, tier):
        c = self.settings(rng)
        c['launches'] = [gen_env(rng, rng.choice([1, 2, 2, 3, 4, 5, 8]))]
        if rng.random() < 0.2:
            c['other'] = [c['seeds'][0], c['seeds'][1] % 1000 + 5000]
        return c

    def run(self, ctx, case):
        v = self.calibrated(ctx)
        if v:
            return v
        v, ref = self.reference(ctx, case)
        if v:
            return v
        out = ctx.fresh('out')
        o, ld = self.one(ctx, case, case['launches'][0], out)
        v = abnormal(ctx, o, ld)
        if v:
            return v
        if case['launches'][0]['ranks'] > case['n']:
            ctx.probe('more processes than simulations')
        if len(ref) < case['n']:
            ctx.probe('simulation without cyclones')
        v = self.compare(pjoin(out, 'tracks'), ref)
        if not v and case.get('other'):
            v, oth = self.reference(ctx, dict(case, seeds=case['other']))
            if v:
                return v
            if {f: len(x) for f, x in oth.items()} != {f: len(x) for f, x in ref.items()}:
                v.append(Violation('count-follows-track-seed', 'number of cyclones changed '
                                   'with the track seed'))
            for f in oth:
                if f in ref and oth[f] and ref[f] and same(oth[f][0][1], ref[f][0][1]):
                    v.append(Violation('seed-ignored', '%s is the same for track seeds %s '
                                       'and %s' % (f, case['seeds'], case['other'])))
                    break
            ctx.probe('second track seed compared')
        return v


class Repaired(Catalogue):
    id = 'C02'
    level = 'fault_enumeration'
    rule = ('one evaluation = one history of track generation runs, each possibly killed or '
            'hit by failing file operations or using other settings, ended by an undisturbed '
            'run whose catalogue is compared bit for bit with the single-process one')

    def cases(self, rng, tier):
        out = []
        base = {'n': 3, 'years': 1, 'steps': 16, 'dt': 1.0, 'seeds': [7, 9], 'freq': 2.0}
        n = 120 if tier == 'thorough' else 20
        for k in range(n):
            for kind in ('torn', 'enospc'):
                out.append(dict(base, prior=[{}], launches=[
                    dict(serial_env(), mask='mutate+', faults=[
                        {'kind': kind, 'at': round(k / (n - 1), 4), 'frac': 0.5,
                         'sticky': bool(k % 2)}]),
                    dict(serial_env(), faults=[])]))
        for ch in ({'n': 8}, {'seeds': [1, 9]}, {'freq': 4.0}, {'years': 2}):
            out.append(dict(base, prior=[ch], launches=[
                dict(serial_env(), faults=[]), dict(serial_env(), faults=[])]))
        return out

    def gen(self, rng, i, tier):
        c = self.settings(rng)
        c['n'] = rng.choice([1, 2, 3, 5])
        c['steps'] = 16
        c['prior'], c['launches'] = [], []
        for k in range(rng.choice([1, 1, 2, 3])):
            e = gen_env(rng, rng.choice([1, 2, 3]), masks=('mutate', 'mutate+'))
            e['faults'] = []
            if rng.random() < 0.8:
                kind = rng.choice(['crash', 'torn', 'torn', 'enospc', 'eio', 'eacces', 'kill'])
                f = {'kind': kind, 'at': gen_at(rng),
                     'frac': rng.random(), 'sticky': rng.random() < 0.5}
                if kind == 'kill':
                    f.update(rank=rng.randrange(e['ranks']), linger=rng.choice([0, 3, 20]))
                if rng.random() < 0.6:
                    f.update(path='tracks/*')
                e['faults'] = [f]
            c['prior'].append(rng.choice([{}, {}, {'n': c['n'] + rng.choice([1, 4])},
                                          {'seeds': [rng.choice([1, 7]), 77]},
                                          {'freq': 3.0}]))
            c['launches'].append(e)
        c['launches'].append(dict(gen_env(rng, rng.choice([1, 2, 3]),
                                          masks=('none', 'mutate')), faults=[]))
        return c

    def run(self, ctx, case):
        v = self.calibrated(ctx)
        if v:
            return v
        out = ctx.fresh('out')
        td = pjoin(out, 'tracks')
        for k, l in enumerate(case['launches']):
            cur = dict(case, **(case['prior'][k] if k < len(case['prior']) else {}))
            v, ref = self.reference(ctx, cur)
            if v:
                return v
            old = file_state(td) if os.path.isdir(td) else {}
            o, ld = self.one(ctx, cur, l, out)
            if o.deadlock or o.step_cap or o.cpu_cap:
                return abnormal(ctx, o, ld)
            if not o.fired:
                v = abnormal(ctx, o, ld, 'run %d of %d' % (k + 1, len(case['launches'])))
                if v:
                    return v
            if not o.crashed and not ended_badly(o):
                v = self.compare(td, ref)
                if v:
                    return [Violation('silent-failure' if o.fired else v[0]['cls'],
                                      'run %d reported success (faults %s) but %s'
                                      % (k + 1, o.fired[:1], v[0]['msg']))]
            else:
                # whatever is readable under a final name is complete
                new = file_state(td) if os.path.isdir(td) else {}
                for f in sorted(new):
                    if not f.endswith('.nc') or new[f] == old.get(f):
                        continue
                    t, err = apart(read_tracks, pjoin(td, f))
                    if err:
                        ctx.probe('unreadable track file after the fault')
                        continue
                    if f not in ref or len(t) != len(ref[f]) or \
                            any(not same(a[1], b[1]) for a, b in zip(t, ref[f])):
                        return [Violation('partial-tracks', 'after %s %s is readable but '
                                          'incomplete' % (o.fired[:1], f))]
        return []
