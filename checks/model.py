"""The whole model: any division into runs, any process count, any interruption."""
import copy

from .common import *
from .db import COLS, norm, key

LIMIT = (152., 162., -20., -12.)
STAGES = ['DataProcess', 'ExecuteStat', 'ExecuteTrackGenerator', 'ExecuteWindfield',
          'ExecuteHazard', 'CreateDatabase']
CAL = 2

SETTINGS = {
    'plain': {},
    'annual': {'TrackGenerator': {'YearsPerSimulation': 2, 'NumSimulations': 16},
               'Hazard': {'CalculateCI': 'True', 'SampleSize': 2}},
    'counted': {'TrackGenerator': {'Frequency': None, 'NumSimulations': 6}},
    'peaks': {'Hazard': {'ExtremeValueDistribution': 'emp', 'Years': '2,3'}},
    'station': {'Timeseries': {'Extract': 'True', 'StationID': 'WMO'}},
    'split': {'DataProcess': {'InputFile': 'split.csv'}, 'SIM': fx.SPLIT},
}

# further settings for runs that follow each other in one folder
CHANGED = {
    'seeded': {'TrackGenerator': {'TrackSeed': 77}},
    'season': {'TrackGenerator': {'SeasonSeed': 78}},
    'fewer': {'TrackGenerator': {'NumSimulations': 4}},
    'powell': {'WindfieldInterface': {'profileType': 'powell'}},
    'beta': {'WindfieldInterface': {'beta': 1.6}},
    'fine': {'WindfieldInterface': {'Resolution': 0.25}},
    'wide': {'WindfieldInterface': {'Margin': 1.5}},
    'years': {'Hazard': {'Years': '2,4,8,16', 'MinimumRecords': 2}},
    'moved': {'Timeseries': {'Extract': 'True', 'StationID': 'WMO'},
              'TrackGenerator': {'TrackSeed': 77}},
    'smaller': {'Region': {'gridLimit': "{'xMin':153.,'xMax':158.,'yMin':-19.,'yMax':-13.}"}},
    'recent': {'DataProcess': {'FilterSeasons': 'True', 'StartSeason': 1990}},
    'cells': {'StatInterface': {'minSamplesCell': 12}},
    'steps': {'StatInterface': {'kdeStep': 2.0, 'kdeType': 'epa'}},
}
ALL = dict(SETTINGS, **CHANGED)


def since(a, b):
    """First stage that has to be run again when settings a are replaced by b."""
    for k, secs in ((0, ['Region', 'DataProcess', 'SIM']), (1, ['StatInterface']),
                    (CAL, ['TrackGenerator']), (3, ['WindfieldInterface', 'Timeseries']),
                    (4, ['Hazard'])):
        if any(ALL[a].get(s, {}) != ALL[b].get(s, {}) for s in secs):
            return k
    return 5


def snapshot(out):
    """Comparable content of everything the model leaves behind."""
    res = {}
    for base, dirs, names in os.walk(out):
        dirs.sort()
        rel = os.path.relpath(base, out)
        if rel.split('/')[0] in ('plots', 'log') or rel.startswith('process/dat'):
            continue
        for n in sorted(names):
            p = pjoin(base, n)
            name = os.path.normpath(pjoin(rel, n))
            if n.startswith('.') or n.endswith(('.tmp', '-journal')):
                continue
            if rel == 'tracks' and n.endswith('.nc'):
                res[name] = ('tracks', read_tracks(p))
            elif n.endswith('.nc'):
                res[name] = ('nc', nc_content(p))
            elif n == 'hazard.db':
                res[name] = ('db', {t: sorted([norm(r) for r in db_rows(p, t, c)], key=key)
                                    for t, c in COLS.items()})
            elif n.endswith('.db'):
                continue
            else:
                with open(p, 'rb') as f:
                    b = f.read()
                if rel.startswith('process/timeseries') or n in ('maxima.csv', 'minima.csv'):
                    b = sorted(b.split(b'\n'))
                res[name] = ('text', b)
    return res


def differ(got, ref, skip=()):
    """First difference between two snapshots: (class, text) or None."""
    a, b = set(got) - set(skip), set(ref) - set(skip)
    if b - a:
        return 'missing-output', 'not there: %s' % sorted(b - a)[:4]
    if a - b:
        return 'extra-output', 'unexpected: %s' % sorted(a - b)[:4]
    for n in sorted(a):
        kind, x = got[n]
        y = ref[n][1]
        d = None
        if kind == 'nc':
            d = diff_nc(x, y)
        elif kind == 'tracks':
            if [t for t, _ in x] != [t for t, _ in y]:
                d = 'other cyclones'
            elif not all(same(p, q) for (_, p), (_, q) in zip(x, y)):
                d = 'other cyclone data'
        elif kind == 'db':
            for t in sorted(x):
                if x[t] != y[t]:
                    d = '%s: %d rows, expected %d; first other: %s' % (
                        t, len(x[t]), len(y[t]),
                        next(((p, q) for p, q in zip(x[t], y[t]) if p != q), None))
                    break
        elif x != y:
            if n.endswith(('maxima.csv', 'minima.csv')):
                # the extreme may be reached at several times
                col = 4 if 'maxima' in n else 8
                f = lambda rows: [(r.split(b',')[0], r.split(b',')[col]) for r in rows if r]
                if f(x) == f(y):
                    continue
            d = 'content differs (%d/%d)' % (len(x), len(y))
        if d:
            return 'wrong-output', '%s: %s' % (n, d)
    return None


class Model(Property):
    preload = ('Utilities.parallel', 'TrackGenerator', 'Utilities.config', 'Utilities.track',
               'DataProcess.DataProcess', 'StatInterface.StatInterface', 'wind', 'hazard',
               'database', 'Utilities.timeseries')
    real = REAL + ['all stages of the model']
    stubbed = STUB
    assumptions = ASSUME

    def prepare(self, ctx):
        fx.write_static(pjoin(ctx.shared, 'static'))
        fx.write_history_csv(pjoin(ctx.shared, 'static', 'split.csv'), form='split')

    def config(self, ctx, name, stages, out):
        logdir = clean(ctx.path('log'))
        st = pjoin(ctx.shared, 'static')
        c = fx.base_config(st, out, logdir, set(stages), LIMIT)
        c['WindfieldInterface'].update({'Resolution': 0.5, 'windFieldType': 'hubbert'})
        c['TrackGenerator'].update({'NumTimeSteps': 16, 'NumSimulations': 6, 'Frequency': 1})
        c['Hazard'].update({'Years': '2,5,10'})
        c['StatInterface']['kdeStep'] = 1.0
        for s, opts in ALL[name].items():
            for k, v in opts.items():
                if v is None:
                    c[s].pop(k, None)
                else:
                    c.setdefault(s, {})[k] = v
            if 'InputFile' in opts:
                c[s]['InputFile'] = pjoin(st, opts['InputFile'])
            if s == 'Timeseries':
                c[s]['LocationFile'] = pjoin(st, 'stations.shp')
        return c, logdir

    def reference(self, ctx, name):
        """Snapshots after each stage, every stage a run of one process without MPI."""
        def build():
            out = ctx.fresh('ref')
            snaps = []
            for k, s in enumerate(STAGES):
                cfg, ld = self.config(ctx, name, [s], out)
                o = run_tcrm(ctx, cfg, serial_env('absent'), out, 'ref', explore=False)
                bad = abnormal(ctx, o, ld, 'single-process %s' % s)
                if bad:
                    return bad, None
                snap, err = apart(snapshot, out)
                if err:
                    return [Violation('unreadable', err)], None
                snaps.append(snap)
                if k + 1 == CAL:
                    cal = pjoin(ctx.shared, 'cal-' + name)
                    shutil.copytree(out, cal)
            if not any(n.startswith('windfield/gust') for n in snaps[-1]):
                return [Violation('missing-output', 'no wind fields at all')], None
            return [], snaps
        bad, snaps = cached(ctx, ('model', name), build)
        return [Violation('single-' + b['cls'], b['msg']) for b in bad], snaps

    def groups(self, rng, first):
        """Cut the remaining stages into runs."""
        ends = [k for k in range(first + 1, len(STAGES)) if rng.random() < 0.35]
        return [[a, b] for a, b in zip([first] + ends, ends + [len(STAGES)])]

    def start(self, ctx, case):
        out = ctx.fresh('out')
        if case['runs'][0]['stages'][0] == CAL:
            shutil.copytree(pjoin(ctx.shared, 'cal-' + case['name']), out,
                            dirs_exist_ok=True)
        return out

    def judge(self, out, ref, what):
        snap, err = apart(snapshot, out)
        if err:
            return [Violation('unreadable', '%s: %s' % (what, err))]
        d = differ(snap, ref)
        return [Violation(d[0], '%s: %s' % (what, d[1]))] if d else []

    def shrink(self, case):
        for k, r in enumerate(case['runs']):
            if r['launch'].get('faults'):
                c = copy.deepcopy(case)
                c['runs'][k]['launch']['faults'] = []
                yield c
            if r['launch']['ranks'] > 2:
                c = copy.deepcopy(case)
                c['runs'][k]['launch']['ranks'] -= 1
                yield c
            if r['launch']['policy'] != {'kind': 'serial'}:
                c = copy.deepcopy(case)
                c['runs'][k]['launch']['policy'] = {'kind': 'serial'}
                yield c
        # stop after an earlier run
        if len(case['runs']) > 1:
            c = copy.deepcopy(case)
            del c['runs'][-1]
            yield c
            if case['runs'][0]['stages'] == case['runs'][1]['stages']:
                c = copy.deepcopy(case)
                del c['runs'][0]
                yield c


class Divided(Model):
    id = 'P01'
    rule = ('one evaluation = the whole model run in a generated division into launches '
            'with generated process counts; everything left behind is compared with the '
            'stage by stage results of one process')

    def cases(self, rng, tier):
        out = []
        for name in SETTINGS:
            out.append({'name': name, 'runs': [
                {'stages': [0, 6], 'launch': gen_env(rng, rng.choice([2, 3, 4]),
                                                     masks=('none', 'mutate'))}]})
            out.append({'name': name, 'runs': [
                {'stages': [CAL, 6], 'launch': gen_env(rng, rng.choice([1, 2, 5]),
                                                       masks=('mutate',))}]})
        return out

    def gen(self, rng, i, tier):
        first = 0 if rng.random() < 0.3 else CAL
        runs = [{'stages': g, 'launch': gen_env(rng, rng.choice([1, 2, 3, 4, 6]),
                                                masks=('none', 'mutate', 'fine')
                                                if g[0] else ('none', 'mutate'))}
                for g in self.groups(rng, first)]
        # a stage selection that has been run before may be run again
        if rng.random() < 0.25:
            k = rng.randrange(len(runs))
            runs.insert(k, dict(copy.deepcopy(runs[k]),
                                launch=gen_env(rng, rng.choice([1, 2, 3]),
                                               masks=('none', 'mutate'))))
        return {'name': rng.choice(list(SETTINGS)), 'runs': runs}

    def run(self, ctx, case):
        v, ref = self.reference(ctx, case['name'])
        if v:
            return v
        out = self.start(ctx, case)
        for r in case['runs']:
            a, b = r['stages']
            cfg, ld = self.config(ctx, case['name'], STAGES[a:b], out)
            o = run_tcrm(ctx, cfg, r['launch'], out)
            v = abnormal(ctx, o, ld, 'run of %s' % STAGES[a:b])
            if not v and o.unmatched:
                v = [Violation('message-left', 'messages never received: %s'
                               % o.unmatched[:4])]
            v = v or self.judge(out, ref[b - 1], 'after %s on %d processes' %
                                (STAGES[a:b], r['launch']['ranks']))
            if v:
                return v
        if len({r['launch']['ranks'] for r in case['runs']}) > 1:
            ctx.probe('process count changed between runs')
        return []


class Interrupted(Model):
    id = 'P02'
    level = 'fault_enumeration'
    rule = ('one evaluation = the whole model run in a generated division into launches, '
            'some of them killed or hit by a failing file operation and then repeated; '
            'everything left behind is compared with an uninterrupted run')

    def cases(self, rng, tier):
        out = []
        n = 60 if tier == 'thorough' else 8
        for k in range(n):
            for kind in ('torn', 'enospc'):
                out.append({'name': 'plain', 'runs': [
                    {'stages': [CAL, 6], 'launch': dict(serial_env(), mask='mutate+', faults=[
                        {'kind': kind, 'at': round((k + 0.5) / n, 4), 'frac': 0.5,
                         'sticky': bool(k % 2)}])},
                    {'stages': [CAL, 6], 'launch': serial_env()}]})
        return out

    def gen(self, rng, i, tier):
        first = 0 if rng.random() < 0.25 else CAL
        runs = []
        gs = self.groups(rng, first)
        hit = rng.randrange(len(gs))
        for k, g in enumerate(gs):
            while k == hit or rng.random() < 0.25:
                e = gen_env(rng, rng.choice([1, 2, 3]), masks=('mutate', 'mutate+'))
                kind = rng.choice(['crash', 'torn', 'torn', 'kill', 'enospc', 'eio', 'eacces',
                                   'unreadable'])
                f = {'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
                     'sticky': kind not in ('crash', 'torn', 'kill') and rng.random() < 0.5}
                if kind == 'unreadable':
                    e['mask'] = 'fine'
                    f.update(kind='eio', ops=['open'])
                if kind == 'kill':
                    f.update(rank=rng.randrange(e['ranks']), linger=rng.choice([0, 3, 20]))
                e['faults'] = [f]
                runs.append({'stages': g, 'launch': e})
                if k == hit:
                    hit = -1
            runs.append({'stages': g, 'launch': gen_env(rng, rng.choice([1, 2, 3]),
                                                        masks=('none', 'mutate'))})
        return {'name': rng.choice(list(SETTINGS)), 'runs': runs}

    def run(self, ctx, case):
        v, ref = self.reference(ctx, case['name'])
        if v:
            return v
        out = self.start(ctx, case)
        for k, r in enumerate(case['runs']):
            a, b = r['stages']
            cfg, ld = self.config(ctx, case['name'], STAGES[a:b], out)
            o = run_tcrm(ctx, cfg, r['launch'], out)
            if o.deadlock or o.step_cap or o.cpu_cap or not o.fired:
                v = abnormal(ctx, o, ld, 'run of %s' % STAGES[a:b])
                if v:
                    return v
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            if ended_badly(o):
                ctx.probe('failure reported')
                continue
            v = self.judge(out, ref[b - 1], 'after %s' % STAGES[a:b])
            if v:
                if o.fired:
                    v[0]['cls'] = 'silent-failure'
                    v[0]['msg'] = 'success reported despite %s, but %s' % (o.fired[:1],
                                                                          v[0]['msg'])
                return v
        return []


class Replaced(Model):
    id = 'P03'
    rule = ('one evaluation = a sequence of model runs with different settings in one output '
            'folder, some of them killed on the way; after every completed run everything it '
            'wrote is compared with a run of these settings in an empty folder')

    def cases(self, rng, tier):
        out = []
        for a, b in (('plain', 'seeded'), ('plain', 'fewer'), ('plain', 'powell'),
                     ('station', 'moved'), ('season', 'plain'), ('annual', 'plain'),
                     ('plain', 'beta'), ('wide', 'plain'), ('plain', 'fine'),
                     ('years', 'plain'), ('peaks', 'years'), ('beta', 'powell'),
                     ('plain', 'smaller'), ('smaller', 'counted'), ('recent', 'plain'),
                     ('plain', 'cells'), ('steps', 'plain'), ('plain', 'split')):
            out.append({'runs': [
                {'name': a, 'stages': [CAL, 6], 'launch': serial_env()},
                {'name': b, 'stages': [since(a, b), 6],
                 'launch': gen_env(rng, rng.choice([1, 2, 3]), masks=('none', 'mutate'))}]})
        return out

    def gen(self, rng, i, tier):
        runs = []
        for k in range(rng.choice([2, 2, 3])):
            name = rng.choice([n for n in ALL if not runs or n != runs[-1]['name']])
            first = min(CAL, since(runs[-1]['name'], name)) if runs else CAL
            if runs and not any(r['launch'].get('faults') for r in runs[-1:]) and \
                    rng.random() < 0.6:
                first = min(since(runs[-1]['name'], name), 4)
            if runs and runs[-1]['launch'].get('faults'):
                first = min(first, runs[-1]['stages'][0])
            gs = [[first, 6]] if rng.random() < 0.6 else self.groups(rng, first)
            for g in gs:
                e = gen_env(rng, rng.choice([1, 2, 3]), masks=('none', 'mutate'))
                if rng.random() < 0.25:
                    e['mask'] = 'mutate'
                    e['faults'] = [{'kind': rng.choice(['crash', 'torn']), 'at': gen_at(rng),
                                    'frac': rng.random()}]
                runs.append({'name': name, 'stages': g, 'launch': e})
                if e.get('faults'):
                    break
        if runs[-1]['launch'].get('faults'):
            runs.append({'name': rng.choice(list(ALL)), 'stages': [0, 6],
                         'launch': gen_env(rng, rng.choice([1, 2, 3]),
                                           masks=('none', 'mutate'))})
        return {'runs': runs}

    def start(self, ctx, case):
        out = ctx.fresh('out')
        shutil.copytree(pjoin(ctx.shared, 'cal-' + case['runs'][0]['name']), out,
                        dirs_exist_ok=True)
        return out

    def run(self, ctx, case):
        refs = {}
        for r in case['runs']:
            v, refs[r['name']] = self.reference(ctx, r['name'])
            if v:
                return v
        out = self.start(ctx, case)
        for r in case['runs']:
            a, b = r['stages']
            cfg, ld = self.config(ctx, r['name'], STAGES[a:b], out)
            o = run_tcrm(ctx, cfg, r['launch'], out)
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            v = abnormal(ctx, o, ld, 'run of %s with settings %s' % (STAGES[a:b], r['name']))
            if v:
                return v
            snap, err = apart(snapshot, out)
            if err:
                return [Violation('unreadable', err)]
            # later stages and options not selected now may have left their own results
            ref = refs[r['name']][b - 1]
            own = OWN[:b] if b >= CAL else ['process/']
            if b < CAL:
                snap = {n: c for n, c in snap.items() if n in ref}
            snap = {n: c for n, c in snap.items() if n.startswith(tuple(own)) and
                    (n in ref or 'rmax' not in n) and
                    (n in ref or not n.startswith(OPTIONAL) or 'frequency' not in n
                     and 'Timeseries' in ALL[r['name']])}
            ref = {n: c for n, c in ref.items() if n.startswith(tuple(own))}
            d = differ(snap, ref)
            if d:
                return [Violation(d[0], 'settings %s after %s: %s' % (
                    r['name'], [x['name'] for x in case['runs']], d[1]))]
        return []


# where each stage leaves its results
OWN = ['process/', 'process/', 'tracks/', 'windfield/', 'hazard/', 'hazard.db']
OPTIONAL = ('process/timeseries', 'process/maxima', 'process/minima',
            'process/region_frequency')
