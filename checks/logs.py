"""Log files: one per process, in the configured place, with the reason of a failure."""
import copy

from .common import *
from . import hazardmap as hm

DATA = 'tiny'


class Logs(hm.Hazard):
    id = 'L01'
    level = 'fault_enumeration'
    rule = ('one evaluation = one to three runs on generated processes whose log folder exists '
            'or not, some with a failing operation or a wrong setting; judged: set of log '
            'files, what they say about a failure, results')

    def prepare(self, ctx):
        hm.write_data(pjoin(ctx.shared, 'wind-' + DATA), DATA)

    def config(self, ctx, case, root):
        _, _, lim = hm.grids(DATA)
        out = pjoin(root, 'out')
        folder = {'none': 'logs', 'there': 'logs', 'nested': 'a/b/logs',
                  'output': 'out/log'}[case['folder']]
        c = fx.base_config(pjoin(ctx.shared, 'static'), out, pjoin(root, folder),
                           {'ExecuteHazard'} if case['work'] else set(), lim)
        c['Logging'].update({'LogFile': pjoin(root, folder, case['file']),
                             'Datestamp': str(case['stamp']), 'LogLevel': case['detail']})
        c['TrackGenerator']['NumSimulations'] = hm.DATA[DATA][3]
        c['Hazard'].update({'ExtremeValueDistribution': 'gumbel' if case['wrong'] else 'GEV',
                            'MinimumRecords': 2, 'CalculateCI': 'False'})
        return c, pjoin(root, folder)

    def start(self, ctx, case):
        root = ctx.fresh('root')
        shutil.copytree(pjoin(ctx.shared, 'wind-' + DATA), pjoin(root, 'out', 'windfield'))
        os.makedirs(pjoin(root, 'home'))
        if case['folder'] == 'there':
            os.makedirs(pjoin(root, 'logs'))
        return root

    def one(self, ctx, case, env, root, explore=True):
        cfg, ld = self.config(ctx, case, root)
        return run_tcrm(ctx, cfg, env, root, explore=explore, extra={'hooks': ['home']}), ld

    def cases(self, rng, tier):
        res = []
        for folder in ('none', 'nested', 'output', 'there'):
            for r in (1, 2, 4):
                for wrong in (False, True):
                    e = dict(gen_env(rng, r, masks=('fine',)))
                    res.append(self.case(rng, folder, wrong, True, [e]))
        res.append(self.case(rng, 'none', False, True, [gen_env(rng, 12, masks=('fine',))]))
        for path in ('*logs', '*logs/*'):
            for kind in ('eacces', 'enospc', 'eio'):
                for nth in (1, 2, 3):
                    e = dict(gen_env(rng, 3, masks=('fine',)),
                             faults=[{'kind': kind, 'path': path, 'nth': nth, 'sticky': nth == 1,
                                      'ops': ['mkdir', 'open']}])
                    res.append(self.case(rng, 'none', False, True, [e]))
        return res

    def case(self, rng, folder, wrong, work, launches):
        return {'folder': folder, 'wrong': wrong, 'work': work, 'stamp': rng.random() < 0.3,
                'detail': rng.choice(['INFO', 'DEBUG', 'WARNING']) if wrong and work else
                rng.choice(['INFO', 'DEBUG']),
                'file': rng.choice(['tcrm.log', 'model', 'run.1.log']), 'launches': launches}

    def gen(self, rng, i, tier):
        ls = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            e = gen_env(rng, rng.choice([1, 2, 2, 3, 4, 6, 8, 11]), masks=('fine', 'fine', 'mutate+'))
            if rng.random() < 0.4:
                f = {'kind': rng.choice(['eacces', 'enospc', 'eio', 'crash']), 'at': gen_at(rng),
                     'frac': rng.random(), 'sticky': rng.random() < 0.3}
                if rng.random() < 0.6:
                    f['path'] = rng.choice(['*log*', '*logs', 'out/hazard*', 'out/wind*'])
                e['faults'] = [f]
            ls.append(e)
        return self.case(rng, rng.choice(['none', 'none', 'nested', 'output', 'there']),
                         rng.random() < 0.25, rng.random() < 0.7, ls)

    def run(self, ctx, case):
        def build():
            root = self.start(ctx, case)
            o, _ = self.one(ctx, dict(case, wrong=False, work=True, folder='there'),
                            serial_env('absent'), root, explore=False)
            if ended_badly(o):
                raise RuntimeError('reference run failed')
            return nc_content(pjoin(root, 'out', 'hazard', 'hazard.nc'))
        ref = cached(ctx, ('ref',), build)
        root = self.start(ctx, case)
        for env in case['launches']:
            for d in (self.config(ctx, case, root)[1], pjoin(root, 'home')):
                if os.path.isdir(d):
                    clean(d)
            o, ld = self.one(ctx, case, env, root)
            what = 'run on %d processes' % env['ranks']
            if o.deadlock or o.step_cap or o.cpu_cap:
                return abnormal(ctx, o, None, what)
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            fine = not o.fired and not (case['wrong'] and case['work'])
            if fine and ended_badly(o):
                return abnormal(ctx, o, ld, what)
            if not o.fired and case['wrong'] and case['work'] and not ended_badly(o):
                return [Violation('silent-failure', '%s with a wrong setting reports success'
                                  % what)]
            near, far = entries(ld), entries(pjoin(root, 'home'))
            text = logs(ld) + logs(pjoin(root, 'home'))
            if ended_badly(o):
                ctx.probe('failure reported')
                if any((c or 0) < 0 for c in o.exit.values()):
                    ctx.probe('process killed by a signal')
                    continue
                if 'Error' not in text and not any('log' in f[3] for f in o.fired):
                    return [Violation('no-reason', '%s failed, the logs do not say why' % what)]
                if case['wrong'] and not o.fired and 'gumbel' not in text:
                    return [Violation('no-reason', '%s failed because of a setting the logs do '
                                      'not name' % what)]
                continue
            if not o.fired:
                d = self.names(case, env['ranks'], near, far)
                if d:
                    return [Violation('wrong-logs', '%s: %s' % (what, d))]
                ctx.probe('log set compared')
            elif all(f[2] == 'mkdir' for f in o.fired):
                ctx.probe('folder could not be made')
                n = sum(size > 0 for size in list(near.values()) + list(far.values()))
                if n != env['ranks']:
                    return [Violation('wrong-logs', '%s: %d log files after the folder could '
                                      'not be made' % (what, n))]
            if case['work']:
                got = nc_try(pjoin(root, 'out', 'hazard', 'hazard.nc'))
                d = 'no map' if got is None else diff_nc(got, ref)
                if d:
                    return [Violation('wrong-result', '%s: %s' % (what, d))]
        return []

    def names(self, case, ranks, near, far):
        """The files against one file per process."""
        base = os.path.splitext(case['file'])[0]
        if far:
            return 'log files %s outside the log folder' % sorted(far)
        odd = [n for n in near if not n.startswith(base)]
        if odd:
            return 'unexpected files %s' % sorted(odd)
        empty = [n for n in near if near[n] == 0]
        if empty:
            return 'log files %s are empty' % sorted(empty)
        if len(near) != ranks:
            return '%d log files for %d processes' % (len(near), ranks)
        return None

    def shrink(self, case):
        yield from shrink_faults(case)
        yield from shrink_env(case)
        for k in range(len(case['launches']) - 1, 0, -1):
            c = copy.deepcopy(case)
            del c['launches'][k]
            yield c


def entries(d):
    return {n: os.path.getsize(pjoin(d, n)) for n in os.listdir(d)} if os.path.isdir(d) else {}
