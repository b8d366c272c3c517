"""
Controller of a check: generates cases from VERIF_SEED, farms them out to
worker processes, minimises and replays failures, writes evidence.
"""
import argparse
import copy
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import queue

from .context import Stats

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def build_shim():
    """Compile the interposition library if this source was not built yet."""
    src = os.path.join(VERIF, 'sim', 'shim.c')
    with open(src, 'rb') as f:
        tag = hashlib.blake2b(f.read(), digest_size=8).hexdigest()
    d = os.path.join(VERIF, '.build')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'shim-%s.so' % tag)
    if not os.path.exists(so):
        tmp = '%s.%d' % (so, os.getpid())
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-w', '-o', tmp, src, '-ldl'],
                       check=True)
        os.replace(tmp, so)
    return so


def child_env(shim):
    e = {k: v for k, v in os.environ.items()
         if k in ('PATH', 'HOME', 'USER', 'LOGNAME', 'LANG', 'VERIF_REPO')}
    e.update(PATH=os.path.join(VERIF, 'sim', 'bin') + ':/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONHASHSEED='0',
             PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             TZ='UTC', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             LD_PRELOAD=shim, PYTHONPATH=VERIF, HDF5_USE_FILE_LOCKING='TRUE',
             USER='sim', LOGNAME='sim', MALLOC_PERTURB_='165')
    e['MPLCONFIGDIR'] = os.environ.get('MPLCONFIGDIR', '/opt/vp/mplconfig')
    if 'SIM_HASHSEED' in os.environ:
        e['PYTHONHASHSEED'] = os.environ['SIM_HASHSEED']
    return e


class Worker:
    def __init__(self, pid, scratch, shim, slot):
        self.err = open(os.path.join(scratch, 'worker-%d.err' % time.monotonic_ns()), 'w+')
        self.p = subprocess.Popen([PY, '-m', 'sim.worker', pid, scratch, shim,
                                   '%02d' % slot],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=child_env(shim), cwd=scratch,
                                  text=True, start_new_session=True)
        self.preload_failed = None

    def ready(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker failed to start: %s' % self.tail())
        self.preload_failed = json.loads(line)['preload_failed']

    def tail(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-3000:]

    def job(self, **kw):
        self.p.stdin.write(json.dumps(kw) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker died: %s' % self.tail())
        return json.loads(line)

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


class Known:
    """Committed list of accepted findings; never written at run time."""

    def __init__(self):
        self.items = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('known:'):
                    d = dict(x.split('=', 1) for x in line[6:].split(' | ')[0].split()
                             if '=' in x)
                    d['text'] = line.split(' | ', 1)[1] if ' | ' in line else ''
                    self.items.append(d)

    def match(self, pid, v):
        for k in self.items:
            if k.get('property') == pid and k.get('class') == v['cls']:
                return k
        return None


class Check:
    def __init__(self, pid, seed, tier, workers=None, budget=None, maxcases=None):
        from checks import registry
        self.prop = registry.get(pid)
        self.pid, self.seed, self.tier = pid, seed, tier
        self.budget = budget if budget is not None else self.prop.budget[tier]
        self.nw = workers or int(os.environ.get('SIM_WORKERS', 0)) or \
            max(1, min(8, os.cpu_count() or 1))
        self.maxcases = maxcases
        self.stats = Stats()
        self.results = 0
        self.known_hit = {}
        self.samples = []
        self.fail = []
        self.errors = []
        self.recheck = [0, 0]
        self.case_digests = {}

    # ------------------------------------------------------------------ plumbing
    def open(self):
        self.shim = build_shim()
        self.scratch = tempfile.mkdtemp(prefix='tcrm-sim-')
        self.workers = [Worker(self.pid, self.scratch, self.shim, i) for i in range(self.nw)]
        for w in self.workers:
            w.ready()
        r = self.workers[0].job(op='prepare', id='prep')
        if not r['ok']:
            raise RuntimeError('prepare failed:\n' + r['error'])
        self.prep_stats = r['stats']

    def close(self):
        for w in getattr(self, 'workers', []):
            w.stop()
        if getattr(self, 'scratch', None):
            shutil.rmtree(self.scratch, ignore_errors=True)

    def case_stream(self):
        rng = random.Random('%s/%s/fixed' % (self.pid, self.seed))
        for i, c in enumerate(self.prop.cases(rng, self.tier)):
            yield ('f%d' % i, c, True)
        i = 0
        while True:
            rng = random.Random('%s/%s/%d' % (self.pid, self.seed, i))
            yield ('r%d' % i, self.prop.gen(rng, i, self.tier), False)
            i += 1

    def explore(self):
        """Run cases on all workers until the budget is used up."""
        t0 = time.monotonic()
        lock = threading.Lock()
        stream = self.case_stream()
        stop = threading.Event()
        order = [0]
        hard = t0 + self.budget * 2.0 + 60

        def loop(w):
            while not stop.is_set():
                with lock:
                    now = time.monotonic()
                    cid, case, fixed = next(stream)
                    must = fixed or order[0] < self.prop.min_cases[self.tier]
                    if (not must and now - t0 > self.budget) or now > hard or \
                            (self.maxcases and order[0] >= self.maxcases):
                        stop.set()
                        return
                    order[0] += 1
                    k = order[0]
                try:
                    r = w.job(op='run', id=cid, case=case)
                    if r['ok'] and k <= 2:         # repeatability probe
                        r2 = w.job(op='run', id=cid, case=case)
                        with lock:
                            self.recheck[0] += 1
                            if r2['ok'] and r2['digest'] != r['digest']:
                                self.recheck[1] += 1
                except Exception as e:
                    with lock:
                        self.errors.append((cid, case, repr(e)))
                        stop.set()
                    return
                with lock:
                    self.absorb(k, cid, case, r)
                    if self.errors or len(self.fail) >= 6:
                        stop.set()
        ts = [threading.Thread(target=loop, args=(w,)) for w in self.workers]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.explore_s = time.monotonic() - t0

    def absorb(self, k, cid, case, r):
        self.results += 1
        self.stats.merge(r['stats'])
        if not r['ok']:
            self.errors.append((cid, case, r['error']))
            return
        self.case_digests[cid] = r['digest']
        new = []
        for v in r['violations']:
            kf = Known().match(self.pid, v)
            if kf:
                self.known_hit.setdefault(v['cls'], (kf, v, cid))
            else:
                new.append(v)
        if new:
            self.fail.append((k, cid, case, new, r))
            sys.stderr.write('case %s: %s\n' % (cid, '; '.join(
                '%s: %s' % (v['cls'], v['msg'][:300]) for v in new[:3])))
            sys.stderr.flush()
        if len(self.samples) < 3:
            self.samples.append({'case': cid, 'input': case, 'digest': r['digest'],
                                 'schedule_deviations': [len(d) for d in r['deviations']]})

    # --------------------------------------------------------------- minimisation
    def try_case(self, case, cls):
        r = self.workers[0].job(op='run', id='min', case=case)
        if not r['ok']:
            return None
        for v in r['violations']:
            if v['cls'] == cls and not Known().match(self.pid, v):
                return r
        return None

    def scripted(self, case, r):
        """Replace each launch's policy by the recorded schedule."""
        c = copy.deepcopy(case)
        ls = c.get('launches')
        if not ls or len(ls) != len(r['deviations']):
            return None
        for l, d in zip(ls, r['deviations']):
            seed = l.get('policy', {}).get('seed', 0)
            l['policy'] = {'kind': 'script', 'seed': seed, 'deviations': d}
        return c

    def minimise(self, case, cls, r, limit):
        t_end = time.monotonic() + limit
        best, bestr = case, r
        tries = 0
        progress = True
        while progress and time.monotonic() < t_end:
            progress = False
            for cand in self.prop.shrink(best):
                if time.monotonic() > t_end:
                    break
                tries += 1
                rr = self.try_case(cand, cls)
                if rr:
                    best, bestr, progress = cand, rr, True
                    break
        sc = self.scripted(best, bestr)
        if sc is not None and time.monotonic() < t_end:
            rr = self.try_case(sc, cls)
            if rr:
                best, bestr = sc, rr
                for li in range(len(best['launches'])):
                    devs = list(best['launches'][li]['policy']['deviations'].items())
                    n = 1
                    chunk = len(devs)
                    while chunk >= 1 and time.monotonic() < t_end:
                        i = 0
                        while i < len(devs) and time.monotonic() < t_end:
                            cand = copy.deepcopy(best)
                            keep = devs[:i] + devs[i + chunk:]
                            cand['launches'][li]['policy']['deviations'] = dict(keep)
                            tries += 1
                            rr = self.try_case(cand, cls)
                            if rr:
                                best, bestr, devs = cand, rr, keep
                            else:
                                i += chunk
                        chunk //= 2
        return best, bestr, tries

    def report(self):
        """Confirm, minimise and write a replay file for the first failure."""
        self.fail.sort(key=lambda f: f[0])
        k, cid, case, vs, r = self.fail[0]
        cls = vs[0]['cls']
        r2 = None
        for _ in range(3):
            r2 = self.try_case(case, cls)
            if r2:
                break
        if not r2:
            self.errors.append((cid, case, 'violation %s not reproduced on rerun' % cls))
            return None
        best, bestr, tries = self.minimise(case, cls, r2,
                                           60 if self.tier == 'quick' else 300)
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        tag = hashlib.blake2b(json.dumps(best, sort_keys=True).encode(),
                              digest_size=5).hexdigest()
        path = os.path.join(d, '%s-%s.json' % (self.pid, tag))
        v = [x for x in bestr['violations'] if x['cls'] == cls][0]
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                       'class': cls, 'message': v['msg'], 'digest': bestr['digest'],
                       'found_as': cid, 'original': case, 'minimise_runs': tries,
                       'case': best}, f, indent=1, sort_keys=True)
        # replay in a fresh process
        w = Worker(self.pid, self.scratch, self.shim, 99)
        try:
            w.ready()
            rr = w.job(op='run', id='replay', case=best)
            ok = rr['ok'] and any(x['cls'] == cls for x in rr['violations'])
            same = ok and rr['digest'] == bestr['digest']
        finally:
            w.stop()
        print('minimised %s in %d runs; fresh-process replay %s' %
              (cls, tries, 'identical' if same else ('reproduces' if ok else 'FAILED')))
        print('  %s' % v['msg'].replace('\n', '\n  '))
        return path

    # ------------------------------------------------------------------- evidence
    def evidence(self, wall, nviol):
        s = self.stats
        h = max(self.explore_s, 1e-9) / 3600.
        p = self.prop
        cov = {
            'evaluations': self.results,
            'distinct_nontrivial': len(s.distinct),
            'rule': p.rule,
            'samples': self.samples,
            'simulated_runs': s.c['launches'],
            'rank_processes': s.c['rank_processes'],
            'thread_switches': s.c['thread_switches'],
            'runs_per_hour': round(s.c['launches'] / h),
            'seeds_per_hour': round(self.results / h),
            'scheduler_steps': s.c['steps'],
            'file_operations_intercepted': s.c['fs_ops'],
            'simulated_seconds': round(s.virtual_s, 3),
            'mpi_operations': dict(s.ops),
            'faults_injected': dict(s.faults),
            'rare_conditions': dict(s.probes),
            'distinct_measure': 'digest of the complete event log (who ran, which '
                                'operation, which fault) of launches with more than '
                                'one process or at least one fault fired',
            'repeatability': {'cases_run_twice': self.recheck[0],
                              'differing': self.recheck[1]},
            'components_real': list(p.real),
            'components_stubbed': list(p.stubbed),
        }
        for k in ('exhaustive_note',):
            if getattr(p, k, None):
                cov[k] = getattr(p, k)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': p.level, 'coverage': cov, 'assumptions': list(p.assumptions),
              'wall_s': round(wall, 2), 'violations': nviol,
              'known_findings_seen': sorted(self.known_hit)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(d, '%s.json' % self.pid))

    def main(self):
        t0 = time.monotonic()
        print('property=%s seed=%d tier=%s workers=%d budget=%.0fs' %
              (self.pid, self.seed, self.tier, self.nw, self.budget))
        sys.stdout.flush()
        try:
            self.open()
            self.explore()
            path = None
            if self.fail and not (self.errors and not self.fail):
                path = self.report()
            nv = len(self.fail) if path else 0
            self.evidence(time.monotonic() - t0, nv)
            print('cases=%d launches=%d steps=%d faults=%s distinct=%d wall=%.1fs' %
                  (self.results, self.stats.c['launches'], self.stats.c['steps'],
                   dict(self.stats.faults), len(self.stats.distinct),
                   time.monotonic() - t0))
            if self.recheck[1]:
                print('warning: %d of %d repeated cases differed' %
                      (self.recheck[1], self.recheck[0]))
            for cls, (kf, v, cid) in sorted(self.known_hit.items()):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['text'] or cls))
            if path:
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                return 1
            if self.errors:
                cid, case, e = self.errors[0]
                print('ERROR in case %s:\n%s\n%s' % (cid, json.dumps(case)[:1500], e))
                return 2
            return 0
        finally:
            self.close()


def replay(pid, path):
    """Re-execute a replay file; exit 1 if it still violates."""
    d = json.load(open(path))
    c = Check(pid, d['seed'], 'quick', workers=1)
    try:
        c.open()
        r = c.workers[0].job(op='run', id='replay', case=d['case'], keep=True)
        if not r['ok']:
            print('ERROR\n' + r['error'])
            return 2
        for v in r['violations']:
            print('%s: %s' % (v['cls'], v['msg']))
        print('digest %s (%s)' % (r['digest'], 'same as recorded'
                                  if r['digest'] == d['digest'] else 'recorded ' + d['digest']))
        if os.environ.get('SIM_SHOW'):
            print(r.get('std'))
        if any(v['cls'] == d['class'] for v in r['violations']):
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return 0
    finally:
        c.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--digests', help='write case digests to this file')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.property, a.replay))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    c = Check(a.property, seed, tier, a.workers, a.budget, a.cases)
    rc = c.main()
    if a.digests:
        with open(a.digests, 'w') as f:
            for k in sorted(c.case_digests, key=lambda x: (x[0], int(x[1:]))):
                f.write('%s %s\n' % (k, c.case_digests[k]))
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
