"""Execution context handed to a property while it runs one case."""
import collections
import hashlib
import json
import os
import shutil

from . import core, seams
from .core import Launch, mix


class Stats:
    """Counters accumulated over launches; merged by the controller."""

    def __init__(self):
        self.c = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.distinct = set()
        self.virtual_s = 0.0
        self.ops = collections.Counter()

    def to_json(self):
        return dict(c=dict(self.c), faults=dict(self.faults), probes=dict(self.probes),
                    distinct=sorted(self.distinct), virtual_s=self.virtual_s,
                    ops=dict(self.ops))

    def merge(self, d):
        self.c.update(d['c'])
        self.faults.update(d['faults'])
        self.probes.update(d['probes'])
        self.distinct.update(d['distinct'])
        self.virtual_s += d['virtual_s']
        self.ops.update(d['ops'])


def virtual_mtimes(root, t):
    """
    Give files that carry a modification time of the real clock (later than any
    virtual time) a virtual one.
    """
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            try:
                if os.lstat(p).st_mtime > 1.7e9:
                    os.utime(p, (t, t), follow_symlinks=False)
            except OSError:
                pass


class Violation(dict):
    """cls: stable short class; msg: human readable detail."""

    def __init__(self, cls, msg):
        dict.__init__(self, cls=cls, msg=str(msg)[:2000])


class Ctx:
    def __init__(self, base, shared, lib):
        self.base = base              # private directory of this case
        self.shared = shared          # read-only fixtures of the whole check
        self.lib = lib
        self.stats = Stats()
        self.outcomes = []
        self.deviations = []
        self.digest = hashlib.blake2b(digest_size=12)
        self.n = 0
        self.vnow = 0

    def path(self, *p):
        d = os.path.join(self.base, *p)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        return d

    def fresh(self, name):
        d = os.path.join(self.base, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def probe(self, name, n=1):
        self.stats.probes[name] += n

    def launch(self, spec, root, work=None, explore=True):
        """Run one launch under the scheduler and account for it."""
        self.n += 1
        work = work or self.path('work%02d' % self.n, '')
        os.makedirs(work, exist_ok=True)
        base = spec.get('clock', {}).get('base', 1577836800)
        virtual_mtimes(root, base - 1000)
        l = Launch(spec, root, work.rstrip('/'), self.lib, seams.rank_main)
        out = l.run()
        virtual_mtimes(root, base + int(out.virtual_s) + 1)
        out.work = work
        s = self.stats
        threads = 0
        for r in range(l.n):
            p = os.path.join(work, 'threads.%d' % r)
            if os.path.exists(p):
                with open(p) as f:
                    t = json.load(f)
                threads += t['switches']
                s.c['thread_switches'] += t['switches']
                out.log_digest = hashlib.sha256(
                    (out.log_digest + t['digest']).encode()).hexdigest()[:len(out.log_digest)]
        s.c['launches'] += 1
        s.c['steps'] += out.steps
        s.c['rank_processes'] += l.n
        s.c['fs_ops'] += sum(out.fs_ops.values())
        s.c['messages'] += out.ops.get('recv', 0) + out.ops.get('wait', 0)
        s.virtual_s += out.virtual_s
        s.ops.update(out.ops)
        for f in out.fired:
            s.faults[f[0]] += 1
        self.all = getattr(self, 'all', []) + [out]
        if explore:
            self.outcomes.append(out)
            self.digest.update(out.log_digest.encode())
            self.deviations.append(out.deviations)
            if l.n > 1 or out.fired or threads > 1:
                s.distinct.add(out.log_digest)
        return out

    def stdout(self, out):
        txt = []
        d = os.path.join(out.work, 'std')
        if os.path.isdir(d):
            for n in sorted(os.listdir(d)):
                with open(os.path.join(d, n), errors='replace') as f:
                    t = f.read()
                if t.strip():
                    txt.append('--- %s\n%s' % (n, t[-1500:]))
        return '\n'.join(txt)


class Property:
    """Base class of every check."""
    id = None
    level = 'exploration'
    technique = 'deterministic simulation with fault injection'
    budget = {'quick': 45.0, 'thorough': 900.0}
    preload = ('Utilities.parallel',)
    rule = ''
    assumptions = ()
    real = ()
    stubbed = ()
    min_cases = {'quick': 0, 'thorough': 0}   # run at least these many

    def prepare(self, ctx):
        """Build shared fixtures below ctx.shared (runs once per check)."""

    def cases(self, rng, tier):
        """Fixed cases that are always run first."""
        return []

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, ctx, case):
        raise NotImplementedError

    def shrink(self, case):
        """Yield strictly simpler variants of a failing case."""
        return []


# ---------------------------------------------------------------- generators
def gen_policy(rng, ranks, span=400):
    k = rng.choice(['random', 'random', 'random', 'pct', 'pct', 'starve', 'favour', 'rr'])
    p = {'kind': k, 'seed': rng.getrandbits(32)}
    if k == 'random':
        p['sticky'] = rng.choice([0.0, 0.0, 0.5, 0.9])
    if k == 'pct':
        p['depth'] = rng.choice([1, 2, 3, 5])
        p['span'] = span
    if k in ('starve', 'favour'):
        p['who'] = rng.randrange(ranks)
    return p


def gen_env(rng, ranks, masks=('mutate', 'none', 'fine')):
    """Swarm: everything about the environment that may vary between runs."""
    return dict(ranks=ranks, policy=gen_policy(rng, ranks),
                eager=rng.choice([1 << 30, 1 << 30, 4096, 200, 0]),
                mask=rng.choice(masks),
                listing={'seed': rng.choice([None, rng.getrandbits(16)]),
                         'per_rank': rng.random() < 0.5},
                clock={'base': 1577836800 + rng.randrange(10**7),
                       'skew': rng.choice([0, 0, 1, 3600])},
                fill=rng.choice([1, 0x40, 0x80, 0xff, rng.randrange(1, 256)]))


def serial_env(mpi='real'):
    return dict(ranks=1, policy={'kind': 'serial'}, mask='none',
                listing={'seed': None, 'per_rank': False},
                clock={'base': 1577836800, 'skew': 0}, mpi=mpi)
