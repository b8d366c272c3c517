"""
The scheduler: runs one launch of the program as N rank processes, one at a
time, and takes every decision the operating system, the network and the MPI
library would normally take.

A launch is described by a plain dict (see `Launch.DEFAULTS`).  Given the same
dict, the same program and the same directory contents it performs exactly the
same execution.
"""
import collections
import ctypes
import errno
import fnmatch
import hashlib
import os
import pickle
import random
import resource
import select
import signal
import socket
import struct
import sys
import time
import traceback

# operation classes, must match shim.c
OPENR, OPENW, WRITE, META, STAT, CLOSE, SYNC, TRUNC, LIST, READ = \
    1, 2, 4, 8, 16, 32, 64, 128, 256, 512
MUTATE = OPENW | WRITE | META | TRUNC | CLOSE | SYNC
MASKS = {
    'none': 0,
    'mutate': OPENW | WRITE | META | TRUNC,
    'mutate+': OPENW | WRITE | META | TRUNC | CLOSE | SYNC,
    'fine': OPENR | OPENW | WRITE | META | TRUNC | CLOSE | STAT | LIST,
    'all': OPENR | OPENW | WRITE | META | TRUNC | CLOSE | STAT | LIST | READ,
}
ERRNOS = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES,
          'edquot': errno.EDQUOT, 'emfile': errno.EMFILE}

REPLY = struct.Struct('<iiqq')
STEP_CAP = 400000
WALL_CAP = 600.0


class HarnessError(Exception):
    """Something went wrong in the simulator itself (never a verdict)."""


def mix(*parts):
    """Stable 64-bit hash of the arguments."""
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'little')


# ------------------------------------------------------------------- policies
class Policy:
    """Chooses among enabled actions.  `key` strings name actions."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec.get('kind', 'serial')
        self.rng = random.Random(spec.get('seed', 0))
        self.last = None
        self.step = -1
        self.deviations = {}
        if self.kind == 'pct':
            n = spec['ranks']
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            span = max(10, spec.get('span', 300))
            self.changes = sorted(self.rng.randrange(span)
                                  for _ in range(spec.get('depth', 3)))
        if self.kind == 'script':
            self.script = {int(k): v for k, v in spec.get('deviations', {}).items()}

    def default(self, acts):
        """Non-preemptive default: keep running the last rank, else lowest."""
        mine = [a for a in acts if a[0] == self.last]
        return min(mine) if mine else min(acts)

    def choose(self, acts):
        """acts: list of (rank, variant) tuples, sorted."""
        self.step += 1
        d = self.default(acts)
        if len(acts) == 1:
            c = acts[0]
        else:
            c = self._pick(acts, d)
        if c != d:
            self.deviations[self.step] = '%d.%d' % c
        self.last = c[0]
        return c

    def _pick(self, acts, d):
        k = self.kind
        if k == 'serial':
            return d
        if k == 'script':
            want = self.script.get(self.step)
            if want is not None:
                t = tuple(int(x) for x in want.split('.'))
                if t in acts:
                    return t
            return d
        if k == 'random':
            if self.last is not None and self.rng.random() < self.spec.get('sticky', 0.0):
                mine = [a for a in acts if a[0] == self.last]
                if mine:
                    return self.rng.choice(mine)
            # choose a rank first so wildcard variants do not bias the choice
            ranks = sorted({a[0] for a in acts})
            r = self.rng.choice(ranks)
            return self.rng.choice([a for a in acts if a[0] == r])
        if k == 'rr':
            ranks = sorted({a[0] for a in acts})
            nxt = [r for r in ranks if self.last is None or r > self.last] or ranks
            r = nxt[0]
            return self.rng.choice([a for a in acts if a[0] == r])
        if k == 'pct':
            if self.changes and self.step >= self.changes[0]:
                self.changes.pop(0)
                r = self.rng.randrange(len(self.prio))
                self.prio[r] = min(self.prio) - 1
            r = max({a[0] for a in acts}, key=lambda x: self.prio[x])
            return self.rng.choice([a for a in acts if a[0] == r])
        if k in ('starve', 'favour'):
            who = self.spec.get('who', 0)
            mine = [a for a in acts if a[0] == who]
            rest = [a for a in acts if a[0] != who]
            pool = (rest or mine) if k == 'starve' else (mine or rest)
            return self.rng.choice(pool)
        raise HarnessError('unknown policy %r' % k)


# ------------------------------------------------------------------ fault plan
class FaultPlan:
    """
    Faults are dicts:
      kind   crash | torn | enospc | eio | short | kill (one rank dies first)
      rank   rank the fault applies to, or -1 for any
      ops    list of op names it can hit (default: all mutating ones)
      path   optional glob on the path relative to the simulated root
      nth    which matching operation it hits (1-based)
      arg    bytes written before the fault for torn/short
      sticky for error faults: every later matching op fails as well
      linger for kill: steps the other ranks still run before mpirun kills them
    """
    MUT = ('opentrunc', 'opencreate', 'openrw', 'write', 'pwrite', 'writev',
           'ftruncate', 'mkdir', 'rmdir', 'unlink', 'rename', 'truncate', 'link',
           'symlink', 'close', 'fsync', 'fdatasync')

    OPENS = ('opentrunc', 'opencreate', 'openrw')
    DATA = ('write', 'pwrite', 'writev', 'ftruncate', 'truncate', 'close', 'fsync',
            'fdatasync')
    NAMES = ('mkdir', 'rmdir', 'unlink', 'rename', 'link', 'symlink')
    # operations a kind of error can hit when the fault names none
    KIND = {'enospc': OPENS + DATA + ('mkdir', 'link', 'symlink'),
            'edquot': OPENS + DATA + ('mkdir', 'link', 'symlink'),
            'eacces': OPENS + NAMES, 'emfile': OPENS, 'short': DATA}
    LASTING = {'eio': DATA}       # while an I/O error lasts names still work

    def __init__(self, faults):
        self.faults = [dict(f) for f in faults]
        self.count = [0] * len(self.faults)
        self.on = [False] * len(self.faults)
        self.fired = []

    def check(self, rank, op, path, length):
        """Return a fired fault (dict) or None."""
        hit = None
        for i, f in enumerate(self.faults):
            if f['kind'] == 'mpi':
                continue
            if f.get('rank', -1) not in (-1, rank):
                continue
            ops = f.get('ops') or self.KIND.get(f['kind'], self.MUT)
            if self.on[i] and not f.get('ops'):
                ops = self.LASTING.get(f['kind'], ops)
            if op not in ops:
                continue
            if f.get('path') and not fnmatch.fnmatch(path, f['path']):
                continue
            self.count[i] += 1
            if self.on[i] and f.get('sticky'):
                hit = hit or f
                self.fired.append((f['kind'] + '+', rank, op, path))
            elif self.count[i] == f['nth']:
                self.on[i] = True
                self.fired.append((f['kind'], rank, op, path))
                hit = hit or f
        return hit


# ----------------------------------------------------------------- rank outcome
class Outcome:
    """What happened in one launch."""

    def __init__(self):
        self.deadlock = None       # list of blocked descriptions
        self.step_cap = False
        self.cpu_cap = []          # ranks killed for using too much CPU
        self.aborted = None        # exit code passed to Abort
        self.crashed = False       # a crash/torn/kill fault fired
        self.exit = {}             # rank -> exit code (None if killed by us)
        self.errors = {}           # rank -> traceback text of escaped exception
        self.steps = 0
        self.deviations = {}
        self.fired = []
        self.fault_counts = []     # operations each fault could have hit
        self.log_digest = ''
        self.mpi_digest = ''
        self.ops = collections.Counter()
        self.coll_mismatch = None
        self.unmatched = []        # messages never received
        self.mut_ops = 0
        self.fs_ops = collections.Counter()
        self.virtual_s = 0.0
        self.races = []
        self.events = None
        self.wrong_calls = {}

    @property
    def finished(self):
        """Every rank ran to normal completion of the process."""
        return (not self.deadlock and not self.step_cap and not self.cpu_cap and
                self.aborted is None and not self.crashed)


class Msg:
    __slots__ = ('src', 'dst', 'tag', 'data', 'comm', 'seq', 'sync', 'rid')

    def __init__(self, src, dst, tag, data, comm, seq, sync, rid=None):
        self.src, self.dst, self.tag, self.data = src, dst, tag, data
        self.comm, self.seq, self.sync, self.rid = comm, seq, sync, rid


class Launch:
    DEFAULTS = dict(ranks=1, mpi='real', script=None, argv=[], eager=1 << 30,
                    policy={'kind': 'serial'}, mask='mutate', faults=[],
                    listing={'seed': 0, 'per_rank': False},
                    clock={'base': 1577836800, 'skew': 0}, cpu=90,
                    hooks=[], keep_events=False, race_monitor=False)

    def __init__(self, spec, root, workdir, libshim, rank_main):
        self.s = dict(self.DEFAULTS)
        self.s.update(spec)
        self.root = root
        self.workdir = workdir
        self.lib = libshim
        self.rank_main = rank_main
        self.n = self.s['ranks']
        pol = dict(self.s['policy'])
        pol['ranks'] = self.n
        self.policy = Policy(pol)
        self.plan = FaultPlan(self.s['faults'])
        self.out = Outcome()
        self.hash = hashlib.blake2b(digest_size=12)
        self.mpihash = hashlib.blake2b(digest_size=12)
        self.events = [] if self.s['keep_events'] else None
        self.now = int(self.s['clock'].get('base', 1577836800)) * 10**9
        self.seq = 0
        self.queue = []                        # undelivered messages, in order
        self.pending = [None] * self.n         # request each rank waits on
        self.alive = [False] * self.n
        self.final = [False] * self.n
        self.collpos = [collections.Counter() for _ in range(self.n)]
        self.colls = {}                        # (comm, pos) -> {rank: (kind,root,data,group)}
        self.reqs = {}                         # rid -> dict
        self.rid = 0
        self.socks, self.pids, self.bufs = [], [], []
        self.probe_miss = [0] * self.n
        # vector clocks for the file race monitor
        self.vc = [[0] * self.n for _ in range(self.n)]
        self.fileacc = {}

    # ------------------------------------------------------------ process setup
    def spawn(self):
        for r in range(self.n):
            a, b = socket.socketpair()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 99
                try:
                    a.close()
                    for s in self.socks:
                        s.close()
                    fd = b.detach()
                    code = self.child(r, fd)
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 1
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code if code is not None else 0)
            b.close()
            self.socks.append(a)
            self.pids.append(pid)
            self.alive[r] = True

    def child(self, r, fd):
        resource.setrlimit(resource.RLIMIT_CPU, (self.s['cpu'], self.s['cpu'] + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        return self.rank_main(self, r, fd)

    # ----------------------------------------------------------------- messaging
    def _read_frame(self, r):
        """Read the next request of rank r; None on EOF."""
        s = self.socks[r]
        deadline = time.monotonic() + WALL_CAP

        def exact(n):
            out = b''
            while len(out) < n:
                left = deadline - time.monotonic()
                if left <= 0:
                    raise HarnessError('rank %d made no progress for %ds wall'
                                       % (r, WALL_CAP))
                rd, _, _ = select.select([s], [], [], min(left, 5.0))
                if not rd:
                    continue
                try:
                    b = s.recv(n - len(out))
                except ConnectionResetError:
                    b = b''
                if not b:
                    return None
                out += b
            return out
        h = exact(4)
        if h is None:
            return None
        return exact(struct.unpack('<I', h)[0])

    def _await(self, r):
        """Rank r is running: wait until it asks for something or dies."""
        f = self._read_frame(r)
        if f is None:
            self._reap(r)
            return
        if f[:1] == b'F':
            _, cls, op, off, ln, p1, p2 = f.decode('utf8', 'replace').split('\t')
            if op == 'nap':
                self.pending[r] = ('nap', dict(wake=self.now + int(off)))
                return
            self.pending[r] = ('fs', dict(cls=int(cls), op=op, off=int(off),
                                          len=int(ln), path=p1.lstrip('/'),
                                          path2=p2.lstrip('/')))
        else:
            self.pending[r] = pickle.loads(f[1:])
            if self.pending[r][0] == 'sleep':
                self.pending[r][1]['wake'] = self.now + int(
                    self.pending[r][1].get('seconds', 0) * 1e9)

    def _reap(self, r):
        _, st = os.waitpid(self.pids[r], 0)
        self.alive[r] = False
        self.pending[r] = None
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            self.out.exit[r] = -sig
            if sig in (signal.SIGXCPU,):
                self.out.cpu_cap.append(r)
        else:
            self.out.exit[r] = os.WEXITSTATUS(st)
        self.socks[r].close()

    def _kill(self, r):
        if self.alive[r]:
            try:
                os.kill(self.pids[r], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pids[r], 0)
            self.alive[r] = False
            self.out.exit[r] = None
            self.pending[r] = None
            self.socks[r].close()

    def kill_all(self):
        for r in range(self.n):
            self._kill(r)

    def _clock(self, r):
        sk = self.s['clock'].get('skew', 0)
        return self.now + (mix('skew', r) % 7 - 3) * sk * 10**9

    def reply_fs(self, r, action=0, err=0, arg=0):
        self.pending[r] = None
        try:
            self.socks[r].sendall(REPLY.pack(action, err, arg, self._clock(r)))
        except (BrokenPipeError, ConnectionResetError):
            pass
        self._await(r)

    def reply(self, r, obj=None):
        self.pending[r] = None
        b = pickle.dumps(obj, protocol=4)
        try:
            self.socks[r].sendall(struct.pack('<Iq', len(b), self._clock(r)) + b)
        except (BrokenPipeError, ConnectionResetError):
            pass
        self._await(r)

    def error(self, r, text):
        self.reply(r, {'__error__': text})

    # -------------------------------------------------------------------- logging
    def log(self, r, what, mpi=False):
        line = '%d %d %s' % (self.out.steps, r, what)
        self.hash.update(line.encode())
        if mpi:
            self.mpihash.update(('%d %s|' % (r, what)).encode())
        if self.events is not None:
            self.events.append(line)

    # -------------------------------------------------------------------- matching
    def _candidates(self, r, source, tag, comm):
        """Messages rank r could receive now: first matching one per source."""
        got = {}
        for m in self.queue:
            if m.dst != r or m.comm != comm:
                continue
            if source != -1 and m.src != source:
                continue
            if tag != -1 and m.tag != tag:
                continue
            if m.src not in got:
                got[m.src] = m
        return got

    def _coll_ready(self, r, kw):
        comm = repr(kw['comm'])
        pos = self.collpos[r][comm]
        slot = self.colls.setdefault((comm, pos), {})
        slot[r] = kw
        kinds = {(x['kind'], x['root']) for x in slot.values()}
        if len(kinds) > 1 and self.out.coll_mismatch is None:
            self.out.coll_mismatch = sorted(
                '%d:%s' % (q, x['kind']) for q, x in slot.items())
        return all(q in slot for q in kw['group']) and len(kinds) == 1

    def actions(self):
        acts, naps = [], []
        for r in range(self.n):
            if not self.alive[r] or self.pending[r] is None:
                continue
            op, kw = self.pending[r]
            if op in ('fs', 'hello', 'send', 'irecv', 'abort', 'note', 'yield',
                      'bye'):
                acts.append((r, 0))
            elif op in ('nap', 'sleep'):
                naps.append((kw['wake'], r))
                if kw['wake'] <= self.now:
                    acts.append((r, 0))
            elif op == 'wait_sync':
                if kw['done']:
                    acts.append((r, 0))
            elif op in ('recv', 'probe'):
                for src in sorted(self._candidates(r, kw['source'], kw['tag'], kw['comm'])):
                    acts.append((r, src + 1))
            elif op in ('iprobe', 'test'):
                acts.append((r, 0))
            elif op == 'wait':
                q = self.reqs[kw['rid']]
                if q['kind'] == 'isend':
                    if q['done']:
                        acts.append((r, 0))
                else:
                    for src in sorted(self._candidates(r, q['source'], q['tag'], q['comm'])):
                        acts.append((r, src + 1))
            elif op == 'coll':
                if self._coll_ready(r, kw):
                    acts.append((r, 0))
            elif op == 'finalize':
                if all((not self.alive[q] and self.final[q]) or
                       (self.pending[q] is not None and self.pending[q][0] == 'finalize')
                       or self.final[q] for q in range(self.n)):
                    acts.append((r, 0))
            else:
                raise HarnessError('unknown request %r' % op)
        if not acts and naps:              # everybody sleeps: time passes
            self.now, r = min(naps)
            acts.append((r, 0))
        return sorted(acts)

    # ----------------------------------------------------------------------- races
    def _join(self, r, other):
        v = self.vc[r]
        for i in range(self.n):
            if other[i] > v[i]:
                v[i] = other[i]

    def _race(self, r, kw):
        op, path = kw['op'], kw['path']
        if op in ('close', 'fsync', 'fdatasync', 'stat', 'list'):
            return
        wr = op not in ('open', 'read', 'pread')
        self.vc[r][r] += 1
        paths = [path] + ([kw['path2']] if kw.get('path2') else [])
        for p in paths:
            acc = self.fileacc.setdefault(p, {})
            for q, (clk, qwr) in acc.items():
                if q != r and (wr or qwr) and self.vc[r][q] < clk:
                    self.out.races.append((p, q, r, op))
            old = acc.get(r)
            acc[r] = (self.vc[r][r], wr or bool(old and old[1]))

    # ------------------------------------------------------------------- main loop
    def run(self):
        out = self.out
        linger = None
        self.spawn()
        try:
            for r in range(self.n):
                self._await(r)
            while True:
                if not any(self.alive):
                    break
                # a rank that vanished without finalising takes the job down
                if self.n > 1 and linger is None:
                    for r in range(self.n):
                        if not self.alive[r] and not self.final[r] and \
                                out.exit.get(r) not in (None,):
                            if out.aborted is None:
                                out.aborted = out.exit[r] if out.exit[r] else 0
                            linger = 0
                if linger is not None:
                    if linger <= 0:
                        self.kill_all()
                        break
                    linger -= 1
                acts = self.actions()
                if not acts and linger is not None:
                    self.kill_all()          # the launcher ends the job
                    break
                if not acts:
                    out.deadlock = self._blocked()
                    self.kill_all()
                    break
                if out.steps >= STEP_CAP:
                    out.step_cap = True
                    self.kill_all()
                    break
                r, var = self.policy.choose(acts)
                out.steps += 1
                self.now += (1 + mix(self.s['clock'].get('base', 0), out.steps) % 40) * 10**6
                linger = self._apply(r, var, linger)
        finally:
            self.kill_all()
        out.deviations = self.policy.deviations
        out.fired = self.plan.fired
        out.fault_counts = list(self.plan.count)
        out.log_digest = self.hash.hexdigest()
        out.mpi_digest = self.mpihash.hexdigest()
        out.events = self.events
        out.virtual_s = self.now / 1e9 - int(self.s['clock'].get('base', 1577836800))
        out.unmatched = [(m.src, m.dst, m.tag) for m in self.queue]
        return out

    def _blocked(self):
        res = []
        for r in range(self.n):
            if self.alive[r] and self.pending[r] is not None:
                op, kw = self.pending[r]
                d = {k: kw[k] for k in ('source', 'tag', 'dest', 'kind') if k in kw}
                res.append('rank %d waits in %s %s' % (r, op, d))
            else:
                res.append('rank %d exited %s' % (r, self.out.exit.get(r)))
        return res

    def _deliver(self, r, m):
        self.queue.remove(m)
        self._join(r, m.clock if hasattr(m, 'clock') else self.vc[m.src])
        if m.rid is not None:
            self.reqs[m.rid]['done'] = True
        if m.sync:
            p = self.pending[m.src]
            if p is not None and p[0] == 'wait_sync' and p[1]['seq'] == m.seq:
                p[1]['done'] = True
        return {'data': m.data, 'source': m.src, 'tag': m.tag}

    def _apply(self, r, var, linger):
        out = self.out
        op, kw = self.pending[r]
        if op == 'fs':
            out.fs_ops[kw['op']] += 1
            if kw['op'] in FaultPlan.MUT:
                out.mut_ops += 1
            self.log(r, 'fs %s %s %d %d' % (kw['op'], kw['path'], kw['off'], kw['len']))
            if self.s['race_monitor']:
                self._race(r, kw)
            f = self.plan.check(r, kw['op'], kw['path'], kw['len'])
            if f is None:
                self.reply_fs(r)
                return linger
            k = f['kind']
            self.log(r, 'FAULT %s' % k)
            if k == 'crash':
                out.crashed = True
                self.kill_all()
            elif k == 'torn':
                out.crashed = True
                if kw['op'] in ('write', 'pwrite', 'writev') and kw['len'] > 1:
                    nbytes = max(0, min(kw['len'] - 1, int(kw['len'] * f.get('frac', 0.5))))
                    self.pending[r] = None
                    self.socks[r].sendall(REPLY.pack(3, 0, nbytes, self._clock(r)))
                    self._await(r)
                self.kill_all()
            elif k == 'kill':
                out.crashed = True
                self._kill(r)
                return int(f.get('linger', 0))
            elif k == 'short':
                if kw['op'] in ('write', 'pwrite') and kw['len'] > 1:
                    self.reply_fs(r, 2, 0, max(1, int(kw['len'] * f.get('frac', 0.5))))
                else:
                    self.reply_fs(r)
            else:
                if k not in ERRNOS:
                    raise HarnessError('fault kind %r' % k)
                self.reply_fs(r, 1, ERRNOS[k])
            return linger
        if op == 'nap':
            self.log(r, 'nap')
            self.reply_fs(r)
            return linger
        if op == 'hello':
            self.log(r, 'start')
            self.reply(r)
            return linger
        out.ops[op if op != 'coll' else kw['kind']] += 1
        if op == 'note':
            self.log(r, 'note %s' % (kw.get('text'),))
            self.reply(r)
        elif op in ('sleep', 'yield'):
            self.log(r, '%s %s' % (op, kw.get('text', kw.get('seconds', ''))))
            act = None
            if kw.get('ask'):
                act = kw['ask']
            self.reply(r, act)
        elif op == 'send':
            self.seq += 1
            self.vc[r][r] += 1
            mode = kw['mode']
            sync = mode == 'sync' or (mode == 'std' and len(kw['data']) > self.s['eager'])
            m = _ClockMsg(r, kw['dest'], kw['tag'], kw['data'], kw['comm'], self.seq, sync)
            m.clock = list(self.vc[r])
            self.log(r, 'send %d tag %d len %d%s' % (kw['dest'], kw['tag'], len(kw['data']),
                                                     ' sync' if sync else ''), True)
            if mode == 'imm':
                self.rid += 1
                m.rid = self.rid
                self.reqs[self.rid] = dict(kind='isend', done=len(kw['data']) <= self.s['eager'])
                self.queue.append(m)
                self.reply(r, self.rid)
            elif sync:
                self.queue.append(m)
                self.pending[r] = ('wait_sync', dict(seq=self.seq, done=False,
                                                     dest=kw['dest'], tag=kw['tag']))
            else:
                self.queue.append(m)
                self.reply(r)
        elif op == 'wait_sync':
            self.log(r, 'send complete', True)
            self.reply(r)
        elif op == 'recv':
            m = self._candidates(r, kw['source'], kw['tag'], kw['comm'])[var - 1]
            self.log(r, 'recv from %d tag %d' % (m.src, m.tag), True)
            self.reply(r, self._deliver(r, m))
        elif op == 'irecv':
            self.rid += 1
            self.reqs[self.rid] = dict(kind='irecv', **kw)
            self.log(r, 'irecv', True)
            self.reply(r, self.rid)
        elif op == 'wait':
            q = self.reqs[kw['rid']]
            if q['kind'] == 'isend':
                self.reply(r)
            else:
                m = self._candidates(r, q['source'], q['tag'], q['comm'])[var - 1]
                self.log(r, 'wait recv from %d tag %d' % (m.src, m.tag), True)
                self.reply(r, self._deliver(r, m))
        elif op == 'test':
            q = self.reqs[kw['rid']]
            if q['kind'] == 'isend':
                self.reply(r, {} if q['done'] else None)
            else:
                c = self._candidates(r, q['source'], q['tag'], q['comm'])
                if c and self._arrived(r):
                    m = c[min(c)]
                    self.log(r, 'test recv from %d' % m.src, True)
                    self.reply(r, self._deliver(r, m))
                else:
                    self.reply(r, None)
        elif op in ('probe', 'iprobe'):
            c = self._candidates(r, kw['source'], kw['tag'], kw['comm'])
            if op == 'probe':
                m = c[var - 1]
            else:
                m = c[min(c)] if c and self._arrived(r) else None
            self.log(r, '%s %s' % (op, m.src if m else None), True)
            self.reply(r, None if m is None else {'source': m.src, 'tag': m.tag})
        elif op == 'coll':
            self._collective(r, kw)
        elif op in ('finalize', 'bye'):
            self.final[r] = True
            self.log(r, op, True)
            self.reply(r)
        elif op == 'abort':
            self.log(r, 'abort %d' % kw['code'], True)
            out.aborted = kw['code'] if out.aborted is None else out.aborted
            self.kill_all()
        return linger

    def _arrived(self, r):
        """A message that was sent may not have arrived yet (bounded delay)."""
        if self.policy.kind == 'random' and self.probe_miss[r] < 3 and \
                mix('probe', self.s['policy'].get('seed', 0), self.out.steps) % 2:
            self.probe_miss[r] += 1
            return False
        self.probe_miss[r] = 0
        return True

    def _collective(self, r, kw):
        comm = repr(kw['comm'])
        pos = self.collpos[r][comm]
        slot = self.colls[(comm, pos)]
        group = kw['group']
        if (comm, pos, 'clk') not in self.colls:
            self.colls[(comm, pos, 'clk')] = [
                max(self.vc[q][i] for q in group) for i in range(self.n)]
        self._join(r, self.colls[(comm, pos, 'clk')])
        self.vc[r][r] += 1
        self.collpos[r][comm] += 1
        self.log(r, 'coll %s' % kw['kind'], True)
        kind = kw['kind']
        if kind == 'barrier':
            self.reply(r)
        elif kind == 'dup':
            self.reply(r, 'dup-%s-%d' % (comm, pos))
        else:
            self.reply(r, [slot[q]['data'] for q in group])


class _ClockMsg(Msg):
    __slots__ = ('clock',)


def load_shim(path):
    lib = ctypes.CDLL(path)
    lib.sim_attach.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
    lib.sim_set_clock.argtypes = [ctypes.c_int64]
    return lib
