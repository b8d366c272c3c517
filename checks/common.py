"""Helpers shared by the checks: launching the program, reading its outputs."""
import ast
import fcntl
import json
import os
import pickle
import shutil
import sqlite3
from os.path import join as pjoin

import numpy as np

from sim import fixtures as fx
from sim.context import Ctx, Property, Violation, gen_env, gen_policy, serial_env
from sim.core import mix
from sim.seams import REPO

TCRM = pjoin(REPO, 'tcrm.py')
TCEVENT = pjoin(REPO, 'tcevent.py')

REAL = ['tcrm.py entry point', 'file system (scratch directory, calls intercepted)',
        'netCDF4/HDF5, sqlite3, numpy, scipy']
STUB = ['MPI library (in-memory model driven by the scheduler)',
        'clock', 'directory order', 'figure rendering',
        'compiled helpers (program falls back to Python)']
ASSUME = ['a crash kills the processes; data already handed to the operating '
          'system survives',
          'MPI: eager sends up to a per-run size, otherwise synchronous; messages '
          'between two processes stay in order; finalisation is collective',
          'the optional compiled helper modules are not used']


# ------------------------------------------------------------------- launching
def run_tcrm(ctx, cfg, env, root, name='run', explore=True, script=TCRM, extra=None):
    """Write the configuration and launch the program once."""
    ini = ctx.path(name + '.ini')
    fx.write_ini(ini, cfg)
    clean_logs(cfg, root)
    spec = dict(env)
    spec.update(script=script, argv=['-c', ini])
    spec.update(extra or {})
    clock = dict(spec.get('clock') or {'base': 1577836800, 'skew': 0})
    spec['clock'] = clock
    if explore:
        # time does not go back between the launches of a case; they follow each
        # other at once or after some time
        gap = mix('gap', json.dumps(env, sort_keys=True), ctx.vnow) % 3
        if ctx.vnow:
            clock['base'] = max(clock['base'], ctx.vnow) if gap == 2 else \
                ctx.vnow + (0, 20)[gap]
    spec['faults'] = place(ctx, spec, cfg, root)
    out = ctx.launch(spec, root, explore=explore)
    if explore:
        ctx.vnow = clock['base'] + int(out.virtual_s) + 3
    return out


def clean_logs(cfg, root):
    """An empty log folder, unless the logs are part of what is simulated."""
    d = os.path.dirname(cfg['Logging']['LogFile'])
    if not d.startswith(root):
        clean(d)


def place(ctx, spec, cfg, root):
    """
    Faults with a relative position 'at' (0..1) get the number of the operation
    that lies there.  The operations are counted in an undisturbed run of the same
    launch from the same files, which is undone afterwards.
    """
    faults = spec.get('faults') or []
    if not any('at' in f for f in faults):
        return faults
    probes = [dict({k: f[k] for k in ('kind', 'ops', 'path', 'rank') if k in f},
                   nth=1 << 40) for f in faults]
    for f in probes:
        if f['kind'] == 'kill':
            f['kind'] = 'crash'
    files = sorted((n, s[0]) for n, s in file_state(root).items())
    text = json.dumps([cfg, {k: v for k, v in spec.items() if k not in ('faults', 'argv')},
                       probes, files], sort_keys=True, default=str)

    def count():
        snap = root.rstrip('/') + '.snap'
        shutil.rmtree(snap, ignore_errors=True)
        os.rename(root, snap)
        shutil.copytree(snap, root, symlinks=True)
        work = ctx.fresh('dry')
        o = ctx.launch(dict(spec, faults=probes), root, work=work, explore=False)
        ctx.n -= 1
        shutil.rmtree(root)
        os.rename(snap, root)
        clean_logs(cfg, root)
        return o.fault_counts
    n = cached(ctx, ('ops', text.replace(ctx.base, '@')), count)
    return [dict(f, nth=1 + int(min(f['at'], 0.9999) * max(k, 1))) if 'at' in f else f
            for f, k in zip(faults, n)]


def gen_at(rng):
    """A position in a run; the last operations get extra weight."""
    x = rng.random()
    return round(x if rng.random() < 0.6 else 1 - 0.25 * x * x, 4)


def logs(logdir):
    """All log text written by the program (any rank)."""
    txt = ''
    if os.path.isdir(logdir):
        for n in sorted(os.listdir(logdir)):
            with open(pjoin(logdir, n), errors='replace') as f:
                txt += f.read()
    return txt


def ended_badly(out):
    """The launch reported failure to whoever started it."""
    return out.aborted is not None or any(c not in (0, None) for c in out.exit.values())


def abnormal(ctx, out, logdir=None, what='run'):
    """Violations for a fault-free launch that did not end normally."""
    v = []
    tail = ''
    if logdir:
        bad = [l for l in logs(logdir).splitlines()
               if 'Error' in l or 'Exception' in l]
        tail = ' | log: ' + ' / '.join(bad[-6:])
    if out.deadlock:
        v.append(Violation('deadlock', '%s never ends: %s%s' %
                           (what, '; '.join(out.deadlock), tail)))
    elif out.step_cap or out.cpu_cap:
        v.append(Violation('livelock', '%s exceeds its step/CPU cap (steps %d, cpu %s)'
                           % (what, out.steps, out.cpu_cap)))
    elif out.aborted is not None:
        v.append(Violation('failed', '%s aborted with %s%s' % (what, out.aborted, tail)))
    elif any(c for c in out.exit.values()):
        v.append(Violation('failed', '%s exit codes %s%s' % (what, out.exit, tail)))
    elif logdir and 'Traceback (most recent call last)' in logs(logdir):
        v.append(Violation('failed', '%s failed%s' % (what, tail)))
    if not v and out.coll_mismatch:
        v.append(Violation('collective-mismatch', '%s: %s' % (what, out.coll_mismatch)))
    return v


# --------------------------------------------------------------------- reading
def clean(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def nc_content(path):
    """Everything in a netCDF file as comparable python objects."""
    from netCDF4 import Dataset
    res = {'vars': {}, 'atts': {}}
    with Dataset(path) as nc:
        nc.set_auto_mask(False)
        _walk(nc, '', res)
    return res


def _walk(g, prefix, res):
    for a in g.ncattrs():
        res['atts'][prefix + a] = g.getncattr(a)
    for n, v in g.variables.items():
        res['vars'][prefix + n] = (np.array(v[...]), {a: v.getncattr(a) for a in v.ncattrs()},
                                   tuple(v.dimensions))
    for n, sub in g.groups.items():
        _walk(sub, prefix + n + '/', res)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.names:
        return all(same(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind == 'f':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff_nc(a, b, ignore_atts=(), vars_only=None):
    """Description of the first difference between two nc_content() results."""
    na, nb = set(a['vars']), set(b['vars'])
    if na != nb:
        return 'variables differ: %s vs %s' % (sorted(na), sorted(nb))
    for n in sorted(na):
        (va, aa, da), (vb, ab, db) = a['vars'][n], b['vars'][n]
        if not same(va, vb):
            if va.shape != vb.shape:
                return '%s: shape %s vs %s' % (n, va.shape, vb.shape)
            if va.dtype.kind == 'f':
                d = ~((va == vb) | (np.isnan(va) & np.isnan(vb)))
                i = np.argwhere(d)
                i = tuple(i[0]) if len(i) else ()
                return '%s: %d of %d values differ, first at %s: %r vs %r' % (
                    n, int(d.sum()), va.size, i, va[i], vb[i])
            return '%s: values differ' % n
        for k in sorted((set(aa) | set(ab)) - set(ignore_atts)):
            if k not in aa or k not in ab or not _att_same(aa[k], ab[k]):
                return '%s: attribute %s %r vs %r' % (n, k, aa.get(k), ab.get(k))
    return None


def _att_same(x, y):
    try:
        return np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)
    except TypeError:
        return np.array_equal(np.asarray(x), np.asarray(y))


def read_gust(path):
    return nc_content(path)


def apart(fn, *args):
    """
    (result, None) or (None, error text) of fn(*args) in a child process: a failed
    open of a damaged HDF5 file leaves its handle behind in the process, and the
    simulated processes are forked from this one.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = (fn(*args), None)
            except Exception as exc:
                res = (None, '%s: %s' % (type(exc).__name__, exc))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f, -1)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return None, 'reader died'
    return pickle.loads(data)


def nc_try(path):
    return apart(nc_content, path)[0]


def gust_files(d):
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d) if f.startswith('gust') and f.endswith('.nc'))


def read_tracks(path):
    """Track file -> list of (track id text, structured array)."""
    from netCDF4 import Dataset
    out = []
    with Dataset(path) as nc:
        nc.set_auto_mask(False)
        grp = nc.groups['tracks']
        for n in sorted(grp.groups):
            v = grp.groups[n].variables['track']
            out.append((str(v.getncattr('trackId')), np.array(v[:])))
    return out


def read_catalogue(d):
    """Directory of track files -> {file name: [(id, data)]}."""
    return {f: read_tracks(pjoin(d, f)) for f in sorted(os.listdir(d))
            if f.startswith('tracks') and f.endswith('.nc')}


def db_rows(path, table, cols='*'):
    con = sqlite3.connect('file:%s?mode=ro' % path, uri=True)
    try:
        return con.execute('SELECT %s FROM %s' % (cols, table)).fetchall()
    finally:
        con.close()


def file_state(d):
    """name -> (size, mtime_ns, inode) for every file below d."""
    res = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = pjoin(base, n)
            s = os.stat(p)
            res[os.path.relpath(p, d)] = (s.st_size, s.st_mtime_ns, s.st_ino)
    return res


def litter(d, rng, gust):
    """
    Files that other runs and options leave beside finished wind fields: an
    unfinished file of an interrupted run, a file of saved time steps.
    `gust` is the name of one finished field.
    """
    from netCDF4 import Dataset
    names = []
    with open(pjoin(d, gust), 'rb') as f:
        b = f.read()
    for name, n in ((gust + '.tmp', len(b) // 2), ('gust.777-77777.nc.tmp', 0)):
        with open(pjoin(d, name), 'wb') as f:
            f.write(b[:n])
        names.append(name)
    name = gust.replace('gust', 'evolution')
    nc = Dataset(pjoin(d, name), 'w')
    nc.createDimension('time', 2)
    nc.createVariable('time', 'f8', ('time',))[:] = [0., 1.]
    nc.close()
    return names + [name]


# ------------------------------------------------------------- reference cache
def cached(ctx, key, build):
    """
    Value of build(), computed once per check run and shared by all workers.
    """
    d = pjoin(ctx.shared, 'ref')
    os.makedirs(d, exist_ok=True)
    h = '%016x' % mix(key)
    p = pjoin(d, h)
    lock = open(p + '.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(p):
            with open(p, 'rb') as f:
                return pickle.load(f)
        val = build()
        with open(p + '.tmp', 'wb') as f:
            pickle.dump(val, f, protocol=4)
        os.replace(p + '.tmp', p)
        return val
    finally:
        lock.close()


# ---------------------------------------------------------------- small shrinks
def shrink_faults(case):
    import copy
    for li, l in enumerate(case.get('launches', [])):
        for fi in range(len(l.get('faults', []))):
            c = copy.deepcopy(case)
            del c['launches'][li]['faults'][fi]
            yield c


def shrink_env(case):
    """Simplify the environment of every launch."""
    import copy
    for li, l in enumerate(case.get('launches', [])):
        for k, simple in (('policy', {'kind': 'serial'}),
                          ('listing', {'seed': None, 'per_rank': False}),
                          ('eager', 1 << 30),
                          ('clock', {'base': 1577836800, 'skew': 0})):
            if l.get(k) is not None and l.get(k) != simple:
                c = copy.deepcopy(case)
                c['launches'][li][k] = simple
                yield c
        if l.get('ranks', 1) > 2:
            c = copy.deepcopy(case)
            c['launches'][li]['ranks'] = l['ranks'] - 1
            if c['launches'][li]['policy'].get('who', 0) >= l['ranks'] - 1:
                c['launches'][li]['policy']['who'] = 0
            yield c
        for fi, f in enumerate(l.get('faults', [])):
            if 'at' not in f and f.get('nth', 1) > 1:
                for n in sorted({1, f['nth'] // 2, f['nth'] - 1} - {f['nth'], 0}):
                    c = copy.deepcopy(case)
                    c['launches'][li]['faults'][fi]['nth'] = n
                    yield c
            if f.get('sticky'):
                c = copy.deepcopy(case)
                c['launches'][li]['faults'][fi]['sticky'] = False
                yield c
