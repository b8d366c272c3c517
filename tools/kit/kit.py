"""Run the program in a scratch directory with one or more processes."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from multiprocessing.connection import Listener
from os.path import join as pjoin

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import fx

REPO = os.getcwd()
TOP = tempfile.mkdtemp(prefix='kit-')
atexit.register(shutil.rmtree, TOP, True)
STATIC = pjoin(TOP, 'static')
fx.write_static(STATIC)
_count = [0]


def fresh(name='out'):
    _count[0] += 1
    d = pjoin(TOP, '%s%d' % (name, _count[0]))
    os.makedirs(d)
    return d


class Hub(object):
    def __init__(self, size, order=None):
        self.size, self.order = size, order
        self.addr = pjoin(TOP, 'hub%d' % time.monotonic_ns())
        self.lis = Listener(self.addr, authkey=b'kit')
        self.cv = threading.Condition()
        self.box = [[] for _ in range(size)]
        self.wait = 0
        self.gen = 0
        self.aborted = None
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        for _ in range(self.size):
            try:
                c = self.lis.accept()
            except Exception:
                return
            threading.Thread(target=self.serve, args=(c, c.recv()), daemon=True).start()

    def serve(self, c, r):
        try:
            while True:
                m = c.recv()
                with self.cv:
                    if m[0] == 'send':
                        self.box[m[1]].append((r, m[2], m[3]))
                        self.cv.notify_all()
                        res = None
                    elif m[0] == 'recv':
                        while True:
                            hit = [x for x in self.box[r] if m[1] in (-1, x[0])
                                   and m[2] in (-1, x[1])]
                            if hit:
                                break
                            self.cv.wait()
                        i = [k for k, x in enumerate(self.box[r]) if x is hit[0]][0]
                        res = self.box[r].pop(i)
                    elif m[0] == 'barrier':
                        g = self.gen
                        self.wait += 1
                        if self.wait == self.size:
                            self.wait, self.gen = 0, g + 1
                            self.cv.notify_all()
                        while self.gen == g:
                            self.cv.wait()
                        res = None
                    else:
                        self.aborted = m[1]
                        res = None
                c.send(res)
        except Exception:
            pass


def tcrm(cfg, ranks=1, timeout=60, script='tcrm.py', env=None, args=()):
    """-> list of exit codes; None for a process that had to be killed."""
    ini = pjoin(TOP, 'c%d.ini' % time.monotonic_ns())
    fx.write_ini(ini, cfg)
    hub = Hub(ranks) if ranks > 1 else None
    procs = []
    for r in range(ranks):
        e = dict(os.environ, MPLBACKEND='Agg', PYTHONWARNINGS='ignore', **(env or {}))
        path = [REPO]
        if hub:
            e.update(KIT_RANK=str(r), KIT_SIZE=str(ranks), KIT_HUB=hub.addr)
            path.insert(0, HERE)
        e['PYTHONPATH'] = os.pathsep.join(path + [e.get('PYTHONPATH', '')])
        procs.append(subprocess.Popen(
            ['/opt/venv/bin/python', pjoin(HERE, 'launch.py'), pjoin(REPO, script), '-c', ini]
            + list(args), cwd=TOP, env=e,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    outs = [[] for _ in procs]
    thr = [threading.Thread(target=lambda p=p, o=o: o.append(p.stderr.read()), daemon=True)
           for p, o in zip(procs, outs)]
    for t in thr:
        t.start()
    end = time.time() + timeout
    while any(p.poll() is None for p in procs):
        if time.time() > end or (hub and hub.aborted is not None):
            break
        time.sleep(0.05)
    codes = []
    for p in procs:
        c = p.poll()
        if c is None:
            p.kill()
            p.wait()
            c = hub.aborted if hub and hub.aborted is not None else None
        codes.append(c)
    if hub:
        hub.lis.close()
    kit_err[:] = [b''.join(o).decode(errors='replace')[-2000:] for o in outs]
    return codes


kit_err = []


def expect(ok, text):
    if not ok:
        print('FAIL:', text)
        for e in kit_err:
            if e.strip():
                print(e)
        sys.exit(1)


def config(out, actions, limit=(150., 154., -18., -14.), **kw):
    c = fx.base_config(STATIC, out, pjoin(out, 'log'), set(actions), limit)
    os.makedirs(pjoin(out, 'log'), exist_ok=True)
    for k, v in kw.items():
        sec, opt = k.split('__')
        if v is None:
            c.get(sec, {}).pop(opt, None)
        else:
            c.setdefault(sec, {})[opt] = v
    return c


def tracks(out, layout, box=(150., 154., -18., -14.), npts=4, seed=3):
    """layout: list of track counts, one per track file."""
    import random
    rng = random.Random(seed)
    d = pjoin(out, 'tracks')
    os.makedirs(d, exist_ok=True)
    for s, n in enumerate(layout):
        fx.write_track_file(pjoin(d, 'tracks.%05d.nc' % s),
                            [((j, s), fx.make_track(rng, j, npts, box)) for j in range(n)])


def gusts(out, ids, limit=(150., 154., -18., -14.), margin=1.0, res=0.2, seed=5):
    rs = np.random.RandomState(seed)
    d = pjoin(out, 'windfield')
    os.makedirs(d, exist_ok=True)
    lon = np.round(np.arange(limit[0] - margin, limit[1] + margin + res / 2, res), 6)
    lat = np.round(np.arange(limit[2] - margin, limit[3] + margin + res / 2, res), 6)
    for j, s in ids:
        v = rs.uniform(10, 60, (lat.size, lon.size)).astype('f4')
        fx.write_gust(pjoin(d, 'gust.%03d-%05d.nc' % (j, s)), lon, lat, v, v * .6, v * .8,
                      100000 - 50 * v, trackfile='tracks.%05d.nc' % s,
                      extra={'tcrm_version': 'kit'})
    return lon, lat


def nc(path, names=None):
    from netCDF4 import Dataset
    with Dataset(path) as d:
        d.set_auto_mask(False)
        return {n: np.array(d.variables[n][:]) for n in (names or d.variables)}


def same(a, b):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and
                                    np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == 'f')
                                    for k in a)


def folder(d):
    return {f: nc(pjoin(d, f)) for f in sorted(os.listdir(d)) if f.endswith('.nc')}


def rows(db, table, cols='*'):
    import sqlite3
    con = sqlite3.connect(db)
    try:
        return sorted(con.execute('SELECT %s FROM %s' % (cols, table)).fetchall(), key=repr)
    finally:
        con.close()
