"""
Everything a simulated rank needs besides the scheduler: import-time seams of
the zygote process and run-time seams installed after fork.
"""
import atexit
import ctypes
import gc
import importlib
import importlib.abc
import os
import runpy
import signal
import sys
import time
import traceback
import warnings

from . import core, fakempi
from .core import mix

REPO = os.environ.get('VERIF_REPO', '/repo')


class NoCompiled(importlib.abc.MetaPathFinder):
    """
    Hides the optional compiled helpers of the repository so that results do
    not depend on whether they happen to be built (the program falls back to
    its Python implementations).
    """

    def find_spec(self, fullname, path=None, target=None):
        last = fullname.rsplit('.', 1)[-1]
        if not last.startswith('_'):
            return None
        places = [REPO] if path is None else list(path)
        for p in places:
            if not str(p).startswith(REPO):
                continue
            try:
                names = os.listdir(p)
            except OSError:
                continue
            if any(n.startswith(last + '.') and n.endswith('.so') for n in names):
                raise ImportError('compiled helper hidden: %s' % fullname)
        return None


def stub_plotting():
    """Figures are not rendered; saving one writes a small marker file."""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.figure import Figure

    def print_figure(self, filename, *a, **kw):
        if hasattr(filename, 'write'):
            filename.write(b'figure')
            return
        with open(str(filename), 'wb') as f:
            f.write(b'figure')
    FigureCanvasBase.print_figure = print_figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    FigureCanvasAgg.print_figure = print_figure
    Figure.tight_layout = lambda self, *a, **kw: None
    try:
        import cartopy.mpl.geoaxes as g
        g.GeoAxes.coastlines = lambda self, *a, **kw: None
        g.GeoAxes.add_feature = lambda self, *a, **kw: None
    except Exception:      # pragma: no cover
        pass


def bootstrap(preload=()):
    """Prepare the zygote: called once before any fork."""
    warnings.filterwarnings('ignore')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, NoCompiled())
    fakempi.install()
    import numpy, scipy, netCDF4, sqlite3          # noqa: F401
    stub_plotting()
    bad = {}
    for name in preload:
        try:
            importlib.import_module(name)
        except BaseException as e:        # the program under test may be broken
            bad[name] = repr(e)
    return bad


# ----------------------------------------------------------- run-time seams
def patch_listing(seed, rank, per_rank):
    """Directory order becomes a seeded permutation (stable per directory)."""
    salt = (seed, rank if per_rank else -1)
    real_listdir, real_scandir = os.listdir, os.scandir

    def order(names):
        return sorted(names, key=lambda n: mix('ls', salt, n))

    def listdir(path='.'):
        return order(real_listdir(path))

    class Scan:
        def __init__(self, path):
            with real_scandir(path) as it:
                ents = {e.name: e for e in it}
            self.it = iter([ents[n] for n in order(list(ents))])

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.it = iter(())

    if seed is not None:
        os.listdir = listdir
        os.scandir = lambda path='.': Scan(path)
        try:
            import glob
            glob.os.scandir = os.scandir
        except Exception:
            pass


def patch_time():
    def sleep(s):
        fakempi.call('sleep', seconds=float(s))
    time.sleep = sleep


def patch_git():
    """Version queries answer at once with a fixed commit id."""
    import subprocess
    real_co, real_run = subprocess.check_output, subprocess.run

    def is_git(cmd):
        first = cmd.split()[0] if isinstance(cmd, str) else str(cmd[0])
        return os.path.basename(first) == 'git'

    def check_output(cmd, *a, **kw):
        if is_git(cmd):
            txt = 'text' in kw or 'universal_newlines' in kw or 'encoding' in kw
            return '0' * 40 if txt else b'0' * 40
        return real_co(cmd, *a, **kw)

    def run(cmd, *a, **kw):
        if is_git(cmd):
            txt = 'text' in kw or 'universal_newlines' in kw or 'encoding' in kw
            return subprocess.CompletedProcess(cmd, 0, '0' * 40 if txt else b'0' * 40,
                                               '' if txt else b'')
        return real_run(cmd, *a, **kw)
    subprocess.check_output, subprocess.run = check_output, run


def close_hdf5():
    """HDF5 closes open files from an exit handler of its own."""
    global HDF5
    if HDF5 is None:
        HDF5 = []
        with open('/proc/self/maps') as f:
            for line in f:
                path = line.split()[-1]
                if 'netcdf4.libs/libhdf5-' in path.lower() and \
                        path not in [h[0] for h in HDF5]:
                    HDF5.append((path, ctypes.CDLL(path)))
    for _, lib in HDF5:
        lib.H5close()


HDF5 = None


def rank_main(launch, r, fd):
    """Body of a simulated rank process (runs in the forked child)."""
    s = launch.s
    os.makedirs(os.path.join(launch.workdir, 'std'), exist_ok=True)
    o = os.open(os.path.join(launch.workdir, 'std', 'rank%d.out' % r),
                os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(o, 1)
    os.dup2(o, 2)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    # collection must not depend on what this worker did before the fork
    gc.freeze()
    gc.collect()
    atexit._clear()
    import logging
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
    logging.getLogger().setLevel(logging.WARNING)
    os.chdir(launch.workdir)

    st = fakempi.STATE
    st.rank, st.size, st.sock = r, launch.n, fd
    st.used = st.finalized = False
    st.set_clock = launch.lib.sim_set_clock
    launch.lib.sim_set_clock(launch.now)
    if s['mpi'] == 'absent':
        sys.modules['mpi4py'] = None
        sys.modules['mpi4py.MPI'] = None

    # what fresh memory holds is part of the environment (M_PERTURB)
    libc = ctypes.CDLL(None)
    libc.mallopt(-6, s.get('fill', 165))
    libc.mallopt(-8, 1)        # one arena, whichever threads allocate at once

    import random
    import numpy as np
    ent = mix('entropy', s['clock'].get('base', 0), s['policy'].get('seed', 0), r)
    random.seed(ent)
    np.random.seed(ent % (2**32))
    patch_listing(s['listing'].get('seed'), r, s['listing'].get('per_rank'))
    patch_time()
    patch_git()
    final = []
    for name in s['hooks']:
        from . import hooks
        f = getattr(hooks, name)(launch, r)
        if f:
            final.append(f)

    mask = s['mask']
    mask = core.MASKS[mask] if isinstance(mask, str) else mask
    fakempi.call('hello')
    launch.lib.sim_attach(fd, launch.root.encode(), mask)
    code = 0
    err = None
    try:
        if s.get('func'):
            modname, fn = s['func'].rsplit(':', 1)
            getattr(importlib.import_module(modname), fn)(launch, r, *s['argv'])
        else:
            sys.argv = [s['script']] + [str(a) for a in s['argv']]
            sys.path[0:0] = [os.path.dirname(s['script'])]
            runpy.run_path(s['script'], run_name='__main__')
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code
        else:
            sys.stderr.write('%s\n' % (e.code,))
            code = 1
    except BaseException:
        err = traceback.format_exc()
        sys.stderr.write(err)
        code = 1
    for f in final:
        f()
    # interpreter shutdown: exit handlers run, leftover objects go away, libraries
    # flush what is still open, then MPI finalises
    try:
        atexit._run_exitfuncs()
    except BaseException:
        sys.stderr.write(traceback.format_exc())
    try:
        import logging
        logging.shutdown()
    except BaseException:
        pass
    sys.stdout.flush()
    sys.stderr.flush()
    if code and 'osgeo._gdal' in sys.modules and 'rasters' in (s.get('hooks') or ()):
        pass        # the raster library may crash when it gives up after write errors
    else:
        gc.collect()
    close_hdf5()
    launch.lib.sim_detach()
    if not st.finalized:
        if st.used:
            fakempi.Finalize()
        else:
            fakempi.call('bye')
    if err is not None:
        with open(os.path.join(launch.workdir, 'std', 'rank%d.err' % r), 'w') as f:
            f.write(err)
    return code
