"""Named run-time seams a launch can switch on (applied inside each rank)."""
import errno
import io
import json
import os
import socket


class Wire(io.RawIOBase):
    """What the client reads from one scripted connection."""

    def __init__(self, data, end, chunk):
        self.data, self.pos, self.end, self.chunk = data, 0, end, chunk

    def readable(self):
        return True

    def readinto(self, b):
        left = len(self.data) - self.pos
        if left == 0 and self.end == 'reset':
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if left == 0 and self.end == 'timeout':
            raise socket.timeout('timed out')
        n = min(len(b), left, self.chunk)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    """Client end of a scripted connection."""

    def __init__(self, answer):
        self.answer, self.sent = answer, b''

    def sendall(self, b):
        self.sent += bytes(b)

    def makefile(self, mode, *a, **k):
        data, end, chunk = self.answer(self.sent)
        return io.BufferedReader(Wire(data, end, chunk))

    def __getattr__(self, name):
        if name in ('settimeout', 'setsockopt', 'shutdown', 'close', 'setblocking'):
            return lambda *a: None
        raise AttributeError(name)


def http(launch, r):
    """
    Scripted web server: s['server'] = {'files': {url path: file}, 'script': [how each
    request is answered]}; the last entry answers all further requests.
    """
    srv = launch.s['server']
    log = os.path.join(launch.workdir, 'requests.%d' % r)
    seen = []

    def connect(address, timeout=None, source_address=None, **kw):
        k = len(seen)
        how = srv['script'][min(k, len(srv['script']) - 1)]
        seen.append(list(address)[0])
        with open(log, 'w') as f:
            json.dump(seen, f)
        if how['kind'] == 'refuse':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if how['kind'] == 'dns':
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        if how['kind'] == 'noanswer':
            raise socket.timeout('timed out')

        def answer(req):
            path = req.split(b' ', 2)[1].decode()
            if how['kind'] in ('404', '500', '503'):
                body = b'<html>error page</html>'
                return (b'HTTP/1.1 %s Problem\r\nContent-Length: %d\r\nConnection: close'
                        b'\r\n\r\n' % (how['kind'].encode(), len(body)) + body,
                        'eof', 4096)
            with open(srv['files'][path], 'rb') as f:
                body = f.read()
            if how['kind'] == 'garbage':
                body = body[:len(body) // 2] + b'\0' * (len(body) - len(body) // 2)
            head = b'HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\n'
            if how.get('length', True):
                head += b'Content-Length: %d\r\n' % len(body)
            head += b'Connection: close\r\n\r\n'
            end = 'eof'
            if how['kind'] in ('cut', 'reset', 'timeout'):
                body = body[:int(how['frac'] * len(body))]
                end = how['kind'] if how['kind'] != 'cut' else 'eof'
            return head + body, end, how.get('chunk', 1 << 20)
        return Sock(answer)

    socket.create_connection = connect


def threads(launch, r):
    """Threads of the process run one at a time in a seeded order: s['threads']."""
    import ctypes
    from . import threads as th
    from .seams import REPO
    lib = launch.lib
    lib.sim_get_clock.restype = ctypes.c_int64
    s = th.install(launch.s['threads'], os.path.join(launch.workdir, 'threads.%d' % r),
                   lib.sim_own, lambda: lib.sim_get_clock() / 1e9, REPO + '/')
    return s.finish


def rasters(launch, r):
    """
    Notes when two threads are inside raster calls on one data set, which the raster
    library does not allow.  Every such call is a switch between threads.
    """
    from osgeo import gdal
    from . import threads as th
    busy, seen = {}, []

    def guarded(fn, sets):
        def call(*a, **k):
            keys = sets(a)
            me = th.S.me.n
            for key in keys:
                if busy.get(key, (me, 0))[0] != me and not seen:
                    seen.append(fn.__name__)
                    with open(os.path.join(launch.workdir, 'overlap.%d' % r), 'w') as f:
                        json.dump([fn.__name__, busy[key][1]], f)
                busy.setdefault(key, (me, fn.__name__))
            try:
                th.S.step()
                return fn(*a, **k)
            finally:
                for key in keys:
                    if busy.get(key, (None,))[0] == me:
                        del busy[key]
        call.__name__ = fn.__name__
        return call

    def of_band(a):
        d = a[0].GetDataset()
        return [int(d.this)] if d is not None else []
    for name in ('ReadAsArray', 'WriteArray', 'FlushCache', 'ReadRaster', 'WriteRaster'):
        setattr(gdal.Band, name, guarded(getattr(gdal.Band, name), of_band))
    gdal.ReprojectImage = guarded(gdal.ReprojectImage,
                                  lambda a: [int(x.this) for x in a[:2]])


def store(launch, r):
    """
    Scripted object store: s['store'] = {'dir': where the objects are, 'script': [how each
    request is answered]}; the last entry answers all further requests.
    """
    import shutil
    import boto3
    from boto3.exceptions import S3UploadFailedError
    from botocore.exceptions import ClientError, EndpointConnectionError
    st = launch.s['store']
    seen = []

    class Client:
        def ask(self, op, bucket, key):
            how = st['script'][min(len(seen), len(st['script']) - 1)]
            seen.append([op, bucket, key, how])
            with open(os.path.join(launch.workdir, 'requests.%d' % r), 'w') as f:
                json.dump(seen, f)
            path = os.path.join(st['dir'], bucket, key)
            err = ClientError({'Error': {'Code': '503', 'Message': how}}, op)
            if how == 'network':
                err = EndpointConnectionError(endpoint_url='s3')
            if how != 'ok':
                raise err
            if op == 'GetObject' and not os.path.isfile(path):
                raise ClientError({'Error': {'Code': '404', 'Message': 'Not Found'}}, op)
            return path

        def download_file(self, bucket, key, filename, *a, **k):
            src = self.ask('GetObject', bucket, key)
            with open(src, 'rb') as f:
                data = f.read()
            try:
                with open(filename + '.0000', 'wb') as f:
                    f.write(data)
            except OSError:
                if os.path.exists(filename + '.0000'):
                    os.remove(filename + '.0000')
                raise
            os.rename(filename + '.0000', filename)

        def upload_file(self, filename, bucket, key, *a, **k):
            with open(filename, 'rb') as f:
                data = f.read()
            try:
                dst = self.ask('PutObject', bucket, key)
            except ClientError as e:
                raise S3UploadFailedError(str(e))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst + '.part', 'wb') as f:
                f.write(data)
            os.rename(dst + '.part', dst)

    boto3.client = lambda *a, **k: Client()


def commands(launch, r):
    """
    Stand-ins for the tools the program calls as commands; s['commands'] lists the numbers
    of the calls that end with an error instead (0: the tools are not installed).
    """
    import shlex
    bad = set(launch.s.get('commands') or ())
    seen = []

    def translate(args):
        from osgeo import gdal, osr
        from netCDF4 import Dataset
        src, dst = args[-2:]
        _, rest = src.split(':', 1)
        path, var = rest.rsplit(':', 1)
        with Dataset(path) as nc:
            nc.set_auto_mask(False)
            x, y, a = nc['lon'][:], nc['lat'][:], nc[var][:]
        dx, dy = float(x[1] - x[0]), float(y[1] - y[0])
        if dy > 0:
            y, a, dy = y[::-1], a[::-1], -dy
        ds = gdal.GetDriverByName('GTiff').Create(dst, len(x), len(y), 1, gdal.GDT_Float32)
        ds.SetGeoTransform((float(x[0]) - dx / 2, dx, 0, float(y[0]) - dy / 2, 0, dy))
        srs = osr.SpatialReference()
        srs.ImportFromEPSG(4326)
        ds.SetProjection(srs.ExportToWkt())
        ds.GetRasterBand(1).WriteArray(a)
        ds.Close()

    def merge(args):
        from osgeo import gdal
        from osgeo_utils import gdal_merge
        gdal.ErrorReset()
        if gdal_merge.main(['gdal_merge.py', '-q'] + args) or gdal.GetLastErrorType() >= 3:
            raise OSError('merge')

    def losses(args, most=None):
        import csv
        import yaml
        from netCDF4 import Dataset
        with open(args[args.index('-c') + 1]) as f:
            given = {k: v for d in yaml.safe_load(f) for k, v in d.items()}
        _, rest = given['load_wind_ascii'].split(':', 1)
        path, var = rest.rsplit(':', 1)
        with Dataset(path) as nc:
            nc.set_auto_mask(False)
            x, y, a = nc['lon'][:], nc['lat'][:], nc[var][:]
        e = given['load_exposure']
        with open(e['file_name']) as f:
            rows = list(csv.DictReader(f))
        value = given['calc_struct_loss']['replacement_value_label']
        with open(given['save'], 'w') as f:
            f.write('LID,wind,loss\n')
            for row in rows[:most]:
                i = abs(x - float(row[e['exposure_longitude']])).argmin()
                j = abs(y - float(row[e['exposure_latitude']])).argmin()
                f.write('%s,%.4f,%.4f\n' % (row['LID'], a[j, i],
                                            float(row[value]) * a[j, i] / 1000.))

    def run(args):
        if 0 in bad:
            raise FileNotFoundError(2, 'No such file or directory: %r' % args[0])
        seen.append(args)
        with open(os.path.join(launch.workdir, 'commands.%d' % r), 'w') as f:
            json.dump(len(seen), f)
        if len(seen) in bad:
            if os.path.basename(args[0]) == 'hazimp':
                losses(args[1:], 2)      # gives up half way
            return 1
        tool = {'gdal_translate': translate, 'gdal_merge.py': merge, 'hazimp': losses}.get(
            os.path.basename(args[0]))
        if tool is None:
            return 127
        try:
            tool(args[1:])
            return 0
        except Exception as e:
            print('command failed: %s' % e)
            return 1

    import subprocess
    os.system = lambda cmd: run(shlex.split(cmd)) << 8

    def argv(cmd):
        return shlex.split(cmd) if isinstance(cmd, str) else [str(c) for c in cmd]

    def call(cmd, *a, **k):
        return run(argv(cmd))

    def check_call(cmd, *a, **k):
        c = run(argv(cmd))
        if c:
            raise subprocess.CalledProcessError(c, cmd)
        return 0
    before = subprocess.run

    def full(cmd, *a, **k):
        args = argv(cmd)
        if not os.path.basename(args[0]).startswith(('gdal', 'hazimp')):
            return before(cmd, *a, **k)
        c = run(args)
        if c and k.get('check'):
            raise subprocess.CalledProcessError(c, cmd)
        return subprocess.CompletedProcess(cmd, c, '', '')
    subprocess.call, subprocess.check_call, subprocess.run = call, check_call, full


def tmpdir(launch, r):
    """Temporary directories are made where operations are intercepted."""
    import tempfile
    tempfile.tempdir = launch.s['tmpdir']
    names = iter('t%04d' % k for k in range(10000))

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return next(names)
    tempfile._name_sequence = Names()


def figures(launch, r):
    """A saved figure holds the data drawn in it instead of a marker."""
    import hashlib
    import json
    import numpy as np
    from matplotlib.axes import Axes
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.patches import Rectangle
    contourf = Axes.contourf

    def keep(self, *args, **kw):
        z = args[2] if len(args) > 2 else args[0]
        self.sim_field = np.ma.filled(np.ma.array(z, dtype=float), np.nan).tolist()
        if len(args) > 2:
            self.sim_grid = [np.asarray(a, dtype=float).tolist() for a in args[:2]]
        return contourf(self, *args, **kw)
    Axes.contourf = keep

    def data(fig):
        res = []
        for ax in fig.axes:
            sha = hashlib.sha1()
            points, areas = [], []
            for c in ax.collections:
                off = np.ma.filled(np.ma.array(c.get_offsets(), dtype=float), np.nan)
                if len(off) > 1:
                    points.append(off.tolist())
                elif c.get_array() is None:
                    areas += [p.vertices.tolist() for p in c.get_paths()]
                else:
                    for p in c.get_paths():
                        sha.update(p.vertices.tobytes())
                    sha.update(np.ma.filled(c.get_array(), np.nan).tobytes())
            res.append({'title': ax.get_title(),
                        'lines': [[np.asarray(v, dtype=float).tolist()
                                   for v in (l.get_xdata(orig=False),
                                             l.get_ydata(orig=False))]
                                  for l in ax.get_lines()],
                        'points': points, 'areas': areas, 'other': sha.hexdigest(),
                        'bars': [[float(b.get_x()), float(b.get_width()), float(b.get_height())]
                                 for b in ax.patches if isinstance(b, Rectangle)],
                        'field': getattr(ax, 'sim_field', None),
                        'grid': getattr(ax, 'sim_grid', None)})
        return json.dumps(res).encode()

    def print_figure(self, filename, *a, **kw):
        b = data(self.figure)
        if hasattr(filename, 'write'):
            filename.write(b)
            return
        with open(str(filename), 'wb') as f:
            f.write(b)
    FigureCanvasBase.print_figure = FigureCanvasAgg.print_figure = print_figure

    # single draws for the random band of a figure, without the checks of the library
    import random
    real, rng = np.random.choice, random.Random(launch.s['policy'].get('seed', 0))

    def choice(a, *args, **kw):
        if args or kw or not isinstance(a, np.ndarray):
            return real(a, *args, **kw)
        return a[int(rng.random() * len(a))]
    np.random.choice = choice


def bands(launch, r):
    """Random bands of regression figures from few draws, no layout of text, no pixels."""
    import seaborn.algorithms as algo
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure
    real = algo.bootstrap

    def bootstrap(*args, **kw):
        kw.update(n_boot=2, seed=1)
        return real(*args, **kw)
    algo.bootstrap = bootstrap
    Figure.tight_layout = FigureCanvasAgg.draw = lambda *a, **k: None


def home(launch, r):
    """The folder the program changes to is a folder of the simulated root."""
    import os
    d = os.path.join(launch.root, 'home')
    os.makedirs(d, exist_ok=True)
    real = os.chdir
    os.chdir = lambda path: real(d)
