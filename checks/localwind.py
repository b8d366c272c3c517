"""Local wind speeds: threads, rasters, the object store and the raster tools."""
import copy

from .common import *

DIRNS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
SECTOR = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'n']
OUT = ['local_wind.tif', 'region_wind.tif', 'gust_prj.tif', 'bear_prj.tif', 'uu_prj.tif',
       'vv_prj.tif']
MULT = pjoin(REPO, 'ProcessMultipliers', 'processMultipliers.py')
TYPES = {'shielding': 'Ms', 'terrain': 'Mz', 'topographic': 'Mt'}
EXTENTS = [{'xMin': 151., 'xMax': 152.5, 'yMin': -16., 'yMax': -15.},
           {'xMin': 150.5, 'xMax': 153., 'yMin': -16.5, 'yMax': -14.5},
           {'xMin': 152.1, 'xMax': 152.9, 'yMin': -15.1, 'yMax': -14.6}]
SIZES = [(23, 17), (40, 33), (64, 5), (9, 50)]


def field(k):
    """Speed and its components, from north to south."""
    rng = np.random.RandomState(100 + k)
    lon = np.arange(150., 154.01, 0.25)
    lat = np.arange(-14., -17.01, -0.25)
    n = (lat.size, lon.size)
    sp = rng.uniform(20, 70, n).astype('f4')
    th = rng.uniform(0, 2 * np.pi, n)
    return lon, lat, sp, (sp * np.cos(th)).astype('f4'), (sp * np.sin(th)).astype('f4')


def write_field(path, k=0):
    lon, lat, sp, u, v = field(k)
    fx.write_gust(path, lon, lat, sp, u, v, np.full(sp.shape, 98000., 'f4'))


def values(size, k, band, unknown=1.):
    """One band. The last set has cells without a multiplier, where it counts as one."""
    rng = np.random.RandomState(1000 * k + 10 * band + size)
    m = rng.uniform(0.6, 1.6, SIZES[size][::-1]).astype('f4')
    if k == 2:
        m[rng.rand(*m.shape) < 0.1] = unknown
    return m


def write_multipliers(path, size, k=0):
    """Eight bands, in the order of DIRNS, inside the field."""
    from osgeo import gdal, osr
    w, h = SIZES[size]
    ds = gdal.GetDriverByName('GTiff').Create(path, w, h, 8, gdal.GDT_Float32)
    ds.SetGeoTransform((150.5, 2.5 / w, 0, -14.5, 0, -2. / h))
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(4326)
    ds.SetProjection(srs.ExportToWkt())
    for b in range(8):
        ds.GetRasterBand(b + 1).WriteArray(values(size, k, b, -9999.))
        ds.GetRasterBand(b + 1).SetNoDataValue(-9999.)
    ds.Close()


def raw(t, b, kind, n=12):
    return np.random.RandomState(hash((t, b, len(kind))) % 2**31).uniform(
        0.6, 1.3, (n, n)).astype('f4')


def write_raw(d, tiles, n=12):
    """Tiles of the three multiplier kinds for eight directions."""
    from netCDF4 import Dataset
    for t in range(tiles):
        for kind, var in TYPES.items():
            os.makedirs(pjoin(d, kind), exist_ok=True)
            for b, dn in enumerate(DIRNS):
                nc = Dataset(pjoin(d, kind, 'e%d_%s_%s.nc' % (t, var.lower(), dn)), 'w')
                nc.createDimension('lat', n)
                nc.createDimension('lon', n)
                nc.createVariable('lon', 'f8', ('lon',))[:] = \
                    150.5 + 0.1 * np.arange(n) + 0.1 * n * t
                nc.createVariable('lat', 'f8', ('lat',))[:] = -15. - 0.1 * np.arange(n)
                nc.createVariable(var, 'f4', ('lat', 'lon'))[:] = raw(t, b, kind, n)
                nc.close()


def read_raster(path):
    from osgeo import gdal
    gdal.UseExceptions()
    ds = gdal.Open(path)
    res = {'geo': ds.GetGeoTransform(), 'bands': [ds.GetRasterBand(b + 1).ReadAsArray()
                                                  for b in range(ds.RasterCount)],
           'nodata': ds.GetRasterBand(1).GetNoDataValue()}
    return res


def read_rasters(d, names):
    return {n: read_raster(pjoin(d, n)) for n in names if os.path.exists(pjoin(d, n))}


def differ(a, b):
    if a['geo'] != b['geo']:
        return 'position %s, expected %s' % (a['geo'], b['geo'])
    for i, (x, y) in enumerate(zip(a['bands'], b['bands'])):
        if not same(x, y):
            return '%d of %d cells differ' % (
                x.size if x.shape != y.shape else int((x != y).sum()), y.size)
    return None


def recomputed(res, mult):
    """The local wind from the reprojected field, cell by cell."""
    g, b = res['gust_prj.tif']['bands'][0], res['bear_prj.tif']['bands'][0]
    out = np.zeros_like(g)
    for i, dn in enumerate(SECTOR):
        lo = 0. if i == 0 else 22.5 + 45. * (i - 1)
        hi = 360. if i == 8 else 22.5 + 45. * i
        m = mult[DIRNS.index(dn)]
        k = (b >= lo) & (b < hi)
        out[k] = g[k] * m[k]
    return out


def centres(r):
    g = r['geo']
    h, w = r['bands'][0].shape
    return g[0] + (np.arange(w) + 0.5) * g[1], g[3] + (np.arange(h) + 0.5) * g[5]


def placed(res, k):
    """The regional field at the cells of the local raster, from the field itself. The speed
    is interpolated between cell centres, its components are those of the cell around."""
    lon, lat, sp, u, v = field(k)
    r = res['region_wind.tif']
    if not np.allclose(centres(r)[0], lon) or not np.allclose(np.sort(centres(r)[1]),
                                                              lat[::-1]):
        return 'the regional wind is in another place'
    rows = np.argsort(-centres(r)[1])
    if not same(r['bands'][0][rows], sp):
        return 'the regional wind is not the field'
    x, y = centres(res['gust_prj.tif'])
    fx_, fy = (x - lon[0]) / 0.25, (lat[0] - y) / 0.25
    # a centre on the line between two cells belongs to either
    ok = np.outer(np.abs(fy - np.floor(fy) - 0.5) > 1e-6,
                  np.abs(fx_ - np.floor(fx_) - 0.5) > 1e-6)
    ix, iy = np.rint(fx_).astype(int), np.rint(fy).astype(int)
    near = np.ix_(iy, ix)
    for n, d in (('uu', u), ('vv', v)):
        if (res[n + '_prj.tif']['bands'][0] != d[near])[ok].any():
            return 'a component differs from the field'
    bear = np.mod(270. - np.degrees(np.arctan2(v, u).astype('f8')), 360.)
    d = np.abs(res['bear_prj.tif']['bands'][0] - bear[near])
    if (np.minimum(d, 360. - d) > 1e-3)[ok].any():
        return 'a direction differs from that of the field'
    got = res['gust_prj.tif']['bands'][0]
    g = res['gust_prj.tif']['geo']
    if abs(g[1]) < 0.25 and abs(g[5]) < 0.25:
        jx, jy = np.floor(fx_).astype(int), np.floor(fy).astype(int)
        wx, wy = (fx_ - jx)[None, :], (fy - jy)[:, None]
        exp = (sp[np.ix_(jy, jx)] * (1 - wx) + sp[np.ix_(jy, jx + 1)] * wx) * (1 - wy) + \
            (sp[np.ix_(jy + 1, jx)] * (1 - wx) + sp[np.ix_(jy + 1, jx + 1)] * wx) * wy
        if np.abs(got - exp).max() > 1e-3:
            return 'a speed is not that of the field'
    else:
        some = [sp[np.ix_(iy + i, ix + j)] for i in (-2, -1, 0, 1, 2) for j in (-2, -1, 0, 1, 2)]
        if (got > np.max(some, 0) + 1e-3).any() or (got < np.min(some, 0) - 1e-3).any():
            return 'a speed is beyond those of the field around it'
    return None


def cut(r, size, k, extent):
    """Multipliers cut to an extent are those of the source in the same place."""
    w, h = SIZES[size]
    dx, dy = 2.5 / w, 2. / h
    x, y = centres(r)
    jx, jy = np.rint((x - 150.5) / dx - 0.5).astype(int), np.rint((-14.5 - y) / dy - 0.5).astype(int)
    if np.abs(150.5 + (jx + 0.5) * dx - x).max() > 0.51 * dx or \
            np.abs(-14.5 - (jy + 0.5) * dy - y).max() > 0.51 * dy:
        return 'not in the place of the source'
    # the raster tool takes whole cells, rounding either end
    if abs(x[0] - dx / 2 - extent['xMin']) > 1.5 * dx or \
            abs(x[-1] + dx / 2 - extent['xMax']) > 1.5 * dx or \
            abs(y[0] + dy / 2 - extent['yMax']) > 1.5 * dy or \
            abs(y[-1] - dy / 2 - extent['yMin']) > 1.5 * dy:
        return 'not the extent: %s to %s' % ((x[0], y[0]), (x[-1], y[-1]))
    for b in range(8):
        if not same(r['bands'][b], values(size, k, b, -9999.)[np.ix_(jy, jx)]):
            return 'band %d is not that of the source' % (b + 1)
    return None


def gen_threads(rng):
    k = rng.choice(['random', 'random', 'pct', 'pct', 'rr'])
    t = {'kind': k, 'seed': rng.getrandbits(32), 'lines': True}
    if k == 'random':
        t['sticky'] = rng.choice([0.0, 0.5, 0.9, 0.98])
    if k == 'pct':
        t['depth'] = rng.choice([1, 2, 4])
    return t


SERIAL = {'kind': 'serial', 'seed': 0, 'lines': False}


class Local(Property):
    preload = ('Utilities.parallel', 'Utilities.config', 'osgeo.gdal', 'boto3')
    real = ['processMultipliers.py entry point', 'worker threads', REAL[1],
            'GDAL, netCDF4, numpy']
    stubbed = ['thread scheduling (seeded, a switch at every line and blocking call)',
               'object store client', 'gdal command line tools (run in the process)', 'clock']
    assumptions = ASSUME[:1] + [
        'threads switch between lines of the program and at blocking calls; a library call '
        'counts as one step', 'raster data sets must not be used by two threads at once']

    def prepare(self, ctx):
        st = pjoin(ctx.shared, 'static')
        os.makedirs(st, exist_ok=True)
        for k in range(3):
            if k < 2:
                write_field(pjoin(st, 'gust%d.nc' % k), k)
            for i in range(len(SIZES)):
                write_multipliers(pjoin(st, 'm4_%d_%d.tif' % (i, k)), i, k)
        for t in (1, 2):
            write_raw(pjoin(st, 'raw%d' % t), t)

    def config(self, ctx, out, c):
        st = pjoin(ctx.shared, 'static')
        logdir = clean(ctx.path('log'))
        inp = {'Gust_file': pjoin(st, 'gust%d.nc' % c.get('field', 0))}
        outp = {'Working_dir': out + '/'}
        sto = ctx.path('store')
        if c.get('s3'):
            clean(sto)
            os.makedirs(pjoin(sto, 'b', 'in'))
            shutil.copy(inp['Gust_file'], pjoin(sto, 'b', 'in', 'gust.nc'))
            if 'gust' in c['s3']:
                inp['Gust_file'] = '/vsis3/b/in/gust.nc'
            if 'out' in c['s3']:
                outp = {'Working_dir': '/vsis3/b/res', 'Temporary_working_dir': out + '/'}
        if c.get('tiles'):
            inp['Tiles'] = ','.join('e%d' % t for t in range(c['tiles']))
            inp['RawMultipliers'] = pjoin(st, 'raw%d' % c['tiles']) + '/'
            if 'raw' in c.get('s3', ()):
                shutil.copytree(inp['RawMultipliers'], pjoin(sto, 'b', 'raw'))
                inp['RawMultipliers'] = '/vsis3/b/raw'
        else:
            inp['Multipliers'] = pjoin(st, 'm4_%d_%d.tif' % (c['size'], c.get('mult', 0)))
            if c.get('extent') == 'none':
                pass
            elif c.get('extent'):
                inp['Extent'] = repr(c['extent'])
            else:
                inp['ExtentApplied'] = 'Yes'
                inp['Extent'] = "{'xMin':150.5,'xMax':153.,'yMin':-16.5,'yMax':-14.5}"
        cfg = {'Input': inp, 'Output': outp,
               'ProcessMultipliers': {'MaxWorkingThreads': c['threads'],
                                      'ProcessingSegmentSize': c['seg'],
                                      'WarpMemoryLimit': 500},
               'Logging': {'LogFile': pjoin(logdir, 'pm.log'), 'LogLevel': 'INFO',
                           'Verbose': 'False', 'Datestamp': 'False'}}
        if c.get('version'):
            cfg['ProcessMultipliers']['ProcessMultiVersion'] = c['version']
        return cfg, logdir

    def run_local(self, ctx, c, env, out, name='run', explore=True):
        cfg, ld = self.config(ctx, out, c)
        tmp = pjoin(out, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        extra = {'hooks': ['threads', 'rasters', 'store', 'commands', 'tmpdir'],
                 'threads': env.get('threads', SERIAL), 'tmpdir': tmp,
                 'store': {'dir': ctx.path('store'), 'script': env.get('store', ['ok'])},
                 'commands': env.get('commands', [])}
        env = {k: v for k, v in env.items() if k not in ('threads', 'store', 'commands')}
        o = run_tcrm(ctx, cfg, env, out, name, explore, MULT, extra)
        o.rep = {}
        for n in ('threads', 'overlap', 'requests', 'commands'):
            p = pjoin(o.work, n + '.0')
            if os.path.exists(p):
                with open(p) as f:
                    o.rep[n] = json.load(f)
        return o, ld

    def strange(self, ctx, o, ld):
        """Violations of a launch nothing went wrong in."""
        t = o.rep.get('threads', {})
        if 'deadlock' in t:
            return [Violation('deadlock', 'never ends: ' + '; '.join(t['deadlock']))]
        if 'livelock' in t:
            return [Violation('livelock', '; '.join(t['livelock']))]
        if 'overlap' in o.rep:
            return [Violation('shared-raster', 'two threads use one data set: %s'
                              % o.rep['overlap'])]
        return abnormal(ctx, o, ld)

    def reference(self, ctx, c):
        c = {k: c[k] for k in ('size', 'field', 'mult', 'extent', 'tiles') if k in c}

        def build():
            out = ctx.fresh('ref')
            o, ld = self.run_local(ctx, dict(c, threads=1, seg=1000), serial_env('absent'),
                                   out, 'ref', explore=False)
            bad = self.strange(ctx, o, ld)
            res, err = (None, None) if bad else apart(read_rasters, out, OUT + [
                'm4_source.tif'] + ['m4_%s.tif' % d for d in DIRNS])
            if err:
                bad = [Violation('failed', err)]
            return bad, res
        return cached(ctx, ('local', c), build)

    def expected(self, ctx, c):
        bad, res = self.reference(ctx, c)
        if bad:
            return None, [Violation('single-' + b['cls'], b['msg']) for b in bad]
        miss = [n for n in OUT if n not in res]
        if miss:
            return None, [Violation('missing-result', 'one thread: no %s' % miss)]
        bad = placed(res, c.get('field', 0))
        if bad:
            return None, [Violation('wrong-result', 'one thread: ' + bad)]
        if c.get('tiles'):
            mult = [res['m4_%s.tif' % d]['bands'][0] for d in DIRNS]
            for b, m in enumerate(mult):
                if not same(m, np.hstack([raw(t, b, 'terrain') * raw(t, b, 'topographic') *
                                          raw(t, b, 'shielding') for t in range(c['tiles'])])):
                    return None, [Violation('wrong-result', 'one thread: combined multipliers '
                                            'are not the product of the three')]
        elif c.get('extent'):
            bad = cut(res['m4_source.tif'], c['size'], c.get('mult', 0),
                      EXTENTS[1] if c['extent'] == 'none' else c['extent'])
            if bad:
                return None, [Violation('wrong-result', 'one thread: cut multipliers: ' + bad)]
            mult = [np.where(m == -9999., np.float32(1.), m)
                    for m in res['m4_source.tif']['bands']]
        else:
            mult = [values(c['size'], c.get('mult', 0), b) for b in range(8)]
        d = recomputed(res, mult) != res['local_wind.tif']['bands'][0]
        if d.any():
            return None, [Violation('wrong-result', 'one thread: %d of %d cells are not the '
                                    'field times the multiplier' % (d.sum(), d.size))]
        return {n: res[n] for n in OUT}, []

    def judge(self, d, exp):
        got, err = apart(read_rasters, d, OUT)
        if err:
            return [Violation('unreadable-result', err)]
        for n in OUT:
            if n not in got:
                return [Violation('missing-result', 'no %s' % n)]
            x = differ(got[n], exp[n])
            if x:
                return [Violation('wrong-result', '%s: %s' % (n, x))]
        return []

    def shrink(self, case):
        for k in range(len(case['rounds']) - 1):
            c = copy.deepcopy(case)
            del c['rounds'][k]
            yield c
        for k, r in enumerate(case['rounds']):
            l = r['launch']
            for key in ('faults', 'commands', 'store'):
                if l.get(key) and l[key] != ['ok']:
                    c = copy.deepcopy(case)
                    c['rounds'][k]['launch'][key] = ['ok'] if key == 'store' else []
                    yield c
            if l.get('threads') not in (None, SERIAL):
                c = copy.deepcopy(case)
                c['rounds'][k]['launch']['threads'] = SERIAL
                yield c
            if r['threads'] > 1:
                c = copy.deepcopy(case)
                c['rounds'][k]['threads'] = r['threads'] - 1
                yield c
            if r['seg'] < 64:
                c = copy.deepcopy(case)
                c['rounds'][k]['seg'] = r['seg'] * 2
                yield c


class Threads(Local):
    id = 'M01'
    rule = ('one evaluation = one run that turns a wind field into local wind speeds with '
            'some number of threads under a seeded interleaving; all rasters are compared '
            'with those of one thread and recomputed cell by cell')

    def cases(self, rng, tier):
        out = []
        for th in (1, 2, 3, 4, 8):
            for seg in (4, 8, 64):
                out.append({'rounds': [{'size': 0, 'threads': th, 'seg': seg, 'mult': th % 3,
                                        'launch': dict(serial_env(),
                                                       threads=gen_threads(rng))}]})
        for c in ({'size': 1, 'extent': 'none'}, {'size': 3, 'extent': 'none', 'mult': 2},
                  {'size': 0, 'tiles': 2}, {'size': 1, 'extent': EXTENTS[0]}):
            for ver in ('1', '2'):
                out.append({'rounds': [dict({'threads': 2, 'seg': 8, 'version': ver, 'launch':
                                             dict(serial_env(), threads=gen_threads(rng))},
                                            **c)]})
        return out

    def gen(self, rng, i, tier):
        r = {'size': rng.randrange(len(SIZES)), 'field': rng.randrange(2),
             'mult': rng.randrange(3), 'threads': rng.choice([1, 2, 2, 3, 4, 5, 8]),
             'seg': rng.choice([3, 5, 8, 13, 20, 32, 64, 256])}
        if rng.random() < 0.2:
            r['extent'] = rng.choice(EXTENTS + ['none'])
        if rng.random() < 0.1:
            r['version'] = '1'
        if rng.random() < 0.15:
            r['tiles'] = rng.choice([1, 2])
            r.pop('extent', None)
            if rng.random() < 0.7:
                r['s3'] = ['raw']
        elif rng.random() < 0.2:
            r['s3'] = rng.choice([['gust'], ['out'], ['gust', 'out']])
        r['launch'] = dict(gen_env(rng, 1), threads=gen_threads(rng))
        return {'rounds': [r]}

    def run(self, ctx, case):
        r = case['rounds'][0]
        exp, v = self.expected(ctx, r)
        if v:
            return v
        out = ctx.fresh('out')
        o, ld = self.run_local(ctx, r, r['launch'], out)
        v = self.strange(ctx, o, ld)
        if v:
            return v
        if o.rep.get('threads', {}).get('switches', 0) > 20:
            ctx.probe('threads interleaved')
        if 'out' in r.get('s3', ()):
            v = self.judge(pjoin(ctx.path('store'), 'b', 'res'), exp)
        return v or self.judge(out, exp)


class Failures(Local):
    id = 'M02'
    level = 'fault_enumeration'
    rule = ('one evaluation = one history of runs that turn wind fields into local wind '
            'speeds while file operations, object store requests or raster tools fail or the '
            'process is killed; after every run that reports success all rasters must be '
            'the right ones, and the last, undisturbed run must succeed')

    def cases(self, rng, tier):
        out = []

        def r(c, **kw):
            l = dict(serial_env(), mask='mutate+', threads=SERIAL)
            l.update(kw)
            return dict({'size': 0, 'threads': 2, 'seg': 8}, launch=l, **c)
        n = 60 if tier == 'thorough' else 8
        for k in range(n):
            at = round(k / (n - 1), 4)
            for kind in ('enospc', 'eio', 'crash', 'torn'):
                f = {'kind': kind, 'at': at, 'frac': 0.5, 'sticky': kind[0] == 'e' and
                     bool(k % 2)}
                for c in ({}, {'s3': ['gust', 'out']}, {'version': '1'}):
                    out.append({'rounds': [r(c, faults=[f]), r(c)]})
        for c, m in (({'s3': ['gust', 'out']}, 7), ({'s3': ['raw'], 'tiles': 1}, 24),
                     ({'s3': ['raw'], 'tiles': 2}, 48)):
            for k in sorted({0, 1, m // 2, m - 1}):
                for how in ('error', 'network'):
                    out.append({'rounds': [r(c, store=['ok'] * k + [how, 'ok']), r(c)]})
        for tiles in (1, 2):
            for k in sorted({1, 5, 24 * tiles, 24 * tiles + 1, 24 * tiles + 24}):
                out.append({'rounds': [r({'tiles': tiles}, commands=[k]),
                                       r({'tiles': tiles})]})
        return out

    def gen(self, rng, i, tier):
        rounds = []
        x = rng.random()
        for k in range(rng.choice([1, 1, 2])):
            r = {'size': rng.randrange(len(SIZES)), 'field': rng.randrange(2),
                 'mult': rng.randrange(3), 'threads': rng.choice([1, 2, 3, 4]),
                 'seg': rng.choice([5, 8, 20, 64])}
            l = dict(gen_env(rng, 1, masks=('mutate', 'mutate+')), threads=gen_threads(rng))
            if x < 0.25:
                r['tiles'] = rng.choice([1, 2])
                if rng.random() < 0.6:
                    r['s3'] = ['raw']
            elif x < 0.6:
                r['s3'] = rng.choice([['gust'], ['out'], ['gust', 'out']])
            if rng.random() < 0.3 and not r.get('tiles'):
                r['extent'] = rng.choice([EXTENTS[0], 'none'])
            if rng.random() < 0.15:
                r['version'] = '1'
            how = rng.choice(['file', 'file', 'file', 'store', 'tool'])
            if how == 'store' and r.get('s3'):
                l['store'] = ['ok'] * rng.randrange(24 if 'raw' in r['s3'] else 7) + \
                    [rng.choice(['error', 'network'])] + rng.choice([[], ['ok']])
            elif how == 'tool' and r.get('tiles'):
                l['commands'] = [rng.randrange(1, 24 * r['tiles'] + 25)]
            else:
                kind = rng.choice(['crash', 'torn', 'enospc', 'enospc', 'eio', 'eacces', 'short'])
                l['faults'] = [{'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
                                'sticky': kind in ('enospc', 'eio', 'eacces') and
                                rng.random() < 0.5}]
            rounds.append(dict(r, launch=l))
        last = copy.deepcopy(rounds[-1])
        last['launch'] = dict(gen_env(rng, 1), threads=gen_threads(rng))
        return {'rounds': rounds + [last]}

    def run(self, ctx, case):
        out = ctx.fresh('out')
        for r in case['rounds']:
            exp, v = self.expected(ctx, r)
            if v:
                return v
            o, ld = self.run_local(ctx, r, r['launch'], out)
            hit = bool(o.fired) or any(q[3] != 'ok' for q in o.rep.get('requests', ())) or \
                any(k <= o.rep.get('commands', 0) for k in r['launch'].get('commands', ()))
            if o.crashed:
                ctx.probe('interrupted run')
                continue
            if not hit or set(o.rep.get('threads', ())) & {'deadlock', 'livelock'}:
                v = self.strange(ctx, o, ld)
                if v:
                    return v
            elif ended_badly(o):
                ctx.probe('failed run')
                continue
            v = self.judge(out, exp)
            if not v and 'out' in r.get('s3', ()):
                v = self.judge(pjoin(ctx.path('store'), 'b', 'res'), exp)
            if v:
                if hit:
                    v[0]['cls'] = 'silent-failure'
                    v[0]['msg'] = 'success reported although %s failed: %s' % (
                        o.fired[:1] or 'a request or tool', v[0]['msg'])
                return v
        return []
