"""Input data downloads: complete or absent, under any network and disk fault."""
import copy
import gzip
import io
import random
import zipfile

from .common import *

LIMIT = (150., 160., -20., -12.)
SIZES = [0, 1, 700, 8191, 8192, 8193, 40000]


def content(n, k):
    return random.Random('dl%d.%d' % (n, k)).randbytes(SIZES[n])


def packed(data, how, name):
    if how == 'gz':
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as f:
            f.write(data)
        return b.getvalue()
    if how == 'zip':
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            z.writestr(zipfile.ZipInfo(name), data)
        return b.getvalue()
    return data


class Download(Property):
    id = 'N01'
    level = 'fault_enumeration'
    preload = ('Utilities.parallel', 'Utilities.datasets', 'Utilities.config')
    real = REAL + ['download stage', 'urllib and http.client']
    stubbed = STUB + ['network connections (scripted server)']
    assumptions = ASSUME + ['plain http; the server announces the length of what it sends, '
                            'or ends the answer by closing the connection']
    rule = ('one evaluation = one history of download runs against a scripted server and '
            'disk (refused, cut, reset, error answers, failing writes, kills), ended by a run '
            'against a healthy server; every file is compared with what the server holds')

    def cases(self, rng, tier):
        out = []
        ok = [{'kind': 'ok', 'chunk': 1 << 20}]
        for how in ('', 'gz', 'zip'):
            for n in range(len(SIZES)):
                out.append({'sets': [[how, n]], 'launches': [
                    dict(serial_env(), faults=[], script=ok)]})
            for kind in ('cut', 'reset', 'timeout'):
                for frac in (0.0, 0.3, 0.9999):
                    out.append({'sets': [[how, 6]], 'launches': [
                        dict(serial_env(), faults=[], script=[{'kind': kind, 'frac': frac,
                                                               'chunk': 1000}]),
                        dict(serial_env(), faults=[], script=ok)]})
            for kind in ('refuse', 'dns', 'noanswer', '404', '500', 'garbage'):
                if kind == 'garbage' and not how:
                    continue
                out.append({'sets': [[how, 6]], 'launches': [
                    dict(serial_env(), faults=[], script=[{'kind': kind}]),
                    dict(serial_env(), faults=[], script=ok)]})
            n = 30 if tier == 'thorough' else 6
            for k in range(n):
                for kind in ('torn', 'enospc'):
                    out.append({'sets': [[how, 6]], 'launches': [
                        dict(serial_env(), mask='mutate+', script=ok, faults=[
                            {'kind': kind, 'at': round(k / (n - 1), 4), 'frac': 0.5,
                             'path': 'data/*', 'sticky': bool(k % 2)}]),
                        dict(serial_env(), faults=[], script=ok)]})
        return out

    def gen(self, rng, i, tier):
        sets = [[rng.choice(['', 'gz', 'zip']), rng.randrange(len(SIZES))]
                for _ in range(rng.choice([1, 1, 2, 3]))]
        ls = []
        for k in range(rng.choice([1, 1, 2, 3])):
            e = gen_env(rng, rng.choice([1, 2, 3]), masks=('mutate', 'mutate+'))
            e['faults'] = []
            e['script'] = []
            for _ in sets:
                kind = rng.choice(['ok', 'ok', 'cut', 'reset', 'timeout', 'refuse', 'dns',
                                   'noanswer', '404', '500', '503', 'garbage'])
                if kind == 'garbage' and any(not h for h, _ in sets):
                    kind = 'cut'
                e['script'].append({'kind': kind, 'frac': rng.random(),
                                    'chunk': rng.choice([1, 100, 5000, 1 << 20])})
            if rng.random() < 0.4:
                kind = rng.choice(['crash', 'torn', 'enospc', 'eio', 'eacces', 'short'])
                e['faults'] = [{'kind': kind, 'at': gen_at(rng), 'frac': rng.random(),
                                'sticky': kind in ('enospc', 'eio') and rng.random() < .5,
                                'path': 'data/*'}]
            ls.append(e)
        ls.append(dict(gen_env(rng, rng.choice([1, 2])), faults=[], script=[
            {'kind': 'ok', 'chunk': rng.choice([10, 5000, 1 << 20]),
             'length': rng.random() < 0.8}]))
        return {'sets': sets, 'launches': ls}

    def shrink(self, case):
        for c in shrink_faults(case):
            yield c
        if len(case['launches']) > 1:
            for k in range(len(case['launches'])):
                c = copy.deepcopy(case)
                del c['launches'][k]
                yield c
        if len(case['sets']) > 1:
            for k in range(len(case['sets'])):
                c = copy.deepcopy(case)
                del c['sets'][k]
                yield c
        for c in shrink_env(case):
            yield c

    def run(self, ctx, case):
        out = ctx.fresh('out')
        dd = pjoin(out, 'data')
        os.makedirs(dd)
        www = clean(ctx.path('www'))
        want, files, secs = {}, {}, {}
        for k, (how, n) in enumerate(case['sets']):
            name = 'set%d.dat' % k
            data = content(n, k)
            want[name] = data
            url = '/pub/' + name + ('.' + how if how else '')
            files[url] = pjoin(www, 'f%d' % k)
            with open(files[url], 'wb') as f:
                f.write(packed(data, how, name))
            secs['SET%d' % k] = {'URL': 'http://data.test' + url, 'path': dd}
            if k != 1:
                secs['SET%d' % k]['filename'] = name
        for k, l in enumerate(case['launches']):
            logdir = clean(ctx.path('log'))
            c = fx.base_config(pjoin(ctx.shared, 'static'), out, logdir, {'DownloadData'},
                               LIMIT)
            c['Input']['Datasets'] = ','.join(secs)
            c.update(secs)
            before = {n for n in want if os.path.exists(pjoin(dd, n))}
            script = l['script']
            env = {x: y for x, y in l.items() if x != 'script'}
            o = run_tcrm(ctx, c, env, out, extra={
                'hooks': ['http'], 'server': {'files': files, 'script': script}})
            if o.deadlock or o.step_cap or o.cpu_cap:
                return abnormal(ctx, o, logdir)
            for n, d in want.items():
                p = pjoin(dd, n)
                if os.path.exists(p):
                    with open(p, 'rb') as f:
                        g = f.read()
                    if g != d:
                        return [Violation('incomplete-file', '%s holds %d bytes, not the %d '
                                          'the server has (server %s, disk %s)'
                                          % (n, len(g), len(d), script, o.fired[:1]))]
                elif n in before:
                    return [Violation('file-lost', '%s is gone' % n)]
            missing = [n for n in want if not os.path.exists(pjoin(dd, n))]
            if missing and not o.crashed and not ended_badly(o):
                return [Violation('silent-failure', '%s missing but success reported '
                                  '(server %s, disk %s)' % (missing, script, o.fired[:1]))]
            asked = 0
            for r in range(l['ranks']):
                p = pjoin(o.work, 'requests.%d' % r)
                if os.path.exists(p):
                    with open(p) as f:
                        asked += len(json.load(f))
            if asked > len(want) - len(before):
                return [Violation('downloaded-again', '%d requests for %d missing files'
                                  % (asked, len(want) - len(before)))]
            if all(s['kind'] == 'ok' for s in script) and not o.fired:
                v = abnormal(ctx, o, logdir)
                if v:
                    return v
            elif ended_badly(o):
                ctx.probe('failed download reported')
        return []
