"""
Write one planted bug: python tools/plant.py SPEC.py

SPEC.py defines id, property, needs, breaks, edits [(file, old, new)], demo (text
of a python program using kit.py).  The change is made in a scratch copy of
/repo; the demonstration must pass on /repo and fail in the copy.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PLANT_REPO', '/repo')
BASE = os.environ.get('PLANT_BASE', '5f25cdd')
spec = {}
exec(open(sys.argv[1]).read(), spec)
wt = '/tmp/plant-%d' % os.getpid()
subprocess.check_call(['cp', '-a', REPO, wt])
try:
    for f, old, new in spec['edits']:
        p = os.path.join(wt, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            sys.exit('%s: text occurs %d times' % (f, n))
        open(p, 'w').write(s.replace(old, new))
        # every line taken away must be a line of the original program
        new = set(l[1:].strip() for l in subprocess.check_output(
            ['git', '-C', wt, 'diff', BASE, 'HEAD', '--', f], text=True).splitlines()
            if l.startswith('+') and not l.startswith('+++'))
        for l in subprocess.check_output(['git', '-C', wt, 'diff', '--', f],
                                         text=True).splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() \
                    and l[1:].strip() in new:
                print('note: may not be an original line:', l)
    diff = subprocess.check_output(['git', '-C', wt, 'diff'], text=True)
    d = os.path.join(VERIF, 'seeded', spec['id'])
    shutil.rmtree(d, True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write('from kit import *\n\n' + spec['demo'].strip() + '\n')
    for f in ('kit.py', 'fx.py', 'launch.py'):
        shutil.copy(os.path.join(HERE, 'kit', f), d)
    os.makedirs(d + '/mpi4py')
    for f in ('__init__.py', 'MPI.py'):
        shutil.copy(os.path.join(HERE, 'kit', 'mpi4py', f), d + '/mpi4py')
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'],
               'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF_')}
    a = subprocess.run([d + '/demo.sh'], cwd=REPO, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    b = subprocess.run([d + '/demo.sh'], cwd=wt, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    ok = a.returncode == 0 and b.returncode != 0
    print(spec['id'], 'demo: clean', a.returncode, 'patched', b.returncode,
          'OK' if ok else 'BAD')
    print((a.stdout[-1500:] if a.returncode else '') + b.stdout[-600:])
    sys.exit(0 if ok else 1)
finally:
    shutil.rmtree(wt)
