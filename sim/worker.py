"""
Zygote process: imports the program once, then runs cases it is handed.

Protocol: JSON lines on stdin, JSON lines on the original stdout.
"""
import errno
import importlib
import json
import os
import shutil
import sys
import time
import traceback

from . import context, core, seams


def load_property(pid):
    from checks import registry
    return registry.get(pid)


def harness_fault(e):
    """Trouble of the simulator or its machine rather than of the judged output."""
    if isinstance(e, (core.HarnessError, MemoryError, KeyboardInterrupt, SystemExit,
                      NameError, ImportError, NotImplementedError)):
        return True
    return isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE,
                                                  errno.ENOMEM, errno.EAGAIN, errno.EDQUOT)


def main():
    chan = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)
    pid, scratch, shim, slot = sys.argv[1:5]
    prop = load_property(pid)
    bad = seams.bootstrap(prop.preload)
    lib = core.load_shim(shim)
    shared = os.path.join(scratch, 'shared')
    os.makedirs(shared, exist_ok=True)
    chan.write(json.dumps({'ready': True, 'preload_failed': bad}) + '\n')
    for line in sys.stdin:
        job = json.loads(line)
        res = {'id': job['id']}
        base = os.path.join(scratch, 'case-' + slot)
        os.makedirs(base, exist_ok=True)
        ctx = context.Ctx(base, shared, lib)
        t0 = time.monotonic()
        try:
            if job['op'] == 'prepare':
                prop.prepare(ctx)
                res['violations'] = []
            else:
                res['violations'] = [dict(v) for v in prop.run(ctx, job['case'])]
            res['ok'] = True
        except BaseException as e:
            res['ok'] = False
            res['error'] = traceback.format_exc()
            if job['op'] == 'run' and not harness_fault(e):
                # the judge could not make sense of what the program wrote
                tb = traceback.extract_tb(e.__traceback__)[-1]
                res['ok'] = True
                res['violations'] = [dict(context.Violation(
                    'unexpected-output', 'output could not be interpreted: %s: %s (%s:%d)\n%s'
                    % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno,
                       res['error'][-1200:])))]
        res['wall'] = time.monotonic() - t0
        res['stats'] = ctx.stats.to_json()
        res['digest'] = ctx.digest.hexdigest()
        res['deviations'] = ctx.deviations
        if job.get('keep'):
            res['std'] = '\n'.join(ctx.stdout(o) for o in getattr(ctx, 'all', [])[-2:])
        shutil.rmtree(base, ignore_errors=True)
        chan.write(json.dumps(res) + '\n')


if __name__ == '__main__':
    main()
