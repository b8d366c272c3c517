"""
Seeded scheduler for the threads inside one simulated process.

Threads stay real threads, but only the one holding the baton runs.  Locks, queues,
events, executors and joins give the baton up where they would block, and every line of
the program's own code is a possible switch.  Who runs next is drawn from the seed, so
one seed is one interleaving.
"""
import hashlib
import json
import os
import queue
import random
import sys
import threading
import time
import _thread

CAP = 400000


class T:
    def __init__(self, n):
        self.n = n
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = 'run'
        self.ready = None
        self.why = ''
        self.wake = None
        self.prio = 0


class Sched:
    def __init__(self, spec, report, own, now):
        self.spec, self.report, self.own, self.now = spec, report, own, now
        self.rng = random.Random('threads%s' % spec.get('seed', 0))
        self.all = [T(0)]
        self.me = self.all[0]
        self.steps = self.switches = 0
        self.points = set()
        if spec.get('kind') == 'pct':
            self.points = {self.rng.randrange(1, 400) for _ in range(spec.get('depth', 3))}
        self.me.prio = self.rng.random()
        self.digest = hashlib.sha256()

    # -------------------------------------------------------------- choosing
    def pick(self, cands):
        k = self.spec.get('kind', 'random')
        if k == 'serial':
            return self.me if self.me in cands else cands[0]
        if k == 'rr':
            later = [t for t in cands if t.n > self.me.n]
            return (later or cands)[0]
        if k == 'pct':
            if self.steps in self.points and self.me in cands:
                self.me.prio = -self.rng.random()
            return max(cands, key=lambda t: t.prio)
        if self.me in cands and self.rng.random() < self.spec.get('sticky', 0.5):
            return self.me
        return cands[self.rng.randrange(len(cands))]

    def next(self):
        self.steps += 1
        if self.steps > CAP:
            self.stop('livelock', ['more than %d scheduling steps' % CAP])
        cands = [t for t in self.all if t.state == 'run' or
                 t.state == 'wait' and t.ready()]
        if not cands:
            timed = [t for t in self.all if t.state == 'wait' and t.wake is not None]
            if not timed:
                self.stop('deadlock', ['thread %d waits for %s' % (t.n, t.why)
                                       for t in self.all if t.state == 'wait'])
            t = min(timed, key=lambda t: (t.wake, t.n))
            t.late = True
            return t
        return self.pick(cands)

    def stop(self, what, text):
        with open(self.report, 'w') as f:
            json.dump({what: text, 'steps': self.steps, 'switches': self.switches,
                       'digest': self.digest.hexdigest()}, f)
        sys.stdout.flush()
        os._exit(98)

    # ------------------------------------------------------------- switching
    def give(self, t):
        """The baton goes to t; returns when this thread has it again."""
        me = self.me
        if t is me:
            return
        self.switches += 1
        self.digest.update(b'%d:%d ' % (self.steps, t.n))
        self.me = t
        t.gate.release()
        me.gate.acquire()
        self.own()

    def step(self):
        if len(self.all) > 1:
            self.give(self.next())

    def block(self, why, ready, timeout=None):
        """Wait until ready(); False when the time is over first."""
        me = self.me
        if ready():
            self.step()
            if ready():
                return True
        while True:
            me.state, me.ready, me.why, me.late = 'wait', ready, why, False
            me.wake = None if timeout is None else self.now() + timeout
            self.give(self.next())
            me.state = 'run'
            if ready():
                return True
            if me.late:
                return False

    def start(self, fn, args=(), kwargs=None):
        t = T(len(self.all))
        t.prio = self.rng.random()
        self.all.append(t)
        obj = getattr(fn, '__self__', None)
        if obj is not None:
            obj._sim = t

        def body():
            t.gate.acquire()
            self.own()
            if self.tracer:
                sys.settrace(self.tracer)
            try:
                fn(*args, **(kwargs or {}))
            finally:
                sys.settrace(None)
                t.state = 'done'
                n = self.next()
                self.me = n
                n.gate.release()
        real_start(body, ())

    def finish(self):
        """End of the program: the interpreter waits for all other threads."""
        rest = [t for t in self.all[1:]]
        self.block('the end of all threads', lambda: all(t.state == 'done' for t in rest))
        sys.settrace(None)
        with open(self.report, 'w') as f:
            json.dump({'steps': self.steps, 'switches': self.switches,
                       'threads': len(self.all), 'digest': self.digest.hexdigest()}, f)


real_start = _thread.start_new_thread
real_wait = threading.Thread._wait_for_tstate_lock
S = None


class Lock:
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            S.step()
            if self.held:
                return False
            self.held = True
            return True
        if not S.block('a lock', lambda: not self.held, None if timeout < 0 else timeout):
            return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        S.step()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held = False


def number(self):
    """Hash of a thread or future: sets of them must not be ordered by address."""
    n = self.__dict__.get('_number')
    if n is None:
        number.last += 1
        n = self.__dict__['_number'] = number.last
    return n


number.last = 0


def wait_end(self, block=True, timeout=-1):
    t = getattr(self, '_sim', None)
    if t is None:
        return real_wait(self, block, timeout)
    if not block:
        S.step()
        if t.state != 'done':
            return
    elif not S.block('the end of thread %d' % t.n, lambda: t.state == 'done',
                     None if timeout < 0 else timeout):
        return
    real_wait(self)


def install(spec, report, own, now, trace_dirs):
    """Take over threading in this process."""
    global S
    S = Sched(spec, report, own, now)
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = threading._PyRLock
    threading._start_new_thread = S.start
    threading.Thread._wait_for_tstate_lock = wait_end
    threading.Thread.__hash__ = number
    queue.SimpleQueue = queue._PySimpleQueue
    import concurrent.futures.thread as cft
    import concurrent.futures._base as cfb
    cft._global_shutdown_lock = Lock()
    cfb.Future.__hash__ = cfb.id = number
    napping = time.sleep

    def sleep(s):
        if len([t for t in S.all if t.state != 'done']) > 1:
            S.block('sleep', lambda: False, float(s))
        napping(s)
    time.sleep = sleep

    def local(frame, event, arg):
        if event == 'line':
            S.step()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(trace_dirs):
            return local
        return None
    S.tracer = tracer if spec.get('lines', True) else None
    if S.tracer:
        sys.settrace(S.tracer)
    return S
