"""
Stand-in for mpi4py used inside simulated ranks.

Semantics follow the MPI standard as mpi4py exposes it: lower-case calls move
pickled objects, upper-case calls accept buffers only, messages between one
pair of ranks on one communicator do not overtake each other, receives may be
wildcarded, sends may or may not be buffered.  All decisions (who runs next,
which message a wildcard receive matches, whether a send is buffered) are taken
by the scheduler process at the other end of the socket.
"""
import pickle
import struct
import sys
import types

import numpy as np


class SimState:
    """Per-process connection to the scheduler (installed after fork)."""
    rank = 0
    size = 1
    sock = None          # raw file descriptor
    used = False         # MPI has been touched by the program
    finalized = False
    set_clock = None


STATE = SimState()


def _recv_exact(fd, n):
    import os
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            os._exit(98)
        out += b
    return out


def call(op, **kw):
    """Send one request to the scheduler and block until it is granted."""
    import os
    st = STATE
    if st.sock is None:
        raise RuntimeError('MPI call outside a simulated rank: %s' % op)
    blob = b'P' + pickle.dumps((op, kw), protocol=4)
    data = struct.pack('<I', len(blob)) + blob
    while data:
        k = os.write(st.sock, data)
        data = data[k:]
    n, clock = struct.unpack('<Iq', _recv_exact(st.sock, 12))
    res = pickle.loads(_recv_exact(st.sock, n))
    if st.set_clock is not None and clock:
        st.set_clock(clock)
    if isinstance(res, dict) and '__error__' in res:
        raise MPIException(res['__error__'])
    return res


class MPIException(RuntimeError):
    def __init__(self, msg=''):
        RuntimeError.__init__(self, msg)
        self.msg = msg

    def Get_error_string(self):
        return str(self.msg)

    def Get_error_code(self):
        return 1


ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -3
UNDEFINED = -32766


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.error = 0
        self._count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, datatype=None):
        return self._count

    def Get_elements(self, datatype=None):
        return self._count

    count = property(lambda self: self._count)

    def Set_source(self, s):
        self.source = s

    def Set_tag(self, t):
        self.tag = t


class Op:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)


SUM = Op('SUM', lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b)
MAX = Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
LAND = Op('LAND', lambda a, b: bool(a) and bool(b))
LOR = Op('LOR', lambda a, b: bool(a) or bool(b))


class Datatype:
    def __init__(self, name):
        self.name = name


def _buffer(spec):
    """numpy view of an mpi4py buffer specification; rejects plain objects."""
    if isinstance(spec, (list, tuple)) and spec and not isinstance(spec, np.ndarray):
        return _buffer(spec[0])
    if isinstance(spec, np.ndarray):
        if spec.dtype == object:
            raise ValueError('cannot handle object dtype buffer')
        return spec
    if isinstance(spec, (bytearray, memoryview, bytes)):
        return np.frombuffer(spec, dtype='u1')
    if isinstance(spec, np.generic):
        return np.asarray(spec)
    raise TypeError('message: expecting buffer or list/tuple, got %s'
                    % type(spec).__name__)


def _fill(dst, src):
    d = _buffer(dst)
    flat = d.reshape(-1)
    s = np.asarray(src).reshape(-1)
    if s.nbytes > d.nbytes:
        raise MPIException('MPI_ERR_TRUNCATE: message truncated')
    if s.dtype != d.dtype:
        raw = s.tobytes()
        flat.view('u1')[:len(raw)] = np.frombuffer(raw, 'u1')
    else:
        flat[:s.size] = s


class Request:
    def __init__(self, comm, kind, rid=None, buf=None):
        self._comm, self._kind, self._rid, self._buf = comm, kind, rid, buf
        self._done, self._val = False, None

    def _finish(self, res, status):
        self._done = True
        if self._kind == 'irecv':
            obj = pickle.loads(res['data'])
            if status is not None:
                status.source, status.tag = res['source'], res['tag']
            if self._buf is not None:
                _fill(self._buf, obj)
                obj = None
            self._val = obj

    def wait(self, status=None):
        if not self._done:
            res = call('wait', rid=self._rid, comm=self._comm._id)
            self._finish(res, status)
        return self._val

    def test(self, status=None):
        if self._done:
            return True, self._val
        res = call('test', rid=self._rid, comm=self._comm._id)
        if res is None:
            return False, None
        self._finish(res, status)
        return True, self._val

    def Wait(self, status=None):
        self.wait(status)
        return True

    def Test(self, status=None):
        return self.test(status)[0]

    def cancel(self):
        pass

    Cancel = Free = cancel

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    @classmethod
    def Waitall(cls, reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True


class Comm:
    def __init__(self, cid, group):
        self._id = cid
        self._group = group      # None = world

    # -- identity
    def _members(self):
        if self._group is None:
            return list(range(STATE.size))
        return self._group

    def Get_rank(self):
        STATE.used = True
        return self._members().index(STATE.rank)

    def Get_size(self):
        STATE.used = True
        return len(self._members())

    rank = property(Get_rank)
    size = property(Get_size)
    name = 'MPI_COMM_WORLD'

    def Get_name(self):
        return self.name

    def _world(self, r, what='rank'):
        if r == ANY_SOURCE:
            return r
        m = self._members()
        if not isinstance(r, (int, np.integer)) or isinstance(r, bool):
            raise TypeError('an integer is required for %s' % what)
        if r < 0 or r >= len(m):
            raise MPIException('MPI_ERR_RANK: invalid rank')
        return m[int(r)]

    def _check(self):
        STATE.used = True
        if STATE.finalized:
            raise MPIException('MPI call after MPI_FINALIZE')

    # -- point to point, objects
    def _send(self, payload, dest, tag, mode):
        self._check()
        if not isinstance(tag, (int, np.integer)):
            raise TypeError('an integer is required for tag')
        if tag < 0:
            raise MPIException('MPI_ERR_TAG: invalid tag')
        if dest == PROC_NULL:
            return
        if dest == ANY_SOURCE:
            raise MPIException('MPI_ERR_RANK: invalid rank')
        return call('send', dest=self._world(dest), tag=int(tag), data=payload,
                    mode=mode, comm=self._id)

    def send(self, obj, dest, tag=0):
        self._send(pickle.dumps(obj, protocol=4), dest, tag, 'std')

    def ssend(self, obj, dest, tag=0):
        self._send(pickle.dumps(obj, protocol=4), dest, tag, 'sync')

    def bsend(self, obj, dest, tag=0):
        self._send(pickle.dumps(obj, protocol=4), dest, tag, 'buf')

    def isend(self, obj, dest, tag=0):
        rid = self._send(pickle.dumps(obj, protocol=4), dest, tag, 'imm')
        return Request(self, 'isend', rid)

    issend = isend

    def _recv(self, source, tag, status):
        self._check()
        if source == PROC_NULL:
            return pickle.dumps(None)
        res = call('recv', source=self._world(source, 'source'), tag=int(tag),
                   comm=self._id)
        if status is not None:
            if not isinstance(status, Status):
                raise TypeError("Argument 'status' has incorrect type (expected "
                                "mpi4py.MPI.Status, got %s)" % type(status).__name__)
            status.source = self._members().index(res['source'])
            status.tag = res['tag']
            status._count = len(res['data'])
        return res['data']

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if status is not None and not isinstance(status, Status):
            raise TypeError("Argument 'status' has incorrect type (expected "
                            "mpi4py.MPI.Status, got %s)" % type(status).__name__)
        return pickle.loads(self._recv(source, tag, status))

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        self._check()
        rid = call('irecv', source=self._world(source, 'source'), tag=int(tag),
                   comm=self._id)
        return Request(self, 'irecv', rid)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        self._send(pickle.dumps(sendobj, protocol=4), dest, sendtag, 'buf')
        return self.recv(None, source, recvtag, status)

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        res = call('probe', source=self._world(source, 'source'), tag=int(tag),
                   comm=self._id)
        if status is not None:
            status.source = self._members().index(res['source'])
            status.tag = res['tag']
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        res = call('iprobe', source=self._world(source, 'source'), tag=int(tag),
                   comm=self._id)
        if res is None:
            return False
        if status is not None:
            status.source = self._members().index(res['source'])
            status.tag = res['tag']
        return True

    Probe, Iprobe = probe, iprobe

    # -- point to point, buffers
    def Send(self, buf, dest, tag=0):
        self._send(pickle.dumps(np.array(_buffer(buf)), protocol=4), dest, tag, 'std')

    def Ssend(self, buf, dest, tag=0):
        self._send(pickle.dumps(np.array(_buffer(buf)), protocol=4), dest, tag, 'sync')

    def Isend(self, buf, dest, tag=0):
        rid = self._send(pickle.dumps(np.array(_buffer(buf)), protocol=4), dest, tag, 'imm')
        return Request(self, 'isend', rid)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        _buffer(buf)
        if status is not None and not isinstance(status, Status):
            raise TypeError('bad status')
        _fill(buf, pickle.loads(self._recv(source, tag, status)))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        _buffer(buf)
        r = self.irecv(None, source, tag)
        r._buf = buf
        return r

    # -- collectives
    def _coll(self, kind, payload=None, root=None, sig=None):
        self._check()
        return call('coll', kind=kind, data=payload, root=root, comm=self._id,
                    group=self._members(), sig=sig)

    def barrier(self):
        self._coll('barrier')

    Barrier = barrier

    def _all(self, kind, obj, root=None):
        parts = self._coll(kind, pickle.dumps(obj, protocol=4), root)
        return [pickle.loads(p) for p in parts] if parts is not None else None

    def bcast(self, obj=None, root=0):
        parts = self._coll('bcast', pickle.dumps(obj, protocol=4)
                           if self.Get_rank() == root else None, root)
        return pickle.loads(parts[root])

    def gather(self, sendobj, root=0):
        r = self._all('gather', sendobj, root)
        return r if self.Get_rank() == root else None

    def scatter(self, sendobj=None, root=0):
        if self.Get_rank() == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.Get_size():
                raise ValueError('expecting %d items, got %d'
                                 % (self.Get_size(), len(sendobj)))
        parts = self._coll('scatter', pickle.dumps(sendobj, protocol=4)
                           if self.Get_rank() == root else None, root)
        return pickle.loads(parts[root])[self.Get_rank()]

    def allgather(self, sendobj):
        return self._all('allgather', sendobj)

    def alltoall(self, sendobj):
        rows = self._all('alltoall', list(sendobj))
        return [row[self.Get_rank()] for row in rows]

    def reduce(self, sendobj, op=SUM, root=0):
        r = self._all('reduce', sendobj, root)
        if self.Get_rank() != root:
            return None
        acc = r[0]
        for x in r[1:]:
            acc = op(acc, x)
        return acc

    def allreduce(self, sendobj, op=SUM):
        r = self._all('allreduce', sendobj)
        acc = r[0]
        for x in r[1:]:
            acc = op(acc, x)
        return acc

    def Bcast(self, buf, root=0):
        v = self.bcast(np.array(_buffer(buf)) if self.Get_rank() == root else None, root)
        if self.Get_rank() != root:
            _fill(buf, v)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        r = self.reduce(np.array(_buffer(sendbuf)), op, root)
        if self.Get_rank() == root:
            _fill(recvbuf, r)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        _fill(recvbuf, self.allreduce(np.array(_buffer(src)), op))

    def Gather(self, sendbuf, recvbuf, root=0):
        r = self.gather(np.array(_buffer(sendbuf)), root)
        if r is not None:
            _fill(recvbuf, np.concatenate([x.reshape(-1) for x in r]))

    def Allgather(self, sendbuf, recvbuf):
        r = self.allgather(np.array(_buffer(sendbuf)))
        _fill(recvbuf, np.concatenate([x.reshape(-1) for x in r]))

    # -- management
    def Dup(self, info=None):
        cid = self._coll('dup')
        return Comm(cid, self._group)

    Clone = dup = Dup

    def Split(self, color=0, key=0):
        rows = self._all('split', (color, key))
        cid = self._coll('dup')
        me = rows[self.Get_rank()]
        if me[0] == UNDEFINED:
            return COMM_NULL
        mem = self._members()
        grp = sorted((k, i) for i, (c, k) in enumerate(rows) if c == me[0])
        return Comm((cid, me[0]), [mem[i] for _, i in grp])

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        STATE.used = True
        call('abort', code=int(errorcode))

    def Set_errhandler(self, h):
        pass

    def Is_inter(self):
        return False


class _Self(Comm):
    """COMM_SELF: every operation is local."""
    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    rank = property(Get_rank)
    size = property(Get_size)

    def barrier(self):
        pass

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return obj

    def gather(self, obj, root=0):
        return [obj]

    def allgather(self, obj):
        return [obj]


COMM_WORLD = Comm(0, None)
COMM_SELF = _Self('self', [0])
COMM_NULL = None
IN_PLACE = object()


def Init():
    STATE.used = True


def Init_thread(required=3):
    STATE.used = True
    return 3


def Is_initialized():
    return True


def Is_finalized():
    return STATE.finalized


def Finalize():
    if STATE.finalized:
        return
    call('finalize')
    STATE.finalized = True


def Wtime():
    import time
    return time.time()


def Wtick():
    return 1e-6


def Get_processor_name():
    return 'node%d' % STATE.rank


def Get_version():
    return (3, 1)


def Query_thread():
    return 3


def install():
    """Put this module in place of mpi4py for everything imported later."""
    pkg = types.ModuleType('mpi4py')
    mod = types.ModuleType('mpi4py.MPI')
    g = globals()
    for k in list(g):
        if k.startswith('__') or k in ('install', 'call', 'np', 'pickle', 'sys',
                                       'types', 'struct'):
            continue
        setattr(mod, k, g[k])
    mod.Exception = MPIException
    mod.Intracomm = mod.Comm = Comm
    for t in ('INT', 'DOUBLE', 'FLOAT', 'LONG', 'BYTE', 'CHAR', 'BOOL', 'INT64_T',
              'INT32_T', 'SHORT', 'UNSIGNED', 'FLOAT_INT', 'DOUBLE_INT'):
        setattr(mod, t, Datatype(t))
    mod.THREAD_SINGLE, mod.THREAD_FUNNELED, mod.THREAD_SERIALIZED, \
        mod.THREAD_MULTIPLE = 0, 1, 2, 3
    mod.ERRORS_RETURN = mod.ERRORS_ARE_FATAL = object()
    pkg.MPI = mod
    pkg.__version__ = '4.1.2'
    pkg.__path__ = []
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True, threads=True,
                                   thread_level='multiple')
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mod
    return mod
