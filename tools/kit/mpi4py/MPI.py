"""Small stand-in for mpi4py: every call goes to the hub started by kit.py."""
import atexit
import os
from multiprocessing.connection import Client

ANY_SOURCE = -1
ANY_TAG = -1
_rank = int(os.environ['KIT_RANK'])
_size = int(os.environ['KIT_SIZE'])
_conn = Client(os.environ['KIT_HUB'], authkey=b'kit')
_conn.send(_rank)
_final = False


def _call(*msg):
    _conn.send(msg)
    return _conn.recv()


class Status(object):
    source = -1
    tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Comm(object):
    rank = _rank
    size = _size

    def Get_rank(self):
        return _rank

    def Get_size(self):
        return _size

    def barrier(self):
        _call('barrier')
    Barrier = barrier

    def send(self, obj, dest, tag=0):
        _call('send', dest, tag, obj)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg, obj = _call('recv', source, tag)
        if status is not None:
            status.source, status.tag = src, tg
        return obj

    def bcast(self, obj=None, root=0):
        if _rank == root:
            for d in range(_size):
                if d != root:
                    self.send(obj, d, 999)
            return obj
        return self.recv(source=root, tag=999)

    def gather(self, obj, root=0):
        if _rank != root:
            self.send(obj, root, 998)
            return None
        return [obj if r == root else self.recv(source=r, tag=998) for r in range(_size)]

    def Abort(self, code=1):
        _call('abort', code)
        os._exit(code)

    def finalize(self):
        Finalize()


COMM_WORLD = Comm()


def Init():
    pass


def Is_initialized():
    return True


def Is_finalized():
    return _final


def Finalize():
    global _final
    if not _final:
        _final = True
        _call('barrier')


atexit.register(Finalize)
