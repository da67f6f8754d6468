import os
import pickle
import time
from multiprocessing.connection import Client

import numpy as np

Wtime = time.perf_counter
LOCK_SHARED, LOCK_EXCLUSIVE = 1, 2
SUM, LAND, LOR, MAX, MIN = "sum", "land", "lor", "max", "min"
BYTE = None


def _fold(vals, op):
    res = vals[0]
    for x in vals[1:]:
        if op == SUM:
            res = res + x
        elif op == LAND:
            res = bool(res) and bool(x)
        elif op == LOR:
            res = bool(res) or bool(x)
        elif op == MAX:
            res = max(res, x)
        elif op == MIN:
            res = min(res, x)
        else:
            raise NotImplementedError(op)
    return res


class Comm:
    def __init__(self):
        self.rank = int(os.environ["FAKEMPI_RANK"])
        self.size = int(os.environ["FAKEMPI_SIZE"])
        self._conn = Client(os.environ["FAKEMPI_SOCK"], family="AF_UNIX")
        self._conn.send(("hello", self.rank))

    def _call(self, *msg):
        self._conn.send(msg)
        ok, val = self._conn.recv()
        if not ok:
            raise RuntimeError("fakempi: %s" % val)
        return val

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # collectives: everything is an allgather tagged with the operation name and root, so mismatched calls are detected
    def allgather(self, obj):
        return self._gather("allgather", None, obj)

    def _gather(self, name, root, obj):
        return [pickle.loads(x) for x in self._call("coll", name, root, pickle.dumps(obj))]

    def barrier(self):
        self._gather("barrier", None, None)
    Barrier = barrier

    def bcast(self, obj, root=0):
        return self._gather("bcast", root, obj if self.rank == root else None)[root]

    def Bcast(self, buf, root=0):
        if not buf.flags.c_contiguous:
            raise ValueError("Bcast needs a contiguous buffer")
        buf[...] = self._gather("Bcast", root, buf if self.rank == root else None)[root]

    def gather(self, obj, root=0):
        res = self._gather("gather", root, obj)
        return res if self.rank == root else None

    def allreduce(self, obj, op=SUM):
        return _fold(self._gather("allreduce:" + op, None, obj), op)

    def reduce(self, obj, op=SUM, root=0):
        res = self._gather("reduce:" + op, root, obj)
        return _fold(res, op) if self.rank == root else None

    def send(self, obj, dest, tag=0):
        self._call("send", dest, tag, pickle.dumps(obj))

    def recv(self, source, tag=0):
        return pickle.loads(self._call("recv", source, tag))


class Win:
    def __init__(self, wid, comm):
        self.wid, self.comm = wid, comm
        self._locked = None

    @classmethod
    def Allocate(cls, size, disp_unit=1, info=None, comm=None):
        comm._gather("win", None, int(size))
        return cls(comm._call("winid"), comm)

    def Lock(self, rank, lock_type=LOCK_EXCLUSIVE, **kwargs):
        if self._locked is not None:
            raise RuntimeError("fakempi: window already locked")
        self._locked = rank

    def Unlock(self, rank, **kwargs):
        if self._locked != rank:
            raise RuntimeError("fakempi: unlock of a window that is not locked")
        self._locked = None

    def _check(self, rank):
        if self._locked != rank:
            raise RuntimeError("fakempi: access outside of an epoch")

    def Put(self, data, target_rank, **kwargs):
        self._check(target_rank)
        self.comm._call("put", self.wid, target_rank, np.ascontiguousarray(data).tobytes())

    def Get(self, buf, target_rank, **kwargs):
        self._check(target_rank)
        raw = self.comm._call("get", self.wid, target_rank)
        flat = np.frombuffer(raw, dtype=np.uint8)
        if flat.size < buf.nbytes:
            raise RuntimeError("fakempi: remote buffer too small")
        buf[...] = flat[:buf.nbytes].view(buf.dtype).reshape(buf.shape)

    def Free(self):
        pass


COMM_WORLD = Comm()
