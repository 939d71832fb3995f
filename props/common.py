"""Shared contract stubs."""
import hashlib

import z3

from pyvc import values as V
from pq_logic.fips import _fips_utils as U


def tob(x):
    return x.frozen() if isinstance(x, V.MBytes) else x


def xof_stubs():
    """contract of the extendable-output object: consecutive reads return consecutive bytes of one
    stream that depends only on the algorithm and the data absorbed"""
    def update(self, data):
        self._absorbed = getattr(self, "_absorbed", b"") + tob(data)
        self._pos = 0

    def read(self, n):
        V.ctx().ghost.setdefault("reads", []).append((self._pos, n))
        p = self._pos
        self._pos = p + n
        return xof_bytes(self, p, n)
    return {U.XOFHash.update: update, U.XOFHash.squeeze: read, U.XOFHash.read: read}


def xof_bytes(x, p, n):
    """bytes p..p+n-1 of the stream: one unknown byte per (stream, position) term"""
    c = V.ctx()
    out = []
    for i in range(n):
        a, q = V.zseq(x._absorbed), z3.simplify(V.ze(p + i))
        k = ("xof", x.algorithm, a.get_id(), q.get_id())
        if k not in c.memo:
            c.memo[k] = (a, q, V.SInt(bv=z3.BitVec(c.name("xof"), 8)))
        out.append(c.memo[k][2])
    return V.SBytes([("e", out)])


def shake(alg, data, n):
    return (hashlib.shake_128 if alg == "shake128" else hashlib.shake_256)(bytes(data)).digest(n)
