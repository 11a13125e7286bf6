"""GF(2) linear forms over symbolic bits and a stand-in for the third-party
package galois (GF(256), polynomial x^8+x^4+x^3+x^2+1) built on them"""
import types

import numpy as np

from . import sym as S


def lin():
    r = S.cur().reg
    if not hasattr(r, 'lin'):
        r.lin = {}
    return r.lin


def form(b):
    if isinstance(b, int):
        return b, frozenset()
    return lin().get(b.id, (0, frozenset([b.id])))


def xorbits(bits):
    """bit equal to the XOR of bits, kept in linear normal form"""
    import z3
    c = 0
    t = frozenset()
    for b in bits:
        x, y = form(b)
        c ^= x
        t = t ^ y
    if not t:
        return c
    reg = S.cur().reg
    key = ('xor', c, t)
    a = reg.cache.get(key)
    if a is not None:
        return a
    zs = [reg.atoms[i].zb for i in sorted(t)]
    r = zs[0]
    for z in zs[1:]:
        r = z3.Xor(r, z)
    if len(t) == 1 and c == 0:
        a = reg.atoms[next(iter(t))]
    else:
        a = S.bitexpr(z3.Not(r) if c else r)
        if not isinstance(a, int):
            lin()[a.id] = (c, t)
    reg.cache[key] = a
    return a


EXP = [0]*510
LOG = [0]*256
_x = 1
for _i in range(255):
    EXP[_i] = EXP[_i+255] = _x
    LOG[_x] = _i
    _x <<= 1
    if _x & 256:
        _x ^= 0x11d


def mul(a, b):
    return 0 if a == 0 or b == 0 else EXP[LOG[a]+LOG[b]]


class GFArr:
    _gf = True

    def __init__(self, a):
        self.a = a              # 2-d object array of int / SymNum

    def __matmul__(self, o):
        n, k = self.a.shape
        k2, m = o.a.shape
        if k != k2:
            raise ValueError('matmul: shapes mismatch')
        r = np.empty((n, m), dtype=object)
        for j in range(m):
            col = [S.twos(x, 8) if isinstance(x, S.SymNum) else
                   [int(x) >> b & 1 for b in range(8)] for x in o.a[:, j]]
            for i in range(n):
                acc = [[] for _ in range(8)]
                for q in range(k):
                    c = self.a[i, q]
                    if isinstance(c, S.SymNum):
                        raise S.Unsupported('symbolic matrix over GF(256)')
                    c = int(c)
                    if c == 0:
                        continue
                    for b in range(8):
                        p = mul(c, 1 << b)
                        for t in range(8):
                            if p >> t & 1:
                                acc[t].append(col[q][b])
                r[i, j] = S.SymNum.from_bits([xorbits(x) for x in acc])
        return GFArr(r)

    def inv(self):
        n = self.a.shape[0]
        if self.a.shape != (n, n):
            raise np.linalg.LinAlgError('matrix must be square')
        M = [[int(x) for x in self.a[i]]+[int(i == j) for j in range(n)]
             for i in range(n)]
        for c in range(n):
            p = next((r for r in range(c, n) if M[r][c]), None)
            if p is None:
                raise np.linalg.LinAlgError('singular matrix')
            M[c], M[p] = M[p], M[c]
            iv = EXP[255-LOG[M[c][c]]]
            M[c] = [mul(iv, x) for x in M[c]]
            for r in range(n):
                f = M[r][c]
                if r != c and f:
                    M[r] = [x ^ mul(f, y) for x, y in zip(M[r], M[c])]
        o = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                o[i, j] = M[i][n+j]
        return GFArr(o)


def GF(order):
    if order != 256:
        raise S.Unsupported('field order')

    def make(x):
        a = np.asarray(x).view(np.ndarray)
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            o[i] = a[i]
        return GFArr(o)
    return make


def module():
    m = types.ModuleType('galois')
    m.GF = GF
    return m
