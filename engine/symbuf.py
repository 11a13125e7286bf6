"""Byte buffers with symbolic bits, and a bitstruct replacement over them."""
import re
import struct as _struct
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import SymNum, SymBool, Atom, Unsupported, as_sym, twos


class _BufMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is SymBuf or isinstance(x, (bytes, bytearray))


class SymBuf:
    """bytes/bytearray look-alike.  bits: MSB-first list of 0/1/Atom."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    @staticmethod
    def of(b):
        if type(b) is SymBuf:
            return b
        out = []
        for x in b:
            if isinstance(x, (int, np.integer)):
                x = int(x)
                if not 0 <= x < 256:
                    raise ValueError('byte must be in range(0, 256)')
                out.extend((x >> (7-i)) & 1 for i in range(8))
            elif isinstance(x, SymNum):
                v = list(x.getbits())
                for y in v[8:]:
                    if y == 1 or (type(y) is Atom and SymBool(y.zb)):
                        raise ValueError('byte must be in range(0, 256)')
                v = (v+[0]*8)[:8]
                out.extend(reversed(v))
            else:
                raise Unsupported(f'bytes from {type(x)}')
        return SymBuf(out)

    def __len__(self):
        return len(self.bits)//8

    def __bool__(self):
        return len(self.bits) > 0

    def concrete(self):
        """bytes or None"""
        out = bytearray()
        v = 0
        for i, b in enumerate(self.bits):
            if type(b) is Atom:
                return None
            v = (v << 1) | b
            if i & 7 == 7:
                out.append(v)
                v = 0
        return bytes(out)

    def decode(self, *a):
        b = self.concrete()
        if b is None:
            raise Unsupported('text of symbolic bytes')
        return b.decode(*a)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[None if x is None else int(x.__index__())
                        for x in (k.start, k.stop, k.step)])
            idx = range(*k.indices(len(self)))
            if k.step in (None, 1):
                return SymBuf(self.bits[8*idx.start:8*max(idx.start,
                                                         idx.stop)])
            out = []
            for i in idx:
                out.extend(self.bits[8*i:8*i+8])
            return SymBuf(out)
        k = k.__index__()
        n = len(self)
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise IndexError('index out of range')
        return SymNum.from_bits(list(reversed(self.bits[8*k:8*k+8])))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            k = slice(*[None if x is None else int(x.__index__())
                        for x in (k.start, k.stop, k.step)])
            v = SymBuf.of(v)
            st, en, sp = k.indices(len(self))
            if sp == 1:
                self.bits[8*st:8*max(st, en)] = v.bits
            else:
                idx = list(range(st, en, sp))
                if len(idx) != len(v):
                    raise ValueError('extended slice size')
                for j, i in enumerate(idx):
                    self.bits[8*i:8*i+8] = v.bits[8*j:8*j+8]
            return
        k = k.__index__()
        n = len(self)
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise IndexError('bytearray index out of range')
        self.bits[8*k:8*k+8] = SymBuf.of([v]).bits

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __add__(self, o):
        if not isinstance(o, (SymBuf, bytes, bytearray)):
            return NotImplemented
        return SymBuf(self.bits+SymBuf.of(o).bits)

    def __radd__(self, o):
        return SymBuf(SymBuf.of(o).bits+self.bits)

    def __iadd__(self, o):
        self.bits = self.bits+SymBuf.of(o).bits
        return self

    def __mul__(self, n):
        return SymBuf(self.bits*int(n))

    def __eq__(self, o):
        if not isinstance(o, (SymBuf, bytes, bytearray)):
            return False
        o = SymBuf.of(o)
        if len(o.bits) != len(self.bits):
            return False
        return S.bits_eq(self.bits, o.bits) if self.bits else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        c = self.concretize()
        return hash(c)

    def concretize(self):
        c = self.concrete()
        if c is None:
            n = SymNum.from_bits(list(reversed(self.bits)))
            v = int(n.concretize()) if isinstance(n, SymNum) else n
            c = v.to_bytes(len(self), 'big')
        return c

    def __bytes__(self):
        S.cur().escape('bytes()')
        return self.concretize()

    def hex(self):
        return self.concretize().hex()

    def append(self, v):
        self.bits = self.bits+SymBuf.of([v]).bits

    def extend(self, v):
        self.bits = self.bits+SymBuf.of(v).bits

    def decode(self, *a):
        return self.concretize().decode(*a)

    def find(self, sub, start=0):
        sub = SymBuf.of(sub)
        for i in range(start, len(self)-len(sub)+1):
            if self[i:i+len(sub)] == sub:
                return i
        return -1

    def ljust(self, n, c=b' '):
        return self + SymBuf.of(c)*max(0, n-len(self))

    def startswith(self, p):
        return bool(self[:len(p)] == p)

    def tobytes(self):
        return self

    def copy(self):
        return SymBuf(list(self.bits))

    def __copy__(self):
        return SymBuf(list(self.bits))

    def __deepcopy__(self, memo):
        return SymBuf(list(self.bits))

    def __repr__(self):
        return f'<SymBuf {len(self)} bytes>'


class BytesT(metaclass=_BufMeta):
    """replacement for bytes/bytearray inside the code under test"""

    def __new__(cls, x=b'', *a):
        if isinstance(x, SymNum):
            x = int(x.__index__())
        if isinstance(x, (int, np.integer)):
            return SymBuf([0]*(8*int(x)))
        if isinstance(x, str):
            return SymBuf(list(SymBuf.of(bytes(x, *a)).bits))
        if isinstance(x, np.ndarray):
            x = list(x.reshape(-1))
        if type(x) is not SymBuf:
            x = list(x)
        return SymBuf(list(SymBuf.of(x).bits))

    @staticmethod
    def fromhex(s):
        return bytes.fromhex(s)


# --------------------------------------------------------------------------
# bitstruct
# --------------------------------------------------------------------------
class BsError(Exception):
    pass


_re = re.compile(r'([<>]?)([busfrtpP])(\d+)([<>]?)')
_parse_cache = {}


def parse(fmt):
    r = _parse_cache.get(fmt)
    if r is None:
        f = fmt.replace(' ', '')
        order = '>'
        out = []
        pos = 0
        if f and f[-1] in '<>':
            bo = f[-1]
            f = f[:-1]
        else:
            bo = '>'
        for m in _re.finditer(f):
            if m.start() != pos:
                raise BsError('bad format '+fmt)
            pos = m.end()
            if m.group(1):
                order = m.group(1)
            n = int(m.group(3))
            if n == 0:
                raise BsError(f'bad format {fmt!r}: size 0')
            out.append((m.group(2), n, order))
        if pos != len(f):
            raise BsError('bad format '+fmt)
        if bo == '<':
            raise Unsupported('bitstruct byte order')
        r = out
        _parse_cache[fmt] = r
    return r


def decode(ty, n, order, bits):
    if order == '<':
        bits = list(reversed(bits))
    if ty == 'u':
        return SymNum.from_bits(list(reversed(bits)))
    if ty == 's':
        lsb = list(reversed(bits))
        u = SymNum.from_bits(lsb[:-1])
        sg = lsb[-1]
        if type(sg) is Atom:
            r = u - SymNum({(sg.id,): 1 << (n-1)}, True)
            return r
        return u - (1 << (n-1)) if sg else u
    if ty == 'b':
        v = 0
        acc = None
        for b in bits:
            if type(b) is Atom:
                acc = b if acc is None else S.bit_or(acc, b)
            elif b:
                v = 1
        if v:
            return True
        return False if acc is None else SymBool(acc.zb)
    if ty == 'r':
        pad = (-len(bits)) % 8
        return SymBuf(list(bits)+[0]*pad)
    if ty == 't':
        return SymBuf(list(bits)).concretize().decode('utf-8', 'replace') \
            if n % 8 == 0 else None
    if ty == 'f':
        c = SymBuf(list(bits)+[0]*((-len(bits)) % 8)).concrete()
        if c is None:
            raise Unsupported('symbolic float field')
        return _struct.unpack({16: '>e', 32: '>f', 64: '>d'}[n], c)[0]
    raise Unsupported('bitstruct type '+ty)


def unpack_from(fmt, data, offset=0, allow_truncated=False):
    fl = parse(fmt)
    b = SymBuf.of(data).bits
    if isinstance(offset, SymNum):
        offset = offset.__index__()
    pos = int(offset)
    if pos < 0:
        raise BsError('negative offset')
    tot = sum(f[1] for f in fl)
    if pos+tot > len(b):
        raise BsError(f'unpack requires at least {pos+tot} bits to unpack '
                      f'(got {len(b)})')
    out = []
    for ty, n, order in fl:
        if ty not in 'pP':
            out.append(decode(ty, n, order, b[pos:pos+n]))
        pos += n
    return tuple(out)


def unpack(fmt, data, allow_truncated=False):
    return unpack_from(fmt, data, 0)


def unpack_from_dict(fmt, names, data, offset=0):
    return dict(zip(names, unpack_from(fmt, data, offset)))


def encode(ty, n, order, v):
    if ty in 'us':
        if isinstance(v, SymBool):
            v = v.num()
        if isinstance(v, (float, np.floating, Fraction)) or \
                (isinstance(v, SymNum) and not v.isint):
            v = S.SymIntT(v)      # bitstruct: int(value)
        if isinstance(v, (str,)):
            v = int(v)
        lo, hi = (0, (1 << n)-1) if ty == 'u' else \
            (-(1 << (n-1)), (1 << (n-1))-1)
        if not (v >= lo) or not (v <= hi):
            raise BsError(f'"{ty}{n}" requires {lo} <= integer <= {hi}')
        bits = list(reversed(twos(v, n)))
    elif ty == 'b':
        if isinstance(v, (SymNum, SymBool)):
            r = v != 0 if isinstance(v, SymNum) else v
            bits = [0]*(n-1)+[r if isinstance(r, int) else
                              S.bitexpr(r.z)]
        else:
            bits = [0]*(n-1)+[1 if v else 0]
    elif ty == 'r':
        b = SymBuf.of(v).bits
        bits = list(b[:n])
        bits += [0]*(n-len(bits))
    elif ty == 't':
        bits = SymBuf.of(v.encode()).bits
        bits = (list(bits)+[0]*n)[:n]
    else:
        raise Unsupported('pack '+ty)
    if order == '<':
        bits.reverse()
    return bits


def _fields(fmt, args):
    out = []
    it = iter(args)
    fl = parse(fmt)
    need = sum(1 for f in fl if f[0] not in 'pP')
    if len(args) < need:
        raise BsError(f'pack expected {need} item(s) for packing (got '
                      f'{len(args)})')
    for ty, n, order in fl:
        if ty == 'p':
            out.extend([0]*n)
        elif ty == 'P':
            out.extend([1]*n)
        else:
            out.extend(encode(ty, n, order, next(it)))
    return out


def pack(fmt, *args):
    b = _fields(fmt, args)
    b += [0]*((-len(b)) % 8)
    return SymBuf(b)


def pack_into(fmt, buf, offset, *args, **kw):
    fill = kw.get('fill_padding', True)
    if isinstance(offset, SymNum):
        offset = offset.__index__()
    offset = int(offset)
    b = _fields(fmt, args)
    if type(buf) is not SymBuf:
        raise Unsupported('pack_into a real bytearray')
    if offset+len(b) > len(buf.bits):
        raise BsError('pack_into requires a buffer of at least '
                      f'{offset+len(b)} bits')
    if not fill:
        pos = offset
        for ty, n, order in parse(fmt):
            if ty not in 'pP':
                buf.bits[pos:pos+n] = b[pos-offset:pos-offset+n]
            pos += n
        return
    buf.bits[offset:offset+len(b)] = b


def byteswap(fmt, data, offset=0):
    d = SymBuf.of(data)
    i = offset
    out = SymBuf(list(d.bits[:8*i]))
    for ch in fmt:
        n = int(ch)
        out = out + d[i:i+n][::-1]
        i += n
    return out


def calcsize(fmt):
    return sum(f[1] for f in parse(fmt))


Error = BsError


class CompiledFormat:
    def __init__(self, fmt, names=None):
        self.fmt = fmt
        self.names = names

    def unpack(self, data):
        return unpack(self.fmt, data)

    def unpack_from(self, data, offset=0):
        return unpack_from(self.fmt, data, offset)

    def pack(self, *a):
        return pack(self.fmt, *a)

    def pack_into(self, buf, off, *a):
        return pack_into(self.fmt, buf, off, *a)


def compile(fmt, names=None, text_encoding=None, text_errors=None):
    return CompiledFormat(fmt, names)


def install():
    """put this module in place of bitstruct and bitstruct.c"""
    import sys
    import types
    me = sys.modules[__name__]
    m = types.ModuleType('bitstruct')
    for k in ('unpack_from', 'unpack', 'unpack_from_dict', 'pack',
              'pack_into', 'byteswap', 'calcsize', 'Error', 'compile',
              'CompiledFormat'):
        setattr(m, k, getattr(me, k))
    m.__path__ = []
    c = types.ModuleType('bitstruct.c')
    c.__dict__.update({k: v for k, v in m.__dict__.items()
                       if not k.startswith('__')})
    m.c = c
    sys.modules['bitstruct'] = m
    sys.modules['bitstruct.c'] = c


class FakeStruct:
    """struct replacement (subset)"""
    error = _struct.error

    @staticmethod
    def unpack_from(fmt, data, off=0):
        if type(data) is SymBuf:
            n = _struct.calcsize(fmt)
            c = data[off:off+n].concrete()
            if c is None:
                return FakeStruct._sym(fmt, data[off:off+n])
            return _struct.unpack(fmt, c)
        return _struct.unpack_from(fmt, data, off)

    @staticmethod
    def unpack(fmt, data):
        if type(data) is SymBuf:
            c = data.concrete()
            if c is None:
                return FakeStruct._sym(fmt, data)
            return _struct.unpack(fmt, c)
        return _struct.unpack(fmt, data)

    @staticmethod
    def _sym(fmt, data):
        order = '<'
        f = fmt
        if f[0] in '<>=!@':
            order = {'<': '<', '=': '<', '@': '<', '>': '>',
                     '!': '>'}[f[0]]
            f = f[1:]
        out = []
        i = 0
        for cnt, ch in re.findall(r'(\d*)([a-zA-Z])', f):
            k = int(cnt) if cnt else 1
            if ch == 's':
                out.append(data[i:i+k])
                i += k
                continue
            for _ in range(k):
                n = _struct.calcsize('<'+ch)
                b = data[i:i+n]
                i += n
                if ch == 'x':
                    continue
                if order == '<':
                    b = b[::-1]
                if ch in 'BHILQ':
                    out.append(decode('u', 8*n, '>', b.bits))
                elif ch in 'bhilq':
                    out.append(decode('s', 8*n, '>', b.bits))
                else:
                    raise Unsupported('struct '+ch)
        return tuple(out)

    @staticmethod
    def pack(fmt, *args):
        if not any(isinstance(a, (SymNum, SymBool, SymBuf)) for a in args):
            return _struct.pack(fmt, *args)
        order = '<'
        f = fmt
        if f[0] in '<>=!@':
            order = {'<': '<', '=': '<', '@': '<', '>': '>', '!': '>'}[f[0]]
            f = f[1:]
        out = SymBuf([])
        it = iter(args)
        for cnt, ch in re.findall(r'(\d*)([a-zA-Z])', f):
            for _ in range(int(cnt) if cnt else 1):
                n = 8*_struct.calcsize('<'+ch)
                b = SymBuf(encode('u' if ch in 'BHILQ' else 's', n, '>',
                                  next(it)))
                if order == '<':
                    b = b[::-1]
                out = out+b
        return out

    calcsize = staticmethod(_struct.calcsize)

    @staticmethod
    def pack_into(fmt, buf, off, *args):
        d = SymBuf.of(FakeStruct.pack(fmt, *args))
        if type(buf) is not SymBuf:
            raise Unsupported('pack_into a real bytearray')
        if off < 0 or off+len(d) > len(buf):
            raise _struct.error('pack_into requires a larger buffer')
        buf[off:off+len(d)] = d


def s_unhexlify(x):
    import binascii
    if isinstance(x, SymHex):
        if len(x.bits) % 8:
            raise binascii.Error('Odd-length string')
        return SymBuf(list(x.bits))
    return binascii.unhexlify(x)


class SymHex:
    """hexadecimal string of symbolic digits"""

    def __init__(self, bits):
        self.bits = list(bits)

    def __len__(self):
        return len(self.bits)//4

    def __getitem__(self, k):
        if not isinstance(k, slice):
            k = slice(k, k+1 if k != -1 else None)
        d = [self.bits[i:i+4] for i in range(0, len(self.bits), 4)]
        return SymHex([b for x in d[k] for b in x])

    def __add__(self, o):
        return SymHex(self.bits+SymHex.of(o).bits)

    def __radd__(self, o):
        return SymHex(SymHex.of(o).bits+self.bits)

    @staticmethod
    def of(x):
        if isinstance(x, SymHex):
            return x
        return SymHex([int(c, 16) >> (3-i) & 1 for c in x for i in range(4)])


def s_hexlify(x, *a):
    import binascii
    if type(x) is SymBuf:
        x = x.concretize()
    return binascii.hexlify(x, *a)
