"""C04 bit copy and RTCM frame checksum"""
from engine.api import harness
from cssrlib import rtcm as RT
from cssrlib.gnss import copy_buff

BOUNDS = ['bit copy: lengths 0..300 bit (every residue modulo 32), source and '
          'destination offsets 0..40, every buffer content; source and '
          'destination distinct buffers',
          'frames of 6..64 byte payload (thorough: up to 1023), every header '
          'and payload bit symbolic, frame at offset 0..3 of the buffer',
          'the third-party CRC routine is encoded as its XOR network '
          '(checked against the library by the replayed witnesses)']
POLY = 0x1864cfb


def crc_weights(n):
    """remainders of x^(24+k), k = n-1 .. 0, modulo the CRC-24Q polynomial"""
    w = []
    r = POLY & 0xffffff
    for _ in range(n):
        w.append(r)
        r <<= 1
        if r >> 24:
            r ^= POLY
    return list(reversed(w))


def setup(ctx):
    if not ctx.symbolic:
        return
    ctx.lin = lin = {}       # bit atom id -> (constant, base bits)

    def form(b):
        if isinstance(b, int):
            return b, frozenset()
        return lin.get(b.id, (0, frozenset([b.id])))

    def xor(bits):
        """bit for the XOR of bits (kept in linear normal form)"""
        import z3
        from engine import sym as S
        c = 0
        t = frozenset()
        for b in bits:
            x, y = form(b)
            c ^= x
            t = t ^ y
        if not t:
            return c
        reg = ctx.ps.reg
        zs = [reg.atoms[i].zb for i in sorted(t)]
        r = zs[0]
        for z in zs[1:]:
            r = z3.Xor(r, z)
        a = S.bitexpr(z3.Not(r) if c else r)
        if not isinstance(a, int):
            lin[a.id] = (c, t)
        return a
    ctx.xor = xor

    class Stub:
        """CRC-24/LTE-A as a linear network over the message bits"""

        @staticmethod
        def calc(data):
            from engine import sym as S
            from engine.symbuf import SymBuf
            return S.SymNum.from_bits(crc_bits(ctx, SymBuf.of(data).bits))
    ctx.patch(RT, 'Crc24LteA', Stub)


def xor(ctx, bits):
    if ctx.symbolic:
        return ctx.xor(bits)
    r = 0
    for b in bits:
        r ^= b
    return r


def crc_bits(ctx, bits):
    """CRC-24Q of a bit list, least significant bit first"""
    w = crc_weights(len(bits))
    return [xor(ctx, [b for b, v in zip(bits, w) if v >> j & 1])
            for j in range(24)]


def rawbits(ctx, buf):
    if ctx.symbolic:
        return list(buf.bits)
    return [b >> (7-i) & 1 for b in buf for i in range(8)]


LENS = [6, 7, 8, 13, 20, 31, 64]


@harness(cases=LENS, thorough=lambda t: LENS+[127, 200, 255, 256, 400, 511,
                                              512, 1000, 1023], check_ms=60000)
def h_frame(ctx, n):
    """a frame is accepted exactly when its last 24 bits are the CRC-24Q of
    header and payload"""
    setup(ctx)
    k = ctx.choice('k', [0, 3])
    tail = ctx.choice('tail', [0, 2])
    m = ctx.msg()
    m.put(8, 0xd3)
    m.any('rsv', 6)
    m.put(10, n)
    m.any('pay', 8*n)
    err = ctx.u('err', 24)      # difference to the right CRC
    eb = list(reversed(ctx._tobits(err, 24)))
    crc = [xor(ctx, [a, b]) for a, b in zip(crc_bits(ctx, m.b), eb)]
    m.b.extend(reversed(crc))
    p = ctx.msg()
    p.any('pre', 8*k)
    m.b[:0] = p.b
    m.any('post', 8*tail)
    buf = m.buf()
    ref = rawbits(ctx, buf)
    d = RT.rtcm()
    ctx.check('sync', d.sync(buf, k))
    mx = ctx.choice('maxlen', [0, 1])
    got = d.checksum(buf, k, len(buf) if mx else 0)
    want = err == 0
    ctx.check('accepted iff CRC-24Q matches',
              ctx.or_(ctx.and_(want, got), ctx.not_(ctx.or_(want, got))))
    ctx.eq('payload length', d.len, n)
    ctx.eq('frame length', d.dlen, n+6)
    ctx.eq('buffer unchanged', rawbits(ctx, buf), ref)


@harness(cases=LENS[:5], thorough=lambda t: LENS, check_ms=30000)
def h_encode(ctx, n):
    """a frame completed by the encoder has the right CRC and is accepted;
    with any burst of up to 9 wrong bits in payload or CRC it is not"""
    setup(ctx)
    k = ctx.choice('k', [0, 3])
    e = RT.rtcme()
    d = RT.rtcm()
    m = ctx.msg()
    m.any('pre', 8*k)
    m.put(24, 0)
    m.any('pay', 8*n)
    m.any('post', 24+16)
    body = m.buf()
    buf = ctx.join(body)
    for i in range(k, k+n+3):
        buf[i] = 0
    ref = rawbits(ctx, body)
    e.set_sync(buf, k)
    e.set_len(buf, k, n)
    e.set_body(buf, body[k:], k, n+3)
    e.set_checksum(buf, k)
    out = rawbits(ctx, buf)
    ctx.eq('bytes before the frame', out[:8*k], ref[:8*k])
    ctx.eq('payload', out[8*(k+3):8*(k+3+n)], ref[8*(k+3):8*(k+3+n)])
    ctx.eq('bytes behind the frame', out[8*(k+n+6):], ref[8*(k+n+6):])
    hd = 0xd30000 | n
    ctx.eq('header', out[8*k:8*k+24], [hd >> (23-i) & 1 for i in range(24)])
    ctx.eq('encoder CRC is CRC-24Q', out[8*(k+n+3):8*(k+n+6)],
           list(reversed(crc_bits(ctx, out[8*k:8*(k+n+3)]))))
    ctx.check('valid frame accepted', d.checksum(buf, k))
    tot = 8*(n+6)
    pos = 4*ctx.concrete(ctx.int('pos', 6, tot//4-3))
    err = ctx.u('err', 12)
    ctx.assume(err != 0)
    eb = ctx._tobits(err, 12)
    bits = list(out)
    for i in range(12):
        bits[8*k+pos+i] = xor(ctx, [bits[8*k+pos+i], eb[i]])
    bad = ctx._mkbuf(bits)
    ctx.check('burst error rejected', ctx.not_(d.checksum(bad, k)))


@harness(cases=[6, 9, 20])
def h_short(ctx, n):
    """a frame of which the end is missing is never accepted"""
    setup(ctx)
    k = ctx.choice('k', [0, 3])
    have = ctx.int('have', 3, n+5)
    have = ctx.concrete(have)
    m = ctx.msg()
    m.any('pre', 8*k)
    m.put(8, 0xd3)
    m.any('rsv', 6)
    m.put(10, n)
    m.any('pay', 8*(have-3))
    buf = m.buf()
    d = RT.rtcm()
    for mx in (0, len(buf)):
        ctx.check('incomplete frame rejected',
                  ctx.not_(d.checksum(buf, k, mx)))
    # bytes behind maxlen are left over from something else
    m.any('old', 8*(n+6-have))
    buf = m.buf()
    ctx.check('frame beyond the received bytes rejected',
              ctx.not_(d.checksum(buf, k, k+have)))


def copy_cases(tier):
    if tier == 'thorough':
        return list(range(304))
    return list(range(0, 70))+[95, 96, 97, 112, 127, 128, 222, 256, 300]


@harness(cases=copy_cases('quick'), thorough=copy_cases, max_paths=4000)
def h_copy(ctx, case):
    """exactly the requested bits move to exactly the requested place"""
    n = case
    offs = [0, 1, 5, 8, 13, 31, 32, 40]
    a = ctx.choice('os', offs)
    b = ctx.choice('od', [0, 2, 7, 8, 33])
    src = ctx.bytes('src', (a+n+7)//8+5)
    dst = ctx.bytes('dst', (b+n+7)//8+5)
    s0, d0 = rawbits(ctx, src), rawbits(ctx, dst)
    copy_buff(src, dst, a, b, n)
    s1, d1 = rawbits(ctx, src), rawbits(ctx, dst)
    want = d0[:b]+s0[a:a+n]+d0[b+n:]
    if ctx.symbolic:
        from engine.symbuf import SymBuf
        ctx.check('copied', SymBuf(d1) == SymBuf(want))
        ctx.check('source', SymBuf(s1) == SymBuf(s0))
    else:
        ctx.check('copied', d1 == want)
        ctx.check('source', s1 == s0)
