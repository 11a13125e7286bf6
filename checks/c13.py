"""C13 assembly of the L6 data parts"""
from engine.api import harness
from checks.csslib import decoder

BOUNDS = ['one subframe of up to 6 frames (thorough 8); any sequence of 3 '
          'frames (thorough 4); every payload bit symbolic, header fields from the listed values (vendor CLAS and '
          'one other, both patterns, the four facility codes, valid and '
          'broken preamble)', 'message offset 0 and 3 bytes; the Reed-Solomon '
          'part of the frame is not looked at']
NB = 250
DATA = 1695


def frame(ctx, p, vendor, fac, pt, sid, ok=True, ofst=0):
    m = ctx.msg()
    m.any(p+'pre', 8*ofst) if ofst else None
    m.put(32, 0x1acffc1d if ok else 0x1acffc1c)
    m.any(p+'prn', 8)
    m.put(3, vendor)
    m.put(2, fac)
    m.put(2, pt)
    m.put(1, sid)
    m.any(p+'alert', 1)
    a = len(m)
    m.any(p+'d', DATA)
    data = m.b[a:]
    m.any(p+'rs', 8*(NB+ofst)-len(m))
    return m.buf(), data


def bits(buf):
    if hasattr(buf, 'bits'):
        return list(buf.bits)
    n = 8*len(buf)
    v = int.from_bytes(bytes(buf), 'big')
    return [int(c) for c in format(v, f'0{n}b')]


def content(ctx, cs, buf, parts, label):
    """the buffer holds the parts in order, zero after them"""
    got = bits(buf)
    want = [x for d in parts for x in d]
    ctx.eq(label+': size', len(got), NB*80)
    ctx.check(label+': payload', got[:len(want)] == want)
    ctx.check(label+': rest', got[len(want):] == [0]*(NB*80-len(want)))


@harness(cases=[[n, o] for n in (1, 3, 5, 6) for o in (0, 3)],
         thorough=lambda t: [[n, o] for n in range(1, 9) for o in (0, 3)],
         witnesses=1)
def h_subframe(ctx, case):
    """consecutive frames of one subframe are concatenated in order"""
    n, o = case
    cs = decoder()
    v, f, pt = ctx.choice('head', [(5, 0, 0), (5, 3, 1), (2, 1, 0)])
    parts = []
    for k in range(n):
        b, d = frame(ctx, f'f{k}', v, f, pt, int(k == 0), True, o)
        cs.decode_l6msg(b, o)
        parts.append(d)
        ctx.eq('count', cs.fcnt, k+1)
    content(ctx, cs, cs.buff, parts, 'buffer')


FRAMES = [(5, 0, 0, 1, 1), (5, 0, 0, 0, 1), (5, 1, 0, 1, 1),
          (5, 1, 0, 0, 1), (5, 0, 1, 0, 1), (5, 0, 0, 0, 0),
          (5, 2, 1, 1, 1), (2, 0, 0, 0, 1)]
# every facility code under both patterns
CODES = [(5, f, pt, 0, 1) for pt in (0, 1) for f in range(4)]
# facility of the CLAS message: table 4.1.2-2 (pattern, code)
FAC = {(0, 0): 0, (0, 1): 2, (0, 2): 1, (0, 3): 3,
       (1, 0): 2, (1, 1): 0, (1, 2): 3, (1, 3): 1}


def sequence(ctx, idx):
    cs = decoder()
    run = None         # data parts since the last head, same facility
    fac = None
    prev = None
    for k, i in enumerate(idx):
        v, f, pt, sid, ok = FRAMES[i] if isinstance(i, int) else i
        b, d = frame(ctx, f'f{k}', v, f, pt, sid, bool(ok))
        before = cs.fcnt
        r = cs.decode_l6msg(b, 0)
        if not ok:
            ctx.check('broken preamble', r == -1 and cs.fcnt == before)
            continue
        fc = FAC[pt, f] if v == 5 else f
        change = fac is not None and fc != fac
        fac = fc
        if sid:
            if before > 0:
                content(ctx, cs, cs.buff_p, run, 'previous')
            run = [d]
        elif change:
            run = None
        elif run is not None:
            run = run+[d]
        if run is None:
            ctx.check('partial frame dropped', r == -1 and cs.fcnt <= 0)
        elif cs.fcnt > 0:
            ctx.eq('count', cs.fcnt, len(run))
            content(ctx, cs, cs.buff, run, 'buffer')
        else:
            # only the head of another facility may be skipped
            ctx.check('kept', change or prev == 'skip')
            run = None
        prev = 'skip' if run is None else None


@harness(cases=[[a, b, 0] for a in range(8) for b in range(8)], witnesses=1,
         thorough=lambda t: [[a, b, 1] for a in range(8) for b in range(8)])
def h_sequence(ctx, case):
    """any sequence of frames: nothing but consecutive parts of one subframe
    of one facility is ever assembled"""
    c = ctx.choice('f2', range(8))
    d = [ctx.choice('f3', range(8))] if case[2] else []
    sequence(ctx, [*case[:2], c, *d])


@harness(cases=[[pt, f] for pt in (0, 1) for f in range(4)], witnesses=1)
def h_facility(ctx, case):
    """a frame continues the subframe exactly when it is from the same
    facility, also across the two transmission patterns"""
    pt, f = case
    c = ctx.choice('next', CODES)
    sequence(ctx, [(5, f, pt, 1, 1), tuple(c), (5, f, pt, 0, 1)])


@harness(cases=[1, 2, 5], witnesses=1)
def h_overrun(ctx, case):
    """without subframe heads the buffer never overflows; the next head
    starts a clean subframe"""
    cs = decoder()
    b, d = frame(ctx, 'h', 5, 0, 0, 1)
    cs.decode_l6msg(b, 0)
    z = bytearray(NB)
    z[0:7] = bytes([0x1a, 0xcf, 0xfc, 0x1d, 199, 0xa0, 0])
    b0 = ctx._mkbuf([(z[i//8] >> (7-i % 8)) & 1 for i in range(8*NB)])
    for k in range(12+case):
        cs.decode_l6msg(b0, 0)
    ctx.eq('size', len(cs.buff), NB*10)
    b, d = frame(ctx, 'n', 5, 0, 0, 1)
    cs.decode_l6msg(b, 0)
    ctx.eq('count', cs.fcnt, 1)
    content(ctx, cs, cs.buff, [d], 'buffer')
