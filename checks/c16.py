"""C16 collection of HAS pages (E6 C/NAV)"""
import itertools
import numpy as np
from engine.api import harness

BOUNDS = ['messages of 1..3 pages (thorough 5) with all 53 bytes of every page'
          ' symbolic; 8 and 32 pages with two symbolic bytes per page',
          'sequences of up to 5 pages, one or several per epoch, drawn from '
          'two messages, duplicates, dummy pages, pages of unusable service '
          'status; sequences stay below the time-out of the collector (2k '
          'epochs); message identifiers not reused within ten messages',
          'page identifiers 1..k and 33..255 (those the service transmits)',
          'third-party package galois replaced by its definition (GF(256) '
          'matrix product and inverse); the replayed witnesses use the '
          'package']
EXP = [0]*510
LOG = [0]*256
_x = 1
for _i in range(255):
    EXP[_i] = EXP[_i+255] = _x
    LOG[_x] = _i
    _x <<= 1
    if _x & 256:
        _x ^= 0x11d


def mul(a, b):
    return EXP[LOG[a]+LOG[b]] if a and b else 0


def generator():
    """systematic RS(255,32) generator matrix: row = code symbol"""
    g = [1]
    for i in range(1, 224):
        n = [0]*(len(g)+1)
        for j, c in enumerate(g):
            n[j] ^= c
            n[j+1] ^= mul(c, EXP[i])
        g = n
    G = np.zeros((255, 32), dtype=np.uint8)
    for k in range(32):
        G[k, k] = 1
        # remainder of x^(254-k) modulo g
        r = [0]*224
        r[0] = 1                    # x^223 after the shift below
        rem = [c for c in g[1:]]
        for _ in range(31-k):
            f = rem[0]
            rem = [a ^ mul(f, b) for a, b in zip(rem[1:]+[0], g[1:])]
        for j in range(223):
            G[32+j, k] = rem[j]
    return G


G = generator()


class Message:
    """a message of k pages; symbolic bytes in the given columns"""

    def __init__(self, ctx, name, mid, k, cols=range(53)):
        self.ctx, self.mid, self.k = ctx, mid, k
        self.bits = [[0]*424 for _ in range(k)]
        for p in range(k):
            for c in cols:
                self.bits[p][8*c:8*c+8] = ctx.rawbits(f'{name}.{p}.{c}', 8)

    def page(self, pid):
        """encoded page pid 1..255"""
        out = []
        row = G[pid-1]
        for c in range(53):
            acc = [[] for _ in range(8)]
            for p in range(self.k):
                g = int(row[p])
                b = self.bits[p][8*c:8*c+8][::-1]       # LSB first
                for i in range(8):
                    q = mul(g, 1 << i)
                    for t in range(8):
                        if q >> t & 1:
                            acc[t].append(b[i])
            out += [self.ctx.xorbits(a) for a in acc][::-1]
        return out


def cnav(ctx, name, bits, mid, k, pid, hass=1, dummy=False, mt=1):
    m = ctx.msg()
    m.any(name+'a', 14)
    if dummy:
        m.put(24, 0xaf3bc3)
    else:
        m.put(2, hass)
        m.put(2, 0)
        m.put(2, mt)
        m.put(5, mid)
        m.put(5, k-1)
        m.put(8, pid)
    m.b.extend(bits)
    m.any(name+'z', 496-len(m))
    return dict(nav=ctx.hex(m.b))


def collector():
    from cssrlib.cssr_has import cnav_msg
    cn = cnav_msg()
    cn.gMat = G.copy()
    return cn


def content(ctx, got, msg):
    ctx.check('delivered', got is not None)
    if got is None:
        return
    n = msg.k*424
    if ctx.symbolic:
        from engine.symbuf import SymBuf
        b = list(SymBuf.of(got).bits)
    else:
        b = [x >> (7-i) & 1 for x in got for i in range(8)]
    ctx.check('size', len(b) >= n)
    want = [x for p in msg.bits for x in p]
    ctx.check('content', same(ctx, b[:n], want))
    ctx.check('no extra data', all(isinstance(x, int) and x == 0
                                   for x in b[n:]))


def same(ctx, a, b):
    """equality of bit lists in linear normal form"""
    if not ctx.symbolic:
        return a == b
    from engine.gf import form
    from engine.sym import SymNum
    d = [ctx.xorbits([x, y]) for x, y in zip(a, b) if form(x) != form(y)]
    if not d:
        return True
    return ctx.and_(*[SymNum.from_bits([x]) == 0 for x in d])


PIDS = {1: [1, 33, 255], 2: [1, 2, 40, 255], 3: [2, 3, 90, 254],
        4: [1, 4, 77, 200, 255], 5: [5, 1, 33, 128, 255, 254]}


def subsets(k):
    return [list(c) for c in itertools.permutations(PIDS[k], k)]


@harness(cases=[[k, o] for k in (1, 2, 3) for o in range(3)],
         thorough=lambda t: [[k, o] for k in (4, 5) for o in range(3)],
         witnesses=2)
def h_recover(ctx, case):
    """any k distinct pages in any order, in one or several epochs"""
    k, how = case
    ss = subsets(k)
    if len(ss) > 24:
        ss = ss[::len(ss)//24]
    pids = ctx.choice('pids', ss)
    a = Message(ctx, 'a', ctx.choice('mid', [0, 31]), k)
    cn = collector()
    pg = [cnav(ctx, f'p{i}', a.page(p), a.mid, k, p)
          for i, p in enumerate(pids)]
    r = None
    if how == 0:
        r = cn.decode_cnav(0, pg)
    elif how == 1:
        for i, p in enumerate(pg):
            ctx.check('not early', r is None)
            r = cn.decode_cnav(i, [p])
    else:
        # more pages than needed in the last epoch
        if k > 1:
            r = cn.decode_cnav(0, pg[:k-1])
            ctx.check('not early', r is None)
        e = [p for p in PIDS[k] if p not in pids]
        r = cn.decode_cnav(1, pg[k-1:]+[
            cnav(ctx, f'e{p}', a.page(p), a.mid, k, p) for p in e])
    content(ctx, r, a)
    ctx.eq('message type', cn.msgtype, 1)
    ctx.check('once', cn.decode_cnav(9, []) is None)


@harness(cases=[[8, 8], [8, 11], [32, 32], [31, 36], [32, 40]], witnesses=1,
         budget=120)
def h_large(ctx, case):
    """large messages, also when more pages than needed arrive at once"""
    k, n = case
    a = Message(ctx, 'a', 5, k, [0, 52])
    cn = collector()
    base = ctx.choice('base', [1, 30, 200])
    ids = list(range(1, k+1))+list(range(33, 256))
    pids = [ids[(base-1+5*i) % len(ids)] for i in range(n)]
    half = k-1
    pg = [cnav(ctx, f'p{i}', a.page(p), 5, k, p) for i, p in enumerate(pids)]
    r = cn.decode_cnav(0, pg[:half])
    ctx.check('not early', r is None)
    content(ctx, cn.decode_cnav(1, pg[half:]), a)


EV = ['a1', 'a2', 'a3', 'b1', 'b2', 'dummy', 'dnu', 'pid0']


def run(ctx, epochs):
    """reference collector: the first message seen is completed first"""
    a = Message(ctx, 'a', 7, 2, [3])
    b = Message(ctx, 'b', 8, 2, [3])
    by = {7: a, 8: b}
    pid = {'1': 1, '2': 60, '3': 255}
    cn = collector()
    cur, rec, done = None, set(), []
    n = 0
    for t, ev in enumerate(epochs):
        vi = []
        for e in ev:
            n += 1
            if e == 'dummy':
                vi.append(cnav(ctx, f'n{n}', [0]*424, 0, 1, 1, dummy=True))
                continue
            if e == 'dnu':
                z = ctx.rawbits(f'n{n}d', 8)*53
                vi.append(cnav(ctx, f'n{n}', z, 7, 2, 60,
                               ctx.choice(f'n{n}h', [2, 3])))
                continue
            if e == 'pid0':
                z = ctx.rawbits(f'n{n}d', 8)*53
                vi.append(cnav(ctx, f'n{n}', z, 7, 2, 0))
                continue
            m = a if e[0] == 'a' else b
            p = pid[e[1]]
            vi.append(cnav(ctx, f'n{n}', m.page(p), m.mid, 2, p))
            if cur is None and m.mid not in done:
                cur = m.mid
            if m.mid == cur:
                rec.add(p)
        r = cn.decode_cnav(t, vi)
        if cur is not None and len(rec) >= 2:
            content(ctx, r, by[cur])
            done.append(cur)
            cur, rec = None, set()
        else:
            ctx.check('nothing delivered', r is None)


@harness(cases=[[x, y] for x in EV for y in EV], witnesses=1)
def h_sequence(ctx, case):
    """one page per epoch"""
    ev = list(case)
    for i in range(2):
        ev.append(ctx.choice(f'e{i}', EV[:5]+EV[7:]))
    run(ctx, [[e] for e in ev])


@harness(cases=[[x, y] for x in EV for y in EV[:5]], witnesses=1)
def h_epochs(ctx, case):
    """several pages per epoch"""
    sp = ctx.choice('split', [(1, 3), (2, 4), (3, 4), (4, 4)])
    ev = list(case)
    for i in range(2):
        ev.append(ctx.choice(f'e{i}', EV[:4]))
    run(ctx, [ev[:sp[0]], ev[sp[0]:sp[1]], ev[sp[1]:]])


@harness(cases=[3, 12, 40], witnesses=1)
def h_idle(ctx, n):
    """any number of epochs without pages, or an earlier message, does not
    delay the next message"""
    cn = collector()
    first = ctx.choice('first', [0, 1])
    if first:
        b = Message(ctx, 'b', 8, 2, [3])
        cn.decode_cnav(0, [cnav(ctx, 'b1', b.page(1), 8, 2, 1)])
        for i in range(3):
            cn.decode_cnav(0, [])
        content(ctx, cn.decode_cnav(
            0, [cnav(ctx, 'b2', b.page(90), 8, 2, 90)]), b)
    for i in range(n):
        ctx.check('nothing', cn.decode_cnav(i, []) is None)
    a = Message(ctx, 'a', 7, 2, [3])
    gap = ctx.choice('gap', [0, 1, 2])
    ctx.check('not early', cn.decode_cnav(
        n, [cnav(ctx, 'p1', a.page(1), 7, 2, 1)]) is None)
    for i in range(gap):
        ctx.check('nothing', cn.decode_cnav(n+i, []) is None)
    content(ctx, cn.decode_cnav(
        n+9, [cnav(ctx, 'p2', a.page(200), 7, 2, 200)]), a)
