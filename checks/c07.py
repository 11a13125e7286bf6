"""C07 RTCM MSM decoding against an independent description"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib import rtcm as RT
from cssrlib.gnss import gpst2time, prn2sat, uTYP, uGNSS
from checks.rtcmlib import SYS, WEEK

BOUNDS = ['2 satellites x 2 signals with every cell mask (thorough: 2 x 3), '
          'any field value; reserved patterns one field at a time',
          'MSM1-7 of GPS, GLONASS, Galileo, SBAS, QZSS, BeiDou',
          'two consecutive messages for lock time',
          'epochs within week 2400 of the time system of the message',
          'signals not assigned in 10403.3 and GLONASS signals above 9, '
          'Doppler (not delivered by the decoder) outside']
C0 = 299792458
BASE = dict(G=1071, R=1081, E=1091, S=1101, J=1111, C=1121)
OFS = dict(G=1, R=1, E=1, S=120, J=193, C=1)
NPRN = dict(G=32, R=24, E=36, S=39, J=10, C=63)
L1, L2, L5 = 1575420000, 1227600000, 1176450000
SIG = dict(
    G={2: '1C', 3: '1P', 4: '1W', 8: '2C', 9: '2P', 10: '2W', 15: '2S',
       16: '2L', 17: '2X', 22: '5I', 23: '5Q', 24: '5X', 30: '1S', 31: '1L',
       32: '1X'},
    R={2: '1C', 3: '1P', 8: '2C', 9: '2P'},
    E={2: '1C', 3: '1A', 4: '1B', 5: '1X', 6: '1Z', 8: '6C', 9: '6A',
       10: '6B', 11: '6X', 12: '6Z', 14: '7I', 15: '7Q', 16: '7X', 18: '8I',
       19: '8Q', 20: '8X', 22: '5I', 23: '5Q', 24: '5X'},
    S={2: '1C', 22: '5I', 23: '5Q', 24: '5X'},
    J={2: '1C', 9: '6S', 10: '6L', 11: '6X', 15: '2S', 16: '2L', 17: '2X',
       22: '5I', 23: '5Q', 24: '5X', 30: '1S', 31: '1L', 32: '1X'},
    C={2: '2I', 3: '2Q', 4: '2X', 8: '6I', 9: '6Q', 10: '6X', 14: '7I',
       15: '7Q', 16: '7X', 22: '5D', 23: '5P', 24: '5X', 25: '7D', 30: '1D',
       31: '1P', 32: '1X'})
FREQ = dict(G={1: L1, 2: L2, 5: L5}, S={1: L1, 5: L5},
            E={1: L1, 5: L5, 6: 1278750000, 7: 1207140000, 8: 1191795000},
            J={1: L1, 2: L2, 5: L5, 6: 1278750000},
            C={1: L1, 2: 1561098000, 5: L5, 6: 1268520000, 7: 1207140000})


def freq(s, sig, ch=None):
    b = int(SIG[s][sig][0])
    if s == 'R':
        if ch is None:
            return None
        return {1: 1602000000+562500*ch, 2: 1246000000+437500*ch}[b]
    return FREQ[s][b]


class Msm:
    def __init__(self, ctx, s, msm, prns, sigs, cells, epoch=None, ext=None,
                 nan=None, p='', lock=None):
        """cells: list per satellite of lists of 0/1 (may be symbolic)"""
        m = self.m = ctx.msg()
        self.s, self.msm, self.prns, self.sigs = s, msm, prns, sigs
        m.put(24, 0)
        m.put(12, BASE[s]+msm-1)
        self.refid = m.u(p+'refid', 12)
        m.put(30, 1000 if epoch is None else epoch)
        self.mi = m.u(p+'mi', 1)
        m.any(p+'iods', 3+7)
        m.any(p+'clk', 8)
        sm = 0
        for k in prns:
            sm |= 1 << (64-(k-OFS[s]+1))
        m.put(64, sm)
        gm = 0
        for k in sigs:
            gm |= 1 << (32-k)
        m.put(32, gm)
        self.cells = cells
        for row in cells:
            for c in row:
                m.put(1, c)
        ns = len(prns)
        cl = self.cl = [(k, j) for k in range(ns) for j in range(len(sigs))
                        if cells[k][j]]

        def fld(name, n):
            if lock is not None:
                return m.put(n, 77)
            v = m.s(p+name, n)
            if nan == name:
                ctx.assume(v == -(1 << (n-1)))
                return None
            ctx.assume(v != -(1 << (n-1)))
            return v
        self.rough, self.ex = [], [None]*ns
        if msm >= 4:
            ip = []
            for k in range(ns):
                v = m.u(f'{p}int{k}', 8, 70 if lock is not None else None)
                ctx.assume(v == 255 if nan == f'int{k}' else v != 255)
                ip.append(None if nan == f'int{k}' else v)
            if msm in (5, 7):
                for k in range(ns):
                    if ext is not None:
                        self.ex[k] = m.put(4, ext)
                    else:
                        self.ex[k] = m.u(f'{p}ex{k}', 4)
            for k in range(ns):
                v = m.u(f'{p}mod{k}', 10)
                self.rough.append(None if ip[k] is None else
                                  ip[k]+v*F(1, 1024))
            if msm in (5, 7):
                for k in range(ns):
                    fld(f'rr{k}', 14)
        else:
            for k in range(ns):
                self.rough.append(m.u(f'{p}mod{k}', 10)*F(1, 1024))
        self.pr, self.cp, self.lk, self.hf, self.cn = {}, {}, {}, {}, {}
        hi = msm > 5
        if msm != 2:
            for k, j in cl:
                v = fld(f'pr{k}.{j}', 20 if hi else 15)
                self.pr[k, j] = None if v is None else \
                    v*F(1, 1 << (29 if hi else 24))
        if msm > 1:
            for k, j in cl:
                v = fld(f'cp{k}.{j}', 24 if hi else 22)
                self.cp[k, j] = None if v is None else \
                    v*F(1, 1 << (31 if hi else 29))
            for k, j in cl:
                if lock is None or (k, j) in lock:
                    self.lk[k, j] = m.u(f'{p}lk{k}.{j}', 10 if hi else 4)
                else:
                    self.lk[k, j] = m.put(10 if hi else 4, 5)
            for k, j in cl:
                if lock is not None and (k, j) in lock and \
                        ((k, j) == (0, 0) or p == 'b.'):
                    self.hf[k, j] = m.u(f'{p}hf{k}.{j}', 1)
                else:
                    self.hf[k, j] = m.put(1, 0)
        if msm > 3:
            for k, j in cl:
                self.cn[k, j] = m.u(f'{p}cn{k}.{j}', 10 if hi else 6) * \
                    (F(1, 16) if hi else 1)
        if msm in (5, 7):
            for k, j in cl:
                fld(f'dp{k}.{j}', 15)
        m.pad(64)


def mk():
    cs = RT.rtcm()
    cs.monlevel = 0
    cs.week = WEEK
    return cs


def verify(ctx, o, m, ch=None):
    """ch: GLONASS channel of every satellite, None = unknown"""
    ns, ng = len(m.prns), len(m.sigs)
    ctx.eq('sat', [int(x) for x in o.sat],
           [prn2sat(SYS[m.s], k) for k in m.prns])
    for t, c in ((uTYP.C, 'C'), (uTYP.L, 'L'), (uTYP.S, 'S')):
        ctx.eq('sig', [x.str() for x in o.sig[SYS[m.s]][t]],
               [c+SIG[m.s][j] for j in m.sigs])
    ctx.eq('shape', list(o.P.shape)+list(o.L.shape), [ns, ng]*2)
    for k in range(ns):
        for j in range(ng):
            P, L, S = o.P[k, j], o.L[k, j], o.S[k, j]
            if (k, j) not in m.cl:
                ctx.eq('absent', [P, L, S, o.lli[k, j]], [0, 0, 0, 0])
                continue
            r = m.rough[k]
            pr, cp = m.pr.get((k, j)), m.cp.get((k, j))
            if r is None or pr is None:
                ctx.nan('P invalid', P)
            else:
                ctx.close('P', P, (r+pr)*F(C0, 1000), F(1, 10**6))
            f = freq(m.s, m.sigs[j], ch)
            if r is None or cp is None or f is None:
                ctx.nan('L invalid', L)
            else:
                ctx.close('L', L, (r+cp)*F(f, 1000), F(1, 10**5))
            if m.msm > 3:
                ctx.close('S', S, m.cn[k, j], F(1, 10**9))


def sel(s):
    sg = sorted(SIG[s])
    return [sg[0], sg[-1]]


@harness(cases=[[s, n] for s in BASE for n in range(1, 8)],
         thorough=lambda t: [[s, n, 3] for s in BASE for n in range(1, 8)])
def h_cells(ctx, case):
    """every cell mask, all values"""
    s, n = case[:2]
    sg = sorted(SIG[s])
    sg = [sg[0], sg[-1]] if len(case) == 2 else [sg[0], sg[1], sg[-1]]
    pr = [OFS[s]+1, OFS[s]+NPRN[s]-1]
    cm = [[ctx.concrete(ctx.int(f'c{k}{j}', 0, 1)) for j in range(len(sg))]
          for k in range(2)]
    ch = -7+9 if s == 'R' and n in (5, 7) else None
    m = Msm(ctx, s, n, pr, sg, cm, ext=9 if s == 'R' else None)
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    ctx.eq('end', i, len(m.m)-64)
    ctx.eq('refid', cs.refid, m.refid)
    ctx.eq('mi', ctx.num(cs.mi), m.mi)
    verify(ctx, o, m, ch)


@harness(cases=[[s, n, f] for s in 'GE' for n in range(1, 8)
                for f in ('int1', 'pr0.1', 'cp1.0')
                if not (f == 'int1' and n < 4 or f[:2] == 'pr' and n == 2 or
                        f[:2] == 'cp' and n == 1)])
def h_invalid(ctx, case):
    """the reserved pattern in one field: only its observation is invalid"""
    s, n, f = case
    m = Msm(ctx, s, n, [OFS[s]+1, OFS[s]+3], sel(s), [[1, 1], [1, 1]],
            nan=f, ext=None)
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    verify(ctx, o, m)


@harness(cases=list(BASE), budget=120)
def h_ids(ctx, case):
    """every satellite of the mask"""
    s = case
    k = ctx.choice('prn', range(OFS[s], OFS[s]+NPRN[s]))
    m = Msm(ctx, s, 7, [k], [2], [[1]], ext=7)
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    verify(ctx, o, m, 0)


@harness(cases=[[s, n] for s in BASE for n in (4, 7)], budget=120)
def h_signals(ctx, case):
    """every signal of the mask (code, frequency)"""
    s, n = case
    g = ctx.choice('sig', sorted(SIG[s]))
    m = Msm(ctx, s, n, [OFS[s]], [g], [[1]], ext=7)
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    verify(ctx, o, m, 0 if n == 7 else None)


@harness(cases=[5, 7], budget=120)
def h_channel(ctx, case):
    """every GLONASS channel, and unknown channel"""
    e = ctx.choice('ext', range(16))
    m = Msm(ctx, 'R', case, [3], [2, 8], [[1, 1]], ext=e)
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    verify(ctx, o, m, e-7 if e <= 13 else None)


@harness(cases=[[s, 7] for s in BASE]+[['G', 3], ['E', 4], ['C', 5]])
def h_lock(ctx, case):
    """loss of lock between two messages of possibly different cells"""
    s, n = case
    sg = sel(s)
    a, b = OFS[s]+1, OFS[s]+3
    c2 = ctx.choice('c2', [0, 1])
    ch = ctx.choice('second', [0, 1])
    m1 = Msm(ctx, s, n, [a, b], sg, [[1, 1], [c2, 1]], p='a.', ext=7,
             lock=[(0, 0), (1, 1)])
    # second message: same masks, or one satellite with one signal
    if ch == 0:
        m2 = Msm(ctx, s, n, [a, b], sg, [[1, 1], [1, 1]], p='b.', ext=7,
                 lock=[(0, 0), (1, 1)])
    else:
        m2 = Msm(ctx, s, n, [b], sg[1:], [[1]], p='b.', ext=7, lock=[(0, 0)])
    cs = mk()
    _, o1, *_ = cs.decode(m1.m.buf())
    for k, j in m1.cl:
        ctx.eq('first', o1.lli[k, j], m1.hf[k, j]*3)
    _, o2, *_ = cs.decode(m2.m.buf())
    for k, j in m2.cl:
        prev = [v for (k1, j1), v in m1.lk.items()
                if m1.prns[k1] == m2.prns[k] and m1.sigs[j1] == m2.sigs[j]]
        x = o2.lli[k, j]
        h = m2.hf[k, j]
        if prev:
            slip = m2.lk[k, j] < prev[0]
        else:
            slip = False
        ctx.check('lli', ctx.and_(
            ctx.implies(h == 1, x == 3),
            ctx.implies(ctx.and_(h == 0, slip), x == 1),
            ctx.implies(ctx.and_(h == 0, ctx.not_(slip)), x == 0)))


@harness(cases=[['G', 7], ['R', 5], ['E', 4], ['C', 3], ['J', 6]])
def h_lockgap(ctx, case):
    """loss of lock after a gap: every earlier message counts, whatever
    satellites and signals the message in between has"""
    s, n = case
    sg = sel(s)
    a, b = OFS[s]+1, OFS[s]+3
    mid = ctx.choice('mid', [[[1, 0], [0, 0]], [[0, 0], [1, 1]],
                             [[0, 1], [1, 0]], [[1, 1], [1, 1]], None])
    m1 = Msm(ctx, s, n, [a, b], sg, [[1, 1], [1, 0]], p='a.', ext=7,
             lock=[(0, 0), (0, 1)])
    if mid is None:
        m2 = Msm(ctx, s, n, [b], sg[:1], [[1]], p='m.', ext=7, lock=[(0, 0)])
    else:
        m2 = Msm(ctx, s, n, [a, b], sg, mid, p='m.', ext=7,
                 lock=[(0, 0), (0, 1)])
    m3 = Msm(ctx, s, n, [a, b], sg, [[1, 1], [0, 0]], p='c.', ext=7,
             lock=[(0, 0), (0, 1)])
    ctx.assume(m1.hf[0, 0] == 0)
    if (0, 0) in m2.hf:
        ctx.assume(m2.hf[0, 0] == 0)
    ctx.assume(m3.hf[0, 0] == 0)
    cs = mk()
    for m in (m1, m2):
        cs.decode(m.m.buf())
    _, o, *_ = cs.decode(m3.m.buf())
    for k, j in m3.cl:
        prev = [v for m in (m1, m2) for (k1, j1), v in m.lk.items()
                if m.prns[k1] == m3.prns[k] and m.sigs[j1] == m3.sigs[j]]
        slip = m3.lk[k, j] < prev[-1]
        x = o.lli[k, j]
        ctx.check('lli', ctx.and_(ctx.implies(slip, x == 1),
                                  ctx.implies(ctx.not_(slip), x == 0)))


@harness(cases=list(BASE))
def h_epoch(ctx, case):
    """epoch of the observations, in GPS time"""
    s = case
    if s == 'R':
        dow = ctx.int('dow', 0, 6)
        tod = ctx.int('tod', 0, 86400999)
        ep = dow*(1 << 27)+tod
        ms = dow*86400000+tod-10800000+18000
    else:
        ep = ctx.int('tow', 0, 604799999)
        ms = ep+14000 if s == 'C' else ep
    m = Msm(ctx, s, 7, [OFS[s]], [2], [[1]], epoch=ep, ext=7)
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    t = o.time
    ctx.close('epoch', t.time-gpst2time(WEEK, 0).time+t.sec, ms*F(1, 1000),
              F(1, 10**5))
    ctx.check('frac', ctx.and_(t.sec >= 0, t.sec <= 1))


@harness()
def h_toomany(ctx, case):
    """more than 64 satellite/signal pairs: no observation"""
    ns = ctx.choice('ns', [13, 17, 33])
    ng = 5 if ns == 13 else 4
    m = Msm(ctx, 'C', 4, list(range(1, ns+1)), [2, 8, 14, 22, 30][:ng],
            [[0]*ng]*ns)
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    ctx.check('rejected', o is None)


@harness(cases=[[s, n] for s in 'GC' for n in (4, 5, 7)])
def h_full(ctx, case):
    """64 cells (16 satellites x 4 signals)"""
    s, n = case
    sg = sorted(SIG[s])[:4]
    m = Msm(ctx, s, n, [2*k+1 for k in range(16)], sg,
            [[(k+j) % 5 != 0 for j in range(4)] for k in range(16)])
    cs = mk()
    i, o, *_ = cs.decode(m.m.buf())
    ctx.eq('end', i, len(m.m)-64)
    verify(ctx, o, m)
