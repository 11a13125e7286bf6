"""C17 BeiDou PPP-B2b messages"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib.cssrlib import sCType
from cssrlib.gnss import uGNSS, prn2sat, gpst2time, uTYP
from checks.c10 import codes, find
from checks.c15 import eqnan
from checks.c12 import usable

BOUNDS = ['masks of up to 26 satellites, message types 1-7; up to two '
          'satellites with code biases, three messages in sequence',
          'all field values, reserved patterns in one field at a time; '
          'reserved signal numbers and mask positions beyond the satellite '
          'numbers of a system (GPS 33-37) are outside',
          'the start position of message type 6 counts the satellites of the '
          'mask from 0 as the code does']
WEEK = 900                       # BDS week
DAY = 2*86400
ORB = [(15, F(16, 10000)), (13, F(64, 10000)), (13, F(64, 10000))]
CLK = (15, F(16, 10000))
CB = (12, F(17, 1000))
SLOT = dict(C=0, G=63, E=100, R=137)
NS = dict(C=63, G=37, E=37, R=37)
ID = dict(C=uGNSS.BDS, G=uGNSS.GPS, E=uGNSS.GAL, R=uGNSS.GLO)
SIG = dict(
    C={0: '2I', 1: '1D', 2: '1P', 4: '5D', 5: '5P', 7: '7D', 8: '7P',
       12: '6I'},
    G={0: '1C', 1: '1P', 4: '1L', 5: '1X', 7: '2L', 8: '2X', 11: '5I',
       12: '5Q', 13: '5X'},
    R={0: '1C', 1: '1P', 2: '2C'},
    E={1: '1B', 2: '1C', 4: '5Q', 5: '5I', 7: '7I', 8: '7Q', 11: '6C'})
MASKS = [{'C': [19, 46], 'G': [3], 'E': [], 'R': []},
         {'C': [1], 'G': [1, 32], 'E': [7, 36], 'R': [24]},
         {'C': list(range(19, 41)), 'G': [2, 5], 'E': [1], 'R': [9]}]


def sat(s, p):
    return prn2sat(ID[s], p)


def sats(mask):
    return [(s, p) for s in 'CGER' for p in sorted(mask[s])]


def decoder():
    from cssrlib.cssr_bds import cssr_bds
    cs = cssr_bds()
    cs.monlevel = 0
    cs.week = WEEK
    cs.tow0 = DAY
    return cs


class B2b:
    def __init__(self, ctx, mt, pre='', nan=None, tod=None, iod=1, val=None):
        self.ctx, self.pre, self.nan, self.val = ctx, pre, nan, val
        self.m = ctx.msg()
        self.m.put(6, mt)
        if mt not in (6, 7):
            self.tod = self.epoch('', tod, iod)

    def epoch(self, q, tod, iod):
        m, p = self.m, self.pre+q
        t = m.put(17, tod) if tod is not None else \
            m.put(17, self.ctx.int(p+'tod', 0, 86399))
        m.u(p+'rev', 4)
        m.put(2, iod)
        return t

    def fld(self, nm, n, scl):
        v = self.m.s(self.pre+nm, n)
        a, b = -(1 << (n-1)), -(1 << (n-1))+1
        if self.nan == nm:
            self.ctx.assume(v == (a if self.val else b))
            return float('nan')
        self.ctx.assume(self.ctx.and_(v != a, v != b))
        return v*scl

    def ura(self, q, vals):
        m = self.m
        c, v = self.ctx.choice(self.pre+q+'ura', vals)
        return m.put(3, c), m.put(3, v)

    def mask(self, mask, iodp):
        m = self.m
        m.put(4, iodp)
        for s in 'CGER':
            m.put(NS[s], sum(1 << (NS[s]-p) for p in mask[s]))
        return self

    def orbit(self, q, slot, ura=False):
        """one orbit block"""
        m = self.m
        m.put(9, slot)
        o = dict(iodn=m.u(self.pre+q+'iodn', 10),
                 iodc=m.u(self.pre+q+'iodc', 3))
        o['orb'] = [self.fld(f'{q}o{j}', *ORB[j]) for j in range(3)]
        # one symbolic URA per message (others: class 1, value 1)
        o['ura'] = self.ura(q, ura) if ura else (m.put(3, 1), m.put(3, 1))
        return o

    def clk(self, q):
        iodc = self.m.u(self.pre+q+'ciod', 3)
        v = self.fld(q+'clk', *CLK)
        return iodc, -v if v == v else v

    def buf(self, n=486):
        # message of the signal: 486 bit
        self.m.any(self.pre+'end', max(0, n-len(self.m)))
        self.m.put(-len(self.m) % 8, 0)
        return self.m.buf()


def setmask(ctx, cs, mask, iodp=2, iod=1, p='m.', tod=1000):
    cs.decode_cssr(B2b(ctx, 1, p, tod=tod, iod=iod).mask(mask, iodp).buf())


def tm(tod):
    # BDT is 14 s behind GPST
    return gpst2time(WEEK+1356, DAY+14).time+tod


def check_ura(ctx, got, a, b):
    want = 5.4665 if (a, b) == (7, 7) else (3**a*(1+b/4)-1)*1e-3
    if (a, b) == (0, 0):
        ctx.nan('ura unknown', got)
    else:
        ctx.close('ura', got, want, 1e-9)


def verify_orb(ctx, cs, s, p, o, tod):
    lc = cs.lc[0]
    k = sat(s, p)
    ctx.check('orbit:has', k in lc.dorb)
    n = o['iodn']
    ctx.eq('iode', lc.iode[k], n-256*ctx.floor(n*F(1, 256))
           if s in 'CG' else n)
    ctx.eq('iodc', lc.iodc[k], o['iodc'])
    for j in range(3):
        eqnan(ctx, 'rac'[j], lc.dorb[k][j], o['orb'][j])
    ctx.eq('orbit:t0', lc.t0[k][sCType.ORBIT].time, tm(tod))


def verify_clk(ctx, cs, s, p, o, tod):
    lc = cs.lc[0]
    k = sat(s, p)
    ctx.check('clock:has', k in lc.dclk)
    ctx.eq('clock iod', lc.iodc_c[k], o[0])
    eqnan(ctx, 'clk', lc.dclk[k], o[1])
    ctx.eq('clock:t0', lc.t0[k][sCType.CLOCK].time, tm(tod))


@harness(cases=[['C', 63], ['G', 32], ['E', 36], ['R', 24]])
def h_mask(ctx, case):
    """every satellite position of the mask"""
    s, n = case
    n = min(n, 50) if s == 'C' else n
    a = ctx.choice('a', list(range(1, n+1)))
    b = ctx.choice('b', [1, n])
    mask = {k: [] for k in 'CGER'}
    mask[s] = sorted({a, b})
    for k in 'CGER':
        if k != s:
            mask[k] = [5]
    cs = decoder()
    h = B2b(ctx, 1, iod=ctx.choice('iod', [0, 3])).mask(mask, 9)
    cs.decode_cssr(h.buf())
    ctx.eq('sats', [int(x) for x in cs.sat_n],
           [sat(*x) for x in sats(mask)])
    ctx.eq('count', cs.nsat_n, len(sats(mask)))
    ctx.eq('time', cs.time.time, tm(h.tod))
    ctx.check('cstat', cs.lc[0].cstat >> sCType.MASK & 1 == 1)


def slots(mask):
    v = sats(mask)
    out = [SLOT[s]+p for s, p in v]
    # not in the mask, unused, invalid
    return out+[SLOT['G']+9, 0, 175, 511]


@harness(cases=[[i, r] for i in (0, 1) for r in range(5)])
def h_orb(ctx, case):
    """message 2: six blocks, each for the satellite its slot names"""
    i, r = case
    mask = MASKS[i]
    cs = decoder()
    setmask(ctx, cs, mask)
    h = B2b(ctx, 2)
    sl = slots(mask)
    sl = (sl[r:]+sl[:r]+sl)[:6]
    one = ctx.choice('one', sl)
    sl = sl[:5]+[one]
    o = [h.orbit(f'{k}.', x, [(0, 0), (3, 2), (7, 7)] if k == r else None) for k, x in enumerate(sl)]
    cs.decode_cssr(h.buf())
    want = {}
    for x, b in zip(sl, o):
        for s, p in sats(mask):
            if x == SLOT[s]+p:
                want[s, p] = b
    ctx.eq('sats', sorted(cs.lc[0].dorb.keys()),
           sorted(sat(*k) for k in want))
    for (s, p), b in want.items():
        verify_orb(ctx, cs, s, p, b, h.tod)
    for (s, p), b in want.items():
        if b is o[r]:
            check_ura(ctx, cs.ura[sat(s, p)], *b['ura'])
        else:
            ctx.close('ura', cs.ura[sat(s, p)], (3*1.25-1)*1e-3, 1e-9)
    ctx.eq('iod', cs.iodssr_c[sCType.ORBIT], 1)
    ctx.check('cstat', cs.lc[0].cstat >> sCType.ORBIT & 1 == 1)


@harness(cases=[[i, r] for i in range(2) for r in range(6)])
def h_cbias(ctx, case):
    """message 3: code biases of the satellites and signals named, whatever
    other satellites are in the message"""
    i, r = case
    mask = MASKS[i]
    cs = decoder()
    setmask(ctx, cs, mask)
    h = B2b(ctx, 3)
    v = sats(mask)
    sl = slots(mask)
    sl = [sl[r % len(sl)], sl[(r+1+ctx.choice('d', [0, 1, 2])) % len(sl)]]
    ns = [ctx.choice(f'n{k}', [0, 1, 3]) for k in range(2)]
    h.m.put(5, 2)
    want = {}
    for k, x in enumerate(sl):
        h.m.put(9, x)
        h.m.put(4, ns[k])
        who = [e for e in v if SLOT[e[0]]+e[1] == x]
        tb = sorted(SIG[who[0][0]]) if who else [0, 1, 2]
        d = {}
        for j in range(ns[k]):
            g = tb[-1-j]
            h.m.put(4, g)
            b = h.fld(f'{k}.{j}.', *CB)
            if who:
                d['C'+SIG[who[0][0]][g]] = b
        if who:
            want[who[0]] = d
    cs.decode_cssr(h.buf())
    lc = cs.lc[0]
    ctx.eq('sats', sorted(lc.cbias.keys()), sorted(sat(*k) for k in want))
    for (s, p), d in want.items():
        k = sat(s, p)
        ctx.eq('signals', codes(lc.cbias[k]), sorted(d))
        for n, b in d.items():
            eqnan(ctx, 'cbias', find(lc.cbias[k], n), b)
        ctx.eq('t0', lc.t0[k][sCType.CBIAS].time, tm(h.tod))
    ctx.eq('iod', cs.iodssr_c[sCType.CBIAS], 1)


@harness(cases=['C', 'G', 'E', 'R'])
def h_signals(ctx, s):
    """signal numbers of message 3"""
    mask = MASKS[1]
    cs = decoder()
    setmask(ctx, cs, mask)
    h = B2b(ctx, 3)
    p = mask[s][0]
    h.m.put(5, 1)
    h.m.put(9, SLOT[s]+p)
    h.m.put(4, 1)
    g = ctx.choice('g', sorted(SIG[s]))
    h.m.put(4, g)
    b = h.fld('b', *CB)
    cs.decode_cssr(h.buf())
    d = cs.lc[0].cbias[sat(s, p)]
    ctx.eq('signal', codes(d), ['C'+SIG[s][g]])
    eqnan(ctx, 'cbias', find(d, 'C'+SIG[s][g]), b)


@harness(cases=[[i, st] for i in (0, 1, 2) for st in (0, 1, 2)])
def h_clk(ctx, case):
    """message 4: clock of 23 mask positions"""
    i, st = case
    mask = MASKS[i]
    v = sats(mask)
    cs = decoder()
    setmask(ctx, cs, mask)
    h = B2b(ctx, 4)
    ok = ctx.choice('iodp', [2, 3])
    h.m.put(4, ok)
    h.m.put(5, st)
    o = [h.clk(f'{k}.') for k in range(23)]
    cs.decode_cssr(h.buf())
    own = {e: o[k-23*st] for k, e in enumerate(v) if k//23 == st} \
        if ok == 2 else {}
    ctx.eq('sats', sorted(cs.lc[0].dclk.keys()),
           sorted(sat(*k) for k in own))
    for (s, p), x in own.items():
        verify_clk(ctx, cs, s, p, x, h.tod)
    ctx.check('status', (cs.iodssr_c[sCType.CLOCK] == 1) == (ok == 2))


@harness(cases=[[i, st] for i in (0, 1) for st in (0, 1)])
def h_ura(ctx, case):
    """message 5: URA of 70 mask positions"""
    i, st = case
    mask = MASKS[i]
    v = sats(mask)
    cs = decoder()
    setmask(ctx, cs, mask)
    h = B2b(ctx, 5)
    ok = ctx.choice('iodp', [2, 15])
    h.m.put(4, ok)
    h.m.put(3, st)
    n = ctx.choice('which', range(len(v)))
    u = None
    for k in range(70):
        if k == n:
            u = h.ura(f'{k}.', [(c, v) for c in range(8) for v in range(8)]
                      if n == 0 else [(0, 0), (7, 6)])
        else:
            h.m.put(6, 9)
    cs.decode_cssr(h.buf())
    if st or ok != 2:
        ctx.eq('none', len(cs.ura), 0)
        return
    ctx.eq('sats', sorted(cs.ura), sorted(sat(*k) for k in v))
    check_ura(ctx, cs.ura[sat(*v[n])], *u)
    for k in v:
        if k != v[n]:
            ctx.close('other', cs.ura[sat(*k)], (3*1.25-1)*1e-3, 1e-9)


@harness(cases=[[mt, i, c, o] for mt in (6, 7) for i in (0, 1)
                for c in (0, 1, 3) for o in (0, 1, 2) if c+o])
def h_comb(ctx, case):
    """messages 6 and 7: clock and orbit corrections"""
    mt, i, nc, no = case
    mask = MASKS[i]
    v = sats(mask)
    cs = decoder()
    setmask(ctx, cs, mask)
    h = B2b(ctx, mt)
    m = h.m
    m.put(5, nc)
    m.put(3, no)
    clk, orb = {}, {}
    if nc:
        iod = ctx.choice('ciod', [1, 2])
        tc = h.epoch('c.', None, iod)
        iodp = 2
        if mt == 6:
            iodp = m.put(4, ctx.choice('iodp', [2, 7]))
            st = m.put(9, ctx.choice('st', [0, 2, len(v)-1, 300]))
        sl = slots(mask)
        for k in range(nc):
            if mt == 7:
                a = m.put(9, ctx.choice(f'cs{k}', sl[k:k+2]+sl[-3:])
                          if k < 1 or nc < 3 else sl[k])
            o = h.clk(f'c{k}.')
            if iod != 1 or iodp != 2:
                continue
            if mt == 6:
                if st+k < len(v):
                    clk[v[st+k]] = o
            else:
                for e in v:
                    if SLOT[e[0]]+e[1] == a:
                        clk[e] = o
    if no:
        oiod = ctx.choice('oiod', [1, 0])
        to = h.epoch('o.', None, oiod)
        sl = slots(mask)
        for k in range(no):
            a = ctx.choice(f'os{k}', [sl[k+1], sl[-4], 0])
            o = h.orbit(f'o{k}.', a)
            if oiod == 1:
                for e in v:
                    if SLOT[e[0]]+e[1] == a:
                        orb[e] = o
    cs.decode_cssr(h.buf())
    ctx.eq('clock sats', sorted(cs.lc[0].dclk), sorted(sat(*k) for k in clk))
    ctx.eq('orbit sats', sorted(cs.lc[0].dorb), sorted(sat(*k) for k in orb))
    for (s, p), o in clk.items():
        verify_clk(ctx, cs, s, p, o, tc)
    for (s, p), o in orb.items():
        verify_orb(ctx, cs, s, p, o, to)
    if nc and iod == 1 and iodp == 2:
        ctx.eq('clock iod', cs.iodssr_c[sCType.CLOCK], 1)
    if no and oiod == 1:
        ctx.eq('orbit iod', cs.iodssr_c[sCType.ORBIT], 1)


@harness(cases=[['orb', f'0.o{j}', v] for j in range(3) for v in (0, 1)] +
         [['clk', '1.clk', v] for v in (0, 1)] +
         [['cb', '0.0.', v] for v in (0, 1)])
def h_nan(ctx, case):
    """reserved patterns give no correction"""
    k, f, val = case
    mask = MASKS[0]
    v = sats(mask)
    cs = decoder()
    setmask(ctx, cs, mask)
    h = B2b(ctx, dict(orb=2, clk=4, cb=3)[k], nan=f, val=val)
    s, p = v[0]
    if k == 'orb':
        o = [h.orbit(f'{j}.', SLOT[s]+p if j == 0 else 0) for j in range(6)]
        cs.decode_cssr(h.buf())
        verify_orb(ctx, cs, s, p, o[0], h.tod)
    elif k == 'clk':
        h.m.put(4, 2)
        h.m.put(5, 0)
        o = [h.clk(f'{j}.') for j in range(23)]
        cs.decode_cssr(h.buf())
        for e, x in zip(v, o):
            verify_clk(ctx, cs, *e, x, h.tod)
    else:
        h.m.put(5, 1)
        h.m.put(9, SLOT[s]+p)
        h.m.put(4, 1)
        h.m.put(4, 0)
        b = h.fld('0.0.', *CB)
        cs.decode_cssr(h.buf())
        eqnan(ctx, 'cbias', find(cs.lc[0].cbias[sat(s, p)], 'C2I'), b)


@harness(cases=['orb', 'clk', 'cb', 'ura'])
def h_mismatch(ctx, k):
    """a message of another IOD SSR than the mask stores nothing"""
    mask = MASKS[0]
    v = sats(mask)
    cs = decoder()
    first = ctx.choice('mask', [0, 1])
    if first:
        setmask(ctx, cs, mask)
    iod = ctx.choice('iod', [0, 2, 3])
    h = B2b(ctx, dict(orb=2, clk=4, cb=3, ura=5)[k], iod=iod)
    s, p = v[0]
    if k == 'orb':
        [h.orbit(f'{j}.', SLOT[s]+p) for j in range(6)]
    elif k == 'clk':
        h.m.put(4, 2)
        h.m.put(5, 0)
        [h.clk(f'{j}.') for j in range(23)]
    elif k == 'cb':
        h.m.put(5, 1)
        h.m.put(9, SLOT[s]+p)
        h.m.put(4, 1)
        h.m.put(4, 0)
        h.fld('0.0.', *CB)
    else:
        h.m.put(4, 2)
        h.m.put(3, 0)
        h.m.any('u', 420)
    cs.decode_cssr(h.buf())
    lc = cs.lc[0]
    for a in ('dorb', 'iode', 'dclk', 'cbias'):
        ctx.check('nothing stored', not getattr(lc, a))
    ctx.eq('no ura', len(cs.ura), 0)


def one(ctx, cs, p, kind, iod, tod, corr):
    """orbit or clock message for C19 with correction issue corr"""
    h = B2b(ctx, 2 if kind == 'o' else 4, p, tod=tod, iod=iod)
    m = h.m
    if kind == 'o':
        m.put(9, 19)
        m.put(10, 5)
        m.put(3, corr)
        v = [h.fld(f'o{j}', *ORB[j]) for j in range(3)]
        m.put(6, 9)
        for j in range(5):
            m.put(69, 0)
    else:
        m.put(4, 2)
        m.put(5, 0)
        m.put(3, corr)
        v = -h.fld('clk', *CLK)
        for j in range(22):
            m.put(18, 0)
    cs.decode_cssr(h.buf())
    return v


@harness(cases=[[a, b, n] for n in ('satpos', 'satposs')
                for a in ('o0', 'o1', 'c0', 'c1') for b in
                ('o0', 'o1', 'c0', 'c1')])
def h_use(ctx, case):
    """orbit and clock corrections are combined only if their correction
    issues agree (the clock of the preceding issue is kept)"""
    a, b, api = case
    cs = decoder()
    setmask(ctx, cs, MASKS[0])
    st = [a, b]+[ctx.choice(f's{k}', ['o0', 'o1', 'c0', 'c1'])
                 for k in range(2)]
    orb, clk = None, []
    for n, e in enumerate(st):
        c = int(e[1])
        v = one(ctx, cs, f'{n}.', e[0], 1, 2000+n, c)
        if e[0] == 'o':
            orb = (c, v)
        else:
            if clk and clk[0][0] == c:
                clk = [(c, v)]+clk[1:]
            else:
                clk = [(c, v)]+clk[:1]
    s = sat('C', 19)
    r = usable(ctx, cs, s, api)
    x = [v for c, v in clk if orb is not None and c == orb[0]]
    if not x:
        ctx.check('not used', r is None)
        return
    ctx.check('used', r is not None)
    if r is None:
        return
    # radial/along/cross to the axes of the fixed orbit
    for k in range(3):
        ctx.close('orbit', r[0][k], frame(orb[1])[k], 1e-6)
    ctx.close('clock', r[1], x[0], 1e-6)


def frame(o):
    return o


@harness(cases=['satpos', 'satposs'])
def h_newmask(ctx, api):
    """a new mask drops the corrections of the old one"""
    cs = decoder()
    setmask(ctx, cs, MASKS[0])
    one(ctx, cs, 'a.', 'o', 1, 2000, 0)
    one(ctx, cs, 'b.', 'c', 1, 2001, 0)
    iod = ctx.choice('iod', [1, 2])
    iodp = ctx.choice('iodp', [2, 3])
    setmask(ctx, cs, MASKS[0], iodp, iod, 'n.', 2002)
    r = usable(ctx, cs, sat('C', 19), api)
    ctx.check('used', (r is not None) == (iod == 1 and iodp == 2))
    if iod == 2 and iodp == 3:
        ctx.eq('previous', cs.iodssr_p, 1)


@harness(cases=range(3))
def h_newbias(ctx, case):
    """code biases, URA and corrections do not survive a new mask"""
    cs = decoder()
    setmask(ctx, cs, MASKS[1])
    k = sats(MASKS[1])[0]
    h = B2b(ctx, 3)
    h.m.put(5, 1)
    h.m.put(9, SLOT[k[0]]+k[1])
    h.m.put(4, 1)
    h.m.put(4, sorted(SIG[k[0]])[0])
    h.fld('b.', *CB)
    cs.decode_cssr(h.buf())
    one(ctx, cs, 'a.', 'o', 1, 2000, 0)
    one(ctx, cs, 'b.', 'c', 1, 2001, 0)
    ctx.check('received', sat(*k) in cs.lc[0].cbias)
    setmask(ctx, cs, MASKS[(1, 0, 1)[case]], [3, 3, 2][case],
            ctx.choice('iod', [1, 2]), 'n.', 2002)
    lc = cs.lc[0]
    if case < 2:
        for d in (lc.cbias, lc.dorb, lc.dclk, lc.iode, cs.ura):
            ctx.check('dropped', len(d) == 0)
    else:
        # the same mask again
        ctx.check('kept', sat(*k) in lc.cbias)
