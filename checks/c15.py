"""C15 Galileo HAS messages"""
import itertools
from fractions import Fraction as F
from engine.api import harness
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gpst2time, uTYP
from checks.csslib import ID, SIG, SYS, WEEK, HOUR, name, sat
from checks.c10 import codes, find

BOUNDS = ['masks of one or two systems, up to three satellites and three '
          'signals (every slot, signal and cell pattern of one satellite in '
          'h_mask), one or two messages', 'all field values; the not-available'
          ' and do-not-use patterns in one field at a time; the largest '
          'positive orbit value, which the decoder treats as not available, '
          'is outside', 'the Galileo time of the message is given by the '
          'caller (tow0, week)']
ORB = [(13, F(25, 10000)), (12, F(8, 1000)), (12, F(8, 1000))]
CLK = (13, F(25, 10000))
CB = (11, F(2, 100))
PB = (11, F(1, 100))
M = [
    [('G', [32], [0, 9], None, 0)],
    [('E', [2, 36], [1, 4], None, 5)],
    [('G', [1, 7], [0, 8, 11], [[0, 1], [0, 2]], 7), ('E', [3], [0], None, 1)],
    [('E', [1], [12, 13], None, 2), ('G', [40], [0], None, 3)],
]
M[3] = [('E', [1], [12, 13], None, 2), ('G', [31], [0], None, 3)]
BLK = ['orb', 'clk', 'sub', 'cb', 'pb']


def decoder(ctx):
    from cssrlib.cssr_has import cssr_has
    cs = cssr_has()
    cs.monlevel = 0
    cs.week = WEEK
    cs.tow0 = HOUR
    cs.msgtype = 1
    return cs


class Has:
    """one HAS message under construction"""

    def __init__(self, ctx, nan=None, pre='', dnu=False):
        self.ctx, self.nan, self.pre, self.dnu = ctx, nan, pre, dnu
        self.m = ctx.msg()
        self.out = {}

    def fld(self, nm, n, scl):
        v = self.m.s(self.pre+nm, n)
        lo, hi = -(1 << (n-1)), (1 << (n-1))-1
        if self.nan == nm:
            self.ctx.assume(v == (hi if self.dnu else lo))
            return float('nan')
        self.ctx.assume(self.ctx.and_(v != lo, v != hi))
        return v*scl

    def head(self, blocks, mask_id=1, toh=None, iod=None, mask=None):
        m = self.m
        self.toh = m.put(12, toh) if toh is not None else \
            m.put(12, self.ctx.int(self.pre+'toh', 0, 3599))
        m.put(1, int(mask is not None))
        for b in BLK:
            m.put(1, int(b in blocks))
        m.u(self.pre+'res', 4)
        m.put(5, mask_id)
        self.iod = m.u(self.pre+'iod', 5) if iod is None else m.put(5, iod)

    def mask(self, gnss):
        m = self.m
        m.put(4, len(gnss))
        self.sats, self.sys = [], []
        for s, slots, sigs, cells, nm in gnss:
            self.sys.append(s)
            m.put(4, ID[s])
            m.put(40, sum(1 << (40-k) for k in slots))
            m.put(16, sum(1 << (15-k) for k in sigs))
            m.put(1, 0 if cells is None else 1)
            for j, k in enumerate(sorted(slots)):
                sg = sorted(sigs)
                if cells is not None:
                    m.put(len(sg), sum(1 << (len(sg)-1-c)
                                       for c in cells[j]))
                    sg = [sg[c] for c in sorted(cells[j])]
                self.sats.append((s, k, sg))
            m.put(3, nm)
        m.u(self.pre+'mres', 6)

    def like(self, o):
        self.sats, self.sys = o.sats, o.sys
        return self

    def block(self, b, sub=None):
        m, o, p = self.m, self.out, b+'.'
        m.u(self.pre+p+'vi', 4)
        if b == 'orb':
            o['orb'] = {}
            for k, (s, slot, _) in enumerate(self.sats):
                q = f'{p}{k}.'
                iode = m.u(self.pre+q+'iode', 10 if s == 'E' else 8)
                v = [-self.fld(f'{q}o{j}', *ORB[j]) if self.nan != f'{q}o{j}'
                     else self.fld(f'{q}o{j}', *ORB[j]) for j in range(3)]
                o['orb'][sat(s, slot)] = (iode, v)
        elif b == 'clk':
            dcm = {s: m.u(self.pre+p+'dcm'+s, 2)+1 for s in self.sys}
            o['clk'] = {}
            for k, (s, slot, _) in enumerate(self.sats):
                v = self.fld(f'{p}{k}.clk', *CLK)
                o['clk'][sat(s, slot)] = v*dcm[s] if v == v else v
        elif b == 'sub':
            # sub: {sys: positions in the list of its satellites}
            m.put(4, len(sub))
            o['sub'] = {}
            for s, pos in sub:
                m.put(4, ID[s])
                dcm = m.u(self.pre+p+'dcm'+s, 2)+1
                own = [x for x in self.sats if x[0] == s]
                m.put(len(own), sum(1 << (len(own)-1-c) for c in pos))
                for c in sorted(pos):
                    v = self.fld(f'{p}{s}{c}.clk', *CLK)
                    o['sub'][sat(s, own[c][1])] = v*dcm if v == v else v
        else:
            o[b] = {}
            for k, (s, slot, sg) in enumerate(self.sats):
                d = o[b][sat(s, slot)] = {}
                for j in sg:
                    q = f'{p}{k}.{j}.'
                    if b == 'cb':
                        d[name(s, uTYP.C, j)] = self.fld(q+'cb', *CB)
                    else:
                        v = self.fld(q+'pb', *PB)
                        d[name(s, uTYP.L, j)] = (v, m.u(self.pre+q+'di', 2))

    def buf(self):
        n = -len(self.m) % 8
        self.m.put(n, 0)
        self.m.put(16, 0)
        return self.m.buf()


def eqnan(ctx, label, got, want):
    if want != want:
        ctx.nan(label+': not available', got)
    else:
        ctx.close(label, got, want, 1e-9)


def verify(ctx, cs, h, t=None):
    lc = cs.lc[0]
    t = gpst2time(WEEK, HOUR).time+h.toh
    for b, o in h.out.items():
        keys = sorted(o)
        if b == 'orb':
            ctx.eq('orbit:sats', sorted(lc.dorb.keys()), keys)
            for s, (iode, v) in o.items():
                ctx.eq('iode', lc.iode[s], iode)
                for k in range(3):
                    eqnan(ctx, 'rac'[k], lc.dorb[s][k], v[k])
                ctx.eq('orbit:t0', lc.t0[s][sCType.ORBIT].time, t)
            ctx.eq('orbit:iod', cs.iodssr_c[sCType.ORBIT], h.iod)
        elif b in ('clk', 'sub'):
            if b == 'clk':
                ctx.eq('clock:sats', sorted(lc.dclk.keys()), keys)
                ctx.eq('clock:iod', cs.iodssr_c[sCType.CLOCK], h.iod)
            for s, v in o.items():
                if b == 'clk' and s in h.out.get('sub', {}):
                    continue
                ctx.check('clock:has', s in lc.dclk)
                eqnan(ctx, 'clk', lc.dclk[s], v)
                ctx.eq('clock:t0', lc.t0[s][sCType.CLOCK].time, t)
        else:
            d = lc.cbias if b == 'cb' else lc.pbias
            tp = sCType.CBIAS if b == 'cb' else sCType.PBIAS
            ctx.eq(b+':sats', sorted(d.keys()), keys)
            for s, v in o.items():
                ctx.eq(b+':signals', codes(d[s]), sorted(v))
                for n, x in v.items():
                    eqnan(ctx, b, find(d[s], n), x if b == 'cb' else x[0])
                    if b == 'pb':
                        ctx.eq('di', find(lc.di[s], n), x[1])
                if v:
                    ctx.eq(b+':t0', lc.t0[s][tp].time, t)
    for b, tp in (('orb', sCType.ORBIT), ('clk', sCType.CLOCK),
                  ('cb', sCType.CBIAS), ('pb', sCType.PBIAS)):
        if b in h.out:
            ctx.check('cstat', lc.cstat >> tp & 1 == 1)


def subsel(i):
    """clock subsets for mask i"""
    return {0: [('G', [0])], 1: [('E', [1])], 2: [('G', [1]), ('E', [0])],
            3: [('G', [0])]}[i]


def build(h, blocks, i, pos=None):
    for b in BLK:
        if b in blocks:
            h.block(b, pos or subsel(i))


def powerset(x):
    return [list(c) for n in range(len(x)+1)
            for c in itertools.combinations(x, n)]


@harness(cases=[[b, i] for b in powerset(BLK) for i in (1, 2)]
         + [[BLK, 0], [BLK, 3]])
def h_blocks(ctx, case):
    """mask and any combination of blocks in one message"""
    blocks, i = case
    h = Has(ctx)
    h.head(blocks, mask=M[i])
    h.mask(M[i])
    build(h, blocks, i)
    cs = decoder(ctx)
    cs.decode_cssr(h.buf(), 0)
    ctx.eq('epoch', cs.time.time, gpst2time(WEEK, HOUR).time+h.toh)
    ctx.eq('mask:sats', list(cs.sat_n), [sat(s, k) for s, k, _ in h.sats])
    for g in M[i]:
        ctx.eq('nav message', int(cs.nm_idx[ID[g[0]]]), g[4])
    verify(ctx, cs, h)
    for b, a in (('orb', 'dorb'), ('cb', 'cbias'), ('pb', 'pbias')):
        if b not in blocks:
            ctx.check('nothing else', not getattr(cs.lc[0], a))
    if 'clk' not in blocks and 'sub' not in blocks:
        ctx.check('nothing else', not cs.lc[0].dclk)


@harness(cases=[[b, i, j] for b in powerset(BLK) if len(b) in (1, 2)
                for i in (2, 3) for j in (0, 1)])
def h_second(ctx, case):
    """blocks in a later message refer to the mask of the same identifier;
    a message with another mask identifier changes nothing"""
    blocks, i, same = case
    a = Has(ctx, pre='a.')
    pre = [b for b in ('orb', 'clk', 'cb', 'pb')]
    a.head(pre, mask_id=3, mask=M[i])
    a.mask(M[i])
    build(a, pre, i)
    cs = decoder(ctx)
    cs.decode_cssr(a.buf(), 0)
    h = Has(ctx, pre='b.').like(a)
    mid = 3 if same else ctx.choice('mid', [0, 1, 2, 31])
    h.head(blocks, mask_id=mid)
    build(h, blocks, i)
    cs.decode_cssr(h.buf(), 0)
    if same:
        rest = {b: v for b, v in a.out.items() if b not in blocks}
        if 'sub' in blocks and 'clk' in rest:
            rest['clk'] = {s: v for s, v in rest['clk'].items()
                           if s not in h.out['sub']}
            for s, v in rest['clk'].items():
                eqnan(ctx, 'kept clk', cs.lc[0].dclk[s], v)
            del rest['clk']
        verify(ctx, cs, h)
        a.out = rest
        verify(ctx, cs, a)
    else:
        verify(ctx, cs, a)


@harness(cases=[[2, p, q] for p in ([], [0], [1], [0, 1]) for q in (0, 1)])
def h_subset(ctx, case):
    """clock subsets: first clock corrections received or on top of others"""
    i, p, q = case
    a = Has(ctx, pre='a.')
    a.head([], mask=M[i])
    a.mask(M[i])
    cs = decoder(ctx)
    cs.decode_cssr(a.buf(), 0)
    h = Has(ctx, pre='b.').like(a)
    h.head(['sub'])
    pos = [('G', p)]+([('E', [0])] if q else [])
    h.block('sub', pos)
    cs.decode_cssr(h.buf(), 0)
    verify(ctx, cs, h)
    ctx.eq('only the subset', sorted(cs.lc[0].dclk or {}),
           sorted(h.out['sub']))
    ctx.eq('iod', cs.iodssr, h.iod)


NAN = [['orb', f'orb.{k}.o{j}'] for k in (0, 2) for j in range(3)] + \
    [['clk', f'clk.{k}.clk'] for k in (0, 2)] + \
    [['sub', 'sub.G1.clk'], ['sub', 'sub.E0.clk'], ['cb', 'cb.0.0.cb'],
     ['cb', 'cb.2.0.cb'], ['pb', 'pb.0.8.pb'], ['pb', 'pb.1.11.pb']]


@harness(cases=[[*x, d] for x in NAN for d in (0, 1)
                if not (d and x[0] in ('orb', 'cb', 'pb'))])
def h_nan(ctx, case):
    """not available and do-not-use patterns give no correction"""
    b, f, dnu = case
    h = Has(ctx, nan=f, dnu=bool(dnu))
    blocks = ['clk', 'sub'] if b == 'sub' else [b]
    h.head(blocks, mask=M[2])
    h.mask(M[2])
    build(h, blocks, 2)
    cs = decoder(ctx)
    cs.decode_cssr(h.buf(), 0)
    verify(ctx, cs, h)


@harness(cases=['toh', 'type', 'mask'])
def h_invalid(ctx, case):
    """invalid time of hour, message type or unknown mask: nothing stored"""
    h = Has(ctx)
    toh = ctx.int('badtoh', 3600, 4095) if case == 'toh' else None
    h.head(BLK, mask_id=ctx.choice('mid', [0, 5, 31]), toh=toh,
           mask=None if case == 'mask' else M[2])
    if case == 'mask':
        h.like(h0(ctx))
    else:
        h.mask(M[2])
    build(h, BLK, 2)
    cs = decoder(ctx)
    if case == 'type':
        cs.msgtype = ctx.choice('mt', [0, 2, 3])
    r = cs.decode_cssr(h.buf(), 0)
    ctx.check('rejected', r is False)
    ctx.eq('no satellite', len(cs.sat_n), 0)
    lc = cs.lc[0]
    for a in ('dorb', 'iode', 'dclk', 'cbias', 'pbias'):
        ctx.check('nothing stored', not getattr(lc, a))


def h0(ctx):
    h = Has(ctx, pre='x.')
    h.head([], toh=0, iod=0)
    h.mask(M[2])
    return h


@harness(cases=[['slot', 'G'], ['slot', 'E'], ['sig', 'G'], ['sig', 'E']])
def h_mask(ctx, case):
    """every satellite, signal and cell of the mask"""
    kind, s = case
    n = 32 if s == 'G' else 36
    if kind == 'slot':
        a = ctx.choice('a', list(range(1, n+1)))
        g = [(s, [a], [0], None, 0)]
    else:
        j = ctx.choice('j', list(range(len(SIG[s]))))
        k = ctx.choice('k', [0, 3, len(SIG[s])-1])
        sg = sorted({j, k})
        c = ctx.choice('c', powerset(list(range(len(sg)))))
        g = [(s, [2, 9], sg, [c, list(range(len(sg)))], 1)]
    h = Has(ctx)
    h.head(['cb', 'pb'], mask=g)
    h.mask(g)
    build(h, ['cb', 'pb'], None, [1])
    cs = decoder(ctx)
    cs.decode_cssr(h.buf(), 0)
    ctx.eq('sats', list(cs.sat_n), [sat(x, k) for x, k, _ in h.sats])
    verify(ctx, cs, h)
