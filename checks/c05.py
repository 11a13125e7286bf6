"""C05 RTCM / IGS SSR decoding against an independent description"""
from engine.api import harness
from cssrlib import rtcm as RT
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gpst2time
from checks.rtcmlib import (BASE, PRN, SIG, SYS, TEST, WEEK, ORB, CLK, Ssr,
                            sat, KINDS)

BOUNDS = ['one message of 0..2 satellites (thorough: 3), up to 3 signals per '
          'satellite', 'all field values; reserved pattern in one field at a '
          'time', 'message numbers 1057-1068, 1240-1270, 41-46, 62-79 '
          '(not 63), 85-89, 4076 subtypes 21-127',
          'week number fixed (2400); GLONASS reference time fixed',
          'VTEC (1264/4076_201) is outside: the decoder stores no result']
DIAL = [('rtcm', s) for s in BASE] + [('igs', s) for s in BASE] + \
    [('test', s) for s in 'RECJ']
TREF = gpst2time(WEEK, 302400)


def ok(d, k, s):
    if d == 'test' and TEST[s].get(k) is None:
        return False
    return not (d, k, s) == ('test', 'orb', 'C')


def dec(pre=None):
    cs = RT.rtcm()
    cs.monlevel = 0
    cs.week = WEEK
    cs.time = TREF
    return cs


SCT = dict(orb=[sCType.ORBIT], clk=[sCType.CLOCK],
           comb=[sCType.ORBIT, sCType.CLOCK], cbias=[sCType.CBIAS],
           pbias=[sCType.PBIAS], ura=[sCType.URA], hclk=[sCType.HCLOCK])


def epoch(ctx, cs, m):
    if m.s == 'R' and m.d != 'igs':
        # Moscow time of day (UTC+3h), leap seconds 18
        x = cs.time.time-18+10800-m.tow
        ctx.eq('epoch:tod', ctx.floor(x*1/86400)*86400, x)
        ctx.check('epoch:day', ctx.and_(cs.time.time-TREF.time <= 43200,
                                        cs.time.time-TREF.time >= -43200))
    else:
        ctx.eq('epoch', cs.time.time, gpst2time(WEEK, 0).time+m.tow)
    ctx.eq('epoch:frac', cs.time.sec, 0)


def header(ctx, cs, m):
    epoch(ctx, cs, m)
    ctx.eq('iodssr', cs.iodssr, m.iod)
    ctx.eq('pid', cs.pid, m.pid)
    ctx.eq('sid', cs.sid, m.sid)
    ctx.eq('mi', ctx.num(cs.mi), m.mi)
    for c in SCT[m.k]:
        ctx.eq('udi', cs.udi[c], m.udi)
        ctx.eq('iodssr_c', cs.iodssr_c[c], m.iod)
        ctx.check('cstat', (cs.lc[0].cstat >> c) & 1 == 1)
        for o in m.sats:
            ctx.eq('t0', cs.lc[0].t0[sat(m.s, o['slot'])][c].time,
                   cs.time.time)


def body(ctx, cs, m, keys=True):
    lc = cs.lc[0]
    want = sorted(sat(m.s, o['slot']) for o in m.sats)
    name = dict(orb='dorb', clk='dclk', comb='dorb', cbias='cbias',
                pbias='pbias', ura='ura', hclk='hclk')[m.k]
    if keys:
        ctx.eq('sats', sorted(getattr(lc, name).keys()), want)
    for o in m.sats:
        s = sat(m.s, o['slot'])
        if 'orb' in o:
            ctx.eq('iode', lc.iode[s], o['iode'])
            for j in range(3):
                ctx.close(ORB[j][0], lc.dorb[s][j], o['orb'][j], 1e-9)
                ctx.close(ORB[j+3][0], lc.ddorb[s][j], o['orb'][j+3], 1e-11)
        if 'clk' in o:
            ctx.close('c0', lc.dclk[s], o['clk'][0], 1e-9)
            ctx.close('c1', lc.ddclk[s], o['clk'][1], 1e-11)
            ctx.close('c2', lc.dddclk[s], o['clk'][2], 1e-13)
        if 'hclk' in o:
            ctx.close('hclk', lc.hclk[s], o['hclk'], 1e-9)
        if 'cb' in o:
            ctx.eq('codes', sorted(lc.cbias[s].keys()),
                   sorted('C'+SIG[m.s][c] for c, _ in o['cb']))
            for c, v in o['cb']:
                ctx.close('cbias', lc.cbias[s]['C'+SIG[m.s][c]], v, 1e-9)
        if 'pb' in o:
            if m.iyaw:
                ctx.close('yaw', lc.yaw[s], o['yaw'], 1e-9)
                ctx.close('dyaw', lc.dyaw[s], o['dyaw'], 1e-9)
            ctx.eq('codes', sorted(lc.pbias[s].keys()),
                   sorted('L'+SIG[m.s][v[0]] for v in o['pb']))
            for c, si, wl, di, v in o['pb']:
                n = 'L'+SIG[m.s][c]
                ctx.close('pbias', lc.pbias[s][n], v, 1e-9)
                ctx.eq('si', ctx.num(lc.si[s][n]), si)
                ctx.eq('di', lc.di[s][n], di)
                if wl is not None:
                    ctx.eq('wl', lc.wl[s][n], wl)


def cases():
    return [[d, k, s] for d, s in DIAL for k in KINDS+['pbias']
            if k != 'ura' and ok(d, k, s)] + [['test', 'pbias', 'G']]


def two(s):
    lo, hi = PRN[s]
    return hi, lo+1


@harness(cases=cases())
def h_values(ctx, case):
    """every field of a two-satellite message, signals of both"""
    d, k, s = case
    iyaw = ctx.choice('iyaw', [True, False]) if d == 'test' and \
        k == 'pbias' else True
    m = Ssr(ctx, d, k, s, 2, iyaw=iyaw)
    sg = sorted(SIG[s])
    a, b = two(s)
    m.add(a, [sg[-1], sg[0], sg[1]])
    m.add(b, [sg[2]] if len(sg) > 2 else [sg[0]])
    cs = dec()
    i, *_ = cs.decode(m.buf())
    ctx.eq('end', i, len(m.m))
    header(ctx, cs, m)
    body(ctx, cs, m)


def ncases():
    out = []
    for d, k, s in cases():
        if d == 'igs' and s in 'RJS' or d == 'test' and s in 'CJ':
            continue
        n = dict(orb=6, clk=3, comb=9, cbias=1, pbias=2, hclk=1)[k]
        out += [[d, k, s, j] for j in range(n)]
    return out


@harness(cases=ncases())
def h_nan(ctx, case):
    """a field with the reserved pattern is not-a-number, alone"""
    d, k, s, j = case
    names = dict(orb=[f[0] for f in ORB], clk=[f[0] for f in CLK],
                 comb=[f[0] for f in ORB+CLK], cbias=['cb0'],
                 pbias=['pb0', 'dyaw'], hclk=['hc'])[k]
    m = Ssr(ctx, d, k, s, 2, nan='s0.'+names[j], iyaw=True, tow=7200)
    sg = sorted(SIG[s])
    a, b = two(s)
    m.add(a, [sg[-1], sg[0]])
    m.add(b, [sg[1]])
    cs = dec()
    cs.decode(m.buf())
    body(ctx, cs, m)


@harness(cases=[[d, k, s] for d, s in DIAL for k in ('orb', 'hclk', 'cbias')
                if ok(d, k, s)], budget=120)
def h_ids(ctx, case):
    """every satellite id"""
    d, k, s = case
    m = Ssr(ctx, d, k, s, 1, tow=7200)
    slot = ctx.int('slot', *PRN[s])
    m.add(slot, [0])
    cs = dec()
    cs.decode(m.buf())
    k2 = ctx.concrete(slot)
    m.sats[0]['slot'] = k2
    body(ctx, cs, m)


@harness(cases=[[d, k, s] for d, s in DIAL for k in ('cbias', 'pbias')])
def h_signals(ctx, case):
    """every signal id of the system"""
    d, k, s = case
    if d == 'test' and s not in TEST:
        return
    m = Ssr(ctx, d, k, s, 1, iyaw=False, tow=7200)
    c = ctx.choice('sig', sorted(SIG[s]))
    m.add(PRN[s][0], [c])
    cs = dec()
    cs.decode(m.buf())
    body(ctx, cs, m)


@harness(cases=[[d, s] for d, s in DIAL])
def h_ura(ctx, case):
    """URA class/value, including unknown (0,0) and the cap (7,7)"""
    d, s = case
    m = Ssr(ctx, d, 'ura', s, 2, tow=7200)
    a, b = two(s)
    m.add(a)
    m.add(b)
    ctx.assume(m.sats[1]['cls'] == 2)
    ctx.assume(m.sats[1]['val'] == 5)
    cs = dec()
    cs.decode(m.buf())
    header(ctx, cs, m)
    ctx.eq('sats', sorted(cs.lc[0].ura.keys()), sorted([sat(s, a),
                                                        sat(s, b)]))
    u, v = ctx.concrete(m.sats[0]['cls']), ctx.concrete(m.sats[0]['val'])
    x = cs.lc[0].ura[sat(s, a)]
    if (u, v) == (0, 0):
        ctx.nan('unknown', x)
    elif (u, v) == (7, 7):
        ctx.check('cap', x >= 5.4665-1e-9)
    else:
        ctx.close('ura', x, (3**u*(1+v/4)-1)*1e-3, 1e-9)
    ctx.close('ura 2', cs.lc[0].ura[sat(s, b)], (9*2.25-1)*1e-3, 1e-9)


@harness(cases=[[d, k, s] for d, s in DIAL for k in ('orb', 'clk', 'cbias',
                                                     'pbias', 'hclk', 'ura')
                if ok(d, k, s) and s in 'GRE'])
def h_sequence(ctx, case):
    """messages of one epoch accumulate, a later epoch replaces"""
    d, k, s = case
    t0 = 7200
    dt = ctx.choice('dt', [0, 5])
    sg = sorted(SIG[s])
    a, b = two(s)
    m1 = Ssr(ctx, d, k, s, 1, iyaw=False, tow=t0)
    m1.add(a, [sg[0]])

    class Pre:
        pass
    cs = dec()
    cs.decode(m1.buf())
    inner = Renamed(ctx)
    m2 = Ssr(inner, d, k, s, 1, iyaw=False, tow=t0+dt)
    m2.add(b, [sg[1]])
    cs.decode(m2.buf())
    name = dict(orb='dorb', clk='dclk', cbias='cbias', pbias='pbias',
                ura='ura', hclk='hclk')[k]
    have = sorted(getattr(cs.lc[0], name).keys())
    if dt == 0:
        ctx.eq('both', have, sorted([sat(s, a), sat(s, b)]))
        if k != 'ura':
            body(ctx, cs, m1, keys=False)
    else:
        ctx.eq('latest', have, [sat(s, b)])
    if k != 'ura':
        body(ctx, cs, m2, keys=False)


@harness(cases=ncases())
def h_repeat(ctx, case):
    """a satellite sent again (same or later epoch): the last message holds,
    also where it says not available"""
    d, k, s, j = case
    names = dict(orb=[f[0] for f in ORB], clk=[f[0] for f in CLK],
                 comb=[f[0] for f in ORB+CLK], cbias=['cb0'],
                 pbias=['pb0', 'dyaw'], hclk=['hc'])[k]
    dt = ctx.choice('dt', [0, 5])
    sg = sorted(SIG[s])
    a, b = two(s)
    cs = dec()
    m1 = Ssr(ctx, d, k, s, 2, iyaw=True, tow=7200)
    m1.add(a, [sg[-1], sg[0]])
    m1.add(b, [sg[1]])
    cs.decode(m1.buf())
    nan = ctx.choice('nan', [True, False])
    m2 = Ssr(Renamed(ctx), d, k, s, 1, nan='s0.'+names[j] if nan else None,
             iyaw=True, tow=7200+dt)
    m2.add(a, [sg[-1], sg[0]])
    cs.decode(m2.buf())
    body(ctx, cs, m2, keys=dt > 0)
    if dt == 0:
        m1.sats = m1.sats[1:]
        body(ctx, cs, m1, keys=False)


class Renamed:
    """context with a prefix on the input names"""

    def __init__(self, ctx, p='b.'):
        self.c, self.p = ctx, p

    def u(self, n, w):
        return self.c.u(self.p+n, w)

    def s(self, n, w):
        return self.c.s(self.p+n, w)

    def rawbits(self, n, w):
        return self.c.rawbits(self.p+n, w)

    def msg(self):
        from engine.api import Msg
        return Msg(self)

    def __getattr__(self, n):
        return getattr(self.c, n)


@harness(cases=['G', 'R', 'E', 'C', 'J'])
def h_wl(ctx, case):
    """extended phase bias: wide-lane groups follow the linked message"""
    s = case
    m = Ssr(ctx, 'test', 'pbias', s, 2, iyaw=False, tow=7200)
    sg = sorted(SIG[s])
    a, b = two(s)
    m.add(a, [sg[1], sg[0]])
    m.add(b, [sg[2]])
    cs = dec()
    cs.decode(m.buf())
    w = ctx.msg()
    w.put(24, 0)
    w.put(12, {'G': 90, 'R': 91, 'E': 92, 'C': 93, 'J': 94}[s])
    w.put(17 if s == 'R' else 20, 7200)
    w.any('h', 24)
    w.put(4, m.iex)
    exp = [w.u(f'wl{j}', 2) for j in range(3)]
    cs.decode(w.buf())
    names = [(a, sg[1]), (a, sg[0]), (b, sg[2])]
    for (p, g), v in zip(names, exp):
        ctx.eq('wl', cs.lc[0].wl[sat(s, p)]['L'+SIG[s][g]], v)


@harness(cases=['orb', 'clk', 'cbias', 'comb', 'hclk', 'ura', 'pbias'])
def h_empty(ctx, case):
    """a message without satellites carries no correction"""
    m = Ssr(ctx, 'rtcm', case, 'E', 0)
    cs = dec()
    i, *_ = cs.decode(m.buf())
    ctx.eq('end', i, len(m.m))
    header(ctx, cs, m)
    body(ctx, cs, m)
