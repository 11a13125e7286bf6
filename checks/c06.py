"""C06 RTCM SSR encoder followed by the decoder"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib import rtcm as RT
from cssrlib.cssrlib import local_corr, sCType, sCSSR
from cssrlib.gnss import gpst2time, rSigRnx, uTYP, uSIG
from checks.rtcmlib import PRN, SIG, SYS, TEST, WEEK, ORB, CLK, sat

BOUNDS = ['messages of two satellites, up to three signals each, any finite '
          'value in the range of the field (2^-20 of an LSB grid) or NaN',
          'message types the encoder offers: 1057-1062, 41-46, 62-79, 85-89']
TREF = gpst2time(WEEK, 302400)
GPS = dict(orb=1057, clk=1058, cbias=1059, comb=1060, ura=1061, hclk=1062,
           pbias=85)


def mtype(s, k):
    return GPS[k] if s == 'G' else TEST[s][k]


def rsig(s, ty, c):
    return rSigRnx(SYS[s], uTYP[ty], uSIG['L'+SIG[s][c]])


def pair(s):
    lo, hi = PRN[s]
    return sat(s, hi), sat(s, lo+1)


def enc(ctx, s, k, sats, other=None):
    e = RT.rtcme()
    e.monlevel = 0
    e.msgtype = mtype(s, k)
    e.inet = 0
    e.lc = [local_corr()]
    e.sat_n = list(sats)
    if s == 'R':
        e.tow = ctx.int('tod', 0, 86399)
    else:
        e.tow = ctx.int('tow', 0, 604799)
    e.iodssr = ctx.int('iod', 0, 15)
    e.pid = ctx.int('pid', 0, 65535)
    e.sid = ctx.int('sid', 0, 15)
    e.mi = ctx.bool('mi')
    e.datum = ctx.int('datum', 0, 1)
    udi = ctx.int('udi', 0, 15)
    e.udi = {c: 0 for c in range(sCType.MAX)}
    for c in (dict(orb=[sCType.ORBIT], clk=[sCType.CLOCK],
                   hclk=[sCType.CLOCK], comb=[sCType.OC],
                   cbias=[sCType.CBIAS], pbias=[sCType.PBIAS],
                   ura=[sCType.URA])[k]):
        e.udi[c] = udi
    e.x_udi = udi
    return e


def run(ctx, e, cs=None):
    m = ctx.msg()
    m.pad(8*256)
    buf = m.buf()
    n = e.encode(buf)
    if cs is None:
        cs = RT.rtcm()
        cs.monlevel = 0
        cs.week = WEEK
        cs.time = TREF
    i, *_ = cs.decode(buf)
    ctx.eq('length', i, n)
    ctx.eq('iodssr', cs.iodssr, e.iodssr)
    ctx.eq('pid', cs.pid, e.pid)
    ctx.eq('sid', cs.sid, e.sid)
    ctx.eq('mi', ctx.num(cs.mi), ctx.num(e.mi))
    return cs


def times(ctx, cs, e, s):
    if s == 'R':
        x = cs.time.time-18+10800-e.tow
        ctx.eq('tod', ctx.floor(x*1/86400)*86400, x)
    else:
        ctx.eq('epoch', cs.time.time, gpst2time(WEEK, 0).time+e.tow)


def val(ctx, name, n, scl):
    """any value the field can carry"""
    lim = (1 << (n-1))-1
    k = ctx.int(name, -lim*64, lim*64)
    return k*(scl/64)


def value(ctx, x):
    """float in the concrete run"""
    return x if ctx.symbolic else float(x)


SYSK = [[s, k] for s in 'GRECJ' for k in
        ('orb', 'clk', 'comb', 'hclk', 'cbias', 'pbias')]


@harness(cases=[c for c in SYSK if c != ['C', 'orb']])
def h_roundtrip(ctx, case):
    s, k = case
    a, b = pair(s)
    o = sat('E' if s != 'E' else 'G', 5)   # another system: not included
    e = enc(ctx, s, k, [a, o, b])
    lc = e.lc[0]
    sg = sorted(SIG[s])
    use = {a: [sg[-1], sg[0], sg[1]], b: [sg[2]]}
    exp = {}
    for j, t in enumerate((a, b)):
        if k in ('orb', 'comb'):
            lc.iode = lc.iode or {}
            lc.dorb, lc.ddorb = lc.dorb or {}, lc.ddorb or {}
            lc.iode[t] = ctx.int(f'iode{j}', 0, 1023 if s == 'E' else 255)
            v = [value(ctx, val(ctx, f'{n}{j}', w, q)) for n, w, q in ORB]
            lc.dorb[t], lc.ddorb[t] = v[:3], v[3:]
        if k in ('clk', 'comb'):
            for n in ('dclk', 'ddclk', 'dddclk'):
                setattr(lc, n, getattr(lc, n) or {})
            v = [value(ctx, val(ctx, f'{n}{j}', w, q)) for n, w, q in CLK]
            lc.dclk[t], lc.ddclk[t], lc.dddclk[t] = v
        if k == 'hclk':
            lc.hclk = lc.hclk or {}
            lc.hclk[t] = value(ctx, val(ctx, f'h{j}', 22, F(1, 10000)))
        if k == 'cbias':
            lc.cbias[t] = {rsig(s, 'C', c):
                           value(ctx, val(ctx, f'cb{j}.{c}', 14, F(1, 100)))
                           for c in use[t]}
        if k == 'pbias':
            r = {c: rsig(s, 'L', c) for c in use[t]}
            lc.pbias[t] = {r[c]: value(ctx, val(ctx, f'pb{j}.{c}', 20,
                                                F(1, 10000)))
                           for c in use[t]}
            lc.si[t] = {r[c]: ctx.int(f'si{j}.{c}', 0, 1) for c in use[t]}
            lc.di[t] = {r[c]: ctx.int(f'di{j}.{c}', 0, 15) for c in use[t]}
            e.iyaw = ctx.concrete(ctx.int('iyaw', 0, 1)) == 1 if j == 0 \
                else e.iyaw
            e.iexpb = 3
            lc.yaw[t] = value(ctx, ctx.int(f'yaw{j}', 0, 511*64)*F(1, 16384))
            lc.dyaw[t] = value(ctx, val(ctx, f'dy{j}', 8, F(1, 8192)))
    if k in ('orb', 'comb'):
        lc.iode[o], lc.dorb[o], lc.ddorb[o] = 1, [1.0]*3, [0.0]*3
    if k in ('clk', 'comb'):
        lc.dclk[o] = lc.ddclk[o] = lc.dddclk[o] = 0.01
    cs = run(ctx, e)
    times(ctx, cs, e, s)
    d = cs.lc[0]
    h = F(1, 2)+F(1, 1000)
    name = dict(orb='dorb', clk='dclk', comb='dorb', hclk='hclk',
                cbias='cbias', pbias='pbias')[k]
    ctx.eq('sats', sorted(getattr(d, name)), sorted([a, b]))
    for t in (a, b):
        if k in ('orb', 'comb'):
            ctx.eq('iode', d.iode[t], lc.iode[t])
            for j in range(3):
                ctx.close('dorb', d.dorb[t][j], lc.dorb[t][j], ORB[j][2]*h)
                ctx.close('ddorb', d.ddorb[t][j], lc.ddorb[t][j],
                          ORB[j+3][2]*h)
        if k in ('clk', 'comb'):
            ctx.close('dclk', d.dclk[t], lc.dclk[t], CLK[0][2]*h)
            ctx.close('ddclk', d.ddclk[t], lc.ddclk[t], CLK[1][2]*h)
            ctx.close('dddclk', d.dddclk[t], lc.dddclk[t], CLK[2][2]*h)
        if k == 'hclk':
            ctx.close('hclk', d.hclk[t], lc.hclk[t], F(1, 10000)*h)
        if k == 'cbias':
            for r, v in lc.cbias[t].items():
                ctx.close('cbias', d.cbias[t][r.str()], v, F(1, 100)*h)
            ctx.eq('n', len(d.cbias[t]), len(lc.cbias[t]))
        if k == 'pbias':
            for r, v in lc.pbias[t].items():
                n = r.str()
                ctx.close('pbias', d.pbias[t][n], v, F(1, 10000)*h)
                ctx.eq('si', ctx.num(d.si[t][n]), lc.si[t][r])
                ctx.eq('di', d.di[t][n], lc.di[t][r])
            ctx.eq('n', len(d.pbias[t]), len(lc.pbias[t]))
            if e.iyaw:
                ctx.close('yaw', d.yaw[t], lc.yaw[t], F(1, 256)*h)
                ctx.close('dyaw', d.dyaw[t], lc.dyaw[t], F(1, 8192)*h)
    for c in (dict(orb=[sCType.ORBIT], clk=[sCType.CLOCK],
                   hclk=[sCType.HCLOCK],
                   comb=[sCType.ORBIT, sCType.CLOCK], cbias=[sCType.CBIAS],
                   pbias=[sCType.PBIAS])[k]):
        ctx.eq('udi', cs.udi[c], e.x_udi)


@harness(cases=[c for c in SYSK if c[1] != 'hclk' and c != ['C', 'orb']
                and c[0] in 'GRE'])
def h_missing(ctx, case):
    """a missing (NaN) correction stays missing, the others are unaffected"""
    s, k = case
    a, b = pair(s)
    e = enc(ctx, s, k, [a, b])
    lc = e.lc[0]
    nan = float('nan')
    sg = sorted(SIG[s])
    ra = [rsig(s, 'L' if k == 'pbias' else 'C', c)
          for c in sg[:2]]
    lc.iode = {a: 1, b: 2}
    lc.dorb = {a: [0.5, nan, 0.25], b: [nan, 1.0, 2.0]}
    lc.ddorb = {a: [nan, 0.0, 0.0], b: [0.0, 0.0, nan]}
    lc.dclk, lc.ddclk, lc.dddclk = {a: nan, b: 0.5}, {a: 0.0, b: nan}, \
        {a: 0.0, b: 0.0}
    if k == 'cbias':
        lc.cbias = {a: {ra[0]: nan, ra[1]: 0.5}, b: {ra[0]: 0.25}}
    if k == 'pbias':
        lc.pbias = {a: {ra[0]: nan, ra[1]: 0.5}, b: {ra[0]: 0.25}}
        lc.si = {a: {r: 0 for r in ra}, b: {r: 0 for r in ra}}
        lc.di = {a: {r: 0 for r in ra}, b: {r: 0 for r in ra}}
    cs = run(ctx, e)
    d = cs.lc[0]
    for n in ('dorb', 'ddorb', 'dclk', 'ddclk', 'dddclk'):
        if n in ('dorb', 'ddorb') and k in ('orb', 'comb'):
            for t in (a, b):
                for j in range(3):
                    ctx.close(n, getattr(d, n)[t][j], getattr(lc, n)[t][j],
                              1e-9)
        if n.endswith('clk') and k in ('clk', 'comb'):
            for t in (a, b):
                ctx.close(n, getattr(d, n)[t], getattr(lc, n)[t], 1e-9)
    if k in ('cbias', 'pbias'):
        for t, v in getattr(lc, k).items():
            for r, x in v.items():
                ctx.close(k, getattr(d, k)[t][r.str()], x, 1e-9)


@harness(cases=[['G'], ['R'], ['E'], ['C'], ['J']])
def h_ura(ctx, case):
    """a URA value of the standard's table keeps its value"""
    s = case[0]
    a, b = pair(s)
    e = enc(ctx, s, 'ura', [a, b])
    cs0 = RT.rtcm()
    c, v = ctx.choice('cls', range(8)), ctx.choice('val', range(8))
    y = cs0.quality_idx(c, v)
    e.lc[0].ura = {a: y, b: 0.012}
    cs = run(ctx, e)
    ctx.eq('sats', sorted(cs.lc[0].ura), sorted([a, b]))
    ctx.close('ura', cs.lc[0].ura[a], y, 1e-9)
    ctx.check('other', abs(cs.lc[0].ura[b]-0.012) <= 0.0023)


@harness(cases=[['G', 'cbias'], ['G', 'ura'], ['E', 'cbias'], ['E', 'pbias']])
def h_subset(ctx, case):
    """corrections of a subset of the tracked satellites"""
    s, k = case
    a, b = pair(s)
    e = enc(ctx, s, k, [a, b])
    r = rSigRnx(f'{s}{"L" if k == "pbias" else "C"}1C')
    x = value(ctx, val(ctx, 'v', *((20, F(1, 10000)) if k == 'pbias' else
                                   (14, F(1, 100)))))
    if k == 'ura':
        e.lc[0].ura = {b: 0.012}
    elif k == 'cbias':
        e.lc[0].cbias = {b: {r: x}}
    else:
        e.lc[0].pbias = {b: {r: x}}
        e.lc[0].si, e.lc[0].di = {b: {r: 0}}, {b: {r: 0}}
    cs = run(ctx, e)
    got = getattr(cs.lc[0], k)
    ctx.eq('sats', list(got), [b])
    if k != 'ura':
        ctx.close('v', got[b][r.str()], x, F(51, 10000))


@harness(cases=[[s, k] for s in 'GRECJ' for k in ('orb', 'hclk')
                if (s, k) != ('C', 'orb')], budget=120)
def h_ids(ctx, case):
    """every satellite keeps its identity"""
    s, k = case
    n = ctx.choice('slot', range(PRN[s][0], PRN[s][1]+1))
    t = sat(s, n)
    e = enc(ctx, s, k, [t])
    lc = e.lc[0]
    lc.iode, lc.dorb, lc.ddorb = {t: 7}, {t: [1.0, 2.0, 3.0]}, {t: [0.0]*3}
    lc.hclk = {t: 0.5}
    cs = run(ctx, e)
    got = cs.lc[0].dorb if k == 'orb' else cs.lc[0].hclk
    ctx.eq('sat', list(got), [t])


@harness(cases=[s for s in 'GRECJ'])
def h_signals(ctx, case):
    """every signal keeps its identity"""
    s = case
    n = ctx.choice('sig', sorted(SIG[s]))
    t = sat(s, 2)
    for k, ty in (('cbias', 'C'), ('pbias', 'L')):
        class sub:
            symbolic = ctx.symbolic

            def __getattr__(self, q):
                f = getattr(ctx, q)
                return (lambda nm, *a: f(k+nm, *a)) if q in ('int', 'bool') \
                    else f
        e = enc(sub(), s, k, [t])
        r = rsig(s, ty, n)
        if k == 'cbias':
            e.lc[0].cbias = {t: {r: 0.5}}
        else:
            e.lc[0].pbias = {t: {r: 0.5}}
            e.lc[0].si, e.lc[0].di = {t: {r: 1}}, {t: {r: 2}}
        cs = run(ctx, e)
        ctx.eq('sig', list(getattr(cs.lc[0], k)[t]), [r.str()])


class named:
    """context whose input names carry a prefix"""

    def __init__(self, ctx, p):
        self.ctx, self.p, self.symbolic = ctx, p, ctx.symbolic

    def __getattr__(self, q):
        f = getattr(self.ctx, q)
        return (lambda nm, *a: f(self.p+nm, *a)) \
            if q in ('int', 'bool', 'real') else f


def give(ctx, lc, k, s, t, n, v):
    """correction v (in LSB) of kind k and satellite t, n signals"""
    for x in ('iode', 'dorb', 'ddorb', 'dclk', 'ddclk', 'dddclk', 'hclk',
              'ura'):
        if getattr(lc, x, None) is None:
            setattr(lc, x, {})
    r = [rsig(s, 'L' if k == 'pbias' else 'C', c)
         for c in sorted(SIG[s])[:n]]
    v = value(ctx, v*F(1, 100))
    lc.iode[t], lc.dorb[t], lc.ddorb[t] = 7, [v, 2.0, 3.0], [0.0]*3
    lc.dclk[t], lc.ddclk[t], lc.dddclk[t] = v, 0.0, 0.0
    lc.hclk[t] = v
    lc.ura[t] = 0.012
    if k == 'cbias':
        lc.cbias[t] = {x: v for x in r}
    if k == 'pbias':
        lc.pbias[t] = {x: v for x in r}
        lc.si[t], lc.di[t] = {x: 1 for x in r}, {x: 2 for x in r}


def seen(lc, k):
    """satellites (and signals) with a correction"""
    if k == 'comb':
        assert sorted(lc.dorb) == sorted(lc.dclk)
    d = getattr(lc, dict(orb='dorb', clk='dclk', comb='dorb').get(k, k))
    return {t: sorted(v) if k in ('cbias', 'pbias') else 0
            for t, v in d.items()}


def first(lc, k, t):
    d = getattr(lc, dict(orb='dorb', clk='dclk', comb='dorb').get(k, k))[t]
    return d[0] if k in ('orb', 'comb') else \
        next(iter(d.values())) if k in ('cbias', 'pbias') else d


@harness(cases=[[s, k, d] for k in ('orb', 'clk', 'comb', 'hclk', 'cbias',
                                    'pbias', 'ura')
                for s in 'GE' for d in ('later', 'same')])
def h_epochs(ctx, case):
    """a message of a later epoch replaces the corrections of that kind, one
    of the same epoch (another system) adds to them"""
    s, k, d = case
    a, b = pair(s)
    e = enc(named(ctx, 'a.'), s, k, [a, b])
    x, y = (ctx.int(n, -1000, 1000) for n in ('x', 'y'))
    give(ctx, e.lc[0], k, s, a, 2, x)
    give(ctx, e.lc[0], k, s, b, 2, x)
    cs = run(ctx, e)
    old = seen(cs.lc[0], k)
    ctx.eq('first', sorted(old), sorted([a, b]))
    s2 = s if d == 'later' else 'E' if s == 'G' else 'G'
    t = b if d == 'later' else sat(s2, 4)
    f = enc(named(ctx, 'b.'), s2, k, [t])
    give(ctx, f.lc[0], k, s2, t, 1, y)
    f.tow = e.tow
    if d == 'later':
        f.tow = e.tow+ctx.int('dt', 1, 600)
        ctx.assume(f.tow < 604800)
    run(ctx, f, cs)
    new = seen(cs.lc[0], k)
    ctx.eq('sats', sorted(new), [t] if d == 'later' else sorted([a, b, t]))
    if k in ('cbias', 'pbias'):
        ctx.eq('signals', len(new[t]), 1)
    if k != 'ura':
        h = F(51, 10000)
        ctx.close('new', first(cs.lc[0], k, t), y*F(1, 100), h)
        if d == 'same':
            ctx.close('kept', first(cs.lc[0], k, a), x*F(1, 100), h)
            ctx.eq('kept signals', {q: new[q] for q in old}, old)


@harness()
def h_bds_orbit(ctx, case):
    """BeiDou SSR orbit test message (type 63)"""
    a, b = pair('C')
    e = enc(ctx, 'C', 'orb', [a])
    e.lc[0].iode, e.lc[0].dorb, e.lc[0].ddorb = {a: 1}, {a: [1.0, 2.0, 3.0]},\
        {a: [0.0]*3}
    m = ctx.msg()
    m.pad(8*64)
    buf = m.buf()
    e.encode(buf)
    cs = RT.rtcm()
    cs.monlevel = 0
    cs.week = WEEK
    cs.time = TREF
    try:
        cs.decode(buf)
        done = cs.lc[0].dorb is not None
    except Exception:   # the other reading of type 63 overruns the message
        done = False
    ctx.check('decoded as orbit', done)
