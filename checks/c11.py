"""C11 Compact SSR atmospheric and network messages, MADOCA-PPP STEC"""
from fractions import Fraction as F
import numpy as np
from engine.api import harness
from cssrlib.cssrlib import sCType
from cssrlib.gnss import uGNSS, uTYP, gtime_t, mapfParam, prn2sat
from checks.csslib import (Css, HOUR, NCOEF, STEC, TOW, WEEK, decoder,
                           quality, sat, time_of)
from checks.c10 import codes, find, verify

BOUNDS = ['mask of three satellites of two systems, networks with 0..2 (one '
          'case 3) of them and 0..2 (thorough 3) grid points', 'all field '
          'values; reserved pattern in one field at a time; all network ids '
          'in h_net*', 'one week, message epochs within one hour', 'the '
          'mapping function parameters are compared with gnss.mapfParam at '
          'the latitude of the first grid point']
M = [('G', [1, 7], [0, 10, 12], [[0, 1], [0, 2]]), ('E', [3], [0], None)]
SUBS = [[0], [1], [2], [0, 1], [0, 2], [1, 2], []]
GRID = np.array([(1, 1, 24.25, 124.0, 0.0), (5, 1, 35.5, 139.75, 10.0),
                 (5, 2, 36.0, 139.25, 20.0), (12, 1, 43.0, 141.5, 5.0),
                 (31, 1, 27.0, 142.0, 1.0)],
                dtype=[('nid', '<i4'), ('gid', '<i4'), ('lat', '<f8'),
                       ('lon', '<f8'), ('alt', '<f8')])
NETS = sorted(set(int(x) for x in GRID['nid']))


def dec():
    cs = decoder()
    cs.grid = GRID
    return cs


def submask(c, sub):
    n = len(c.sats)
    c.m.put(n, sum(1 << (n-1-k) for k in sub))


def qual(ctx, c, p, full=False):
    if full:
        u = ctx.choice(p+'qc', range(8)), ctx.choice(p+'qv', range(8))
    else:
        u = (3, 1)
    c.m.put(3, u[0])
    c.m.put(3, u[1])
    return quality(*u)


def eqq(ctx, label, x, q):
    if q is None:
        ctx.nan(label, x)
    else:
        ctx.close(label, x, q, 1e-9)


def coeffs(c, p, n):
    return [c.fld(f'{p}c{j}', *STEC[j]) for j in range(NCOEF[n])]


def eqcoef(ctx, x, co):
    for j in range(6):
        ctx.close(f'c{j}', x[j], co[j] if j < len(co) else 0, 1e-9)


def others(ctx, cs, inet, before):
    """networks not named stay as they were"""
    for k in range(cs.MAXNET+1):
        if k != inet and (k != 0 or before):
            lc = cs.lc[k]
            for a in ('ci', 'dstec', 'dth', 'dtw', 'ct', 'stec_quality'):
                ctx.check(f'other:{a}', getattr(lc, a, None) is None)
            ctx.check('other:cstat', lc.cstat == (2**0 if k == 0 else 0))


def netsats(ctx, cs, inet, c, sub):
    ctx.eq('net:sats', list(cs.lc[inet].sat_n),
           [sat(*c.sats[k][:2]) for k in sub])
    ctx.eq('net:nsat', cs.lc[inet].nsat_n, len(sub))


def t0(ctx, cs, inet, c, sub, t, h):
    for k in sub:
        ctx.eq('t0', cs.lc[inet].t0[sat(*c.sats[k][:2])][t].time, time_of(h))


# subtype 8 ---------------------------------------------------------------
@harness(cases=[[st, i] for st in range(4) for i in range(len(SUBS))])
def h_stec(ctx, case):
    """STEC polynomial coefficients for the satellites of the network mask"""
    st, i = case
    stec(ctx, st, SUBS[i], 5, None)


@harness(cases=[j for j in range(6)])
def h_stec_nan(ctx, case):
    """reserved pattern of one coefficient"""
    stec(ctx, 3, [0, 2], 12, f's2.c{case}')


@harness(cases=[None], budget=120)
def h_stec_net(ctx, case):
    """every network id, every quality indicator"""
    stec(ctx, 0, [1], ctx.choice('inet', range(32)), None, True)


def stec(ctx, st, sub, inet, nan, full=False):
    c = Css(ctx, nan=nan)
    c.mask(M)
    h = c.head(8, 'b.', None, 3)
    c.m.put(2, st)
    c.m.put(5, inet)
    submask(c, sub)
    out = []
    for k in sub:
        q = qual(ctx, c, f's{k}.', full and inet == 7)
        out.append((q, coeffs(c, f's{k}.', st)))
    cs = dec()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    netsats(ctx, cs, inet, c, sub)
    lc = cs.lc[inet]
    ctx.eq('keys', sorted(lc.ci), sorted(lc.sat_n))
    for k, (q, co) in zip(sub, out):
        s = sat(*c.sats[k][:2])
        eqq(ctx, 'quality', lc.stec_quality[s], q)
        eqcoef(ctx, lc.ci[s], co)
    ctx.eq('udi', cs.udi[sCType.STEC], h['udi'])
    ctx.check('cstat', (lc.cstat >> sCType.STEC) & 1 == 1)
    ctx.check('functional', lc.flg_stec & 2 == 2)
    t0(ctx, cs, inet, c, sub, sCType.STEC, h)
    others(ctx, cs, inet, True)


# subtype 9 ---------------------------------------------------------------
@harness(cases=[[tt, rg, i, ng] for tt in (0, 1) for rg in (0, 1)
                for i in (0, 3, 4, 6) for ng in (0, 1, 2)],
         thorough=lambda t: [[tt, rg, i, ng] for tt in (0, 1, 2, 3)
                             for rg in (0, 1) for i in range(len(SUBS))
                             for ng in (0, 1, 2, 3)])
def h_grid(ctx, case):
    """gridded troposphere and STEC residuals"""
    tt, rg, i, ng = case
    grid(ctx, tt, rg, SUBS[i], ng, 5, None)


@harness(cases=['g1.dth', 'g0.dtw', 'g0.s1.r', 'g1.s0.r'])
def h_grid_nan(ctx, case):
    grid(ctx, 1, 0, [0, 1], 2, 5, case)


@harness(cases=NETS)
def h_grid_net(ctx, case):
    """every network of the grid: its mapping function, its quality"""
    grid(ctx, 1, 0, [1], 1, case, None, True)


def grid(ctx, tt, rg, sub, ng, inet, nan, full=False):
    c = Css(ctx, nan=nan)
    c.mask(M)
    tow = ctx.choice('tow', [0, 3570])
    h = c.head(9, 'b.', tow, 3)
    c.m.put(2, tt)
    c.m.put(1, rg)
    c.m.put(5, inet)
    submask(c, sub)
    q = qual(ctx, c, '', full)
    c.m.put(6, ng)
    sz = 16 if rg else 7
    tr, rs = [], {k: [] for k in sub}
    for g in range(ng):
        if tt:
            tr.append((c.fld(f'g{g}.dth', 9, F(4, 1000)),
                       c.fld(f'g{g}.dtw', 8, F(4, 1000))))
        for k in sub:
            rs[k].append(c.fld(f'g{g}.s{k}.r', sz, F(4, 100)))
    cs = dec()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    netsats(ctx, cs, inet, c, sub)
    lc = cs.lc[inet]
    ctx.eq('ng', lc.ng, ng)
    eqq(ctx, 'quality', lc.trop_quality, q)
    for g in range(ng):
        if tt:
            ctx.close('dth', lc.dth[g], tr[g][0], 1e-9)
            ctx.close('dtw', lc.dtw[g], tr[g][1], 1e-9)
    ctx.eq('len', [len(lc.dth), len(lc.dtw)], [ng, ng])
    ctx.eq('keys', sorted(lc.dstec), sorted(lc.sat_n))
    for k in sub:
        x = lc.dstec[sat(*c.sats[k][:2])]
        ctx.eq('len', len(x), ng)
        for g in range(ng):
            ctx.close('dstec', x[g], rs[k][g], 1e-9)
    ctx.eq('flag', lc.flg_trop, 3 if tt else 0)
    ctx.check('residual', lc.flg_stec & 1 == 1)
    mapf(ctx, lc, inet, h)
    ctx.eq('udi', cs.udi[sCType.TROP], h['udi'])
    ctx.check('cstat', (lc.cstat >> sCType.TROP) & 1 == 1)
    t0(ctx, cs, inet, c, sub, sCType.TROP, h)
    others(ctx, cs, inet, True)


def mapf(ctx, lc, inet, h):
    import math
    lat = float(GRID[GRID['nid'] == inet]['lat'][0])
    ah, aw = mapfParam(gtime_t(time_of(h)), math.radians(lat))
    for x, y in ((lc.maph, ah), (lc.mapw, aw)):
        for j in range(3):
            ctx.close('mapping', x[j], float(y[j]), 1e-12)


# subtype 12 --------------------------------------------------------------
@harness(cases=[[tr, tt, sz, ng] for tr in (0, 2, 3, 1)
                for tt in ((0, 1, 2) if tr & 2 else (0,))
                for sz in ((0, 1) if tr & 1 else (0,)) for ng in (0, 2)])
def h_atmos_trop(ctx, case):
    """troposphere part of the atmospheric correction message"""
    tr, tt, sz, ng = case
    atmos(ctx, tr, tt, sz, 0, [], [1], ng, 5, None)


@harness(cases=[[st, a, b, i, ng] for st in (1, 2, 3) for a in range(4)
                for b in range(4) for i, ng in ((3, 1), (0, 2))
                if (st & 1 or a == 0) and (st & 2 or b == 0)])
def h_atmos_stec(ctx, case):
    """STEC part: polynomial type and residual size of each satellite"""
    st, a, b, i, ng = case
    sub = SUBS[i]
    kinds = [(a, b), (3-a, (b+1) % 4)][:len(sub)]
    atmos(ctx, 0, 0, 0, st, kinds, sub, ng, 12, None)


@harness(cases=['t00', 't01', 't10', 't11', 'w1', 's0.c0', 's2.c5', 's0.r1',
                's2.r0'])
def h_atmos_nan(ctx, case):
    atmos(ctx, 3, 2, 1, 3, [(3, 2), (1, 3)], [0, 2], 2, 5, case)


@harness(cases=[None], budget=120)
def h_atmos_net(ctx, case):
    """both parts; every network of the grid"""
    inet = ctx.choice('inet', NETS)
    atmos(ctx, 3, 1, 0, 3, [(1, 0), (2, 3)], [1, 2], 1, inet, None,
          inet == 1)


def atmos(ctx, tr, tt, sz, st, kinds, sub, ng, inet, nan, full=False):
    c = Css(ctx, nan=nan)
    c.mask(M)
    h = c.head(12, 'b.', 1800, 3)
    m = c.m
    m.put(2, tr)
    m.put(2, st)
    m.put(5, inet)
    m.put(6, ng)
    ct = {}
    w = []
    q = None
    if tr:
        q = qual(ctx, c, 't', full)
    if tr & 2:
        m.put(2, tt)
        ct[0, 0] = c.fld('t00', 9, F(4, 1000))+F(23, 10)
        if tt > 0:
            ct[0, 1] = c.fld('t01', 7, F(2, 1000))
            ct[0, 2] = c.fld('t10', 7, F(2, 1000))
        if tt > 1:
            ct[0, 3] = c.fld('t11', 7, F(1, 1000))
    if tr & 1:
        m.put(1, sz)
        ct[1, 0] = m.u('ofst', 4)*F(2, 100)
        w = [c.fld(f'w{g}', 8 if sz else 6, F(4, 1000)) for g in range(ng)]
    submask(c, sub)
    out = []
    for k, (a, b) in zip(sub, kinds):
        o = {}
        if st:
            o['q'] = qual(ctx, c, f's{k}.')
        if st & 2:
            m.put(2, b)
            o['c'] = coeffs(c, f's{k}.', b)
        if st & 1:
            m.put(2, a)
            n, scl = [(4, F(4, 100)), (4, F(12, 100)), (5, F(16, 100)),
                      (7, F(24, 100))][a]
            o['r'] = [c.fld(f's{k}.r{g}', n, scl) for g in range(ng)]
        out.append(o)
    cs = dec()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    netsats(ctx, cs, inet, c, sub)
    lc = cs.lc[inet]
    ctx.eq('flags', [lc.flg_trop, lc.flg_stec, lc.ng], [tr, st, ng])
    if tr:
        eqq(ctx, 'trop quality', lc.trop_quality, q)
        ctx.eq('udi', cs.udi[sCType.TROP], h['udi'])
        mapf(ctx, lc, inet, h)
    ctx.check('cstat trop', ((lc.cstat >> sCType.TROP) & 1) == int(tr > 0))
    ctx.check('cstat stec', ((lc.cstat >> sCType.STEC) & 1) == int(st > 0))
    for i in range(2):
        for j in range(4):
            ctx.close(f'ct{i}{j}', lc.ct[i, j], ct.get((i, j), 0), 1e-9)
    if tr & 1:
        ctx.eq('len', len(lc.dtw), ng)
        for g in range(ng):
            ctx.close('dtw', lc.dtw[g], w[g], 1e-9)
    for k, o in zip(sub, out):
        s = sat(*c.sats[k][:2])
        if st:
            eqq(ctx, 'quality', lc.stec_quality[s], o['q'])
        if st & 2:
            ctx.eq('keys', sorted(lc.ci), sorted(lc.sat_n))
            eqcoef(ctx, lc.ci[s], o['c'])
        if st & 1:
            ctx.eq('keys', sorted(lc.dstec), sorted(lc.sat_n))
            ctx.eq('len', len(lc.dstec[s]), ng)
            for g in range(ng):
                ctx.close('dstec', lc.dstec[s][g], o['r'][g], 1e-9)
    if st:
        ctx.eq('udi stec', cs.udi[sCType.STEC], h['udi'])
        t0(ctx, cs, inet, c, sub, sCType.STEC, h)
    others(ctx, cs, inet, True)


# network bias (6) and network orbit/clock (11) -----------------------------
def netmsg(ctx, c, sub, kind, opt, inet, sat_sub, p=''):
    """append a network message; returns header and expected values"""
    m = c.m
    h = c.head(sub, p+'b.', None, 3)
    x, y = ('c', 'p') if kind == 'bias' else ('o', 'c')
    m.put(1, int(x in opt))
    m.put(1, int(y in opt))
    m.put(1, 1)
    m.put(5, inet)
    submask(c, sat_sub)
    out = []
    for k in sat_sub:
        s, slot, sg = c.sats[k]
        q = f'{p}s{k}.'
        o = dict(s=s, slot=slot)
        if kind == 'comb':
            if 'o' in opt:
                o['iode'], o['orb'] = c.orb(s, q)
            if 'c' in opt:
                o['clk'] = c.clk(q)
        else:
            if 'c' in opt:
                o['cb'] = []
            if 'p' in opt:
                o['pb'] = []
            for j in sg:
                if 'c' in opt:
                    o['cb'].append((j, c.cb(f'{q}{j}.')))
                if 'p' in opt:
                    o['pb'].append((j, *c.pb(f'{q}{j}.')))
        out.append(o)
    return h, out


NETCASES = [[k, o, i] for k, os in (('bias', ('c', 'p', 'cp')),
                                    ('comb', ('o', 'c', 'oc')))
            for o in os for i in range(6)]


@harness(cases=NETCASES)
def h_net(ctx, case):
    """network bias / orbit+clock of the satellites in the network mask"""
    kind, opt, i = case
    c = Css(ctx)
    c.mask(M)
    inet = ctx.choice('inet', [1, 5, 31])
    h, out = netmsg(ctx, c, 6 if kind == 'bias' else 11, kind, opt, inet,
                    SUBS[i])
    cs = dec()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    verify(ctx, cs, out, inet)
    for k in range(cs.MAXNET+1):
        if k != inet:
            lc = cs.lc[k]
            ctx.check('other', lc.dorb is None and lc.dclk is None and
                      not lc.cbias and not lc.pbias and not lc.di)
    ctx.eq('epoch', cs.time.time, time_of(h))


@harness(cases=[[k, o] for k, o, i in NETCASES if i == 0])
def h_net_two(ctx, case):
    """messages of two networks do not mix; the last of a network holds"""
    kind, opt = case
    c = Css(ctx)
    c.mask(M)
    n = 6 if kind == 'bias' else 11
    ha, oa = netmsg(ctx, c, n, kind, opt, 5, [0, 2], 'a')
    hb, ob = netmsg(ctx, c, n, kind, opt, 12, [1, 2], 'b')
    hc, oc = netmsg(ctx, c, n, kind, opt, 5, [1], 'c')
    cs = dec()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    verify(ctx, cs, oc, 5)
    verify(ctx, cs, ob, 12)


@harness(cases=[None])
def h_stec_two(ctx, case):
    """STEC of two networks"""
    c = Css(ctx)
    c.mask(M)
    exp = []
    for p, inet, sub, st in (('a', 3, [0, 1], 2), ('b', 4, [1, 2], 1)):
        c.head(8, p, None, 3)
        c.m.put(2, st)
        c.m.put(5, inet)
        submask(c, sub)
        for k in sub:
            q = qual(ctx, c, p)
            exp.append((inet, k, coeffs(c, f'{p}{k}.', st)))
    cs = dec()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    netsats(ctx, cs, 3, c, [0, 1])
    netsats(ctx, cs, 4, c, [1, 2])
    for inet, k, co in exp:
        eqcoef(ctx, cs.lc[inet].ci[sat(*c.sats[k][:2])], co)


@harness(cases=[[n, cnt] for n in range(4) for cnt in (0, 1, 3, 7)])
def h_sinfo(ctx, case):
    """service information: data parts are stored at their place"""
    n, cnt = case
    c = Css(ctx)
    m = c.m
    m.put(12, 4073)
    m.put(4, 10)
    mi = m.u('mi', 1)
    m.put(3, cnt)
    m.put(2, n)
    a = len(m)
    m.any('data', 40*(n+1))
    bits = m.b[a:]
    cs = dec()
    cs.sinfo = ctx.bytes('old', 160)
    old = [cs_bit(cs.sinfo, k) for k in range(1280)]
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    j = (n+1)*40*cnt
    for k in range(1280):
        want = bits[k-j] if j <= k < j+40*(n+1) else old[k]
        ctx.check('bit', same(ctx, cs_bit(cs.sinfo, k), want))


def cs_bit(buf, k):
    if hasattr(buf, 'bits'):
        return buf.bits[k]
    return (buf[k//8] >> (7-k % 8)) & 1


def same(ctx, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a is b


# MADOCA-PPP ---------------------------------------------------------------
GN = [('G', uGNSS.GPS, 0), ('R', uGNSS.GLO, 0), ('E', uGNSS.GAL, 0),
      ('C', uGNSS.BDS, 0), ('J', uGNSS.QZS, 192)]
NAREA = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}


def mdc():
    from cssrlib.cssr_mdc import cssr_mdc
    cs = cssr_mdc()
    cs.monlevel = 0
    cs.week = WEEK
    cs.tow0 = HOUR
    return cs


@harness(cases=[[st, i] for st in range(4) for i in range(4)])
def h_mdc_stec(ctx, case):
    """MT2: STEC polynomial of a region/area"""
    st, i = case
    ns = [[1, 0, 0, 0, 1], [0, 1, 0, 2, 0], [2, 0, 1, 0, 0],
          [1, 1, 1, 1, 1]][i]
    prn = [[9, 32], [24], [36, 1], [60, 5], [7]]
    reg = ctx.choice('reg', [1, 2, 3, 4, 5])
    area = ctx.choice('area', range(1, NAREA[reg]+1))
    c = Css(ctx)
    m = c.m
    m.put(12, 2)
    m.put(4, 0)
    dtow = m.put(12, ctx.int('dtow', 0, 3599))
    m.any('ui', 4)
    m.any('mi', 1)
    iod = m.u('iod', 4)
    m.put(8, reg)
    m.put(5, area)
    m.put(2, st)
    for n in ns:
        m.put(5, n)
    exp = {}
    order = []
    for g, n in enumerate(ns):
        for k in range(n):
            m.put(6, prn[g][k])
            qi = m.u(f'{g}.{k}.qi', 6)
            co = [c.fld(f'{g}.{k}.c{j}', *STEC[j]) for j in range(NCOEF[st])]
            s = prn2sat(GN[g][1], prn[g][k]+GN[g][2])
            order.append(s)
            exp[s] = (qi, co)
    cs = mdc()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    inet = sum(NAREA[r] for r in range(1, reg))+area
    lc = cs.lc[inet]
    ctx.eq('sats', list(lc.sat_n), order)
    ctx.eq('nsat', lc.nsat_n, len(order))
    ctx.eq('keys', sorted(lc.ci), sorted(order))
    for s in order:
        ctx.eq('quality', lc.stec_quality[s], exp[s][0])
        eqcoef(ctx, lc.ci[s], exp[s][1])
    ctx.check('cstat', (lc.cstat >> sCType.STEC) & 1 == 1)
    ctx.eq('epoch', lc.t0[0][sCType.STEC].time,
           time_of(dict(tow=HOUR))+dtow)
    for k in range(len(cs.lc)):
        if k != inet:
            ctx.check('other', cs.lc[k].ci is None)


@harness(cases=[[0], [1], [0, 1], [1, 1, 0]])
def h_mdc_area(ctx, case):
    """MT1: shape, reference point and extent of the coverage areas"""
    c = Css(ctx)
    m = c.m
    m.put(12, 1)
    m.put(4, 0)
    tow = m.put(20, ctx.int('tow', 0, 604799))
    m.any('ui', 5)
    m.any('iod', 4)
    reg = ctx.choice('reg', [1, 2, 3, 4, 5])
    m.put(8, reg)
    alrt = m.u('alert', 1)
    m.any('len', 16)
    m.put(5, len(case))
    exp = []
    for k, sid in enumerate(case):
        m.put(5, k+2)
        m.put(1, sid)
        if sid == 0:
            v = [m.s(f'lat{k}', 11)*F(1, 10), m.u(f'lon{k}', 12)*F(1, 10),
                 m.u(f'dlat{k}', 8)*F(1, 10), m.u(f'dlon{k}', 8)*F(1, 10)]
        else:
            v = [m.s(f'lat{k}', 15)*F(1, 100), m.u(f'lon{k}', 16)*F(1, 100),
                 m.u(f'rng{k}', 8)*10]
        exp.append((k+2, sid, v))
    cs = mdc()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    ctx.eq('regions', sorted(cs.pnt), [reg])
    ctx.eq('areas', sorted(cs.pnt[reg]), [e[0] for e in exp])
    ctx.eq('alert', cs.alrt, alrt)
    ctx.eq('hour', cs.tow0, ctx.floor(tow*F(1, 3600))*3600)
    for a, sid, v in exp:
        p = cs.pnt[reg][a]
        ctx.eq('shape', p.sid, sid)
        ctx.close('lat', p.latr, v[0], 1e-9)
        ctx.close('lon', p.lonr, v[1], 1e-9)
        if sid == 0:
            ctx.close('dlat', p.lats, v[2], 1e-9)
            ctx.close('dlon', p.lons, v[3], 1e-9)
        else:
            ctx.close('range', p.rng, v[2], 1e-9)


@harness(cases=['orb', 'clk', 'cbias', 'pbias', 'bias-cp'])
def h_mdc_css(ctx, case):
    """MADOCA-PPP Compact SSR messages"""
    from checks.c10 import message, sections
    c = Css(ctx)
    c.mask(M)
    h, out = message(c, case)
    cs = mdc()
    ctx.eq('end', cs.decode_cssr(c.buf(), 0), -1)
    sections(ctx, c, cs)
    verify(ctx, cs, out)
