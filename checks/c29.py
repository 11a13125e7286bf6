"""C29 SBAS L1 and DFMC messages, ionospheric grid"""
import math
import numpy as np
from fractions import Fraction as F
from engine.api import harness
from cssrlib import sbas as SB
from cssrlib.cssrlib import sCType
from cssrlib.gnss import uGNSS, prn2sat, gpst2time, timeadd, timediff, rCST

BOUNDS = ['one message, or a mask followed by up to three messages; every '
          'field value except the largest positive one of signed fields '
          '(treated as not available)', 'PRN and grid masks from a list of '
          'patterns with three arbitrary bits', 'grid interpolation: seven '
          'cells, any position in the cell, any delays, any subset of '
          'points; slant factor and pierce point for |latitude| < 70 deg',
          'GNSS time offsets (MT12, MT42) and message 0 are not decoded; '
          'I_valid of MT37 is not checked']
CL = 299792458.0
WEEK, DAY, TOD = 2250, 3*86400, 45000
T0 = gpst2time(WEEK, DAY+TOD)


def decoder(nf=1):
    cs = SB.sbasDec(nf=nf)
    cs.monlevel = 0
    cs.set_time(T0)
    cs.time = T0
    return cs


def l1(ctx, mt, p=''):
    m = ctx.msg()
    m.u(p+'pre', 8)
    m.put(6, mt)
    return m


def l5(ctx, mt, p=''):
    m = ctx.msg()
    m.u(p+'pre', 4)
    m.put(6, mt)
    return m


def done(ctx, m, p='', src=0):
    """parity and filling"""
    n = (226 if src == 0 else 226)-len(m)
    if n:
        m.any(p+'spare', n)
    m.any(p+'crc', 24)
    m.put(-len(m) % 8, 0)
    return m.buf()


def sfield(ctx, m, n, w):
    v = m.s(n, w)
    ctx.assume(v != (1 << (w-1))-1)
    return v


MASK = {5: ['G3', 'G7', 'G21', 'R4', 'S128'],
        13: ['G%d' % k for k in range(2, 15)],
        20: ['G%d' % k for k in range(1, 33, 2)]+['R1', 'R24', 'S120', 'S158'],
        51: ['G%d' % k for k in range(1, 33)]+['R%d' % k for k in range(1, 19)]
        + ['S137']}
SYS = {'G': uGNSS.GPS, 'R': uGNSS.GLO, 'S': uGNSS.SBS, 'E': uGNSS.GAL,
       'C': uGNSS.BDS, 'J': uGNSS.QZS}


def sat(s):
    return prn2sat(SYS[s[0]], int(s[1:]))


def slot(s):
    """PRN slot of a satellite"""
    return int(s[1:])+{'G': 0, 'R': 37, 'S': 0}[s[0]]


def masked(n, iodp):
    """decoder that has received a mask"""
    cs = decoder()
    cs.sat = [sat(s) for s in MASK[n]]
    cs.iodp = cs.iodssr = iodp
    return cs


@harness(cases=[[n, b] for n in (5, 13, 20, 51) for b in
                (0, 10, 31, 36, 38, 59, 119, 140, 156)])
def h_mask(ctx, case):
    """PRN mask: exactly the satellites whose bits are set, in slot order"""
    n, b = case
    on = {slot(s) for s in MASK[n]}
    m = l1(ctx, 1)
    bits = []
    for k in range(1, 211):
        if b < k <= b+2 and not 32 < k <= 37:
            v = 1 if ctx.choice(f'b{k}', [0, 1]) else 0
        else:
            v = 1 if k in on else 0
        bits.append(v)
        m.put(1, v)
    iodp = m.u('iodp', 2)
    cs = decoder()
    cs.sat = [77]
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    ref = [k+1 for k, v in enumerate(bits) if v]
    ref = [prn2sat(uGNSS.GPS, k) if k <= 37 else prn2sat(uGNSS.GLO, k-37)
           if k <= 61 else prn2sat(uGNSS.SBS, k) for k in ref]
    ctx.check('satellites', [int(v) for v in cs.sat] == ref)
    ctx.eq('iodp', cs.iodp, iodp)


def fast(ctx, cs, ref, n, type_, prc, udre, ok):
    for k in range(13 if n == 13 else 6):
        j = type_*13+k
        if j >= len(ref):
            continue
        s = ref[j]
        if ok:
            ctx.close(f'prc{k}', cs.lc[0].hclk[s], -prc[k]*F(1, 8), 1e-9)
            ctx.eq(f'udrei{k}', cs.obad.udrei[s], udre[k])
            ctx.eq(f't{k}', cs.lc[0].t0[s][sCType.HCLOCK].time, T0.time)
    want = {ref[type_*13+k] for k in range(n) if type_*13+k < len(ref)} \
        if ok else set()
    ctx.check('only', set(cs.lc[0].hclk) == want)
    ctx.check('only udrei', set(cs.obad.udrei) == want)


@harness(cases=[[n, t] for n in (5, 13, 20, 51) for t in range(4)])
def h_fast(ctx, case):
    """message types 2 to 5"""
    n, t = case
    ref = [sat(s) for s in MASK[n]]
    iodp = ctx.choice('iodp', [0, 1, 2, 3])
    cs = masked(n, iodp)
    m = l1(ctx, 2+t)
    m.u('iodf', 2)
    p2 = m.u('p', 2)
    prc = [sfield(ctx, m, f'c{k}', 12) for k in range(13)]
    ud = [m.u(f'u{k}', 4) for k in range(13)]
    ok = bool(p2 == iodp)
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    fast(ctx, cs, ref, 13, t, prc, ud, ok)
    ctx.check('status', (cs.lc[0].cstat >> sCType.HCLOCK & 1) == ok)


def half(ctx, m, p, vc, iodp, mask):
    """long-term half message; expected (mask number, values)"""
    m.put(1, vc)
    o = []
    if vc == 0:
        for k in range(2):
            q = f'{p}{k}'
            sl = m.put(6, ctx.choice(q+'s', [0, 1, 3+k, len(mask)]))
            iode = m.u(q+'i', 8)
            d = [m.s(q+a, 9) for a in 'xyz']
            b = m.s(q+'b', 10)
            o.append((sl, iode, d, b, None, None, None))
        m.put(2, iodp)
        m.any(p+'sp', 1)
    else:
        sl = m.put(6, ctx.choice(p+'s', [0, 1, 4, len(mask)]))
        iode = m.u(p+'i', 8)
        d = [sfield(ctx, m, p+a, 11) for a in 'xyz']
        b = sfield(ctx, m, p+'b', 11)
        v = [sfield(ctx, m, p+'v'+a, 8) for a in 'xyz']
        bd = sfield(ctx, m, p+'bd', 8)
        t = m.put(13, ctx.choice(p+'t', [2800, 2823, 2750]))
        m.put(2, iodp)
        o.append((sl, iode, d, b, v, bd, t))
    return o


def long_(ctx, cs, mask, exp):
    """exp: expected corrections in order"""
    lc = cs.lc[0]
    last = {}
    for e in exp:
        if e[0] > 0:
            last[mask[e[0]-1]] = e
    ctx.check('only', set(lc.dorb) == set(last) == set(lc.iode))
    ctx.check('listed', set(last) <= {int(s) for s in cs.sat_n})
    for s, (sl, iode, d, b, v, bd, t) in last.items():
        if s not in lc.dorb:
            continue
        ctx.eq('iode', lc.iode[s], iode)
        for k in range(3):
            ctx.close(f'orbit{k}', lc.dorb[s][k], -d[k]*F(1, 8), 1e-9)
            ctx.close(f'rate{k}', lc.dvel[s][k], -v[k]*F(1, 2048) if v else 0,
                      1e-9)
        ctx.close('clock', lc.dclk[s], b*2.0**-31*CL, 1e-9)
        ctx.close('drift', lc.ddft[s], bd*2.0**-39*CL if v else 0, 1e-12)
        tr = T0.time if t is None else T0.time-TOD+t*16
        for c in (sCType.CLOCK, sCType.ORBIT):
            ctx.eq('t0', lc.t0[s][c].time, tr)


@harness(cases=[[n, a, b] for n in (5, 20) for a in (0, 1) for b in (0, 1)],
         max_paths=4000, weight=3)
def h_long(ctx, case):
    """message type 25: two half messages, each only with the right mask"""
    n, a, b = case
    mask = [sat(s) for s in MASK[n]]
    cs = masked(n, 2)
    m = l1(ctx, 25)
    p1, p2 = ctx.choice('iodp1', [2, 3]), ctx.choice('iodp2', [2, 1])
    e1 = half(ctx, m, 'a', a, p1, mask)
    e2 = half(ctx, m, 'b', b, p2, mask)
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    long_(ctx, cs, mask, (e1 if p1 == 2 else [])+(e2 if p2 == 2 else []))


@harness(cases=[[n, t, v] for n in (5, 20) for t in (0, 1, 3) for v in (0, 1)],
         weight=3)
def h_mixed(ctx, case):
    """message type 24: six fast corrections and a half message"""
    n, t, v = case
    mask = [sat(s) for s in MASK[n]]
    cs = masked(n, 1)
    m = l1(ctx, 24)
    p1, p2 = ctx.choice('iodp1', [1, 0]), ctx.choice('iodp2', [1, 3])
    prc = [sfield(ctx, m, f'c{k}', 12) for k in range(6)]
    ud = [m.u(f'u{k}', 4) for k in range(6)]
    m.put(2, p1)
    m.put(2, t)
    m.u('iodf', 2)
    m.any('sp', 4)
    e = half(ctx, m, 'a', v, p2, mask)
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    fast(ctx, cs, mask, 6, t, prc, ud, p1 == 1)
    if p1 == 1:
        long_(ctx, cs, mask, e if p2 == 1 else [])
    else:
        ctx.check('none', not cs.lc[0].dorb)


@harness(cases=[5, 13, 51])
def h_integ(ctx, n):
    """message types 6 and 7: one value per satellite of the mask"""
    ref = [sat(s) for s in MASK[n]]
    cs = masked(n, 1)
    m = l1(ctx, 6)
    m.any('iodf', 8)
    ud = [m.u(f'u{k}', 4) for k in range(51)]
    cs.decode_cssr(done(ctx, m), 0)
    p = ctx.choice('p', [1, 2])
    m = l1(ctx, 7, 'b')
    m.any('lat', 4)
    m.put(2, p)
    m.any('s', 2)
    ai = [m.u(f'a{k}', 4) for k in range(51)]
    cs.decode_cssr(done(ctx, m, 'b'), 0)
    ctx.end()
    ctx.check('only', set(cs.obad.udrei) == set(ref))
    ctx.check('only ai', set(cs.ai) == (set(ref) if p == 1 else set()))
    for k, s in enumerate(ref):
        ctx.eq(f'u{k}', cs.obad.udrei[s], ud[k])
        if p == 1:
            ctx.eq(f'a{k}', cs.ai[s], ai[k])


@harness(cases=[120, 137, 158])
def h_range(ctx, prn):
    """message type 9: position, velocity, acceleration and clock"""
    cs = decoder()
    m = l1(ctx, 9)
    m.any('iodn', 8)
    t0 = ctx.choice('t0', [2800, 2823, 5390])
    m.put(13, t0)
    ura = m.put(4, ctx.choice('ura', [0, 5, 6, 14]))
    f = [(a, w, sfield(ctx, m, a, w), l) for a, w, l in
         (('x', 30, .08), ('y', 30, .08), ('z', 25, .4),
          ('vx', 17, .000625), ('vy', 17, .000625), ('vz', 18, .004),
          ('ax', 10, .0000125), ('ay', 10, .0000125), ('az', 10, .0000625),
          ('af0', 12, 2.0**-31), ('af1', 8, 2.0**-40))]
    cs.decode_cssr(done(ctx, m), 0, 0, prn)
    ctx.end()
    e = cs.Seph
    ctx.eq('sat', e.sat, prn2sat(uGNSS.SBS, prn))
    got = list(e.pos)+list(e.vel)+list(e.acc)+[e.af0, e.af1]
    for (a, w, v, l), g in zip(f, got):
        ctx.close(a, g*(1/l), v, 1e-6)
    ref = t0*16
    if ref-TOD > 43200:
        ref -= 86400
    ctx.eq('t0', e.t0.time, T0.time-TOD+ref)
    ctx.eq('ura', e.sva, {0: 2, 5: 11.3, 6: 16, 14: 4096}[ura])


DEG = [('Brrc', 10, .002), ('Cltc_lsb', 10, .002), ('Cltc_v1', 10, .00005),
       ('Iltc_v1', 9, 1), ('Cltc_v0', 10, .002), ('Iltc_v0', 9, 1),
       ('Cgeo_lsb', 10, .0005), ('Cgeo_v', 10, .00005), ('Igeo', 9, 1),
       ('Cer', 6, .5), ('Ciono_step', 10, .001), ('Iiono', 9, 1),
       ('Ciono_ramp', 10, .000005), ('RSS_UDRE', 1, 1), ('RSS_iono', 1, 1),
       ('Ccov', 7, .1)]


@harness(cases=[0])
def h_deg(ctx, case):
    """message type 10: degradation parameters"""
    cs = decoder()
    m = l1(ctx, 10)
    v = [m.u(a, w) for a, w, l in DEG]
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    for k, (a, w, l) in enumerate(DEG):
        ctx.close(a, cs.deg_prm[k]*(1/l), v[k], 1e-6)


@harness(cases=[[2800, 0], [2823 % 1350, 1], [10, 2]])
def h_alm(ctx, case):
    """message type 17: up to three GEO almanacs and their time"""
    ta, nz = case
    ta = ta % 1350
    cs = decoder()
    m = l1(ctx, 17)
    o = []
    for k in range(3):
        m.any(f'id{k}', 2)
        prn = m.put(8, 0 if k == nz else 120+13*k)
        h = m.u(f'h{k}', 8)
        f = [sfield(ctx, m, f'{a}{k}', w) for a, w in
             (('x', 15), ('y', 15), ('z', 9), ('u', 3), ('v', 3), ('w', 4))]
        o.append((prn, h, f))
    m.put(11, ta)
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    ctx.check('only', set(cs.Alm) == {prn2sat(uGNSS.SBS, p) for p, h, f in o
                                      if p})
    for p, h, f in o:
        if not p:
            continue
        a = cs.Alm[prn2sat(uGNSS.SBS, p)]
        ctx.eq('svh', a.svh, h)
        ref = ta*64
        if ref-TOD > 43200:
            ref -= 86400
        if ref-TOD < -43200:
            ref += 86400
        ctx.eq('t0', a.t0.time, T0.time-TOD+ref)
        for v, g, l in zip(f, list(a.pos)+list(a.vel),
                           (2600, 2600, 26000, 10, 10, 60)):
            ctx.close('v', g, v*l, 1e-6)


IGPS = {3: [0, 5, 27, 28, 60, 100, 101, 102, 150, 199, 200],
        4: list(range(20, 56)), 8: [1, 2, 3, 199], 9: [0, 71, 72, 191],
        10: [0, 71, 72, 191]}


def igp_mask(ctx, band, idx, iodi, p='', nb=3):
    m = l1(ctx, 18, p)
    m.put(4, nb)
    m.put(4, band)
    m.put(2, iodi)
    for k in range(201):
        m.put(1, 1 if k in idx else 0)
    return done(ctx, m, p)


def igp_delay(ctx, band, blk, iodi, p=''):
    m = l1(ctx, 26, p)
    m.put(4, band)
    m.put(4, blk)
    bad = ctx.choice(p+'bad', [0, 3, 14])
    v = []
    for k in range(15):
        if k == bad:
            d = m.put(9, 511)
        else:
            d = m.u(f'{p}d{k}', 9)
            ctx.assume(d != 511)
        v.append((d, m.u(f'{p}g{k}', 4)))
    m.put(2, iodi)
    return done(ctx, m, p), v


def coord(band, k):
    """latitude and longitude of bit k of a band"""
    lat1 = list(range(-55, 60, 5))
    if band < 9:
        for c in range(8):
            lon = -180+40*band+5*c
            if c % 2:
                lats = lat1
            else:
                lats = [-75, -65]+lat1+[65, 75]
                if c == band % 2*band and band % 2 == 0 and c == 0:
                    pass
                # 85 N on every 90 deg from 180 W, 85 S shifted by 40 deg
                if (lon+180) % 90 == 0:
                    lats = lats+[85]
                if (lon+140) % 90 == 0:
                    lats = [-85]+lats
            if k < len(lats):
                return lats[k], lon
            k -= len(lats)
    sg = 1 if band == 9 else -1
    for c in range(5):
        st = [5, 10, 10, 10, 30][c]
        l0 = -170 if (c == 4 and sg < 0) else -180
        lons = list(range(l0, 180, st))
        if k < len(lons):
            return sg*(60+5*c), lons[k]
        k -= len(lons)


@harness(cases=[[b, d] for b in (3, 4, 8, 9, 10) for d in (0, 1)])
def h_igp(ctx, case):
    """message types 18 and 26: the delay of each point of the mask"""
    band, hist = case
    idx = IGPS[band]
    cs = decoder()
    iodi = 1
    ref = {}
    if hist:
        # an earlier mask with other points, with delays
        old = idx[:2]+[idx[1]+1]
        kind = ctx.choice('old', ['iodi', 'same iodi'])
        cs.decode_cssr(igp_mask(ctx, band, old, 1 if kind == 'same iodi'
                                else 0, 'o'), 0)
        b, v = igp_delay(ctx, band, 0, 1 if kind == 'same iodi' else 0, 'p')
        cs.decode_cssr(b, 0)
    cs.decode_cssr(igp_mask(ctx, band, idx, iodi, 'm'), 0)
    ctx.check('points', list(cs.igp_idx[band]) == idx)
    for k, i in enumerate(idx):
        lat, lon = coord(band, i)
        g = cs.igp_t[band][cs.igp_idx[band]][k]
        ctx.check('coordinates', g[0] == lat and g[1] == lon)
    kind = ctx.choice('kind', ['ok', 'iodi', 'band'])
    blk = ctx.choice('blk', [0, 1, 2])
    b, v = igp_delay(ctx, band if kind != 'band' else 6, blk,
                     iodi if kind != 'iodi' else 2, 'd')
    cs.decode_cssr(b, 0)
    if kind == 'ok':
        ref = {blk*15+k: v[k] for k in range(15) if blk*15+k < len(idx)}
    # a repeated mask keeps the delays
    cs.decode_cssr(igp_mask(ctx, band, idx, iodi, 'n'), 0)
    ctx.end()
    ctx.check('length', len(cs.vtec[band]) == len(idx) == len(cs.givei[band]))
    ctx.check('bands', set(cs.vtec) == {band})
    for k in range(len(idx)):
        g, d = cs.givei[band][k], cs.vtec[band][k]
        bad = isinstance(d, float) and d != d
        usable = ctx.and_(g < 15, not bad)
        if k not in ref:
            ctx.check(f'unset{k}', ctx.not_(usable))
            continue
        dv, gv = ref[k]
        ctx.eq(f'givei{k}', g, gv)
        if bad:
            ctx.check(f'nan{k}', dv == 511)
        else:
            ctx.check(f'valid{k}', dv != 511)
            ctx.close(f'vtec{k}', d, dv*F(1, 8), 1e-9)
    if kind == 'ok':
        ctx.eq('t0', cs.lc[band+1].t0[0][sCType.VTEC].time, T0.time)


# cells: latitude, longitude of the south-west corner, steps
CELL = [(35, 135, 5, 5), (-10, -5, 5, 5), (50, 175, 5, 5), (-55, -180, 5, 5),
        (0, 40, 5, 5), (55, 20, 10, 10), (65, -60, 10, 10)]


class Grid:
    """decoder state with the four corners of a cell"""

    def __init__(self, ctx, cell, miss):
        la, lo, dla, dlo = cell
        self.cs = cs = decoder()
        self.v, self.g = {}, {}
        pts = [(la, lo), (la+dla, lo), (la, lo+dlo), (la+dla, lo+dlo)]
        pts = [(a, b if b < 180 else b-360) for a, b in pts]
        for i, p in enumerate(pts):
            # the first band that has the point
            for band in range(9):
                w = np.where((cs.igp_t[band][:, 0] == p[0]) &
                             (cs.igp_t[band][:, 1] == p[1]))[0]
                if len(w):
                    break
            k = int(w[0])
            cs.igp_idx.setdefault(band, [])
            cs.vtec.setdefault(band, [])
            cs.givei.setdefault(band, [])
            if miss.get(i) == 'mask':
                continue
            cs.igp_idx[band].append(k)
            d = ctx.real(f'v{i}', 0, 60)
            g = ctx.choice(f'g{i}', [0, 7, 14]) if miss.get(i) is None else 3
            if miss.get(i) == 'nan':
                cs.vtec[band].append(float('nan'))
            else:
                cs.vtec[band].append(d)
            cs.givei[band].append(15 if miss.get(i) == 'notmon' else g)
            if miss.get(i) is None:
                self.v[i], self.g[i] = d, g
        for b in cs.vtec:
            cs.vtec[b] = ctx.arr(cs.vtec[b]) if cs.vtec[b] else np.zeros(0)
            cs.givei[b] = np.array(cs.givei[b], dtype=int)
            cs.set_t0(ctype=sCType.VTEC, inet=b+1, t=T0)


@harness(cases=[[c, m] for c in range(7) for m in
                ([], [0], [1], [2], [3], [0, 3], [1, 2, 3])],
         weight=3)
def h_grid(ctx, case):
    """slant delay: bilinear, or linear in the triangle of three points that
    contains the pierce point; convex, exact at the points"""
    c, miss = case
    kind = ctx.choice('kind', ['mask', 'nan', 'notmon']) if miss else None
    cell = CELL[c]
    g = Grid(ctx, cell, {i: kind for i in miss})
    la, lo, dla, dlo = cell
    x, y = ctx.real('x', 0, 1), ctx.real('y', 0, 1)
    ctx.assume(ctx.and_(x > 1e-6, y > 1e-6, x < 1-1e-6, y < 1-1e-6))
    sf = ctx.real('sf', 1, 3.5)
    pp = [(la+y*dla)*math.pi/180, (lo+x*dlo)*math.pi/180]
    ctx.patch(SB, 'ionppp', lambda pos, az, el, re, h: (sf, pp))
    d, var = SB.ionoSBAS(timeadd(T0, 60.0), np.array([0.6, 2.4, 100.0]), 1.0,
                         0.7, g.cs)
    ctx.end()
    v = g.v
    if len(v) == 4:
        ref = (v[0]*(1-x)*(1-y)+v[1]*(1-x)*y+v[2]*x*(1-y)+v[3]*x*y)
        ctx.close('delay', d, ref*sf, 1e-3)
        return
    if len(v) < 3:
        ctx.check('none', ctx.and_(d == 0, var == 0))
        return
    # plane through the three points
    k = miss[0]
    X = {0: 0, 1: 0, 2: 1, 3: 1}
    Y = {0: 0, 1: 1, 2: 0, 3: 1}
    o = 3-k                    # corner opposite to the missing one
    nx = [i for i in v if i != o and Y[i] == Y[o]][0]
    ny = [i for i in v if i != o and X[i] == X[o]][0]
    u = x if X[o] == 0 else 1-x
    w = y if Y[o] == 0 else 1-y
    ref = v[o]+(v[nx]-v[o])*u+(v[ny]-v[o])*w
    inside = u+w <= 1+1e-6
    ctx.check('delay', ctx.or_(
        ctx.and_(inside, ctx._near(d, ref*sf, 1e-3)),
        ctx.and_(u+w >= 1-1e-6, ctx.and_(d == 0, var == 0))))


@harness(cases=[0, 1])
def h_below(ctx, case):
    """no delay below the horizon or far below the ellipsoid"""
    g = Grid(ctx, CELL[0], {})
    el = ctx.real('el', -1.5, 0) if case else ctx.real('el', 0.1, 1.5)
    h = ctx.real('h', -1e6, -101) if not case else 50.0
    d, var = SB.ionoSBAS(T0, ctx.arr([0.6, 2.4, h]), 1.0, el, g.cs)
    ctx.end()
    ctx.check('zero', ctx.and_(d == 0, var == 0))


@harness(cases=['slant', 'latitude'])
def h_ipp(ctx, case):
    """slant factor for every elevation, latitude for every azimuth"""
    from cssrlib import gnss as G
    ctx.trig_expand()
    re, hi = 6378.1363, 350.0
    if case == 'slant':
        lat, lon, az = 0.6, 2.4, 1.0
        el = ctx.real('el', 0.1, 1.5)
        se, ce = ctx.sin(el), ctx.cos(el)
        ctx.assume(ctx.and_(se > 0.09, ce > 0.05))
    else:
        lat, lon, el = 0.6, 2.4, 0.4
        az = ctx.real('az', -3.1, 3.1)
        se, ce = math.sin(el), math.cos(el)
    sf, pp = G.ionppp([lat, lon], az, el, re, hi)
    ctx.end()
    rp = re/(re+hi)*ce
    q = ctx.sqrt(1-rp*rp)
    if case == 'slant':
        ctx.close('slant', sf*q, 1, 1e-9)
    else:
        sa, ca = ce*q-se*rp, se*q+ce*rp
        ctx.close('latitude', ctx.sin(pp[0]), math.sin(lat)*ca +
                  math.cos(lat)*sa*ctx.cos(az), 1e-9)


@harness(cases=[[0.6, 0.4]], thorough=[[a, b] for a in (-1.0, 0.0, 0.6, 1.1)
                                       for b in (0.1, 0.4, 1.2)])
def h_ipplon(ctx, case):
    """longitude of the pierce point, every azimuth and longitude"""
    from cssrlib import gnss as G
    lat, el = case
    ctx.trig_expand()
    lon, az = ctx.real('lon', -3.1, 3.1), ctx.real('az', -3.1, 3.1)
    re, hi = 6378.1363, 350.0
    sf, pp = G.ionppp([lat, lon], az, el, re, hi)
    ctx.end()
    rp = re/(re+hi)*math.cos(el)
    q = math.sqrt(1-rp*rp)
    sa = math.cos(el)*q-math.sin(el)*rp
    ctx.close('longitude', ctx.sin(pp[1]-lon)*ctx.cos(pp[0]),
              sa*ctx.sin(az), 1e-9)


@harness(cases=[0])
def h_service(ctx, case):
    """message type 27: service regions"""
    cs = decoder()
    m = l1(ctx, 27)
    hd = [m.u(a, w) for a, w in (('iods', 3), ('nm', 3), ('sn', 3), ('nr', 3),
                                 ('pr', 2), ('in', 4), ('out', 4))]
    o = [(m.s(f'a{k}', 8), m.s(f'b{k}', 9), m.s(f'c{k}', 8), m.s(f'd{k}', 9),
          m.u(f's{k}', 1)) for k in range(5)]
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    s = cs.sinfo
    for g, v in zip((s.iods, s.nmsg, s.snum, s.nreg, s.priority, s.dUDRE_in,
                     s.dUDRE_out), hd):
        ctx.eq('head', g, v)
    for k in range(5):
        for g, v in zip((s.lat1[k], s.lon1[k], s.lat2[k], s.lon2[k],
                         s.shape[k]), o[k]):
            ctx.eq(f'region{k}', g, v)


IX = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3),
      (2, 3)]


def cov(ctx, m, p, ex):
    """scaled Cholesky factor of a covariance matrix"""
    m.put(3, ex)
    E = [[0]*4 for _ in range(4)]
    for i, j in IX:
        E[i][j] = m.u(f'{p}E{i}{j}', 9) if i == j else m.s(f'{p}E{i}{j}', 10)
    s = F(2)**(ex-5)
    return s, [[sum(E[k][i]*E[k][j] for k in range(4))*s*s for j in range(4)]
               for i in range(4)]


def eqcov(ctx, cs, s, scl, C):
    ctx.check('stored', s in cs.obad.cov)
    ctx.eq('scale', cs.obad.scl[s], float(scl))
    for i in range(4):
        for j in range(4):
            ctx.close(f'C{i}{j}', cs.obad.cov[s][i][j], C[i][j], 1e-6)


@harness(cases=[[n, a, b] for n in (5, 51) for a, b in
                ((1, 5), (3, 2), (0, 5), (5, 0), (4, 6))])
def h_cov(ctx, case):
    """message type 28: covariance of two satellites of the mask"""
    n, a, b = case
    mask = [sat(s) for s in MASK[n]]
    cs = masked(n, 1)
    p = ctx.choice('iodp', [1, 0])
    m = l1(ctx, 28)
    m.put(2, p)
    m.put(6, a)
    c1 = cov(ctx, m, 'a', 2)
    m.put(6, b)
    c2 = cov(ctx, m, 'b', 5)
    cs.decode_cssr(done(ctx, m), 0)
    ctx.end()
    exp = {mask[k-1]: c for k, c in ((a, c1), (b, c2)) if 1 <= k <= len(mask)}
    if p != 1:
        exp = {}
    ctx.check('only', set(cs.obad.cov) == set(exp))
    for s, c in exp.items():
        eqcov(ctx, cs, s, *c)


# ---- DFMC ----
D5 = {1: ['G4'], 2: ['G1', 'G32', 'R1', 'R32', 'E1', 'E36', 'S120', 'S158',
                     'C1', 'C37'],
      3: ['G%d' % k for k in range(1, 33)]+['E%d' % k for k in range(1, 31)]}
BASE = {'G': 0, 'R': 37, 'E': 74, 'S': 0, 'C': 158}


def mask5(ctx, cs, n, iodm, free=()):
    on = {BASE[s[0]]+int(s[1:]) for s in D5[n]}
    m = l5(ctx, 31, 'k')
    for k in range(1, 215):
        if k in free and ctx.choice(f'f{k}', [0, 1]):
            on ^= {k}
        m.put(1, 1 if k in on else 0)
    m.put(2, iodm)
    cs.decode_cssr(done(ctx, m, 'k', 1), 0, 1)
    return on


def sat5(k):
    for lo, hi, c in ((1, 32, 'G'), (38, 69, 'R'), (75, 110, 'E'),
                      (120, 158, 'S'), (159, 195, 'C')):
        if lo <= k <= hi:
            return sat(f'{c}{k-BASE[c]}')


@harness(cases=[[n, f] for n in (1, 2, 3) for f in
                ((1, 32), (38, 69), (75, 110), (120, 158), (159, 195))])
def h_mask5(ctx, case):
    """message type 31: satellites in slot order"""
    n, free = case
    cs = decoder(2)
    on = mask5(ctx, cs, n, 2, free)
    ctx.end()
    ctx.check('satellites', [int(s) for s in cs.sat_n] ==
              [sat5(k) for k in sorted(on)])
    ctx.check('iodm', cs.iodm == 2 and cs.nsat == len(on))


FLD = [('dx', 11, F(1, 16), -1), ('dy', 11, F(1, 16), -1),
       ('dz', 11, F(1, 16), -1), ('db', 12, F(1, 32), 1),
       ('vx', 8, F(1, 2048), -1), ('vy', 8, F(1, 2048), -1),
       ('vz', 8, F(1, 2048), -1), ('vb', 9, F(1, 4096), 1)]


@harness(cases=[0, 1, 17, 33, 38, 69, 75, 110, 120, 158, 159, 195, 220])
def h_corr5(ctx, sl):
    """message type 32: correction, rates, covariance, integrity"""
    cs = decoder(2)
    mask5(ctx, cs, 3, 1)
    before = [int(s) for s in cs.sat_n]
    m = l5(ctx, 32)
    m.put(8, sl)
    iodn = m.u('iodn', 10)
    f = [(n, sfield(ctx, m, n, w), s*g) for n, w, s, g in FLD]
    t0 = m.put(13, ctx.choice('t0', [2800, 2823, 5390]))
    C = cov(ctx, m, 'c', 3)
    df, dr = m.u('dfrei', 4), m.u('dr', 4)
    cs.decode_cssr(done(ctx, m, '', 1), 0, 1)
    ctx.end()
    s, lc = sat5(sl), cs.lc[0]
    if s is None:
        ctx.check('nothing', not [k for k in lc.dorb if k] and
                  not [k for k in cs.obad.cov if k])
        return
    ctx.check('only', set(lc.dorb) == {s} and set(cs.obad.cov) == {s})
    ctx.check('listed', s in cs.sat_n)
    ctx.check('kept', [int(v) for v in cs.sat_n][:len(before)] == before)
    got = list(lc.dorb[s])+[lc.dclk[s]]+list(lc.dvel[s])+[lc.ddft[s]]
    for (n, v, k), g in zip(f, got):
        ctx.close(n, g, v*k, 1e-9)
    ctx.eq('iodn', lc.iode[s], iodn)
    ref = t0*16
    if ref-TOD > 43200:
        ref -= 86400
    for c in (sCType.CLOCK, sCType.ORBIT):
        ctx.eq('t0', lc.t0[s][c].time, T0.time-TOD+ref)
    eqcov(ctx, cs, s, *C)
    ctx.eq('dfrei', cs.obad.dfrei[s], df)
    ctx.close('dRcorr', cs.obad.dRcorr[s]*15, dr, 1e-9)


@harness(cases=[1, 2])
def h_int34(ctx, n):
    """message type 34: changed, increased and excluded satellites"""
    cs = decoder(2)
    mask5(ctx, cs, n, 1)
    sats = [sat(s) for s in D5[n]]
    old = {}
    for k, s in enumerate(sats):
        old[s] = cs.obad.dfrei[s] = ctx.choice(f'o{k}', [3, 13, 14]) \
            if k < 2 else k
    iodm = ctx.choice('iodm', [1, 2])
    m = l5(ctx, 34)
    code = []
    for k in range(92):
        c = ctx.choice(f'c{k}', [0, 1, 2, 3]) if k < 3 else \
            (1 if k in (3, 5, 9) else 0)
        code.append(m.put(2, c))
    df = [m.u(f'd{k}', 4) for k in range(7)]
    m.any('r', 2)
    m.put(2, iodm)
    cs.decode_cssr(done(ctx, m, '', 1), 0, 1)
    ctx.end()
    k = 0
    for j, s in enumerate(sats):
        g = cs.obad.dfrei[s]
        if iodm != 1 or code[j] == 0:
            ctx.eq(f'same{j}', g, old[s])
        elif code[j] == 1:
            ctx.eq(f'set{j}', g, df[k])
            k += 1
        elif code[j] == 2:
            ctx.eq(f'up{j}', g, min(old[s]+1, 14))
        else:
            ctx.eq(f'dnu{j}', g, 15)
    ctx.check('only', set(cs.obad.dfrei) == set(sats))


@harness(cases=[[n, mt] for n in (1, 2, 3) for mt in (35, 36)])
def h_int35(ctx, case):
    """message types 35 and 36: DFREI of satellites 1-53 and 54-92"""
    n, mt = case
    cs = decoder(2)
    mask5(ctx, cs, n, 1)
    sats = [sat(s) for s in D5[n]]
    iodm = ctx.choice('iodm', [1, 3])
    m = l5(ctx, mt)
    df = [m.u(f'd{k}', 4) for k in range(53 if mt == 35 else 39)]
    m.any('r', 214-(len(m)-10))
    m.put(2, iodm)
    cs.decode_cssr(done(ctx, m, '', 1), 0, 1)
    ctx.end()
    o = 0 if mt == 35 else 53
    exp = {s: df[j-o] for j, s in enumerate(sats) if o <= j < o+len(df)} \
        if iodm == 1 else {}
    ctx.check('only', set(cs.obad.dfrei) == set(exp))
    for s, v in exp.items():
        ctx.eq('dfrei', cs.obad.dfrei[s], v)


@harness(cases=[0])
def h_obad(ctx, case):
    """message type 37: degradation parameters and DFREI table"""
    cs = decoder(2)
    m = l5(ctx, 37)
    m.any('iv', 12)
    cer, cc = m.u('cer', 6), m.u('ccov', 7)
    o = [(m.u(f'i{k}', 5), m.u(f'c{k}', 8), m.u(f'r{k}', 8))
         for k in range(6)]
    t = [m.u(f't{k}', 4) for k in range(15)]
    tid = m.u('tid', 3)
    cs.decode_cssr(done(ctx, m, '', 1), 0, 1)
    ctx.end()
    b = cs.obad
    ctx.close('cer', b.Cer, cer*0.5, 1e-9)
    ctx.close('ccov', b.Ccov, cc*0.1, 1e-9)
    for k, c in enumerate('GRECSJ'):
        ctx.close(f'C{k}', b.Ccorr[SYS[c]], o[k][1]*0.01, 1e-9)
        ctx.close(f'R{k}', b.Rcorr[SYS[c]], o[k][2]*0.2, 1e-9)
    sc = [.0625]+[.125]*4+[.25]*5+[.5]*2+[1, 3, 6]
    for k in range(15):
        ctx.close(f't{k}', b.dfrei_tbl[k], t[k]*sc[k], 1e-9)
    ctx.eq('tid', b.tid, tid)


SC = math.pi
K39 = [('cuc', 19, SC*2.0**-19*1e-4), ('cus', 19, SC*2.0**-19*1e-4),
       ('idot', 22, 7/6*SC*2.0**-21*1e-6), ('omg', 34, SC*2.0**-33),
       ('OMG0', 34, SC*2.0**-33), ('M0', 34, SC*2.0**-33),
       ('af0', 25, 0.02/CL), ('af1', 16, 4e-5/CL)]


@harness(cases=[1, 18, 39])
def h_eph5(ctx, sl):
    """message types 39 and 40: Keplerian ephemeris of an SBAS satellite,
    complete only with the same issue of data"""
    cs = decoder(2)
    m = l5(ctx, 39)
    m.put(6, sl)
    g = m.put(2, ctx.choice('iodg', [0, 3]))
    m.any('prov', 5)
    f = [(n, sfield(ctx, m, n, w), k) for n, w, k in K39]
    cs.decode_cssr(done(ctx, m, '', 1), 0, 1)
    m = l5(ctx, 40, 'b')
    m.put(2, 3)
    i0, e, a = m.u('i0', 33), m.u('e', 30), m.u('a', 31)
    te = m.put(13, ctx.choice('te', [2800, 5390]))
    C = cov(ctx, m, 'c', 4)
    df, dr = m.u('dfrei', 4), m.u('dr', 4)
    cs.decode_cssr(done(ctx, m, 'b', 1), 0, 1)
    ctx.end()
    p = cs.Eph
    s = prn2sat(uGNSS.SBS, 119+sl)
    ctx.eq('sat', p.sat, s)
    for n, v, k in f:
        ctx.close(n, getattr(p, n)*(1/k), v, 1e-3)
    if g != 3:
        ctx.check('incomplete', not cs.obad.cov and p.A == 0)
        return
    ctx.close('i0', p.i0*(2.0**33/SC), i0, 1e-3)
    ctx.close('e', p.e, e*2.0**-30, 1e-12)
    ctx.close('A', p.A, a*0.02, 1e-4)
    ref = te*16
    if ref-TOD > 43200:
        ref -= 86400
    ctx.eq('toe', p.toe.time, T0.time-TOD+ref)
    ctx.eq('toc', p.toc.time, T0.time-TOD+ref)
    eqcov(ctx, cs, s, *C)
    ctx.eq('dfrei', cs.obad.dfrei[s], df)
    ctx.close('dRcorr', cs.obad.dRcorr[s]*15, dr, 1e-9)


A47 = [('A', 16, 650, 0), ('e', 8, 2.0**-8, 0), ('i0', 13, SC*2.0**-13, 0),
       ('omg', 14, SC*2.0**-13, 1), ('OMG0', 14, SC*2.0**-13, 1),
       ('OMGd', 8, 1e-9, 1), ('M0', 15, SC*2.0**-14, 1)]


@harness(cases=[[1, 39], [0, 18], [5, 0]])
def h_alm5(ctx, case):
    """message type 47: almanacs of two SBAS satellites"""
    cs = decoder(2)
    m = l5(ctx, 47)
    o = []
    for k, sl in enumerate(case):
        m.put(6, sl)
        m.any(f'p{k}', 6)
        f = [(n, m.s(f'{n}{k}', w) if sg else m.u(f'{n}{k}', w), l)
             for n, w, l, sg in A47]
        ta = m.put(6, 25+k)
        o.append((sl, f, ta))
    cs.decode_cssr(done(ctx, m, '', 1), 0, 1)
    ctx.end()
    ctx.check('only', set(cs.Alm) == {prn2sat(uGNSS.SBS, 119+s) for s in case
                                      if s})
    for sl, f, ta in o:
        if not sl:
            continue
        a = cs.Alm[prn2sat(uGNSS.SBS, 119+sl)]
        for n, v, l in f:
            ctx.close(n, getattr(a, n)*(1/l), v, 1e-5)
        ctx.eq('toa', a.toa.time, T0.time-TOD+ta*1800)
