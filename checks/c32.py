"""C32 RTCM SSR grid, troposphere, ionosphere and metadata messages"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib import rtcm as RT
from cssrlib.cssrlib import local_corr, sCType
from cssrlib.gnss import gpst2time
from checks.rtcmlib import PRN, WEEK, sat

BOUNDS = ['grid definitions of types 0 and 1 of up to 4 points, any '
          'coordinates in the range of the fields; type 2 (row/column grid) '
          'is outside (see known findings)',
          'networks of up to 3 points, offsets 0 and 2, any finite value in '
          'the range of the field (2^-20 of an LSB grid) or NaN',
          'messages 60, 61, 95-100, two satellites, residual lengths '
          '0, 4, 14, 15 (troposphere), 18 (encoder) and 2, 9, 30 bits',
          'higher order terms of the CLAS polynomial: fixed grid']
TREF = gpst2time(WEEK, 302400)
DT = [('nid', 'i4'), ('gid', 'i4'), ('lat', 'f8'), ('lon', 'f8'),
      ('alt', 'f8')]
IONO = dict(G=96, R=97, E=98, C=99, J=100)
NET = 7


def dec():
    cs = RT.rtcm()
    cs.monlevel = 0
    cs.week = WEEK
    cs.time = TREF
    return cs


def enc(ctx, mt, s=''):
    e = RT.rtcme()
    e.monlevel = 0
    e.msgtype = mt
    e.lc = [local_corr() for _ in range(NET+2)]
    e.tow = ctx.int('tow', 0, 86399 if s == 'R' else 604799)
    e.iodssr = ctx.int('iod', 0, 15)
    e.pid = ctx.int('pid', 0, 65535)
    e.sid = ctx.int('sid', 0, 15)
    e.mi = ctx.bool('mi')
    udi = ctx.int('udi', 0, 15)
    e.udi = {c: udi for c in range(sCType.MAX)}
    e.gid = e.inet = NET
    return e


def send(ctx, e, cs=None):
    m = ctx.msg()
    m.pad(8*300)
    buf = m.buf()
    n = e.encode(buf)
    cs = cs or dec()
    i = cs.decode(buf)[0]
    ctx.eq('length', i, n)
    return cs


def value(ctx, name, n, lsb, ofst=0, nan=False):
    """any value an n bit signed field can hold"""
    if nan:
        return float('nan')
    lim = 2**(n-1)-1
    v = ctx.real(name, -lim, lim, F(1, 2**20))
    return v*lsb+ofst


def same(ctx, label, a, x, lsb, nan=False):
    if nan:
        ctx.nan(label+' not available', a)
    else:
        ctx.close(label, a, x, lsb*F(1, 2)*(1+F(1, 10**6))+F(1, 10**12))


@harness(cases=[[t, n] for t in (0, 1) for n in (1, 2, 4)])
def h_grid(ctx, case):
    """grid definition: every point within half a unit of the sent one"""
    t, n = case
    e = enc(ctx, 61)
    e.gtype = t
    e.ofst = ctx.choice('ofst', [0, 3])
    u = F(1, 2**20)
    lat = [ctx.real('lat0', -90, 90, u)]
    lon = [ctx.real('lon0', -180, 180, u)]
    alt = [ctx.real('alt0', -1000, 11000, u)]
    for k in range(1, n):
        lat.append(lat[-1]+ctx.real(f'dlat{k}', -4, 4, u))
        lon.append(lon[-1]+ctx.real(f'dlon{k}', -8, 8, u))
        alt.append(alt[-1]+ctx.real(f'dalt{k}', -3000, 3000, u))
    for k in range(1, n):
        ctx.assume(ctx.and_(lat[k] <= 90, lat[k] >= -90, lon[k] <= 180,
                            lon[k] >= -180, alt[k] >= -1000,
                            alt[k] <= 11000))
    rows = [(3, 1, 0.0, 0.0, 0.0)]
    rows += [(NET, k+1, lat[k], lon[k], alt[k]) for k in range(n)]
    e.grid = RT.np.array(rows, dtype=DT)
    cs = send(ctx, e)
    ctx.eq('pid', cs.pid, e.pid)
    ctx.eq('network', cs.gid, NET)
    ctx.eq('network in use', cs.inet, NET)
    ctx.eq('type', cs.gtype, t)
    g = cs.grid
    ctx.eq('points', len(g), n)
    x, y, z = [], [], []
    for k in range(n):
        ctx.eq('network of the point', g[k]['nid'], NET)
        if k > 0:
            ctx.eq('numbers', g[k]['gid'], e.ofst+k)
        x.append(g[k]['lat'])
        y.append(g[k]['lon'])
        z.append(g[k]['alt'])
        h = F(1, 2)*(1+F(1, 10**6))
        ctx.close('latitude', x[k], lat[k], h*F(1, 1000))
        ctx.close('longitude', y[k], lon[k], h*F(1, 1000))
        ctx.close('height', z[k], alt[k] if t == 0 else 0, h*F(25, 2))
    p = cs.pos0
    for a, b in zip(p, (x[0], y[0], z[0])):
        ctx.close('reference', a, b, 1e-9)
    for k in range(1, n):
        for a, v in zip(cs.dpos[k-1], (x, y, z)):
            ctx.close('difference', a, v[k]-v[k-1], 1e-9)


HYD = [(11, F(25, 10**8), F(118, 10**5)), (9, F(5, 10**6), F(298, 10**5)),
       (9, F(2, 10**4), F(682, 10**4))]
WET = [(13, F(1, 10**6), F(104, 10**6)), (6, F(25, 10**6), F(15, 10**4)),
       (5, F(2, 10**3), F(48, 10**3))]


@harness(cases=[[0, 0, 0, 0, 0, -1]]+[[1, a, b, n, o, -1] for a, b, n, o in (
    (0, 14, 1, 0), (0, 14, 2, 2), (15, 0, 2, 0), (4, 15, 3, 2), (0, 0, 2, 2))]
    + [[1, 4, 14, 1, 0, k] for k in range(14)])
def h_trop(ctx, case):
    """tropospheric correction"""
    rmi, nl, ml, ng, ofst, nan = case
    e = enc(ctx, 95)
    e.nlen, e.mlen = nl, ml
    lc = e.lc[NET]
    lc.flg_trop = rmi
    mh = [value(ctx, f'h{k}', n, s, o, nan == k)
          for k, (n, s, o) in enumerate(HYD)]
    mw = [value(ctx, f'w{k}', n, s, o, nan == 3+k)
          for k, (n, s, o) in enumerate(WET)]
    ct = [[value(ctx, f'c{j}{k}', 15 if k else 13,
                 F(1, 10**5 if k else 10**4),
                 (0 if k else (F(23, 10), F(252, 1000))[j]),
                 nan == 6+3*j+k) for k in range(3)]+[0.0] for j in (0, 1)]
    lc.maph, lc.mapw, lc.ct = ctx.arr(mh), ctx.arr(mw), ctx.arr(ct)
    lc.ng, lc.ofst = ng, ofst
    u = F(1, 10**4)
    rh = [value(ctx, f'rh{k}', nl, u, 0, nan == 12 and k == 0)
          for k in range(ng)] if nl else None
    rw = [value(ctx, f'rw{k}', ml, u, 0, nan == 13 and k == 0)
          for k in range(ng)] if ml else None
    lc.dth = ctx.arr([0.0]*ofst+rh) if nl else None
    lc.dtw = ctx.arr([0.0]*ofst+rw) if ml else None
    cs = send(ctx, e)
    ctx.eq('epoch', cs.time.time, gpst2time(WEEK, 0).time+e.tow)
    ctx.eq('iod', cs.iodssr, e.iodssr)
    ctx.eq('pid', cs.pid, e.pid)
    ctx.eq('sid', cs.sid, e.sid)
    d = cs.lc[NET]
    for k in range(3):
        same(ctx, 'hydrostatic mapping', d.maph[k], mh[k], HYD[k][1],
             nan == k)
        same(ctx, 'wet mapping', d.mapw[k], mw[k], WET[k][1], nan == 3+k)
        for j in (0, 1):
            same(ctx, 'delay', d.ct[j, k], ct[j][k],
                 F(1, 10**5 if k else 10**4), nan == 6+3*j+k)
    ctx.eq('number', d.ng, ng)
    ctx.eq('offset', d.ofst, ofst)
    for nm, n, r, v in (('hydrostatic', nl, d.dth, rh),
                        ('wet', ml, d.dtw, rw)):
        if not rmi or not n:
            ctx.check('no '+nm+' residuals', r is None)
            continue
        ctx.eq('residuals', len(r), ofst+ng)
        for k in range(ng):
            same(ctx, nm+' residual', r[ofst+k], v[k], u, k == 0 and
                 nan == (12 if nm[0] == 'h' else 13))


def pair(s):
    lo, hi = PRN[s]
    return sat(s, lo+1), sat(s, hi)


@harness(cases=[[s, p, r, o, -1] for s in IONO for p, r, o in (
    ('c', 0, 0), ('g', 1, 2), ('', 1, 0))] +
    [['G', 'g', 1, 0, k] for k in range(4)]+[['E', 'mix', 0, 0, -1],
                                            ['J', '', 0, 0, -1],
                                            ['G', 'h', 1, 0, -1]])
def h_iono(ctx, case):
    """ionospheric correction; h: higher order terms go to the residuals"""
    s, pol, rmi, ofst, nan = case
    e = enc(ctx, IONO[s], s)
    lc = e.lc[NET]
    lc.flg_stec = 2*bool(pol)+rmi
    ng = 2
    sats = pair(s)
    grad = pol in ('g', 'h', 'mix')
    lc.ci, lc.stype, lc.dstec = {}, {}, {}
    c, r = {}, {}
    other = sat('J' if s != 'J' else 'G', 2)
    # order of arrival: not the order of the mask
    for j, st in [(1, sats[1]), (2, other), (0, sats[0])]:
        c[st] = [value(ctx, f'c{j}', 17, F(1, 100), 0, nan == 0 and j == 1)]
        for k in (1, 2):
            c[st].append(value(ctx, f'c{j}.{k}', 18, F(1, 1000), 0,
                               nan == k and j == 0))
        hi = [0.0, 0.0, 0.0]
        if pol == 'h' and j == 0:
            hi = [ctx.real(f'h{k}', -2, 2, F(1, 2**10)) for k in range(3)]
            ctx.assume(ctx.or_(hi[0] > 0.01, hi[0] < -0.01))
        c[st] += hi
        lc.ci[st] = ctx.arr(c[st])
        lc.stype[st] = 0 if pol in ('c', '') or pol == 'mix' and j != 1 \
            else 1
        r[st] = [value(ctx, f'r{j}.{k}', 16 if pol == 'h' else 18,
                       F(2, 1000), 0, nan == 3 and j == 0 and k == 1)
                 for k in range(ng)]
        lc.dstec[st] = ctx.arr([0.0]*ofst+r[st])
    lc.ng, lc.ofst = ng, ofst
    lat, lon = [35, 36, 35.5, 36.25], [139, 138.5, 139.75, 140]
    e.grid = RT.np.array([(NET, k+1, float(lat[k]), float(lon[k]), 0.0)
                          for k in range(4)], dtype=DT)
    cs = send(ctx, e)
    if s != 'R':
        ctx.eq('epoch', cs.time.time, gpst2time(WEEK, 0).time+e.tow)
    ctx.eq('network', cs.gid, NET)
    ctx.eq('pid', cs.pid, e.pid)
    ctx.eq('sid', cs.sid, e.sid)
    d = cs.lc[NET]
    ctx.eq('satellites', sorted(int(x) for x in d.sat_n), sorted(sats))
    if pol:
        ctx.eq('coefficients of', sorted(int(x) for x in d.ci), sorted(sats))
        for j, st in enumerate(sats):
            ctx.eq('type', d.stype[st], int(grad))
            for k in range(3 if grad else 1):
                same(ctx, 'coefficient', d.ci[st][k], c[st][k],
                     F(1, 1000 if k else 100),
                     nan == 0 and j == 1 and k == 0 or
                     k > 0 and nan == k and j == 0)
    if rmi:
        ctx.eq('number', d.ng, ng)
        ctx.eq('offset', d.ofst, ofst)
        ctx.eq('residuals of', sorted(int(x) for x in d.dstec), sorted(sats))
        for j, st in enumerate(sats):
            ctx.eq('residuals', len(d.dstec[st]), ofst+ng)
            for k in range(ng):
                a, b = F(lat[k+ofst])-35, F(lon[k+ofst])-139
                v = r[st][k]
                if pol == 'h' and j == 0:
                    h = c[st][3:]
                    v = v+h[0]*(a*b)+h[1]*(a*a)+h[2]*(b*b)
                same(ctx, 'residual', d.dstec[st][ofst+k], v, F(2, 1000),
                     nan == 3 and j == 0 and k == 1)


@harness(cases=[[s, p, w, o] for s, p, w, o in (
    ('G', 0, 2, 0), ('R', 1, 9, 1), ('E', 2, 30, 0), ('C', 2, 9, 3),
    ('J', 0, 30, 0), ('G', 2, 0, 0))])
def h_residual(ctx, case):
    """ionospheric correction: lengths and resolutions of residuals"""
    s, pol, w, ofst = case
    ng = 2
    m = ctx.msg()
    m.put(8, 0xd3)
    m.put(16, 200)
    m.put(12, IONO[s])
    if s == 'R':
        m.u('tow', 17)
    else:
        m.u('tow', 20)
    m.any('udi', 5)
    m.any('iod', 4)
    m.u('pid', 16)
    m.u('sid', 4)
    gid = ctx.choice('net', [0, 31])
    m.put(10, gid)
    m.put(1, int(pol > 0))
    m.put(1, int(w > 0))
    lo, hi = PRN[s]
    ids = [lo, lo+3, hi]
    for k in range(1, 65):
        m.put(1, int(k in ids))
    c, r = {}, {}
    if pol:
        m.put(1, pol-1)
        for k in ids:
            c[k] = [m.s(f'c{k}', 17)]
            ctx.assume(c[k][0] != -2**16)
            if pol > 1:
                c[k] += [m.s(f'd{k}', 18), m.s(f'e{k}', 18)]
                ctx.assume(ctx.and_(c[k][1] != -2**17, c[k][2] != -2**17))
    if w:
        m.put(12, ofst)
        m.put(12, ng)
        m.put(5, w)
        sf = ctx.choice('sf', [0, 1, 4, 7])
        m.put(3, sf)
        for k in ids:
            r[k] = []
            for j in range(ng):
                r[k].append(m.s(f'r{k}.{j}', w))
                ctx.assume(r[k][j] != -2**(w-1))
    n = len(m.b)
    m.pad(8*120)
    cs = dec()
    i = cs.decode(m.buf())[0]
    ctx.eq('length', i, n)
    d = cs.lc[gid]
    ctx.eq('satellites', [int(x) for x in d.sat_n], [sat(s, k) for k in ids])
    for k in ids:
        st = sat(s, k)
        if pol:
            ctx.eq('type', d.stype[st], pol-1)
            for j, v in enumerate(c[k]):
                ctx.close('coefficient', d.ci[st][j],
                          v*F(1, 1000 if j else 100), 1e-9)
        if w:
            for j in range(ng):
                ctx.close('residual', d.dstec[st][ofst+j],
                          r[k][j]*F(2**sf, 1000), 1e-6)
    if w:
        ctx.eq('number', d.ng, ng)
        ctx.eq('offset', d.ofst, ofst)


@harness(cases=[[m] for m in range(4)])
def h_meta(ctx, case):
    """metadata: every entry is skipped by its own length"""
    nm, = case
    m = ctx.msg()
    m.put(8, 0xd3)
    m.put(16, 100)
    m.put(12, 60)
    iod, pid, sid = m.u('iod', 4), m.u('pid', 16), m.u('sid', 4)
    m.put(5, nm)
    if nm == 0:
        m.any('pad', 7)
    for k in range(nm):
        mt = ctx.choice(f'mt{k}', [1, 7])
        mi, iodmi, mpi = (ctx.choice(f'{x}{k}', [0, 1]) if
                          (k == 0 or x == 'a') else k & 1 for x in 'abc')
        m.put(5, mt)
        m.any(f'ap{k}', 1)
        m.put(1, mi)
        if mi:
            m.any(f'id{k}', 3)
        m.put(1, iodmi)
        if iodmi:
            m.any(f'iodm{k}', 6)
        if mi:
            m.put(1, mpi)
            if mpi:
                m.put(8, 5+k)
                m.any(f'data{k}', 5+k)
        if mt == 7:
            m.any(f'be{k}', 8)
    n = len(m.b)
    m.pad(8*40)
    cs = dec()
    i = cs.decode(m.buf())[0]
    ctx.eq('length', i, n)
    ctx.eq('entries', cs.nm, nm)
    ctx.eq('iod', cs.iodssr, iod)
    ctx.eq('pid', cs.pid, pid)
    ctx.eq('sid', cs.sid, sid)
    if nm == 0:
        e = enc(ctx, 60)
        e.nm = 0
        cs = send(ctx, e)
        ctx.eq('entries', cs.nm, 0)
        ctx.eq('iod', cs.iodssr, e.iodssr)
        ctx.eq('pid', cs.pid, e.pid)
        ctx.eq('sid', cs.sid, e.sid)


@harness(cases=[[2, 3], [3, 2]])
def h_rows(ctx, case):
    """grid of rows and columns (type 2)"""
    nr, nc = case
    m = ctx.msg()
    m.put(8, 0xd3)
    m.put(16, 100)
    m.put(12, 61)
    m.any('pid', 16)
    m.any('mi', 1)
    m.put(10, NET)
    m.put(3, 2)
    lat, lon = m.s('lat', 18), m.s('lon', 19)
    m.put(6, nr)
    m.put(6, nc)
    dlat, dlon = m.s('dlat', 9), m.s('dlon', 10)
    m.put(1, 0)
    ctx.assume(ctx.and_(lat != -2**17, lon != -2**18, dlat != -2**8,
                        dlon != -2**9))
    n = len(m.b)
    m.pad(8*20)
    cs = dec()
    out = []
    bad = ctx.raises(lambda: out.append(cs.decode(m.buf())[0]), TypeError,
                     NameError)
    ctx.check('decodes', not bad)
    if bad:
        return
    ctx.eq('length', out[0], n)
    ctx.eq('points', len(cs.grid), nr*nc)
    for k in range(nr*nc):
        x, y = cs.grid[k]['lat'], cs.grid[k]['lon']
        ctx.check('point', ctx.or_(*[ctx.and_(
            ctx._near(x, lat*F(1, 1000)+dlat*F(a, 100), 1e-9),
            ctx._near(y, lon*F(1, 1000)+dlon*F(b, 100), 1e-9))
            for a in range(nr) for b in range(nc)]))
