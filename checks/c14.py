"""C14 interpolation of network corrections"""
import math
import numpy as np
from fractions import Fraction as F
from engine.api import harness
from cssrlib.cssrlib import cssr

BOUNDS = ['grids of up to six points in up to three networks (concrete point '
          'coordinates), user positions: every longitude (every latitude in '
          'h_point and h_areas) at the stated latitudes; h_dist: up to five '
          'points at any distances along a meridian (one order of the '
          'distances for four and five points of a network)', 'all coefficients, '
          'residuals and weights; satellites per network: two',
          'MADOCA areas: two regions with up to two areas each, all '
          'reference points and sizes (circles: four latitudes)']
RE = 6378137.0
D2R = math.pi/180
DT = [('nid', '<i4'), ('gid', '<i4'), ('lat', '<f8'), ('lon', '<f8'),
      ('alt', '<f8')]
# (network, grid, lat, lon)
GRIDS = {
    'one': [(3, 1, 35.0, 139.0)],
    'two': [(3, 1, 35.0, 139.0), (3, 2, 35.5, 139.5)],
    'three': [(1, 1, 33.0, 130.0), (1, 2, 33.6, 130.0), (1, 3, 33.3, 130.7)],
    'four': [(1, 1, 35.0, 139.0), (1, 2, 35.0, 139.6), (1, 3, 35.6, 139.0),
             (1, 4, 35.6, 139.7)],
    'five': [(2, 1, 35.0, 139.0), (2, 2, 35.0, 139.6), (2, 3, 35.6, 139.0),
             (2, 4, 35.6, 139.7), (2, 5, 34.5, 139.3)],
    'nets': [(1, 1, 35.0, 139.0), (2, 1, 35.1, 139.9), (1, 2, 35.6, 139.2),
             (2, 2, 35.7, 140.3), (5, 1, 36.4, 139.5)],
    'mixed': [(4, 2, 35.0, 139.0), (7, 1, 35.1, 139.5), (4, 1, 35.6, 139.2),
              (7, 3, 35.7, 140.3), (7, 2, 34.6, 139.8), (4, 3, 34.4, 138.9)],
}


class Grid:
    """structured array with elements the symbolic run can index"""

    def __init__(self, ctx, rows):
        self.ctx, self.rows = ctx, rows

    def __getitem__(self, k):
        if isinstance(k, str):
            i = [n for n, _ in DT].index(k)
            return self.ctx.arr([r[i] for r in self.rows])
        if hasattr(k, '__len__'):
            k = [bool(x) for x in k]
            return Grid(self.ctx, [r for r, b in zip(self.rows, k) if b])
        return dict(zip([n for n, _ in DT], self.rows[int(k)]))


def grid(ctx, name):
    rows = [g+(0.0,) for g in GRIDS[name]]
    return np.array(rows, dtype=DT) if not ctx.symbolic else Grid(ctx, rows)


def verify(ctx, cs, name, lat, lon, clat, r):
    """weights against the squared distances [m^2] of the points"""
    g = GRIDS[name]
    d = []
    for n, k, la, lo in g:
        a = (lat-la*D2R)*RE
        b = (lon-lo*D2R)*clat*RE
        d.append(a*a+b*b)
    ctx.eq('network', r, cs.inet_ref)
    idx = [int(x) for x in cs.grid_index]
    w = [cs.grid_weight[k] for k in range(len(idx))]
    ctx.check('distinct points', len(set(idx)) == len(idx))
    net = int(cs.inet_ref)
    mem = {k: d[j] for j, (n, k, _, _) in enumerate(g) if n == net}
    ctx.check('points of the network', all(k in mem for k in idx))
    # the network is the one of the nearest point
    e = 1+1e-7
    near = [j for j, x in enumerate(g) if x[0] == net]
    for j, x in enumerate(g):
        if x[0] != net:
            ctx.check('nearest network', ctx.or_(
                *[d[i] <= d[j]*e+1e-3 for i in near]))
    ctx.close('sum', sum(w), 1, 1e-9)
    for x in w:
        ctx.check('not negative', x >= 0)
    # the used points are the nearest ones (but for the fourth)
    use = idx[:3]
    for k in mem:
        if k not in idx:
            for i in use:
                ctx.check('nearest points', mem[i] <= mem[k]*e+1e-3)
    if len(idx) == 1:
        ctx.check('single point', ctx.or_(
            len(mem) == 1, mem[idx[0]] < 5001.0**2))
        return
    ctx.check('all near points', len(idx) >= min(len(mem), 3))
    ctx.check('not next to a point', mem[idx[0]] >= 4999.0**2)
    # weights are proportional to the inverse distances
    r = {x[1]: ctx.sqrt((D2R*x[2]-lat)*(D2R*x[2]-lat) +
                        (D2R*x[3]-lon)*(D2R*x[3]-lon)*F(clat)*F(clat))
         for x in g if x[0] == net}
    for i in range(1, len(idx)):
        ctx.close('inverse distance', w[0]*r[idx[0]]*100,
                  w[i]*r[idx[i]]*100, 1e-6)


@harness(cases=[[[1], '+'], [[1, 1], '+-'], [[2, 1], '++'], [[1, 1, 1], '+-+'],
                [[1, 2, 1], '-++'], [[4, 4, 4, 4], '-++-', [2, 0, 3, 1]],
                [[3, 1, 3, 3], '+-+-'], [[1, 2, 2, 1], '++++'],
                [[1, 1, 1, 1, 1], '+-+-+', [3, 0, 4, 1, 2]]],
         thorough=lambda t: [[n, s] for n in (
             [1, 1], [1, 2, 1], [3, 1, 3, 3], [4, 4, 4, 4], [1, 2, 2, 1, 2],
             [1, 1, 1, 1, 1]) for s in ('+-+-+', '+++++', '--+++')],
         budget=100, weight=2)
def h_dist(ctx, case):
    """any distances: grid points on the meridian of the user"""
    nets, sg = case[:2]
    x = []
    for i, n in enumerate(nets):
        d = ctx.real(f'lat{i}', 0, 2, 2**-30)
        x.append(d if sg[i] == '+' else -d)
    if len(case) > 2:
        # order of the distances
        for i, j in zip(case[2], case[2][1:]):
            ctx.assume(abs(x[i]) <= abs(x[j]))
    rows = [(n, i+1, x[i], 0.0, 0.0) for i, n in enumerate(nets)]
    cs = cssr()
    cs.grid = np.array(rows, dtype=DT) if not ctx.symbolic \
        else Grid(ctx, rows)
    r = cs.find_grid_index(ctx.arr([0.0, 0.0, 0.0]))
    d = [D2R*RE*(y if s == '+' else -y) for y, s in zip(x, sg)]
    idx = [int(k)-1 for k in cs.grid_index]
    w = [cs.grid_weight[k] for k in range(len(idx))]
    net = ctx.concrete(cs.inet_ref)
    ctx.eq('network', r, net)
    ctx.check('distinct points', len(set(idx)) == len(idx))
    ctx.check('points of the network', all(nets[k] == net for k in idx))
    mem = [k for k, n in enumerate(nets) if n == net]
    e = 1e-3
    for j, n in enumerate(nets):
        if n != net:
            ctx.check('nearest network', ctx.or_(
                *[d[i] <= d[j]+e for i in mem]))
    for k in mem:
        if k not in idx:
            for i in idx[:3]:
                ctx.check('nearest points', d[i] <= d[k]+e)
    if len(idx) == 1:
        ctx.check('single point', len(mem) == 1 or d[idx[0]] < 5000+e)
        ctx.eq('weight', w[0], 1)
        return
    ctx.check('number of points', len(idx) == min(len(mem), 4))
    for i in idx:
        ctx.check('not next to a point', d[i] >= 5000-e)
    for a in w:
        ctx.check('positive', a > 0)
    ctx.close('sum', sum(w), 1, 1e-9)
    for i in range(1, len(idx)):
        ctx.close('inverse distance', w[0]*d[idx[0]]/1000,
                  w[i]*d[idx[i]]/1000, 1e-6)


@harness(cases=[['one', 34.2], ['one', 35.03], ['nets', 34.2]],
         thorough=lambda t: [[n, la] for n in GRIDS for la in (
             34.2, 34.7, 35.03, 35.3, 35.62, 36.3, 37.1)], budget=60,
         weight=2)
def h_weights(ctx, case):
    """any longitude at a latitude"""
    name, la = case
    cs = cssr()
    cs.grid = grid(ctx, name)
    lat = la*D2R
    lon = ctx.real('lon', 128*D2R, 142*D2R)
    r = cs.find_grid_index(ctx.arr([lat, lon, 0.0]))
    verify(ctx, cs, name, lat, lon, math.cos(lat), r)


@harness(cases=[[n, k] for n in GRIDS for k in range(len(GRIDS[n]))])
def h_point(ctx, case):
    """any position within some km of a grid point uses only this point"""
    name, k = case
    cs = cssr()
    cs.grid = grid(ctx, name)
    n, gid, la, lo = GRIDS[name][k]
    lat, lon = la*D2R, lo*D2R
    dlat = ctx.real('dlat', -1e-4, 1e-4)
    dlon = ctx.real('dlon', -1e-4, 1e-4)
    # cos of the latitude as a number: 0.6..1
    c = ctx.real('clat', 0.6, 1)
    from cssrlib import cssrlib as C
    ctx.patch(C.np, 'cos', lambda x: c)
    r = cs.find_grid_index(ctx.arr([lat+dlat, lon+dlon, 0.0]))
    ctx.end()
    near = (dlat*dlat+dlon*dlon*c*c)*RE*RE
    ctx.eq('network', r, n)
    i = [int(x) for x in cs.grid_index]
    ctx.check('grid point', gid in i)
    ctx.check('exact', ctx.or_(ctx.and_(len(i) == 1, i[0] == gid,
                                        cs.grid_weight[0] == 1),
                               near > 4999.0**2))
    ctx.check('not far', ctx.or_(len(i) != 1, near < 5001.0**2,
                                 sum(x[0] == n for x in GRIDS[name]) == 1))


@harness(cases=list(GRIDS))
def h_dpos(ctx, name):
    """offset from the first point of the network"""
    cs = cssr()
    cs.grid = grid(ctx, name)
    net = ctx.choice('net', sorted({g[0] for g in GRIDS[name]}))
    cs.inet_ref = net
    lat, lon = ctx.real('lat', -1.5, 1.5), ctx.real('lon', -3.1, 3.1)
    a, b = cs.get_dpos(ctx.arr([lat, lon, 0.0]))
    g = [x for x in GRIDS[name] if x[0] == net][0]
    ctx.close('dlat', a, lat/D2R-g[2], 1e-9)
    ctx.close('dlon', b, lon/D2R-g[3], 1e-9)


def state(ctx, cs, net, np_, ngrid, ngp):
    """weights of np_ of the ngp points of the network"""
    cs.inet_ref = net
    gid = [[1], [3], [2, 1], [1, 3], [3, 1, 2], [4, 2, 1, 3]]
    gid = [x for x in gid if len(x) == np_ and max(x) <= ngp]
    cs.grid_index = np.array(ctx.choice('gid', gid))
    cs.ngrid = np_
    w = [ctx.real(f'w{k}', 0, 1) for k in range(np_)]
    cs.grid_weight = ctx.arr(w)
    return [int(x) for x in cs.grid_index], w


@harness(cases=[[f, n] for f in range(4) for n in (1, 2, 3, 4)])
def h_trop(ctx, case):
    """troposphere: polynomial plus weighted residuals"""
    flg, n = case
    cs = cssr()
    net = ctx.choice('net', [1, 6])
    ngp = max(n, ctx.choice('ngp', [3, 4]))
    idx, w = state(ctx, cs, net, n, n, ngp)
    want = [0, 0]
    dlat, dlon = ctx.real('dlat', -2, 2), ctx.real('dlon', -2, 2)
    for k in range(len(cs.lc)):
        lc = cs.lc[k]
        p = f'n{k}.' if k in (1, 6) else None
        lc.flg_trop = flg
        if p is None:
            continue
        ct = [[ctx.real(f'{p}c{i}{j}', -3, 3) for j in range(4)]
              for i in range(2)]
        th = [ctx.real(f'{p}h{i}', -3, 3) for i in range(ngp)]
        tw = [ctx.real(f'{p}w{i}', -3, 3) for i in range(ngp)]
        lc.ct, lc.dth, lc.dtw = ctx.arr(ct), ctx.arr(th), ctx.arr(tw)
        if k == net:
            for i, r in enumerate((th, tw)):
                if flg & 2:
                    want[i] = want[i]+ct[i][0]+ct[i][1]*dlat+ct[i][2]*dlon \
                        + ct[i][3]*dlat*dlon
                if flg & 1:
                    want[i] = want[i]+sum(r[g-1]*x for g, x in zip(idx, w))
    h, t = cs.get_trop(dlat, dlon)
    ctx.close('hydrostatic', h, want[0], 1e-9)
    ctx.close('wet', t, want[1], 1e-9)


@harness(cases=[[f, n, m] for f in range(4) for n in (1, 3, 4)
                for m in (3, 6)])
def h_stec(ctx, case):
    """STEC: polynomial plus weighted residuals for each satellite"""
    flg, n, m = case
    cs = cssr()
    net = ctx.choice('net', [1, 6])
    ngp = max(n, 3)
    idx, w = state(ctx, cs, net, n, n, ngp)
    dlat, dlon = ctx.real('dlat', -2, 2), ctx.real('dlon', -2, 2)
    sats = [7, 60, 3]
    want = []
    for k in (1, 6):
        lc = cs.lc[k]
        lc.flg_stec = flg
        lc.sat_n = sats if k == net else [60, 3]
        lc.nsat_n = len(lc.sat_n)
        lc.ci, lc.dstec = {}, {}
        for s in lc.sat_n:
            p = f'n{k}.{s}.'
            q = m if s != 60 else 9-m
            c = [ctx.real(f'{p}c{i}', -9, 9) for i in range(q)]
            r = [ctx.real(f'{p}r{i}', -9, 9) for i in range(ngp)]
            lc.ci[s], lc.dstec[s] = ctx.arr(c), ctx.arr(r)
            if k != net:
                continue
            v = [1, dlat, dlon, dlat*dlon, dlat*dlat, dlon*dlon]
            y = sum(a*b for a, b in zip(c, v)) if flg & 2 else 0
            if flg & 1:
                y = y+sum(r[g-1]*x for g, x in zip(idx, w))
            want.append(y)
    r = cs.get_stec(dlat, dlon)
    ctx.eq('number', len(r), len(want))
    for k in range(len(want)):
        ctx.close('stec', r[k], want[k], 1e-9)


# MADOCA-PPP areas ---------------------------------------------------------
NAREA = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}


def mdc():
    from cssrlib.cssr_mdc import cssr_mdc
    return cssr_mdc()


def area_msg(ctx, reg, areas, p, base=0, rng=None):
    """MT1 message: list of (area, circular latitude or None)"""
    m = ctx.msg()
    m.put(12, 1)
    m.put(4, 0)
    m.any(p+'hd', 29)
    m.put(8, reg)
    m.any(p+'al', 1)
    m.any(p+'len', 16)
    m.put(5, len(areas))
    out = {}
    for a, circ in areas:
        q = f'{p}{a}.'
        m.put(5, a)
        m.put(1, int(circ is not None))
        if circ is None:
            out[a] = (0, m.s(q+'lat', 11)*F(1, 10), m.u(q+'lon', 12)*F(1, 10),
                      m.u(q+'dlat', 8)*F(1, 10), m.u(q+'dlon', 8)*F(1, 10))
        else:
            m.put(15, circ % (1 << 15))
            m.put(16, base)
            r = m.u(q+'rng', 8) if rng is None else m.put(8, rng)
            out[a] = (1, circ*0.01, base*F(1, 100), r*10000)
    m.put(16, 0)
    m.put(8, 0)
    return m.buf(), out


def wrap(ctx, x):
    """difference of longitudes x in degrees, -180..180"""
    return x-360*ctx.round(x*F(1, 360))


@harness(cases=[[r, k, c] for r in ([1], [2, 5])
                for k in (1, 2) for c in (None, 0, 3500, -2700)
                if k+len(r) < 3 or k+len(r) < 4 and c in (None, 3500)],
         thorough=lambda t: [[r, k, c] for r in ([1], [2, 5], [3, 4])
                             for k in (1, 2)
                             for c in (None, 0, 3500, -2700, 6012)],
         budget=250, weight=2)
def h_areas(ctx, case):
    """the area of a position"""
    regs, n, circ = case
    cs = mdc()
    cs.monlevel = 0
    areas = {}
    base, rng, off, lof = 0, None, None, None
    if circ is not None:
        base = ctx.choice('base', [13950, 20, 35980, 26012])
        if ctx.choice('kind', [0, 1]):
            rng = ctx.choice('r', [0, 1, 30, 255])
            off, lof = ctx.real('lon', -25, 25), ctx.real('lat', -20, 20)
        else:
            off, lof = ctx.choice('lon', [0, -20.0, 0.1, 3.0]), \
                ctx.choice('lat', [0, 4.0, -0.1, 13.0])
    for r in regs:
        lst = [(1, circ if r == regs[0] else None), (3, None)][:n]
        b, o = area_msg(ctx, r, lst, f'{r}.', base, rng)
        cs.decode_cssr(b, 0)
        for a in o:
            areas[r, a] = o[a]
            if circ is None or a != 1:
                ctx.assume(o[a][2] < 360)
    if circ is None:
        la, lo = ctx.real('lat', -85, 85), ctx.real('lon', -180, 180)
    else:
        la = circ*0.01+lof
        lo = off+F(base if base < 18000 else base-36000, 100)
    # position in degrees times the rounded factor of the code
    pos = ctx.arr([la*D2R, lo*D2R, 0.0])
    cs.inet = inet = cs.find_grid_index(pos)

    def inside(a, eps):
        x = la-a[1]
        y = wrap(ctx, lo-a[2]) if a[0] == 0 else off
        if a[0] == 0:
            return ctx.and_(x <= a[3]+eps, x >= 0-a[3]-eps, y <= a[4]+eps,
                            y >= 0-a[4]-eps)
        c = math.cos(a[1]*D2R)
        s = (x*x+y*y*c*c)*(D2R*RE)**2
        t = a[3]+eps*1e5
        return ctx.and_(t >= 0, s <= t*t)
    if inet < 0:
        for a in areas.values():
            ctx.check('not inside', ctx.not_(inside(a, -1e-6)))
        return
    r, a = cs.reg, cs.area
    ctx.check('area', (r, a) in areas)
    ctx.check('inside', inside(areas[r, a], 1e-6))
    ctx.eq('network', inet, sum(v for k, v in NAREA.items() if k < r)+a)
    dlat, dlon = cs.get_dpos(pos)
    ctx.close('dlat', dlat, la-areas[r, a][1], 1e-6)
    ctx.close('dlon', dlon, wrap(ctx, lo-areas[r, a][2])
              if areas[r, a][0] == 0 else off, 1e-6)


@harness(cases=[[r, a] for r, a in ((1, 1), (1, 8), (2, 0), (3, 5), (4, 1),
                                    (5, 8))])
def h_mdcstec(ctx, case):
    """polynomial of the satellites of the area"""
    cs = mdc()
    inet = sum(v for k, v in NAREA.items() if k < case[0])+case[1]
    dlat, dlon = ctx.real('dlat', -9, 9), ctx.real('dlon', -9, 9)
    v = [1, dlat, dlon, dlat*dlon, dlat*dlat, dlon*dlon]
    want = []
    for k in (inet, inet+1 if inet < 30 else 2):
        lc = cs.lc[k]
        lc.sat_n = [5, 90, 40] if k == inet else [90]
        lc.nsat_n = len(lc.sat_n)
        lc.ci = {}
        for s in lc.sat_n:
            c = [ctx.real(f'n{k}.{s}.{i}', -9, 9) for i in range(6)]
            lc.ci[s] = ctx.arr(c)
            if k == inet:
                want.append(sum(x*y for x, y in zip(c, v)))
    ctx.eq('network', cs.get_inet(*case), inet)
    cs.inet = inet
    r = cs.get_stec(dlat, dlon)
    ctx.eq('number', len(r), len(want))
    for k in range(len(want)):
        ctx.close('stec', r[k], want[k], 1e-9)
    cs.inet = -1
    ctx.check('outside', all(x == 0 for x in cs.get_stec(dlat, dlon)))
