"""C33 coordinates and geometry"""
import math
import numpy as np
from fractions import Fraction as F
from engine.api import harness
from cssrlib import gnss as G

BOUNDS = ['latitude, longitude, azimuth and elevation enter through their sine '
          'and cosine (s^2+c^2=1), all values', 'positions up to 5e7 m',
          'geodetic conversion: all longitudes; latitudes and heights '
          '-500 m .. 50 km and one satellite height as listed in the cases',
          'dilution of precision: three '
          'constellations of four to six satellites, every elevation mask']
CL = 299792458.0
OMGE = 7.2921151467e-5
A, FL = 6378137.0, 1.0/298.257223563


def trig(ctx, th):
    return ctx.sin(th), ctx.cos(th)


def site(ctx, pre=''):
    return ctx.real(pre+'lat', -1.5707, 1.5707), ctx.real(pre+'lon', -3.1416,
                                                          3.1416)


@harness(cases=[0])
def h_frame(ctx, case):
    """east/north/up is an orthonormal right-handed frame; up is the normal
    of the ellipsoid, east is horizontal and perpendicular to the axis"""
    lat, lon = site(ctx)
    h = ctx.real('h', -1e4, 5e7)
    pos = ctx.arr([lat, lon, h])
    E = G.xyz2enu(pos)
    ctx.end()
    sp, cp = trig(ctx, lat)
    sl, cl = trig(ctx, lon)
    ref = [[-sl, cl, 0], [-sp*cl, -sp*sl, cp], [cp*cl, cp*sl, sp]]
    for i in range(3):
        for j in range(3):
            ctx.close(f'E{i}{j}', E[i][j], ref[i][j], 1e-9)
    for i in range(3):
        for j in range(3):
            ctx.close(f'I{i}{j}', sum(E[i][k]*E[j][k] for k in range(3)),
                      1 if i == j else 0, 1e-9)
    # right-handed: east x north = up
    for k in range(3):
        a, b = (k+1) % 3, (k+2) % 3
        ctx.close(f'x{k}', E[0][a]*E[1][b]-E[0][b]*E[1][a], E[2][k], 1e-9)
    ctx.check('arg', ctx.and_(pos[0] == lat, pos[1] == lon, pos[2] == h))


@harness(cases=[0])
def h_rot(ctx, case):
    """vectors rotate into the local frame and back unchanged"""
    lat, lon = site(ctx)
    r = [ctx.real(f'r{k}', -5e7, 5e7) for k in range(3)]
    pos = np.array([lat, lon, 0.0]) if not ctx.symbolic else \
        ctx.arr([lat, lon, 0.0])
    e = G.ecef2enu(pos, ctx.arr(r))
    ctx.end()
    sp, cp = trig(ctx, lat)
    sl, cl = trig(ctx, lon)
    ref = [[-sl, cl, 0], [-sp*cl, -sp*sl, cp], [cp*cl, cp*sl, sp]]
    for i in range(3):
        ctx.close(f'e{i}', e[i], sum(ref[i][k]*r[k] for k in range(3)), 1e-4)


@harness(cases=[0])
def h_dist(ctx, case):
    """geometric range with Earth rotation, unit vector from the receiver to
    the satellite; the arguments keep their values"""
    rs = [ctx.real(f's{k}', -5e7, 5e7) for k in range(3)]
    rr = [ctx.real(f'r{k}', -7e6, 7e6) for k in range(3)]
    d = [rs[k]-rr[k] for k in range(3)]
    d2 = d[0]*d[0]+d[1]*d[1]+d[2]*d[2]
    ctx.assume(d2 > 1e10)
    s_, r_ = ctx.arr(rs), ctx.arr(rr)
    r, e = G.geodist(s_, r_)
    v = G.vnorm(ctx.arr(d))
    ctx.end()
    n = ctx.sqrt(d2)
    ctx.close('range', r, n+OMGE*(rs[0]*rr[1]-rs[1]*rr[0])/CL, 1e-6)
    for k in range(3):
        ctx.close(f'e{k}', e[k]*n, d[k], 1e-4)
        ctx.close(f'v{k}', v[k]*n, d[k], 1e-4)
        ctx.check(f'arg{k}', ctx.and_(s_[k] == rs[k], r_[k] == rr[k]))


@harness(cases=[0])
def h_azel(ctx, case):
    """azimuth (from north over east) and elevation of a direction"""
    lat, lon = site(ctx)
    az = ctx.real('az', -3.1416, 3.1416)
    el = ctx.real('el', -1.5, 1.5)
    sp, cp = trig(ctx, lat)
    sl, cl = trig(ctx, lon)
    sa, ca = trig(ctx, az)
    se, ce = trig(ctx, el)
    ctx.assume(ce > 0.01)
    e, n, u = ce*sa, ce*ca, se
    v = [-sl*e-sp*cl*n+cp*cl*u, cl*e-sp*sl*n+cp*sl*u, cp*n+sp*u]
    a, b = G.satazel(ctx.arr([lat, lon, 0.0]), ctx.arr(v))
    ctx.end()
    ctx.close('sin el', ctx.sin(b), se, 1e-9)
    ctx.close('cos el', ctx.cos(b), ce, 1e-6)
    ctx.close('sin az', ctx.sin(a), sa, 1e-6)
    ctx.close('cos az', ctx.cos(a), ca, 1e-6)


@harness(cases=[0, 1])
def h_llh(ctx, case):
    """geodetic to Cartesian: on the normal of the ellipsoid, at the height"""
    lat, lon = site(ctx)
    h = ctx.real('h', -1e4, 5e7)
    k = 180/math.pi if case else 1
    deg = [lat*k, lon*k, h] if case else [lat, lon, h]
    arg = ctx.arr(deg)
    r = G.pos2ecef(arg, bool(case)) if case else G.pos2ecef(arg)
    ctx.end()
    m = math.pi/180 if case else 1
    a, b = (deg[0]*m, deg[1]*m) if case else (lat, lon)
    sp, cp = trig(ctx, a)
    sl, cl = trig(ctx, b)
    e2 = FL*(2-FL)
    w = ctx.sqrt(1-e2*sp*sp)
    # w*r avoids the division
    ctx.close('x', r[0]*w, (A+h*w)*cp*cl, 1e-5)
    ctx.close('y', r[1]*w, (A+h*w)*cp*sl, 1e-5)
    ctx.close('z', r[2]*w, (A*(1-e2)+h*w)*sp, 1e-5)
    for i in range(3):
        ctx.check(f'arg{i}', arg[i] == deg[i])


# rational points of the unit circle: tan(lat/2)
LATS = ['0', '1/1000', '1/7', '2/7', '-2/5', '3/5', '-4/5', '9/10',
        '999/1000', '99999/100000']


@harness(cases=[[t, h] for t in LATS for h in (-500, 0, 9000, 20200000)],
         )
def h_geod(ctx, case):
    """Cartesian to geodetic, for every longitude"""
    t, h = F(case[0]), case[1]
    sp, cp = float(2*t/(1+t*t)), float((1-t*t)/(1+t*t))
    lon = ctx.real('lon', -3.1415, 3.1415)
    sl, cl = trig(ctx, lon)
    e2 = FL*(2-FL)
    v = A/math.sqrt(1-e2*sp*sp)
    p, z = (v+h)*cp, (v*(1-e2)+h)*sp
    pos = G.ecef2pos(ctx.arr([p*cl, p*sl, z+0*lon]))
    ctx.end()
    ctx.close('sin lat', ctx.sin(pos[0]), sp, 1e-10)
    ctx.close('cos lat', ctx.cos(pos[0]), cp, 1e-10)
    ctx.close('hgt', pos[2], h, 1e-3)
    if p > 1:
        ctx.close('sin lon', ctx.sin(pos[1]), sl, 1e-9)
        ctx.close('cos lon', ctx.cos(pos[1]), cl, 1e-9)


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum(M[0][j]*(-1)**j*det([r[:j]+r[j+1:] for r in M[1:]])
               for j in range(n) if not (isinstance(M[0][j], float)
                                         and M[0][j] == 0.0))


SKY = [[(0.1, 1.2), (1.9, 0.6), (3.5, 0.4), (5.0, 0.9)],
       [(0.1, 1.2), (0.7, 0.05), (1.9, 0.6), (3.5, 0.4), (5.0, 0.9)],
       [(0.3, 0.3), (1.4, 0.8), (2.6, 0.5), (-0.5, 0.1), (-2.0, 0.7),
        (-1.2, 1.1)]]


@harness(cases=[0, 1, 2])
def h_dop(ctx, case):
    """dilution of precision: that of the satellites not below the mask,
    whatever the mask"""
    sky = SKY[case]
    mask = ctx.real('mask', 0, 1.5)
    dop = G.dops(np.array([a for a, e in sky]), np.array([e for a, e in sky]),
                 mask)
    ctx.end()
    for n in range(len(sky)+1):
        els = sorted((e for a, e in sky), reverse=True)
        lo = els[n] if n < len(els) else -1
        hi = els[n-1] if n else 2
        use = [(a, e) for a, e in sky if e >= hi]
        sel = ctx.and_(mask > lo, mask <= hi)
        if n < 4:
            ctx.check(f'none{n}', ctx.implies(sel, dop is None))
            continue
        if dop is None:
            ctx.check(f'some{n}', ctx.not_(sel))
            continue
        H = np.array([[math.cos(e)*math.sin(a), math.cos(e)*math.cos(a),
                       math.sin(e), 1] for a, e in use])
        Q = np.diag(np.linalg.inv(H.T@H))
        for i, r in enumerate((Q.sum(), Q[:3].sum(), Q[:2].sum(), Q[2])):
            ctx.check(f'dop{n}{i}', ctx.implies(
                sel, ctx._near(dop[i], math.sqrt(r), 1e-6)))
