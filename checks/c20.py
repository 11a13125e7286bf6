"""C20 broadcast orbit and clock models"""
import math
import numpy as np
from fractions import Fraction as F
from engine.api import harness
from cssrlib import ephemeris as EP
from cssrlib.gnss import Eph, Geph, uGNSS, gpst2time, gtime_t, prn2sat, \
    timediff

BOUNDS = ['all orbit parameters in the ranges of the navigation messages '
          '(as reals), |t-toe| up to 4 h', 'sin, cos and arctan2 of the same '
          'argument are the same unknown number (sin^2+cos^2=1)',
          'solution of Kepler\'s equation: up to ten iterations, '
          'four eccentricities up to 0.02 (thorough: 0.05) for every slope, '
          'up to 0.1 for slopes of one sign', 'GLONASS integration: '
          'the force model at every state, one Runge-Kutta step for linear '
          'systems (exact up to degree 4), up to 5 steps']
CL = 299792458.0
MU = {'G': 3.986005e14, 'E': 3.986004418e14, 'J': 3.986005e14,
      'C': 3.986004418e14, 'I': 3.986005e14}
OM = {'G': 7.2921151467e-5, 'E': 7.2921151467e-5, 'J': 7.2921151467e-5,
      'C': 7.292115e-5, 'I': 7.2921151467e-5}
SYS = {'G': uGNSS.GPS, 'E': uGNSS.GAL, 'J': uGNSS.QZS, 'C': uGNSS.BDS,
       'I': uGNSS.IRN}
SATS = ['G1', 'G32', 'E11', 'J194', 'C6', 'C20', 'C58', 'C1', 'C5', 'C59',
        'C63', 'I3']
WEEK = 2250
RNG = dict(M0=3.2, deln=1e-8, delnd=1e-12, e=0.3, A=4.3e7, Adot=0.1, OMG0=3.2,
           OMGd=1e-8, i0=1.5, idot=1e-9, omg=3.2, cuc=1e-4, cus=1e-4,
           crc=2000, crs=2000, cic=1e-4, cis=1e-4, af0=1e-2, af1=1e-8,
           af2=1e-13, toes=604800)


def setup(ctx, sat, mode, dtoc=True):
    c, prn = sat[0], int(sat[1:])
    e = Eph(prn2sat(SYS[c], prn))
    p = {}
    for k, v in RNG.items():
        lo = 0 if k in ('e', 'toes', 'i0') else 6e6 if k == 'A' else -v
        p[k] = ctx.real(k, lo, v)
        setattr(e, k, p[k])
    e.mode = mode
    e.toe = gpst2time(WEEK, 7200)
    e.toc = gpst2time(WEEK, 7200-600)
    dt = ctx.real('dt', -14400, 14400)
    t = gtime_t()
    t.time, t.sec = e.toe.time, dt
    return e, p, t, dt


def kepler(ctx):
    """stand-in for the solution of Kepler's equation"""
    E = ctx.real('E', -4, 4)
    rec = []

    def sol(M, e):
        rec.append((M, e))
        return E, ctx.sin(E)
    ctx.patch(EP, 'eccentricAnomaly', sol)
    return E, rec


def tol(k):
    return 1e-3*10.0**k


@harness(cases=[[s, m] for s in SATS for m in (0, 1)])
def h_orbit(ctx, case):
    """position and velocity are those of the perturbed Kepler orbit"""
    sat, mode = case
    c, prn = sat[0], int(sat[1:])
    eph, p, t, dt = setup(ctx, sat, mode)
    E, rec = kepler(ctx)
    rs, vs, dts = EP.eph2pos(t, eph, True)
    r2, d2 = EP.eph2pos(t, eph)
    rel = EP.eph2rel(t, eph)
    ctx.end()
    A, e = p['A'], p['e']
    mu, om = MU[c], OM[c]
    ext = 1 if mode else 0
    n = ctx.sqrt(mu/(A*A*A))+p['deln']+ext*p['delnd']*dt*0.5
    ctx.check('calls', len(rec) == 3)
    for M, e_ in rec:
        ctx.close('mean anomaly', M, p['M0']+n*dt, 1e-10)
        ctx.eq('eccentricity', e_, e)
    sE, cE = ctx.sin(E), ctx.cos(E)
    a = A+ext*p['Adot']*dt
    q = ctx.sqrt(1-e*e)
    nu = ctx.atan2(q*sE, cE-e)
    phi = nu+p['omg']
    s2, c2 = ctx.sin(2*phi), ctx.cos(2*phi)
    u = phi+p['cus']*s2+p['cuc']*c2
    r = a*(1-e*cE)+p['crs']*s2+p['crc']*c2
    i = p['i0']+p['idot']*dt+p['cis']*s2+p['cic']*c2
    geo = c == 'C' and (prn <= 5 or prn >= 59)
    O = p['OMG0']+p['OMGd']*dt-om*p['toes']
    if not geo:
        O = O-om*dt
    su, cu, si, ci, so, co = (ctx.sin(u), ctx.cos(u), ctx.sin(i), ctx.cos(i),
                              ctx.sin(O), ctx.cos(O))
    x, y = r*cu, r*su
    pos = [x*co-y*ci*so, x*so+y*ci*co, y*si]
    # time derivatives
    nd = n+ext*p['delnd']*dt*0.5
    Ed = nd/(1-e*cE)
    nud = q*Ed/(1-e*cE)
    ud = nud+2*nud*(p['cus']*c2-p['cuc']*s2)
    rd = a*e*sE*Ed+ext*p['Adot']*(1-e*cE)+2*nud*(p['crs']*c2-p['crc']*s2)
    di = p['idot']+2*nud*(p['cis']*c2-p['cic']*s2)
    Od = p['OMGd'] if geo else p['OMGd']-om
    xd, yd = rd*cu-r*su*ud, rd*su+r*cu*ud
    vel = [xd*co-yd*ci*so+y*si*so*di-Od*pos[1],
           xd*so+yd*ci*co-y*si*co*di+Od*pos[0],
           yd*si+y*ci*di]
    if geo:
        # rotation about x by -5 deg, then about z by om*dt
        b = math.radians(-5)
        cb, sb = math.cos(b), math.sin(b)
        sz, cz = ctx.sin(om*dt), ctx.cos(om*dt)

        def rot(g):
            k = [g[0], cb*g[1]+sb*g[2], cb*g[2]-sb*g[1]]
            return [cz*k[0]+sz*k[1], cz*k[1]-sz*k[0], k[2]]
        pos, vel = rot(pos), rot(vel)
        vel = [vel[0]+om*pos[1], vel[1]-om*pos[0], vel[2]]
    for k in range(3):
        ctx.close('position', rs[k], pos[k], 1e-3)
        ctx.close('velocity', vs[k], vel[k], 1e-4)
        ctx.close('position', r2[k], pos[k], 1e-3)
    dtc = dt+600
    w = -2*ctx.sqrt(mu*A)*e*sE/CL**2
    ctx.close('relativity', rel, w, 1e-16)
    w = w+p['af0']+p['af1']*dtc+p['af2']*dtc*dtc
    ctx.close('clock', dts, w, 1e-15)
    ctx.close('clock', d2, w, 1e-15)


@harness(cases=[0, 1])
def h_week(ctx, case):
    """time differences of a whole week are those of the next week"""
    a, b = gtime_t(), gtime_t()
    d = ctx.real('d', -604000, 604000)
    a.time, a.sec = 10**9, d
    b.time, b.sec = 10**9, 0.0
    if case:
        a, b = b, a
        d = 0-d
    ctx.close('difference', EP.dtadjust(a, b), d, 1e-9)


@harness(cases=[[c, a] for c, a in zip('GECJ', [0, 1e-13, -1e-13, 1e-15])])
def h_clock(ctx, case):
    """clock of a satellite time: polynomial at the system time"""
    c, af2 = case
    e = Eph(prn2sat(SYS[c], 194 if c == 'J' else 7))
    e.af0, e.af1, e.af2 = (ctx.real('af0', -1e-2, 1e-2),
                           ctx.real('af1', -1e-8, 1e-8), af2)
    e.toe = gpst2time(WEEK, 7200)
    e.toc = gpst2time(WEEK, 3600)
    dt = ctx.real('dt', -14400, 14400)
    t = gtime_t()
    t.time, t.sec = e.toc.time, dt
    r = EP.eph2clk(t, e)
    s = dt-r
    ctx.close('clock', r, e.af0+e.af1*s+e.af2*s*s, 1e-15)


@harness(cases=[[e, 0] for e in (0, 0.001, 0.01, 0.02)] +
         [[e, d] for e in (0.05, 0.075, 0.1) for d in (1, -1)], budget=100,
         thorough=lambda t: [[0.03, 0], [0.05, 0]])
def h_kepler(ctx, case):
    """the eccentric anomaly solves Kepler's equation, for every function sin
    with values in -1..1 and slopes up to 1 (high eccentricities: slopes of
    one sign between the iterates)"""
    e, sign = case
    M = ctx.real('M', -7, 7)
    if not ctx.symbolic:
        E, s = EP.eccentricAnomaly(M, e)
        ctx.close('equation', E, M+e*math.sin(E), 1e-9)
        ctx.close('sine', s, math.sin(E), 1e-7)
        return
    calls = []

    def sin(x):
        y = ctx.real(f'sin{len(calls)}', -1, 1)
        for a, b in calls[-1:]:
            d, f = x-a, y-b
            if sign > 0:
                ctx.assume(ctx.or_(ctx.and_(d >= 0, f <= d, f >= 0),
                                   ctx.and_(d <= 0, f >= d, f <= 0)))
            elif sign < 0:
                ctx.assume(ctx.or_(ctx.and_(d >= 0, f >= 0-d, f <= 0),
                                   ctx.and_(d <= 0, f <= 0-d, f >= 0)))
            else:
                ctx.assume(ctx.or_(ctx.and_(f <= d, f >= 0-d),
                                   ctx.and_(f >= d, f <= 0-d)))
        calls.append((x, y))
        return y
    ctx.patch(EP.np, 'sin', sin)
    E, s = EP.eccentricAnomaly(M, e)
    y = sin(E)
    ctx.end()
    ctx.close('equation', E, M+e*y, 1e-9)
    ctx.close('sine', s, y, 1e-7)


# GLONASS ------------------------------------------------------------------
J2, MUG, REG, OMG = 1.0826257e-3, 3.9860044e14, 6378136.0, 7.292115e-5


@harness(cases=[[2, 3, 6], [-1, 2, -2], [0, 0, 1], [4, -7, 4], [6, 6, -7],
                [1, 0, 0], [-12, 16, -15], [2, 10, 11]])
def h_force(ctx, u):
    """equations of motion of the GLONASS ICD: sampled directions, any radius
    from 6300 km, any velocity"""
    s = ctx.real('s', 6.3e6/25, 3e7)
    x = [s*k for k in u]
    v = [ctx.real(f'v{k}', -5e3, 5e3) for k in range(3)]
    a = [ctx.real(f'a{k}', -1e-5, 1e-5) for k in range(3)]
    d = EP.deq(ctx.arr(x+v), ctx.arr(a))
    r2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2]
    r = ctx.sqrt(r2)
    g = MUG/(r2*r)
    k = 1.5*J2*MUG*REG**2/(r2*r2*r)
    z = x[2]*x[2]/r2
    w = [0-g*x[0]-k*x[0]*(1-5*z)+OMG**2*x[0]+2*OMG*v[1]+a[0],
         0-g*x[1]-k*x[1]*(1-5*z)+OMG**2*x[1]-2*OMG*v[0]+a[1],
         0-g*x[2]-k*x[2]*(3-5*z)+a[2]]
    for i in range(3):
        ctx.close('velocity', d[i], v[i], 1e-12)
        ctx.close('acceleration', d[i+3], w[i], 1e-9)


@harness(cases=range(2))
def h_step(ctx, case):
    """the integration step is exact for motions up to degree four"""
    x = [ctx.real(f'x{k}', -9, 9) for k in range(6)]
    a = [ctx.real(f'a{k}', -9, 9) for k in range(3)]
    t = ctx.real('t', -2, 2)

    def deq(x, acc):
        # x0' = x1, x1' = x2, x2' = x3, x3' = acc0; x4' = x5, x5' = acc1
        return ctx.arr([x[1], x[2], x[3], acc[0], x[5], acc[1]])
    ctx.patch(EP, 'deq', deq)
    y = EP.glorbit(t, ctx.arr(x), ctx.arr(a))
    ctx.end()
    h = [1, t, t*t/2, t*t*t/6, t*t*t*t/24]
    c = [x[0], x[1], x[2], x[3], a[0]]
    for i in range(4):
        ctx.close('step', y[i], sum(c[i+j]*h[j] for j in range(5-i)), 1e-9)
    ctx.close('step', y[4], x[4]+t*x[5]+a[1]*h[2], 1e-9)
    ctx.close('step', y[5], x[5]+t*a[1], 1e-9)


@harness(cases=[1.0, 0.5, 30.0])
def h_glonass(ctx, step):
    """position and clock of a GLONASS satellite"""
    g = Geph(prn2sat(uGNSS.GLO, 7))
    p = [ctx.real(f'p{k}', -3e7, 3e7) for k in range(3)]
    v = [ctx.real(f'v{k}', -5e3, 5e3) for k in range(3)]
    a = [ctx.real(f'a{k}', -1e-5, 1e-5) for k in range(3)]
    g.pos, g.vel, g.acc = ctx.arr(p), ctx.arr(v), ctx.arr(a)
    g.taun, g.gamn = ctx.real('tau', -2e-3, 2e-3), ctx.real('gam', -1e-9,
                                                             1e-9)
    g.toe = gpst2time(WEEK, 7200)
    t = gtime_t()
    d = ctx.real('d', -4.3*step, 4.3*step)
    t.time, t.sec = g.toe.time, d
    rec = []

    def glorbit(tt, x, acc):
        rec.append(tt)
        for k in range(3):
            ctx.eq('acceleration', acc[k], a[k])
        return ctx.arr([x[k]+tt*x[k+3] for k in range(3)]+list(x[3:6]))
    ctx.patch(EP, 'glorbit', glorbit)
    kw = {} if step == 1.0 else dict(TSTEP=step)
    rs, vs, dts = EP.geph2pos(t, g, True, **kw)
    n = len(rec)
    r2, d2 = EP.geph2pos(t, g, **kw)
    ctx.end()
    for k in range(3):
        ctx.close('position', rs[k], p[k]+v[k]*d, 1e-4)
        ctx.close('velocity', vs[k], v[k], 1e-9)
        ctx.close('position', r2[k], p[k]+v[k]*d, 1e-4)
        ctx.eq('unchanged', g.pos[k], p[k])
        ctx.eq('unchanged', g.vel[k], v[k])
    for x in rec:
        ctx.check('step size', ctx.and_(x <= step, x >= -step))
    ctx.check('number of steps', n <= 6)
    ctx.close('clock', dts, g.gamn*d-g.taun, 1e-15)
    ctx.close('clock', d2, g.gamn*d-g.taun, 1e-15)


@harness()
def h_gclock(ctx, case):
    """clock and relativistic correction of GLONASS"""
    g = Geph(prn2sat(uGNSS.GLO, 7))
    g.taun, g.gamn = ctx.real('tau', -2e-3, 2e-3), ctx.real('gam', -1e-9,
                                                             1e-9)
    g.toe = gpst2time(WEEK, 7200)
    t = gtime_t()
    d = ctx.real('d', -1800, 1800)
    t.time, t.sec = g.toe.time, d
    r = EP.geph2clk(t, g)
    ctx.close('clock', r, g.gamn*(d-r)-g.taun, 1e-15)
    x = [ctx.real(f'x{k}', -3e7, 3e7) for k in range(3)]
    v = [ctx.real(f'v{k}', -5e3, 5e3) for k in range(3)]
    r = EP.geph2rel(ctx.arr(x), ctx.arr(v))
    ctx.close('relativity', r, (x[0]*v[0]+x[1]*v[1]+x[2]*v[2])*(-2/CL**2),
              1e-16)
