"""C34 propagation and displacement models"""
import math
import numpy as np
from engine.api import harness
from cssrlib import gnss as G
from cssrlib import ppp as P
from cssrlib import peph as PE
from cssrlib.gnss import epoch2time, uTropoModel

BOUNDS = ['elevation, latitude, height, relative humidity symbolic one or two '
          'at a time in the rational parts of the models; powers and '
          'exponentials at concrete heights; eight days of the year',
          'wind-up: six geometries, any accumulated phase up to 1000 cycles',
          'solid Earth tide: every latitude and longitude for four sun/moon '
          'positions', 'Earth rotation, sun and moon: four epochs, any pole '
          'position up to 1e-5 rad; nutation to 4e-7 rad']
NMF = [(15, [1.2769934e-3, 2.9153695e-3, 62.610505e-3], [0, 0, 0],
        [5.8021897e-4, 1.4275268e-3, 4.3472961e-2]),
       (30, [1.2683230e-3, 2.9152299e-3, 62.837393e-3],
        [1.2709626e-5, 2.1414979e-5, 9.0128400e-5],
        [5.6794847e-4, 1.5138625e-3, 4.6729510e-2]),
       (45, [1.2465397e-3, 2.9288445e-3, 63.721774e-3],
        [2.6523662e-5, 3.0160779e-5, 4.3497037e-5],
        [5.8118019e-4, 1.4572752e-3, 4.3908931e-2]),
       (60, [1.2196049e-3, 2.9022565e-3, 63.824265e-3],
        [3.4000452e-5, 7.2562722e-5, 84.795348e-5],
        [5.9727542e-4, 1.5007428e-3, 4.4626982e-2]),
       (75, [1.2045996e-3, 2.9024912e-3, 64.258455e-3],
        [4.1202191e-5, 11.723375e-5, 170.37206e-5],
        [6.1641693e-4, 1.7599082e-3, 5.4736038e-2])]
MOPS = [(15, [1013.25, 299.65, 26.31, 6.30e-3, 2.77], [0, 0, 0, 0, 0]),
        (30, [1017.25, 294.15, 21.79, 6.05e-3, 3.15],
         [-3.75, 7.00, 8.85, 0.25e-3, 0.33]),
        (45, [1015.75, 283.15, 11.66, 5.58e-3, 2.57],
         [-2.25, 11.00, 7.24, 0.32e-3, 0.46]),
        (60, [1011.75, 272.15, 6.78, 5.39e-3, 1.81],
         [-1.75, 15.00, 5.36, 0.81e-3, 0.74]),
        (75, [1013.00, 263.65, 4.11, 4.53e-3, 1.55],
         [-0.50, 14.50, 3.39, 0.62e-3, 0.30])]
DAYS = [[2021, 1, 1], [2021, 1, 28], [2021, 3, 19], [2021, 7, 29],
        [2024, 2, 29], [2024, 7, 30], [2023, 10, 15], [2024, 12, 31]]
D2R = math.pi/180


def doy(d):
    m = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if d[0] % 4 == 0:
        m[1] = 29
    return sum(m[:d[1]-1])+d[2]


def time(d, sec=0.0):
    return epoch2time(list(d)+[0, 0, sec])


def column(tab, k, col):
    return [r[col][k] for r in tab]


def band(deg, vals, b):
    """linear interpolation in band b (0: below 15 deg, 5: above 75)"""
    if b == 0:
        return vals[0]
    if b == 5:
        return vals[4]
    f = (deg-15*b)/15.0
    return vals[b-1]+(vals[b]-vals[b-1])*f


def latitude(ctx, b, south):
    """(radians, absolute degrees) of a latitude in band b"""
    deg = ctx.real('lat', 15*b+1e-9, 15*b+15-1e-9)
    return (-deg if south else deg)*D2R, deg


@harness(cases=[[b, s, d] for b in range(6) for s in (0, 1)
                for d in (1, 2, 5, 6)],
         thorough=[[b, s, d] for b in range(6) for s in (0, 1)
                   for d in range(8)])
def h_niell(ctx, case):
    """coefficients of the Niell mapping function for every latitude"""
    b, south, d = case
    lat, deg = latitude(ctx, b, south)
    ah, aw = G.mapfParam(time(DAYS[d], 3600.0), lat)
    ctx.end()
    y = (doy(DAYS[d])+3600/86400-28)/365.25+(0.5 if south else 0)
    cy = math.cos(2*math.pi*y)
    for k in range(3):
        ctx.close(f'ah{k}', ah[k]*1e4, (band(deg, column(NMF, k, 1), b) -
                  band(deg, column(NMF, k, 2), b)*cy)*1e4, 1e-8)
        ctx.close(f'aw{k}', aw[k]*1e4, band(deg, column(NMF, k, 3), b)*1e4,
                  1e-8)


def mf(s, c):
    """numerator and denominator of the mapping function"""
    a, b, d = c
    n0, n1 = 1.0+a/(1.0+b/(1.0+d)), s*(s+d)+b
    return n0*n1, s*n1+a*(s+d)


@harness(cases=[0, 2, 4])
def h_map(ctx, case):
    """mapping functions at every elevation, with the height correction of
    the hydrostatic one"""
    el = ctx.real('el', 0.03, 1.58)
    h = ctx.real('h', -500, 9000)
    s = ctx.sin(el)
    ctx.assume(s > 0.03)
    for c in (72, 120):
        ctx.assume(ctx.sin(ctx.sqrt(el*el+(math.pi/c)**2)) > 0.03)
    ah, aw = NMF[case][1], NMF[case][3]
    mh, mw = G.tropmapfNiell(time(DAYS[0]), [0.5, 1.0, h], el, ah, aw)
    sb = G.tropmapf(time(DAYS[0]), [0.5, 1.0, h], el, uTropoModel.SBAS)
    ho = G.tropmapf(time(DAYS[0]), [0.5, 1.0, h], el, uTropoModel.HOPF)
    no = G.tropmapf(time(DAYS[0]), [0.5, 1.0, h], el, uTropoModel.NONE)
    ctx.end()
    n, d = mf(s, aw)
    ctx.close('wet', mw*d, n, 1e-7)
    n, d = mf(s, ah)
    hn, hd = mf(s, [2.53e-5, 5.49e-3, 1.14e-3])
    # mh = n/d + (1/s - hn/hd) h
    ctx.close('hydrostatic', (mh*s*d*hd-s*n*hd-(hd-s*hn)*h*1e-3*d)*d, 0, 1e-6)
    ctx.close('sbas', sb[0]*sb[0]*(0.002001+s*s), 1.001*1.001, 1e-6)
    ctx.check('sbas>0', ctx.and_(sb[0] > 0, sb[0] == sb[1]))
    for k, c in ((0, 72), (1, 120)):
        ctx.close(f'hopfield{k}', ho[k]*ctx.sin(
            ctx.sqrt(el*el+(math.pi/c)**2)), 1, 1e-6)
    ctx.check('none', ctx.and_(no[0] == 0, no[1] == 0))


@harness(cases=[[l, d] for l in (10, -35.7, 52, 80) for d in (2, 5)])
def h_full(ctx, case):
    """the mapping function takes its coefficients from latitude and day"""
    lat, d = case
    h = ctx.real('h', -2000, 30000)
    el = 0.4
    mh, mw = G.tropmapf(time(DAYS[d]), [lat*D2R, 1.0, h], el,
                        uTropoModel.SAAST)
    m2, m3 = G.tropmapf(time(DAYS[d]), [lat*D2R, 1.0, h], -0.1)
    ctx.end()
    y = (doy(DAYS[d])-28)/365.25+(0.5 if lat < 0 else 0)
    cy = math.cos(2*math.pi*y)
    b = min(int(abs(lat)//15), 5)
    ah = [band(abs(lat), column(NMF, k, 1), b) -
          band(abs(lat), column(NMF, k, 2), b)*cy for k in range(3)]
    aw = [band(abs(lat), column(NMF, k, 3), b) for k in range(3)]
    s = math.sin(el)
    (n, q), (hn, hq), (wn, wq) = mf(s, ah), mf(
        s, [2.53e-5, 5.49e-3, 1.14e-3]), mf(s, aw)
    inside = ctx.and_(h >= -1000, h <= 20000)
    ctx.close('hyd', mh, ctx.ite(inside, n/q+(1/s-hn/hq)*h*1e-3, 0), 1e-7)
    ctx.close('wet', mw, ctx.ite(inside, wn/wq, 0), 1e-7)
    ctx.check('below horizon', ctx.and_(m2 == 0, m3 == 0))


@harness(cases=[-400, 0, 35, 1000, 4800, 9000])
def h_saast(ctx, case):
    """Saastamoinen zenith delays in the standard atmosphere"""
    h = float(case)
    lat = ctx.real('lat', -1.57, 1.57)
    hum = ctx.real('humi', 0, 1)
    hs, wet, z = G.tropmodel(time(DAYS[0]), [lat, 1.0, h], humi=hum)
    ctx.end()
    p = 1013.25*(1-2.2557e-5*h)**5.2568
    T = 288.16-6.5e-3*h
    e = 6.108*hum*math.exp((17.15*T-4684)/(T-38.45))
    ctx.close('hydrostatic', hs*(1-0.00266*ctx.cos(2*lat)-0.28e-6*h),
              0.0022768*p, 1e-7)
    ctx.close('wet', wet, 0.002277*(1255/T+0.05)*e, 1e-7)


@harness(cases=[[b, s, d] for b in range(6) for s in (0, 1)
                for d in (1, 3, 5)])
def h_mops(ctx, case):
    """meteorological parameters of the SBAS model for every latitude"""
    b, south, d = case
    lat, deg = latitude(ctx, b, south)
    v = G.atmosParam(time(DAYS[d]), -deg if south else deg)
    ctx.end()
    cy = math.cos(2*math.pi*(doy(DAYS[d])-(211 if south else 28))/365.25)
    for k in range(5):
        ctx.close(f'p{k}', v[k], band(deg, column(MOPS, k, 1), b) -
                  band(deg, column(MOPS, k, 2), b)*cy, 1e-6)


@harness(cases=[[l, h, d] for l in (5, -20.5, 47, -80) for h in (0, 2500)
                for d in (1, 3)])
def h_sbas(ctx, case):
    """SBAS tropospheric delays at every elevation"""
    lat, h, d = case
    el = ctx.real('el', 0.03, 1.58)
    s = ctx.sin(el)
    hyd, wet, _ = G.tropmodel(time(DAYS[d]), [lat*D2R, 1.0, float(h)], el,
                              model=uTropoModel.SBAS)
    ctx.end()
    cy = math.cos(2*math.pi*(doy(DAYS[d])-(211 if lat < 0 else 28))/365.25)
    b = min(int(abs(lat)//15), 5)
    p, T, e, be, la = [band(abs(lat), column(MOPS, k, 1), b) -
                       band(abs(lat), column(MOPS, k, 2), b)*cy
                       for k in range(5)]
    R, gm, g = 287.054, 9.784, 9.80665
    zh = 1e-6*77.604*R*p/gm
    zw = 1e-6*382000*R/(gm*(la+1)-be*R)*e/T
    q = 1-be*h/T
    dh, dw = q**(g/(R*be))*zh, q**((la+1)*g/(R*be)-1)*zw
    ctx.close('hyd', hyd*hyd*(0.002001+s*s), (1.001*dh)**2, 1e-6)
    ctx.close('wet', wet*wet*(0.002001+s*s), (1.001*dw)**2, 1e-6)
    ctx.check('sign', ctx.and_(hyd > 0, wet > 0))


@harness(cases=[0])
def h_hopf(ctx, case):
    """Hopfield zenith delays do not depend on the site"""
    pos = [ctx.real('lat', -1.5, 1.5), 0.0, ctx.real('h', 0, 9000)]
    d, w, _ = G.tropmodel(time(DAYS[0]), pos, model=uTropoModel.HOPF)
    n = G.tropmodel(time(DAYS[0]), pos, model=uTropoModel.NONE)
    ctx.end()
    T = 291.1
    ctx.close('dry', d, 77.6e-6*1010/T*(40082+148.98*(T-273.16))/5, 2e-5)
    ctx.close('wet', w, 77.6e-6*4810*10.4/T**2*11000/5, 1e-7)
    ctx.check('none', ctx.and_(n[0] == 0, n[1] == 0))


WIND = [([15.6e6, 7e6, 20e6], [-1e3, 2.5e3, 0.4e3], [-3.95e6, 3.36e6, 3.7e6]),
        ([-20e6, 14e6, 10e6], [1e3, 0.5e3, 2.9e3], [-3.95e6, 3.36e6, 3.7e6]),
        ([5e6, 20e6, -16e6], [2e3, -1.2e3, -2e3], [4e6, 3e6, -3.9e6]),
        ([10e6, 24e6, 0], [-1e2, 2e2, 3.1e3], [1.2e6, 5.9e6, 2.1e6]),
        ([-9e6, -23e6, 8e6], [3e3, -1e3, 0.3e3], [-2.7e6, -4.3e6, 3.8e6]),
        ([1e6, 1e6, 26e6], [3e3, -1.9e3, 0.1e3], [1e6, 0.4e6, 6.2e6])]
SUN = [np.array([0.7e11, 1.2e11, -0.55e11]), np.array([-1.1e11, 0.9e11, 0.3e11])]


def unit(v):
    v = np.asarray(v, float)
    return v/math.sqrt(v@v)


@harness(cases=[[g, k] for g in range(6) for k in (0, 1, 2)])
def h_wind(ctx, case):
    """phase wind-up: the effective dipole angle, continued without jumps of
    half a cycle or more"""
    g, k = case
    rs, vs, rr = [np.array(v, float) for v in WIND[g]]
    phw = ctx.real('phw', -1000, 1000)
    if k:
        sun = SUN[k-1]
        new = P.windupcorr(time(DAYS[0]), rs, vs, rr, sun, phw, full=True)
    else:
        new = P.windupcorr(time(DAYS[0]), rs, vs, rr, SUN[0], phw)
    ctx.end()
    # satellite frame
    z = unit(-rs)
    s = unit(sun-rs) if k else unit(vs+np.cross([0, 0, 7.2921151467e-5], rs))
    y = unit(np.cross(z, s))
    x = np.cross(y, z)
    # receiver frame
    pos = G.ecef2pos(rr)
    sp, cp, sl, cl = (math.sin(pos[0]), math.cos(pos[0]), math.sin(pos[1]),
                      math.cos(pos[1]))
    e, n = np.array([-sl, cl, 0]), np.array([-sp*cl, -sp*sl, cp])
    u = unit(rr-rs)
    ds = x-u*(u@x)-np.cross(u, y)
    dr = e-u*(u@e)+np.cross(u, n)
    ref = math.atan2(u@np.cross(ds, dr), ds@dr)/(2*math.pi)
    ctx.check('continuous', ctx.and_(new-phw <= 0.5+1e-9,
                                     new-phw >= -0.5-1e-9))
    m = ctx.floor(new-ref+0.5)
    ctx.check('angle', ctx._near(new-ref, m, 1e-6))


BODY = [([0.7e11, 1.2e11, -0.55e11], [2.2e8, -3.0e8, 1.0e8]),
        ([-1.1e11, 0.9e11, 0.3e11], [-3.7e8, 0.4e8, -1.2e8]),
        ([0.2e11, -1.45e11, 0.6e11], [0.3e8, 3.6e8, 0.9e8]),
        ([1.47e11, 0.05e11, 0.01e11], [1e8, 1e8, -3.4e8])]


@harness(cases=[[k, f] for k in range(4) for f in (0, 1, 2)])
def h_tide(ctx, case):
    """solid Earth tide displacement for every site"""
    k, perm = case
    ctx.trig_expand()
    lat, lon = ctx.real('lat', -1.57, 1.57), ctx.real('lon', -3.14, 3.14)
    sp, cp, sl, cl = ctx.sin(lat), ctx.cos(lat), ctx.sin(lon), ctx.cos(lon)
    E = ctx.arr([[-sl, cl, 0], [-sp*cl, -sp*sl, cp], [cp*cl, cp*sl, sp]])
    gm = 1.234+k
    sun, moon = [np.array(v) for v in BODY[k]]
    pos = ctx.arr([lat, lon, 0.0])
    if perm == 2:
        ctx.patch(P, 'sunmoonpos', lambda t, erp=None: (sun, moon, gm))
        dr = P.tidedisp(time(DAYS[0]), pos)
    else:
        dr = P.solid_tide(sun, moon, pos, E, gm, bool(perm))
    ctx.end()
    GME, GMS, GMM = 3.986004415e14, 1.327124e20, 4.902801e12
    RE = 6378137.0
    up = [cp*cl, cp*sl, sp]
    no = [-sp*cl, -sp*sl, cp]
    ref = [0, 0, 0]
    for rp, gmp in ((sun, GMS), (moon, GMM)):
        r = math.sqrt(rp@rp)
        ep = rp/r
        K2 = gmp/GME*RE**4/r**3
        K3 = K2*RE/r
        lap, lop = math.asin(ep[2]), math.atan2(ep[1], ep[0])
        sd, cd = sl*math.cos(lop)-cl*math.sin(lop), \
            cl*math.cos(lop)+sl*math.sin(lop)
        p = (3*sp*sp-1)/2
        h2, l2, h3, l3 = 0.6078-0.0006*p, 0.0847+0.0002*p, 0.293, 0.0156
        a = sum(up[i]*ep[i] for i in range(3))
        tr = K2*3*l2*a+K3*l3*(7.5*a*a-1.5)
        ra = K2*h2*(1.5*a*a-0.5)+K3*h3*(2.5*a*a*a-1.5*a)
        # out of phase
        ra = ra+0.75*0.0025*K2*math.sin(2*lap)*2*sp*cp*sd
        ra = ra+0.75*0.0022*K2*math.cos(lap)**2*cp*cp*2*sd*cd
        for i in range(3):
            ref[i] = ref[i]+ra*up[i]+tr*(ep[i]-a*up[i])
    k1 = -0.012*2*sp*cp*(math.sin(gm)*cl+math.cos(gm)*sl)
    for i in range(3):
        v = ref[i]+k1*up[i]
        if perm:
            v = v+0.1196*(1.5*sp*sp-0.5)*up[i]+0.0247*2*sp*cp*no[i]
        ctx.close(f'd{i}', dr[i]*1e3, v*1e3, 1e-3)


@harness(cases=[[0.6, 2.4], [-0.7, -1.2], [1.2, 0.3]])
def h_iers(ctx, case):
    """displacements of the external tide model are rotated from local
    east/north/up to the Earth-fixed frame at the right place and time"""
    lat, lon = case
    d = [ctx.real(n, -1, 1) for n in 'enu']
    rec = []

    def grid(*a):
        rec.append(a)
        return [ctx.arr([[v]]) for v in d]
    ctx.patch(P, 'solid_grid', grid)
    dr = P.tidedispIERS2010(epoch2time([2021, 3, 19, 12, 34, 56]),
                            np.array([lat, lon, 100.0]))
    ctx.end()
    a = rec[0]
    ctx.check('time', list(a[:6]) == [2021, 3, 19, 12, 34, 56])
    ctx.check('place', abs(a[6]-lat/D2R) < 1e-9 and abs(a[9]-lon/D2R) < 1e-9)
    sp, cp, sl, cl = math.sin(lat), math.cos(lat), math.sin(lon), math.cos(lon)
    E = [[-sl, cl, 0], [-sp*cl, -sp*sl, cp], [cp*cl, cp*sl, sp]]
    for i in range(3):
        ctx.close(f'd{i}', dr[i], sum(E[k][i]*d[k] for k in range(3)), 1e-9)


def rot(ax, t):
    c, s = math.cos(t), math.sin(t)
    i, j = (ax+1) % 3, (ax+2) % 3
    R = np.eye(3)
    R[i, i] = R[j, j] = c
    R[i, j], R[j, i] = s, -s
    return R


# largest terms of the IAU 1980 nutation (0.1 mas)
NUT = [([0, 0, 0, 0, 1], -171996, -174.2, 92025, 8.9),
       ([0, 0, 2, -2, 2], -13187, -1.6, 5736, -3.1),
       ([0, 0, 2, 0, 2], -2274, -0.2, 977, -0.5),
       ([0, 0, 0, 0, 2], 2062, 0.2, -895, 0.5),
       ([0, -1, 0, 0, 0], -1426, 3.4, 54, -0.1),
       ([1, 0, 0, 0, 0], 712, 0.1, -7, 0.0),
       ([0, 1, 2, -2, 2], -517, 1.2, 224, -0.6),
       ([0, 0, 2, 0, 1], -386, -0.4, 200, 0.0),
       ([1, 0, 2, 0, 2], -301, 0.0, 129, -0.1),
       ([0, -1, 2, -2, 2], 217, -0.5, -95, 0.3),
       ([-1, 0, 0, 2, 0], 158, 0.0, -1, 0.0),
       ([0, 0, 2, -2, 1], 129, 0.1, -70, 0.0),
       ([-1, 0, 2, 0, 2], 123, 0.0, -53, 0.0),
       ([1, 0, 0, 0, 1], 63, 0.1, -33, 0.0),
       ([0, 0, 0, 2, 0], 63, 0.0, -2, 0.0),
       ([-1, 0, 2, 2, 2], -59, 0.0, 26, 0.0),
       ([-1, 0, 0, 0, 1], -58, -0.1, 32, 0.0),
       ([1, 0, 2, 0, 1], -51, 0.0, 27, 0.0)]
ARG = [(134.96340251, 1717915923.2178, 31.8792, 0.051635, -0.00024470),
       (357.52910918, 129596581.0481, -0.5532, 0.000136, -0.00001149),
       (93.27209062, 1739527262.8478, -12.7512, -0.001037, 0.00000417),
       (297.85019547, 1602961601.2090, -6.3706, 0.006593, -0.00003169),
       (125.04455501, -6962890.2665, 7.4722, 0.007702, -0.00005939)]
# UTC epochs and GPST-UTC
EPOCHS = [([2010, 12, 31, 8, 9, 10.0], 15), ([2021, 3, 19, 12, 0, 0.0], 18),
          ([2016, 12, 31, 23, 59, 50.5], 17), ([2024, 7, 4, 5, 6, 7.0], 18)]
AS = D2R/3600


def jd2000(ep):
    """days since 2000-01-01 12:00 of a date"""
    y, m, d = ep[:3]
    a = (14-m)//12
    y2, m2 = y+4800-a, m+12*a-3
    jdn = d+(153*m2+2)//5+365*y2+y2//4-y2//100+y2//400-32045
    return jdn-2451545, (ep[3]*3600+ep[4]*60+ep[5])


def args(T):
    return [((c[0]*3600+c[1]*T+c[2]*T**2+c[3]*T**3+c[4]*T**4)*AS) %
            (2*math.pi) for c in ARG]


def celestial(ep, leap, dut):
    """rotation of the celestial to the Earth-fixed frame without polar
    motion, and mean sidereal time"""
    d, s = jd2000(ep)
    T = ((d-0.5)*86400+s+leap+19+32.184)/86400/36525
    f = args(T)
    ze = (2306.2181*T+0.30188*T**2+0.017998*T**3)*AS
    th = (2004.3109*T-0.42665*T**2-0.041833*T**3)*AS
    z = (2306.2181*T+1.09468*T**2+0.018203*T**3)*AS
    eps = (84381.448-46.8150*T-0.00059*T**2+0.001813*T**3)*AS
    dp = sum((a+b*T)*math.sin(sum(x*y for x, y in zip(m, f)))
             for m, a, b, c, e in NUT)*1e-4*AS
    de = sum((c+e*T)*math.cos(sum(x*y for x, y in zip(m, f)))
             for m, a, b, c, e in NUT)*1e-4*AS
    pr = rot(2, -z)@rot(1, th)@rot(2, -ze)
    nu = rot(0, -eps-de)@rot(2, -dp)@rot(0, eps)
    s1 = s+dut
    t1 = (d-0.5)/36525
    gm = 24110.54841+8640184.812866*t1+0.093104*t1**2-6.2e-6*t1**3 + \
        1.002737909350795*s1
    gm = (gm % 86400)/86400*2*math.pi
    ga = gm+dp*math.cos(eps)+(0.00264*math.sin(f[4]) +
                              0.000063*math.sin(2*f[4]))*AS
    return rot(2, ga)@nu@pr, gm


def sunmoon(ep, dut):
    d, s = jd2000(ep)
    T = ((d-0.5)*86400+s+dut)/86400/36525
    f = args(T)
    e = (23.439291-0.0130042*T)*D2R
    M = (357.5277233+35999.05034*T)*D2R
    l = (280.460+36000.770*T+1.914666471*math.sin(M) +
         0.019994643*math.sin(2*M))*D2R
    r = 149597870691.0*(1.000140612-0.016708617*math.cos(M) -
                        0.000139589*math.cos(2*M))
    sun = r*np.array([math.cos(l), math.cos(e)*math.sin(l),
                      math.sin(e)*math.sin(l)])
    sn, cs = math.sin, math.cos
    lm = (218.32+481267.883*T+6.29*sn(f[0])-1.27*sn(f[0]-2*f[3]) +
          0.66*sn(2*f[3])+0.21*sn(2*f[0])-0.19*sn(f[1])-0.11*sn(2*f[2]))*D2R
    pm = (5.13*sn(f[2])+0.28*sn(f[0]+f[2])-0.28*sn(f[2]-f[0]) -
          0.17*sn(f[2]-2*f[3]))*D2R
    u = (0.9508+0.0518*cs(f[0])+0.0095*cs(f[0]-2*f[3])+0.0078*cs(2*f[3]) +
         0.0028*cs(2*f[0]))*D2R
    ec = np.array([cs(pm)*cs(lm), cs(pm)*sn(lm), sn(pm)])
    return sun, 6378137.0/sn(u)*(rot(0, -e)@ec)


def polar(ctx, xp, yp, M):
    """polar motion applied to a matrix or vector"""
    sx, cx, sy, cy = ctx.sin(xp), ctx.cos(xp), ctx.sin(yp), ctx.cos(yp)
    # Ry(-xp) Rx(-yp)
    W = [[cx, sx*sy, sx*cy], [0, cy, -sy], [-sx, cx*sy, cx*cy]]
    M = np.asarray(M)
    if M.ndim == 1:
        return [sum(W[i][k]*float(M[k]) for k in range(3)) for i in range(3)]
    return [[sum(W[i][k]*float(M[k, j]) for k in range(3))
             for j in range(3)] for i in range(3)]


def pole(ctx):
    ctx.trig_expand()
    xp, yp = ctx.real('xp', -1e-5, 1e-5), ctx.real('yp', -1e-5, 1e-5)
    for v in (xp, yp):
        ctx.assume(ctx._near(ctx.sin(v), v, 1e-12))
        ctx.assume(ctx._near(ctx.cos(v), 1, 1e-9))
    return xp, yp


@harness(cases=[[k, d, m] for k in range(4) for d in (0, -0.4)
                for m in ('ppp', 'peph')])
def h_ecef(ctx, case):
    """celestial to Earth-fixed rotation"""
    k, dut, mod = case
    ep, leap = EPOCHS[k]
    xp, yp = pole(ctx)
    erp = ctx.arr([xp, yp, dut, 0.0, 0.0])
    utc = epoch2time(ep)
    if mod == 'ppp':
        U, gm = P.eci2ecef(G.utc2gpst(utc), erp)
    else:
        U, gm = PE.eci2ecef(utc, erp)
    ctx.end()
    M, ref = celestial(ep, leap, dut)
    R = polar(ctx, xp, yp, M)
    for i in range(3):
        for j in range(3):
            ctx.close(f'U{i}{j}', U[i][j], R[i][j], 4e-7)
    ctx.close('gmst', gm, ref, 1e-9)


@harness(cases=[[k, m] for k in range(4) for m in ('ppp', 'peph')])
def h_sun(ctx, case):
    """Earth-fixed positions of sun and moon at a UTC time"""
    k, mod = case
    ep, leap = EPOCHS[k]
    dut = 0.3
    xp, yp = pole(ctx)
    erp = ctx.arr([xp, yp, dut, 0.0, 0.0])
    utc = epoch2time(ep)
    if mod == 'ppp':
        sun, moon, gm = P.sunmoonpos(utc, erp)
    else:
        sun, moon, gm = PE.sunmoonpos(utc, erp, True, True, True)
    ctx.end()
    M, ref = celestial(ep, leap, dut)
    s, m = sunmoon(ep, dut)
    for nm, v, r in (('sun', sun, s), ('moon', moon, m)):
        R = polar(ctx, xp, yp, M@r)
        a = math.sqrt(r@r)
        for i in range(3):
            ctx.close(f'{nm}{i}', v[i]/a, R[i]/a, 1e-6)
    ctx.close('gmst', gm, ref, 1e-9)
