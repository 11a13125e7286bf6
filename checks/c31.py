"""C31 standalone positioning"""
from types import SimpleNamespace as NS
import numpy as np
from engine.api import harness
from cssrlib import pntpos as PP
from cssrlib import cssrlib as CS
from cssrlib.gnss import uGNSS, uIonoModel, gtime_t, sat2prn
from checks.c22 import filt, sigtab, number, frq, CL

BOUNDS = ['residuals: two or three satellites, single frequency, L1/L2 and '
          'L1/L5 combinations, any values', 'Hatch filter: three epochs '
          '(thorough: four), any code and phase values, gaps and missing '
          'values', 'Klobuchar: any coefficients or any time; six '
          'concrete directions and sites']
ASSUMPTIONS = ['geometry and troposphere models are arbitrary numbers']


@harness(cases=[[s, nf, pm] for s in (['G1', 'G2'], ['G5', 'R7', 'E3'])
                for nf in (1, 2) for pm in (0, 1)])
def h_spp(ctx, case):
    """standalone positioning: one row per satellite, clock column"""
    sats, nf, pm = case
    p = filt(sats, nf, 0, 0, pm, cls=PP.stdpos)
    p.nav.nx = 8 if pm else 4
    n = len(sats)
    sat = np.array([number(s) for s in sats])
    y = [[ctx.real(f'y{k}', -1e4, 1e4)]+[0.0]*(nf-1) for k in range(n)]
    e = [[ctx.real(f'e{k}_{f}', -1, 1) for f in range(3)] for k in range(n)]
    var = [ctx.real(f'v{k}', 1e-6, 9) for k in range(n)]
    p.varerr = lambda nav, el, f, e=None, sat=None: var[int(el)]
    obs = NS(t=gtime_t(), sig=sigtab(sats, nf), sat=sat)
    bad = ctx.choice('edited', [-1]+list(range(n)))
    if bad >= 0:
        p.nav.edt[sat[bad]-1, nf-1] = 1
    v, H, R = p.sdres(obs, np.zeros(p.nav.nx), ctx.arr(y), ctx.arr(e), sat,
                      np.arange(n).astype(float))
    ctx.end()
    rows = [k for sy in obs.sig for k in range(n)
            if sat2prn(sat[k])[0] == sy and k != bad]
    ctx.check('rows', len(v) == len(rows))
    for r, k in enumerate(rows):
        ctx.eq('residual', v[r], y[k][0])
        for q in range(p.nav.nx):
            ctx.eq('design', H[r, q], 0-e[k][q] if q < 3 else
                   int(q == (6 if pm else 3)))
        for r2 in range(len(rows)):
            ctx.eq('covariance', R[r, r2], var[k] if r2 == r else 0)


@harness(cases=[[ep] for ep in (1, 2, 3)],
         thorough=lambda t: [[4]])
def h_hatch(ctx, case):
    """carrier smoothing: recursive mean of code minus phase, restarted by a
    gap, a missing value or a jump, per satellite"""
    n, = case
    p = PP.stdpos.__new__(PP.stdpos)
    p.cs_cnt, p.Lp_, p.Ps_, p.cs_t0, p.monlevel = {}, {}, {}, {}, 0
    lim = ctx.choice('length', [2, 100])
    th = 10
    tm = 0.0
    S = N = Lp = last = None
    for k in range(n):
        P = ctx.real(f'P{k}', 1, 4e7)
        L = ctx.real(f'L{k}', 1, 4e7)
        if k:
            tm += ctx.choice(f'dt{k}', [0.5, 1.0, 1.25])
        # another satellite does not interfere
        p.csmooth(NS(t=gtime_t(0, tm)), 9, 2e7, 1e7*(k+1), lim, 1, th)
        miss = ctx.choice(f'miss{k}', ['', 'P', 'L']) if k == 1 else ''
        if miss == 'P':
            P = 0.0
        elif miss == 'L':
            L = 0.0
        got = p.csmooth(NS(t=gtime_t(0, tm)), 5, P, L, lim, 1, th)
        if miss:
            ctx.eq('missing', got, P)
            S = None
            continue
        if S is not None and tm-last <= 1:
            pred = S+L-Lp
            d = P-pred
            ctx.assume(ctx.or_(d > th+1e-3, d < -th-1e-3,
                               ctx.and_(d < th-1e-3, d > -th+1e-3)))
            if ctx.num(1 if d < th else 0) == 1 and d > -th:
                N = min(N+1, lim)
                S = P/N+pred*(N-1)/N
            else:
                N, S = 1, P
        else:
            N, S = 1, P
        ctx.close('smoothed', got, S, 1e-6)
        Lp, last = L, tm
    ctx.end()


@harness(cases=[[pm, n] for pm in (0, 1) for n in (4, 5)])
def h_reset(ctx, case):
    """standalone solution: the receiver clock state and the innovations
    stay consistent when the clock is reset"""
    pm, n = case
    p = PP.stdpos.__new__(PP.stdpos)
    p.monlevel = 0
    nx = 8 if pm else 4
    ic = 6 if pm else 3
    x = [ctx.real(f'x{i}', -1e6, 1e6) for i in range(nx)]
    v = [ctx.real(f'v{i}', 1, 1e6) for i in range(n)]
    p.nav = NS(pmode=pm, nf=1, x=ctx.arr(x), P=np.eye(nx), smode=0,
               el=ctx.arr([0.0]*uGNSS.MAXSAT), th_clk_rst=1e2, nx=nx)
    sat = np.arange(1, n+1)
    obs = NS(t=gtime_t(), sat=ctx.arr(list(range(1, n+1))), P=np.ones((n, 1)))
    z = np.zeros((n, 3))
    ctx.patch(PP, 'satposs', lambda *a, **k: (z, z, z[:, 0], z[:, 0], n))
    ctx.patch(PP, 'dops', lambda a, b: None)
    p.qcedit = lambda *a: ctx.arr(list(range(1, n+1)))
    p.udstate = lambda o: 0
    one = ctx.arr([1.0]*n)
    p.zdres = lambda *a: (ctx.arr([[1.0]]*n), ctx.arr([[0.0]*3]*n), one, one)
    p.sdres = lambda *a: (ctx.arr(v), np.zeros((n, nx)), np.eye(n))
    rec = []

    def kf(xp, P, H, w, R):
        rec.append(([q for q in xp], [q for q in w]))
        return xp, P, None
    p.kfupdate = kf
    p.process(obs)
    ctx.end()
    (xp, w), = rec
    for i in range(nx):
        if i != ic:
            ctx.eq('state', xp[i], x[i])
    # observation minus clock is the same before and after
    for i in range(n):
        ctx.close('innovation', w[i]+xp[ic], v[i]+x[ic], 1e-6)
    ctx.check('large common part removed', ctx.implies(
        sum(v)/n > 101, ctx._near(sum(w, 0)/n, 0, 1e-6)))


@harness(cases=[[s, r, t, i, pm] for s in (['G3', 'R7'], ['E1', 'C30', 'G9'])
                for r in (0, 1, 2) for t, i, pm in
                ((0, 0, 0), (1, 0, 1), (0, 1, 1), (2, 2, 0))
                if r == 0 or s[0] == 'E1' or pm == 0])
def h_model(ctx, case):
    """pseudorange residual: observation minus modelled range"""
    sats, rmode, trop, iono, pm = case
    if rmode:
        sats = [q for q in sats if q[0] in 'GE'][-1:] if rmode == 1 else \
            [q for q in sats if q[0] in 'GE']
    nf = 2 if rmode else 1
    p = filt(sats, nf, 0, 0, pm, cls=PP.stdpos)
    nav = p.nav
    sat = np.array([number(s) for s in sats])
    n = len(sats)
    r = {}

    def val(name, lo=-100, hi=100):
        if name not in r:
            r[name] = ctx.real(name, lo, hi)
        return r[name]
    nav.__dict__.update(trop_opt=trop, iono_opt=iono, rmode=rmode,
                        csmooth=False, elmin=0.1, ionoModel=None, trpModel=0)
    rs = [[1000.0*k, 0.0, 0.0] for k in range(n)]

    def idx(x):
        return int(x[0]//1000)
    ctx.patch(PP, 'ecef2pos', lambda x: np.zeros(3))
    ctx.patch(PP, 'tropmodel', lambda t, pos, model=None: (
        val('hs'), val('wet'), 0))
    ctx.patch(PP, 'geodist', lambda a, b: (val(f'rng{idx(a)}', 2e7, 4e7),
                                           np.array([idx(a)+.5, 0, 0])))
    ctx.patch(PP, 'satazel', lambda pos, e: (0.25*int(e[0]), val(
        f'el{int(e[0])}', 0, 1.5)))
    ctx.patch(PP, 'tropmapf', lambda t, pos, el, model=None: (
        val('mh'), val('mw')))
    ctx.patch(PP, 'ionmodel', lambda t, pos, az, el, nav, model=None,
              cs=None: val(f'ion{int(az*4)}'))
    bad = ctx.choice('edited', [-1, 0])
    if bad >= 0:
        nav.edt[sat[bad]-1, 0] = 1
    L = [[ctx.real(f'L{k}_{f}', 1e7, 2e8) for f in range(nf)]
         for k in range(n)]
    R = [[ctx.real(f'P{k}_{f}', 1e7, 4e7) for f in range(nf)]
         for k in range(n)]
    dts = [ctx.real(f'dts{k}', -1e-2, 1e-2) for k in range(n)]
    nx = 8 if pm else 4
    x = [ctx.real(f'x{i}', -1e6, 1e6) for i in range(nx)]
    obs = NS(t=gtime_t(), sat=sat, sig=sigtab(sats, nf), L=ctx.arr(L),
             P=ctx.arr(R))
    y, e, az, el = p.zdres(obs, None, None, np.array(rs), np.zeros((n, 3)),
                           ctx.arr(dts), ctx.arr(x))
    ctx.end()
    for k, s in enumerate(sats):
        if k == bad or val(f'el{k}') < 0.1:
            ctx.check('not used', y[k, 0] == 0)
            continue
        pr = R[k][0]
        if rmode:
            f1, f2 = 1575.42e6, 1227.6e6 if rmode == 1 else 1176.45e6
            pr = (f1**2*R[k][0]-f2**2*R[k][1])/(f1**2-f2**2)
        w = pr-val(f'rng{k}')-x[6 if pm else 3]+CL*dts[k]
        if trop == 0:
            w = w-val('mh')*val('hs')-val('mw')*val('wet')
        if iono == 0 and not rmode:
            w = w-val(f'ion{k}')
        ctx.close('residual', y[k, 0], w, 1e-3)


GEOM = [(0.1, 1.0, 0.2, 0.3), (0.45, 4.0, -0.3, -0.9), (0.03, 0.2, 0.41, 0.8),
        (0.25, 2.5, -0.45, 0.05),
        (0.4, 0.1, 0.05, 0.75), (0.15, 5.5, 0.1, -0.5)]


@harness(cases=[[g, k] for g in range(len(GEOM))
                for k in ('amp', 'per', 'tow')])
def h_klobuchar(ctx, case):
    """broadcast ionosphere model (IS-GPS-200, 20.3.3.5.2.5)"""
    PI = float(np.pi)
    el, az, lat, lon = GEOM[case[0]]
    a = [1e-8, 2e-8, -6e-8, 1e-7]
    be = [9e4, 1e5, -2e5, 3e5]
    if case[1] == 'tow':
        tow = ctx.real('tow', 0, 604799)
    else:
        tow = ctx.choice('tow', [0.0, 42000.0, 60000.5, 86399.0, 350000.25,
                                 604799.5])
    if case[1] == 'amp':
        a = [ctx.real(f'a{i}', -1e-6, 1e-6) for i in range(4)]
    elif case[1] == 'per':
        be = [ctx.real(f'b{i}', -4e5, 4e5) for i in range(4)]
    ctx.patch(PP, 'time2gpst', lambda t: (2000, tow))
    got = PP.ionKlobuchar(gtime_t(), ctx.arr([lat*PI, lon*PI, 0]), az, el*PI,
                          ctx.arr([a, be]))
    ctx.end()
    psi = 0.0137/(el+0.11)-0.022
    phi = lat+psi*ctx.cos(az)
    if phi > 0.416:
        phi = 0.416
    elif phi < -0.416:
        phi = -0.416
    lam = lon+psi*ctx.sin(az)/ctx.cos(phi*PI)
    m = phi+0.064*ctx.cos((lam-1.617)*PI)
    t = 43200*lam+tow
    t = t-86400*ctx.floor(t/86400)
    F = 1+16*(0.53-el)**3
    amp = a[0]+m*(a[1]+m*(a[2]+m*a[3]))
    if amp < 0:
        amp = 0
    per = be[0]+m*(be[1]+m*(be[2]+m*be[3]))
    if per < 72000:
        per = 72000
    x = 2*PI*(t-50400)/per
    ctx.assume(ctx.or_(x > 1.571, x < -1.571, ctx.and_(x < 1.569,
                                                       x > -1.569)))
    if x > -1.57 and x < 1.57:
        w = CL*F*(5e-9+amp*(1-x*x/2+x*x*x*x/24))
    else:
        w = CL*F*5e-9
    ctx.close('delay', got, w, 1e-6)


@harness(cases=[[pm] for pm in (0, 1)])
def h_predict(ctx, case):
    """constant velocity and drift, state and covariance"""
    pm, = case
    p = PP.stdpos.__new__(PP.stdpos)
    nx = 8 if pm else 4
    x = [ctx.real(f'x{i}', -1e6, 1e6) for i in range(nx)]
    P = [[None]*nx for _ in range(nx)]
    for i in range(nx):
        for j in range(i+1):
            P[i][j] = P[j][i] = ctx.real(f'p{i}_{j}', -100, 100)
    q = [ctx.real(f'q{i}', 0, 1) for i in range(nx)]
    dt = ctx.choice('dt', [0.5, 1.0, 30.0])
    p.nav = NS(nx=nx, pmode=pm, x=ctx.arr(x), P=ctx.arr(P), q=ctx.arr(q),
               nq=nx, t=gtime_t(1000000, 0.25))
    sats = [number(s) for s in ('G1', 'E2')]
    p.udstate(NS(t=gtime_t(1000000+int(dt), 0.25+dt-int(dt)),
                 sat=np.array(sats), sig={}))
    ctx.end()
    to = {0: 3, 1: 4, 2: 5, 6: 7} if pm else {}
    w = [x[i]+x[to[i]]*dt if i in to else x[i] for i in range(nx)]
    Q = [[P[i][j]+(dt*P[to[i]][j] if i in to else 0) for j in range(nx)]
         for i in range(nx)]
    Q = [[Q[i][j]+(dt*Q[i][to[j]] if j in to else 0) for j in range(nx)]
         for i in range(nx)]
    for i in range(nx):
        ctx.close('state', p.nav.x[i], w[i], 1e-6)
        for j in range(nx):
            ctx.close('covariance', p.nav.P[i, j],
                      Q[i][j]+(q[i]*dt if i == j else 0), 1e-6)


@harness(cases=[[f, k] for f in (0, 1) for k in (0, 1)])
def h_weight(ctx, case):
    """variance of a pseudorange by elevation, in the range of validity"""
    f, dg = case
    p = PP.stdpos.__new__(PP.stdpos)
    r = [ctx.real(f'r{i}', 1, 200) for i in range(2)]
    s = [0, ctx.real('a', 1e-3, 1e-1), ctx.real('b', 1e-3, 1e-1)]
    p.nav = NS(smode=2*dg, eratio=r, err=s)
    ctx.patch(PP, 'vardgps', lambda el, nav: 77+el)
    el = ctx.real('el', 0.01, 1.57)
    got = p.varerr(p.nav, el, f)
    ctx.end()
    if dg:
        ctx.close('variance', got, 77+el, 1e-9)
        return
    a, b = r[f]*s[1], r[f]*s[2]
    sn = ctx.sin(el)
    # below 0.1 degrees the variance does not grow any more
    ctx.assume(sn >= 0.002)
    ctx.close('variance', (got-a*a)*sn*sn, b*b, 1e-6)


@harness(cases=[[m, k] for m in range(3) for k in range(3)])
def h_choice(ctx, case):
    """ionosphere model used: SBAS grid where it is there, Klobuchar else"""
    m, k = case
    model = (uIonoModel.KLOBUCHAR, uIonoModel.SBAS, uIonoModel.NONE)[m]
    kl, sb = ctx.real('klobuchar', 0, 50), ctx.real('sbas', 0, 50)
    arg = []
    ctx.patch(PP, 'ionKlobuchar', lambda t, pos, az, el, ion=None: (
        arg.append((az, el, ion)), kl)[1])
    ctx.patch(PP, 'ionoSBAS', lambda t, pos, az, el, cs: (sb, 1.0))
    iodi = ctx.int('iodi', -1, 3)
    cs = (None, NS(iodi=iodi), NS(iodi=iodi))[k]
    got = PP.ionmodel(gtime_t(), np.zeros(3), 0.5, 0.25, NS(ion='ion'),
                      model, cs)
    ctx.end()
    if m == 2:
        ctx.eq('delay', got, 0)
    elif m == 0 or k == 0:
        ctx.eq('delay', got, kl)
    else:
        ctx.eq('delay', got, ctx.ite(ctx.or_(iodi < 0, sb == 0), kl, sb))
    ctx.check('arguments', all(a == (0.5, 0.25, 'ion') for a in arg))
