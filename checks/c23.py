"""C23 unusable observations never enter the solution"""
from types import SimpleNamespace as NS
import numpy as np
from engine.api import harness
from cssrlib import pppssr as PS
from cssrlib import rtk as RT
from cssrlib.gnss import uGNSS, uTYP, rSigRnx, gtime_t, Nav, \
    uTideModel, sat2prn

BOUNDS = ['up to three satellites of any system (also the last number), one '
          'or two frequencies, any observation, health, orbit, elevation and '
          'threshold values', 'geometry-free history over two epochs',
          'base and rover with one or two common satellites']
ASSUMPTIONS = ['geometry (direction, elevation) and tide are arbitrary '
               'numbers']
SIG = {uGNSS.GPS: ('G1C', 'G2W'), uGNSS.GLO: ('R1C', 'R2P'),
       uGNSS.GAL: ('E1C', 'E5Q'), uGNSS.QZS: ('J1C', 'J2L'),
       uGNSS.BDS: ('C2I', 'C6I'), uGNSS.IRN: ('I5A', 'I9A'),
       uGNSS.SBS: ('S1C', 'S5Q')}
CL = 299792458.0


def sigs(sats, nf):
    d = {}
    for s in sats:
        sy = sat2prn(s)[0]
        d[sy] = {t: [rSigRnx(q[0]+n+q[1:]) for q in SIG[sy][:nf]]
                 for t, n in ((uTYP.C, 'C'), (uTYP.L, 'L'), (uTYP.S, 'S'))}
    return d


def lam(sat, f, ch):
    s = sat2prn(sat)[0]
    q = rSigRnx(SIG[s][f][0]+'L'+SIG[s][f][1:])
    return CL/(q.frequency(ch) if s == uGNSS.GLO else q.frequency())


def gpy(sat, f):
    q = SIG[sat2prn(sat)[0]][f]
    return q[0] == 'G' and q[2] in 'PWY'


def setup(ctx, nf, cls=PS.pppos):
    p = cls.__new__(cls)
    p.nav = Nav(nf=nf)
    p.nav.tidecorr = uTideModel.NONE
    p.nav.x = ctx.arr([1.0, 2.0, 3.0]+[0.0]*6)
    p.nav.t = gtime_t()
    p.nav.excl_sat = []
    p.nav.monlevel = 0
    p.nav.elmin = ctx.real('elmin', 0, 1.5)
    p.nav.cnr_min = ctx.real('cnr', 10, 50)
    p.nav.cnr_min_gpy = ctx.real('cnrp', 10, 50)
    p.nav.thresslip = 0.05
    return p


def geometry(ctx, el):
    """el[id] elevation of the satellite at rs = [1000*id, 0, 0]"""
    ctx.patch(PS, 'ecef2pos', lambda r: np.zeros(3))
    ctx.patch(PS, 'geodist', lambda a, b: (0.0, np.array(
        [float(int(a[1])), 0, 0])))
    ctx.patch(PS, 'satazel', lambda pos, e: (0.0, el[int(e[0])]))


M = int(uGNSS.MAXSAT)
SETS = [[1, 2], [32, 33], [M], [M-1, 5], [60], [100, 140], [1, 120, M]]
WHAT = ['obs', 'orbit', 'health', 'elevation', 'excluded', 'cnr', 'lli',
        'clean', 'nan']


def one(ctx, w, nf, gp):
    """one satellite; returns (obs parts, usable)"""
    r = NS(P=[2e7]*nf, L=[1e8]*nf, S=[45.0]*nf, lli=[0]*nf, rs=1.0, dts=0.0,
           svh=0, el=1.0, excl=False)
    return r


@harness(cases=[[s, nf, w] for s in SETS for nf in (1, 2) for w in WHAT])
def h_edit(ctx, case):
    """a satellite passes exactly when everything about it is usable"""
    sats, nf, what = case
    p = setup(ctx, nf)
    nav = p.nav
    sy = [sat2prn(s)[0] for s in sats]
    ch = {s: -3+k for k, s in enumerate(sats)}
    nav.glo_ch = ch
    n = len(sats)
    P = [[ctx.real(f'P{k}_{f}', 1, 4e7) for f in range(nf)] for k in range(n)]
    L = [[ctx.real(f'L{k}_{f}', 1, 2e8) for f in range(nf)] for k in range(n)]
    S = [[(0.0, 55.0)[(k+f) % 2] for f in range(nf)] for k in range(n)]
    lli = [[0]*nf for _ in range(n)]
    rs = [[1.0, float(k), 2.0] for k in range(n)]
    dts = [ctx.real(f'dt{k}', -1, 1) for k in range(n)]
    svh = [0]*n
    el = [ctx.real(f'el{k}', -1.5, 1.5) for k in range(n)]
    for k in range(n):
        ctx.assume(el[k] >= p.nav.elmin)
    bad = set()
    t = ctx.choice('target', list(range(n)))
    f = ctx.choice('frequency', list(range(nf)))
    if what == 'cnr':
        S[t][f] = ctx.real('S', 0, 60)
        lim = nav.cnr_min_gpy if gpy(sats[t], f) else nav.cnr_min
        if ctx.choice('low', [0, 1]):
            ctx.assume(S[t][f] < lim)
            ctx.assume(S[t][f] > 0)
            bad.add(t)
        else:
            ctx.assume(ctx.or_(S[t][f] >= lim, S[t][f] == 0))
    if what == 'obs':
        w = ctx.choice('missing', ['P', 'L', 'PL'])
        if 'P' in w:
            P[t][f] = 0.0
        if 'L' in w:
            L[t][f] = 0.0
        bad.add(t)
    elif what == 'nan':
        if ctx.choice('missing', ['P', 'L']) == 'P':
            P[t][f] = float('nan')
        else:
            L[t][f] = float('nan')
        bad.add(t)
    elif what == 'orbit':
        w = ctx.choice('missing', [0, 1, 2, 3])
        if w == 3:
            dts[t] = float('nan')
        else:
            rs[t][w] = np.nan
        bad.add(t)
    elif what == 'health':
        svh[t] = ctx.int('svh', 0, 511)
        if ctx.choice('bad', [0, 1]):
            ctx.assume(svh[t] > 0)
            bad.add(t)
        else:
            ctx.assume(svh[t] == 0)
    elif what == 'elevation':
        el[t] = ctx.real('elt', -1.5, 1.5)
        ctx.assume(el[t] < p.nav.elmin)
        bad.add(t)
    elif what == 'excluded':
        nav.excl_sat = [sats[t], 77]
        bad.add(t)
    elif what == 'lli':
        lli[t][f] = 1
        bad.add(t)
    geometry(ctx, el)
    obs = NS(t=gtime_t(), sat=ctx.arr(sats), sig=sigs(sats, nf),
             P=ctx.arr(P), L=ctx.arr(L), S=ctx.arr(S), lli=np.array(lli))
    out = p.qcedit(obs, ctx.arr(rs), ctx.arr(dts), ctx.arr(svh))
    ctx.end()
    want = sorted(s for k, s in enumerate(sats) if k not in bad)
    ctx.check('satellites', [int(q) for q in out] == want)
    for s in range(1, M+1):
        ctx.check('edit flag', bool(np.any(nav.edt[s-1, :] > 0)) ==
                  (s not in want))


@harness(cases=[[s, b] for s in ([1], [M], [40, 60], [120, 3]) for b in (0, 1)])
def h_slip(ctx, case):
    """geometry-free jumps between epochs are edited, for the receiver they
    belong to"""
    sats, base = case
    nf = 2
    p = setup(ctx, nf)
    nav = p.nav
    n = len(sats)
    ch = {s: -3+k for k, s in enumerate(sats)}
    nav.glo_ch = ch
    geometry(ctx, [1.5]*n)
    rr = np.array([1.0, 2.0, 3.0]) if base else None
    # the other receiver has its own history
    oth = [ctx.real(f'o{k}', -9, 9) for k in range(n)]
    for k, s in enumerate(sats):
        (nav.gf if base else nav.gf_r)[s] = 7.0
    # first frequency phase fixed by the second and the difference [m]
    g, hist = {}, [None]*n
    for ep in range(3):
        L = []
        gone = ctx.choice(f'gone{ep}', [-1, 0]) if ep == 1 else -1
        for k, s in enumerate(sats):
            g[k, ep] = ctx.real(f'g{k}_{ep}', 1, 50)
            l2 = 1e8+1e4*ep
            L.append([(g[k, ep]+l2*lam(s, 1, ch[s]))/lam(s, 0, ch[s]), l2]
                     if k != gone else [0.0, 0.0])
            if hist[k] is not None:
                d = g[k, ep]-hist[k]
                ctx.assume(ctx.or_(d > 0.051, d < -0.051, ctx.and_(
                    d > -0.049, d < 0.049)))
        obs = NS(t=gtime_t(), sat=ctx.arr(sats), sig=sigs(sats, nf),
                 P=np.ones((n, nf)), L=ctx.arr(L), S=np.zeros((n, nf)),
                 lli=np.zeros((n, nf), dtype=int))
        ctx.assume(nav.elmin < 1.5) if ep == 0 else None
        out = [int(q) for q in p.qcedit(
            obs, ctx.arr([[1.0, float(k), 2.0] for k in range(n)]),
            np.zeros(n), np.zeros(n, dtype=int), rr=rr)]
        for k, s in enumerate(sats):
            if k == gone:
                ctx.check('missing', s not in out)
                continue
            if hist[k] is None:
                ctx.check('first epoch', s in out)
            else:
                d = g[k, ep]-hist[k]
                ctx.check('slip', ctx.eqv(ctx.or_(d > 0.05, d < -0.05),
                                          s not in out)
                          if hasattr(ctx, 'eqv') else ctx.or_(
                    ctx.and_(ctx.or_(d > 0.05, d < -0.05), s not in out),
                    ctx.and_(d > -0.05, d < 0.05, s in out)))
            hist[k] = g[k, ep]
    ctx.end()
    for s in sats:
        ctx.eq('other receiver', (nav.gf if base else nav.gf_r)[s], 7)


@harness(cases=[[b, k] for b in ('list', 'array') for k in
                ('rover', 'base', 'none', 'lli')])
def h_base(ctx, case):
    """RTK: a slip at either receiver removes the satellite and resets its
    ambiguity; the base coordinates stay; between-receiver differences"""
    form, slip = case
    nf = 2
    p = setup(ctx, nf, RT.rtkpos)
    nav = p.nav
    nav.tidecorr = uTideModel.SIMPLE
    disp = np.array([0.1, 0.2, 0.3])
    ctx.patch(PS, 'gpst2utc', lambda t: t)
    ctx.patch(PS, 'tidedisp', lambda t, pos: disp)
    nav.rb = [10.0, 20.0, 30.0]
    if form == 'array':
        nav.rb = np.array(nav.rb)
    ru, rb = [3, 8, 40, M], [40, M, 8, 9]
    common = [8, 40, M]
    tgt = ctx.choice('target', common)
    geometry(ctx, [1.5]*4)
    ctx.assume(nav.elmin < 1.5)
    for s in ru+rb:
        nav.gf[s] = nav.gf_r[s] = 2.0

    def mk(sats, who):
        n = len(sats)
        g = {s: 2.0 for s in sats}
        if slip == who:
            g[tgt] = ctx.real('gf', 2.1, 50)
        l2 = [ctx.real(f'{who}{s}', 1e7, 2e8) for s in sats]
        o = NS(t=gtime_t(), sat=ctx.arr(sats), sig=sigs(sats, nf),
               P=ctx.arr([[ctx.real(f'{who}P{s}_{f}', 1e7, 4e7)
                           for f in range(nf)] for s in sats]),
               L=ctx.arr([[(g[s]+l2[k]*lam(s, 1, 0))/lam(s, 0, 0), l2[k]]
                          for k, s in enumerate(sats)]),
               S=np.zeros((n, nf)), lli=np.zeros((n, nf), dtype=int))
        return o
    obs, obsb = mk(ru, 'rover'), mk(rb, 'base')
    if slip == 'lli':
        obsb.lli[rb.index(tgt), ctx.choice('f', [0, 1])] = 1

    def rsx(n):
        return np.array([[1.0, float(k), 2.0] for k in range(n)])
    ctx.patch(RT, 'satposs', lambda o, nav: (
        rsx(4), np.zeros((4, 3)), np.zeros(4), np.zeros(4, dtype=int), 4))
    seen = []

    def zdres(obs, cs, bsx, rs, vs, dts, rr, rtype=1):
        seen.append(([float(q) for q in rr], rtype))
        return ctx.arr([[100.0*s+f for f in range(2*nf)] for s in obs.sat]), \
            ctx.arr([[1.0*s, 0, 0] for s in obs.sat]), np.zeros(4)
    p.zdres = zdres
    args = rsx(4), np.zeros(4), np.zeros(4, dtype=int)
    p.qcedit(obs, *args)
    y, e, iu, o = p.base_process(obs, obsb, *args)
    ctx.end()
    left = [s for s in common if s != tgt or slip == 'none']
    ctx.check('common satellites', [int(obs.sat[k]) for k in iu] == left)
    ctx.check('satellites', [int(s) for s in o.sat] == left)
    ctx.check('base coordinates', [float(q) for q in nav.rb] ==
              [10.0, 20.0, 30.0])
    ctx.check('base residuals', seen == [([10.0, 20.0, 30.0], 0)])
    n = len(left)
    for r, s in enumerate(left):
        a, b = ru.index(s), rb.index(s)
        for f in range(nf):
            ctx.close('phase difference', o.L[r, f], obs.L[a, f]-obsb.L[b, f],
                      1e-6)
            ctx.close('code difference', o.P[r, f], obs.P[a, f]-obsb.P[b, f],
                      1e-6)
        for f in range(2*nf):
            ctx.eq('base residual', y[n+r, f], 100*s+f)
        ctx.eq('line of sight', e[n+r, 0], s)
    # the ambiguity of the slipped satellite is reset in udstate()
    if slip != 'none':
        ctx.check('slip kept', bool(np.any(nav.edt[tgt-1, :] > 0)))
    for s in left:
        ctx.check('kept', not np.any(nav.edt[s-1, :] > 0))
