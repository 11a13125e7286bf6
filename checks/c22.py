"""C22 residuals, Kalman filter and ambiguity fixing"""
from types import SimpleNamespace as NS
import numpy as np
from engine.api import harness
from cssrlib import pppssr as PS
from cssrlib.gnss import uGNSS, uTYP, rSigRnx, gtime_t, prn2sat, \
    uTideModel, sat2prn

BOUNDS = ['residuals: 2..4 satellites of one or two systems (with GLONASS '
          'FDMA), one or two frequencies, single and double differences, '
          'any elevations, observations and state values',
          'Kalman update: 2..4 states, one or two measurements, any prior '
          'covariance V V\' and any noise',
          'ambiguity fixing: two systems, up to 5 satellites, any state, '
          'covariance and integer candidate',
          'time update: kinematic and static, any covariance, interval and '
          'history of outages']
ASSUMPTIONS = ['the troposphere, antenna, tide, wind-up and relativity models '
               'are arbitrary numbers', 'the ambiguity search is arbitrary '
               'here (it is the subject of C21)']
SIG = {'G': ('1C', '2W'), 'R': ('1C', '2C'), 'E': ('1C', '5Q'),
       'C': ('2I', '6I')}
SYS = {'G': uGNSS.GPS, 'R': uGNSS.GLO, 'E': uGNSS.GAL, 'C': uGNSS.BDS}
# carrier frequencies (GLONASS: centre, step per channel)
FRQ = {'G': (1575.42e6, 1227.6e6), 'E': (1575.42e6, 1176.45e6),
       'C': (1561.098e6, 1268.52e6),
       'R': (1602e6, 1246e6)}
STEP = (0.5625e6, 0.4375e6)
CL = 299792458.0


def frq(c, f, ch=0):
    return FRQ[c][f]+(STEP[f]*ch if c == 'R' else 0)


def sigtab(sats, nf):
    d = {}
    for c in sorted({s[0] for s in sats}):
        d[SYS[c]] = {t: [rSigRnx(c+n+SIG[c][f]) for f in range(nf)]
                     for t, n in ((uTYP.C, 'C'), (uTYP.L, 'L'),
                                  (uTYP.S, 'S'))}
    return d


def number(s):
    return prn2sat(SYS[s[0]], int(s[1:]))


def filt(sats, nf, trop=1, iono=1, pmode=0, cls=PS.pppos):
    p = cls.__new__(cls)
    M = uGNSS.MAXSAT
    na = (6 if pmode else 3)+trop+(M if iono else 0)
    p.nav = NS(nf=nf, ntrop=trop, niono=M if iono else 0, na=na,
               nx=na+M*nf, edt=np.zeros((M, nf), dtype=int),
               vsat=np.zeros((M, nf), dtype=int), trpModel=None,
               eratio=[100.0]*nf, err=[0, 0.01, 0.005], monlevel=0,
               glo_ch={number(s): k-3 for k, s in enumerate(
                   x for x in sats if x[0] == 'R')}, pmode=pmode, fout=None,
               smode=0, rmode=0, csmooth=False)
    return p


GEO = [(['G1', 'G32'], 1), (['G5', 'G6', 'G7'], 2), (['R1', 'R2'], 2),
       (['R3', 'R4', 'R5'], 1), (['E3', 'G1', 'E9', 'G2'], 1),
       (['C7', 'R8', 'C14', 'R24'], 2)]


@harness(cases=[[s, nf, t, i, dd] for s, nf in GEO for t, i in
                ((1, 1), (1, 0), (0, 1)) for dd in (0, 1)
                if dd == 0 or t == i])
def h_sd(ctx, case):
    """differences between satellites and their derivatives"""
    sats, nf, trop, iono, dd = case
    p = filt(sats, nf, trop, iono)
    n = len(sats)
    sat = np.array([number(s) for s in sats])
    M, na = uGNSS.MAXSAT, p.nav.na
    el = [ctx.real(f'el{k}', 0.1, 1.5) for k in range(n)]
    y = [[ctx.real(f'y{k}_{f}', 1e-3, 1e4) for f in range(2*nf)]
         for k in range(n)]
    e = [[ctx.real(f'e{k}_{f}', -1, 1) for f in range(3)] for k in range(n)]
    yb = [[ctx.real(f'b{k}_{f}', 1e-3, 1e4) for f in range(2*nf)]
          for k in range(n)] if dd else []
    x = [0.0]*p.nav.nx
    z = x[4*trop-1] = ctx.real('ztd', -1, 1)
    I, N = {}, {}
    for k, s in enumerate(sat):
        if iono:
            I[k] = x[na-M+s-1] = ctx.real(f'ion{k}', -99, 99)
        for f in range(nf):
            N[k, f] = x[na+M*f+s-1] = ctx.real(f'n{k}_{f}', -1e4, 1e4)
    for k in range(n):
        for m in range(k):
            ctx.assume(ctx.or_(el[k] > el[m]+1e-3, el[k] < el[m]-1e-3))
    # the mapping function and the variances depend on the elevation
    mf = {k: 9-5*el[k] for k in range(n)}
    ctx.patch(PS, 'tropmapf', lambda t, pos, e_, model=None: (0.0, 9-5*e_))
    ctx.patch(PS, 'ecef2pos', lambda r: np.zeros(3))
    var = [[0.5+0.25*f+2*el[k] for f in range(2*nf)] for k in range(n)]
    p.varerr = lambda nav, e_, f: 0.5+0.25*f+2*e_
    obs = NS(t=gtime_t(), sig=sigtab(sats, nf), sat=sat)
    v, H, R = p.sdres(obs, ctx.arr(x), ctx.arr(y+yb), ctx.arr(e+[[0]*3]*len(
        yb)), sat, ctx.arr(el))
    ctx.end()
    rows = []
    for sy in obs.sig:
        idx = [k for k in range(n) if sat2prn(sat[k])[0] == sy]
        # reference of this system: the highest satellite
        i = idx[0]
        for k in idx[1:]:
            if el[k] > el[i]:
                i = k
        for f in range(2*nf):
            rows += [(i, j, f) for j in idx if j != i]
    ctx.check('number of rows', len(v) == len(rows))
    for r, (i, j, f) in enumerate(rows):
        ph, g = f < nf, f % nf
        exp = {}
        w = y[i][f]-y[j][f]
        if dd:
            w = w-(yb[i][f]-yb[j][f])
        for k, s in ((i, 1), (j, -1)):
            c = sats[k][0]
            fr = frq(c, g, p.nav.glo_ch.get(sat[k], 0))
            for q in range(3):
                exp[q] = exp.get(q, 0)-s*e[k][q]
            if trop:
                exp[3] = exp.get(3, 0)+s*mf[k]
                w = w-s*mf[k]*z
            if iono:
                m = s*(-1 if ph else 1)*(frq(c, 0)/fr)**2
                exp[na-M+sat[k]-1] = m
                w = w-m*I[k]
            if ph:
                exp[na+M*g+sat[k]-1] = s*CL/fr
                w = w-s*CL/fr*N[k, g]
        for q in range(p.nav.nx):
            if q in exp:
                ctx.close('design matrix', H[r, q], exp[q], 1e-9)
            else:
                ctx.check('design matrix zero', H[r, q] == 0)
        ctx.close('residual', v[r], w, 1e-6)
        for r2, (i2, j2, f2) in enumerate(rows):
            same = i2 == i and f2 == f
            want = var[i][f]+(var[j][f] if r2 == r else 0) if same else 0
            ctx.close('covariance', R[r, r2], want, 1e-12)


@harness(cases=[[1, 0], [2, 0]])
def h_edited(ctx, case):
    """edited satellites contribute no difference"""
    nf, ref = case
    sats = ['G2', 'G5', 'G9']
    p = filt(sats, nf, 0, 0)
    sat = np.array([number(s) for s in sats])
    el = [0.9, 0.5, 0.7] if not ref else [0.5, 0.9, 0.7]
    y = [[ctx.real(f'y{k}_{f}', 1, 1e4) for f in range(2*nf)]
         for k in range(3)]
    b = ctx.choice('frequency', list(range(nf)))
    p.nav.edt[sat[1]-1, b] = 1
    y[1] = [0.0]*(2*nf)    # as zdres leaves it
    ctx.patch(PS, 'ecef2pos', lambda r: np.zeros(3))
    obs = NS(t=gtime_t(), sig=sigtab(sats, nf), sat=sat)
    v, H, R = p.sdres(obs, np.zeros(p.nav.nx), ctx.arr(y), np.zeros((3, 3)),
                      sat, np.array(el))
    ctx.end()
    for r in range(len(v)):
        for f in range(nf):
            ctx.check('edited satellite',
                      H[r, p.nav.na+uGNSS.MAXSAT*f+sat[1]-1] == 0)
        d = [y[0][f]-y[2][f] for f in range(2*nf)]
        ctx.check('difference of valid satellites', ctx.or_(
            *[ctx._near(v[r], q, 1e-9) for q in d]))


# Kalman filter -------------------------------------------------------------
def mat(ctx, name, n, m, lim=9):
    return [[ctx.real(f'{name}{i}{j}', -lim, lim) for j in range(m)]
            for i in range(n)]


def mul(A, B):
    return [[sum((A[i][k]*B[k][j] for k in range(len(B))), 0)
             for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(c) for c in zip(*A)]


@harness(cases=[[2, 1, 0, 'h'], [3, 1, 1, 'h'], [3, 1, 0, 'h'],
                [2, 2, 0, 'h'], [2, 2, 0, 'r'], [4, 2, 1, 'r']],
         check_ms=20000)
def h_kalman(ctx, case):
    """measurement update: S = HPH'+R, gain P H' inv(S), covariance
    P - K S K', inactive states untouched"""
    n, m, idle, mode = case
    na = n-idle
    if m == 1 and na <= 2:
        V = [[ctx.real(f'v{i}{j}', -3, 3) if j <= i else 0
              for j in range(na)] for i in range(na)]
        H = mat(ctx, 'h', m, na, 2)
    else:
        V = [[0.5, 0, 0], [ctx.choice('v10', [-0.25, 0.75]), 1, 0],
             [0, 0.5, 2]]
        V = [r[:na] for r in V[:na]]
        H = [[1, -0.5, 0.25][:na], [0.5, 2, 1][:na]][:m]
        if m == 1:
            H = mat(ctx, 'h', 1, na, 2)
        elif mode == 'h':
            H[0][0], H[1][1] = mat(ctx, 'h', 1, 2, 2)[0]
    P = mul(V, tr(V))
    # noise: positive diagonal and one correlation
    R = [[0]*m for _ in range(m)]
    for i in range(m):
        R[i][i] = 1.5 if mode == 'h' and m > 1 else ctx.real(
            f'r{i}', 0.5, 4)
    if m > 1:
        c = 0.25 if mode == 'h' else ctx.real('rc', -0.4, 0.4)
        R[0][1] = R[1][0] = c
    x = [ctx.real(f'x{i}', -9, 9) for i in range(n)]
    v = [ctx.real(f'w{i}', -9, 9) for i in range(m)]
    P = [r+[0]*idle for r in P]+[[0]*n for _ in range(idle)]
    H = [r+[0]*idle for r in H]
    p = PS.pppos.__new__(PS.pppos)
    x2, P2, S = p.kfupdate(ctx.arr(x), ctx.arr(P), ctx.arr(H), ctx.arr(v),
                           ctx.arr(R))
    ctx.end()
    PHt = mul(P, tr(H))
    S_ = mul(H, PHt)
    det = S_[0][0]+R[0][0]
    if m == 1:
        adj = [[1]]
    else:
        a, b = S_[0][0]+R[0][0], S_[0][1]+R[0][1]
        c, d = S_[1][0]+R[1][0], S_[1][1]+R[1][1]
        det = a*d-b*c
        adj = [[d, 0-b], [0-c, a]]
    K = mul(PHt, adj)     # times det
    for i in range(m):
        for j in range(m):
            ctx.close('innovation covariance', S[i, j], S_[i][j]+R[i][j],
                      1e-9)
    Kv = mul(K, [[q] for q in v])
    KP = mul(K, tr(PHt))
    for i in range(n):
        ctx.close('state', (x2[i]-x[i])*det, Kv[i][0], 1e-6)
        for j in range(n):
            ctx.close('covariance', (P[i][j]-P2[i, j])*det, KP[i][j], 1e-6)
            ctx.close('symmetric', P2[i, j], P2[j, i], 1e-9)
    for i in range(na, n):
        ctx.eq('idle state', x2[i], x[i])


class small:
    """constellation table with a few satellites per system"""
    MAXSAT = 6


for _k, _v in vars(uGNSS).items():
    if not _k.startswith('__') and _k != 'MAXSAT':
        setattr(small, _k, _v)
TAB = [uGNSS.GPS]*3+[uGNSS.GAL]*2+[uGNSS.GLO]


def shrink(ctx):
    ctx.patch(PS, 'uGNSS', small)
    ctx.patch(PS, 'sat2prn', lambda s: (TAB[s-1], int(s)))


FIX = [[[1, 2], 1, []], [[1, 2, 3], 1, []], [[1, 2, 4, 5], 1, []],
       [[1, 3], 2, []], [[2, 3, 4, 5], 1, [2]], [[1, 2, 3], 1, [1]],
       [[4, 5, 6], 1, []], [[6], 1, []]]


@harness(cases=[[s, nf, lo, st] for s, nf, lo in FIX
                for st in ('accept', 'ratio')])
def h_fix(ctx, case):
    """fixing: conditional mean and covariance of the other states, the
    ambiguity differences are the integers found, nothing else moves"""
    sats, nf, low, mode = case
    shrink(ctx)
    M, na = small.MAXSAT, 3
    p = PS.pppos.__new__(PS.pppos)
    nx = na+M*nf
    x = [ctx.real(f'x{i}', -9, 9) for i in range(na)]+[0.0]*(M*nf)
    st = list(range(na))
    for s in sats:
        for f in range(nf):
            x[na+M*f+s-1] = ctx.real(f'n{s}_{f}', 1, 99)
            st.append(na+M*f+s-1)
    P = [[0.0]*nx for _ in range(nx)]
    for a in st:
        for b in st:
            if b > a:
                continue
            if len(st)-na > 2 and b >= na and a != st[-1]:
                # one symbolic row of the ambiguities
                P[a][b] = P[b][a] = 3.0 if a == b else 0.25*((a+b) % 5)
            else:
                P[a][b] = P[b][a] = ctx.real(f'p{a}_{b}', -9, 9)
    x0, P0 = [q for q in x], [r[:] for r in P]
    nav = NS(nx=nx, na=na, nf=nf, x=ctx.arr(x), P=ctx.arr(P), monlevel=0,
             vsat=np.zeros((M, nf), dtype=int), el=np.zeros(M),
             elmaskar=0.3, thresar=3.0, fix=np.zeros((M, nf), dtype=int),
             t=gtime_t(), fout=None)
    for s in sats:
        nav.vsat[s-1, :] = 1
        nav.el[s-1] = 0.1 if s in low else 0.3+0.1*s
    p.nav = nav
    # a satellite that takes no part in this epoch
    why = ctx.choice('out', ['', 'valid', 'seen', 'state'])
    who = ctx.choice('who', sats) if why else 0
    out = [(who, nf-1)] if why else []
    seen = list(sats)
    if why == 'valid':
        nav.vsat[who-1, nf-1] = 0
    elif why == 'seen':
        seen.remove(who)
        out = [(who, f) for f in range(nf)]
    elif why == 'state':
        nav.x[na+M*(nf-1)+who-1] = x0[na+M*(nf-1)+who-1] = 0.0
    pairs = []
    for sy in sorted(set(TAB)):
        for f in range(nf):
            g = [s for s in sats if TAB[s-1] == sy and s not in low and
                 (s, f) not in out]
            if not g:
                continue
            pairs += [(na+M*f+g[0]-1, na+M*f+s-1) for s in g[1:]]
    nb = len(pairs)
    B = [ctx.int(f'b{k}', -200, 200) for k in range(nb)]
    ratio = ctx.real('ratio', 0, 9)
    rec = []

    def mlambda(y, Q, parmode=1, P0=0.99):
        # Q gets replaced by an arbitrary, invertible matrix of its form
        rec.append(([q for q in y], [[q for q in r] for r in Q]))
        return ctx.arr([[b, b+1] for b in B]), ctx.arr([1.0, ratio]), nb, 1.0
    ctx.patch(PS, 'mlambda', mlambda)
    if mode == 'accept':
        ctx.assume(ratio >= 3.0)
    else:
        ctx.assume(ratio < 3.0)
    Q = [[0]*nb for _ in range(nb)]
    for a, (i, j) in enumerate(pairs):
        for b, (k, l) in enumerate(pairs):
            Q[a][b] = P[i][k]-P[j][k]-P[i][l]+P[j][l]
    if nb == 1:
        ctx.assume(Q[0][0] >= 0.5)
    elif nb == 2:
        ctx.assume(Q[0][0]*Q[1][1]-Q[0][1]*Q[1][0] >= 0.5)
    n, xa = p.resamb_lambda(np.array(seen), 1, 0.99)
    ctx.end()
    for i in range(nx):
        ctx.eq('float solution kept', nav.x[i], x0[i])
    if nb == 0:
        ctx.check('no pair', n <= 0)
        return
    y, Q2 = rec[0]
    ctx.check('one search', len(rec) == 1 and len(y) == nb)
    for a, (i, j) in enumerate(pairs):
        ctx.close('difference', y[a], x0[i]-x0[j], 1e-9)
        for b in range(nb):
            ctx.close('covariance of differences', Q2[a][b], Q[a][b], 1e-9)
    if mode == 'ratio':
        ctx.check('rejected', n == 0)
        return
    ctx.eq('number of pairs', n, nb)
    d = [x0[i]-x0[j]-B[a] for a, (i, j) in enumerate(pairs)]
    if nb == 1:
        det, adj = Q[0][0], [[1]]
    elif nb == 2:
        det = Q[0][0]*Q[1][1]-Q[0][1]*Q[1][0]
        adj = [[Q[1][1], 0-Q[0][1]], [0-Q[1][0], Q[0][0]]]
    else:
        return
    C = [[P[r][i]-P[r][j] for i, j in pairs] for r in range(na)]
    K = mul(C, adj)
    KC = mul(K, tr(C))
    for r in range(na):
        ctx.close('fixed state', (x0[r]-xa[r])*det, sum(
            K[r][a]*d[a] for a in range(nb)), 1e-6)
        ctx.eq('fixed state', nav.xa[r], xa[r])
        for c in range(na):
            ctx.close('fixed covariance', (P0[r][c]-nav.Pa[r, c])*det,
                      KC[r][c], 1e-6)
    for a, (i, j) in enumerate(pairs):
        ctx.close('integer difference', xa[i]-xa[j], B[a], 1e-9)
        ctx.eq('reference kept', xa[i], x0[i])


@harness(cases=[[[1, 2], 1], [[1, 2, 3], 1], [[1, 2, 4, 5], 1], [[2, 3], 2]])
def h_hold(ctx, case):
    """holding: pseudo-measurements of the fixed differences"""
    sats, nf = case
    shrink(ctx)
    M, na = small.MAXSAT, 3
    p = PS.pppos.__new__(PS.pppos)
    nx = na+M*nf
    x = [ctx.real(f'x{i}', -99, 99) for i in range(nx)]
    xa = [ctx.real(f'a{i}', -99, 99) for i in range(nx)]
    p.nav = NS(nx=nx, na=na, nf=nf, x=ctx.arr(x), P=np.eye(nx),
               fix=np.zeros((M, nf), dtype=int), VAR_HOLDAMB=0.001)
    p.VAR_HOLDAMB = 0.001
    for s in sats:
        p.nav.fix[s-1, :] = 2
    rec = []

    def kf(x, P, H, v, R):
        rec.append((H, v, R))
        return x, P, None
    p.kfupdate = kf
    p.holdamb(ctx.arr(xa))
    ctx.end()
    (H, v, R), = rec
    pairs = []
    for sy in sorted(set(TAB)):
        g = [s for s in sats if TAB[s-1] == sy]
        for f in range(nf):
            pairs += [(na+M*f+g[0]-1, na+M*f+s-1) for s in g[1:]]
    ctx.check('number', len(v) == len(pairs))
    for r, (i, j) in enumerate(pairs):
        ctx.close('constraint', v[r], (xa[i]-xa[j])-(x[i]-x[j]), 1e-9)
        for q in range(nx):
            ctx.eq('design', H[r, q], 1 if q == i else -1 if q == j else 0)


@harness(cases=[[pm, iono, f, edt] for pm in (0, 1) for iono in (0, 1)
                for f in (1, 2) for edt in (0, 1, 2) if f == 2 or not iono])
def h_time(ctx, case):
    """time update: motion and process noise, reset after an outage or an
    edited observation, initial ambiguity from code and phase"""
    pm, iono, nf, ev = case
    shrink(ctx)
    M = small.MAXSAT
    n0 = 6 if pm else 3
    na = n0+1+(M if iono else 0)
    nx = na+M*nf
    p = PS.pppos.__new__(PS.pppos)
    x = [0.0]*nx
    for i in range(n0+1):
        x[i] = ctx.real(f'x{i}', -9, 9)
    act = list(range(n0+1))
    sats = [2, 4, 6]
    for s in sats:
        if s == 2:
            continue      # new satellite
        for f in range(nf):
            x[na+M*f+s-1] = ctx.real(f'n{s}_{f}', 1, 99)
            act.append(na+M*f+s-1)
        if iono:
            x[na-M+s-1] = ctx.real(f'i{s}', 1, 99)
            act.append(na-M+s-1)
    P = [[0.0]*nx for _ in range(nx)]
    for k, a in enumerate(act):
        P[a][a] = ctx.real(f'p{a}', 0, 99)
        for b in act[:k]:
            if (a+b) % 5 == 0 or a < n0:
                P[a][b] = P[b][a] = ctx.real(f'p{a}_{b}', -9, 9)
    nav = NS(nx=nx, na=na, nf=nf, nq=na, niono=M if iono else 0, pmode=pm,
             x=ctx.arr(x), P=ctx.arr(P), monlevel=0, maxout=5, t=gtime_t(),
             edt=np.zeros((M, nf), dtype=int), fout=None, sig_n0=30.0,
             outc=np.zeros((M, nf), dtype=int), sig_ion0=10.0,
             glo_ch={6: -4})
    q = [ctx.real(f'q{i}', 0, 9) for i in range(na)]
    nav.q = ctx.arr(q)
    p.nav = nav
    tt = ctx.real('tt', 0, 30)
    ctx.patch(PS, 'timediff', lambda a, b: tt)
    C = {2: 'G', 4: 'E', 6: 'R'}
    reset = []
    if ev == 1:
        f = ctx.choice('slip', list(range(nf)))
        nav.edt[4-1, f] = 1
        reset = [4]
    elif ev == 2:
        nav.outc[6-1, :] = 5
        reset = [6]
    obs = NS(t=gtime_t(), sat=np.array(sats), sig={
        {'G': uGNSS.GPS, 'E': uGNSS.GAL, 'R': uGNSS.GLO}[c]:
        {t: [rSigRnx(c+k+SIG[c][f]) for f in range(nf)]
         for t, k in ((uTYP.C, 'C'), (uTYP.L, 'L'))} for c in 'GER'})
    L = [[ctx.real(f'L{s}_{f}', 1e7, 2e8) for f in range(nf)] for s in sats]
    R = [[ctx.real(f'P{s}_{f}', 1e7, 4e7) for f in range(nf)] for s in sats]
    obs.L, obs.P = ctx.arr(L), ctx.arr(R)
    p.udstate(obs)
    ctx.end()
    # expected state
    X = list(x)
    Q = [r[:] for r in P]
    if pm:
        for i in range(3):
            X[i] = x[i]+x[i+3]*tt
        for i in range(nx):
            for k in range(3):
                Q[k][i] = Q[k][i]+tt*P[k+3][i]
        Q2 = [r[:] for r in Q]
        for i in range(nx):
            for k in range(3):
                Q[i][k] = Q2[i][k]+tt*Q2[i][k+3]
    for i in range(na):
        Q[i][i] = Q[i][i]+q[i]*tt

    def init(i, val, var):
        for k in range(nx):
            Q[i][k] = Q[k][i] = 0.0
        Q[i][i] = var
        X[i] = val
    for k, s in enumerate(sats):
        c, ch = C[s], -4 if s == 6 else 0
        fr = [frq(c, f, ch) for f in range(nf)]
        new = s == 2 or s in reset
        ion = 0
        if iono:
            ion = (R[k][0]-R[k][1])/(1-(fr[0]/fr[1])**2)
            if new:
                # an edited satellite is not initialised
                ok = not (ev == 1 and s == 4)
                if ok:
                    ctx.assume(ctx.or_(ion > 1e-6, ion < -1e-6))
                init(na-M+s-1, ion if ok else 0.0, 100.0 if ok else 0.0)
        for f in range(nf):
            if new:
                ok = not (ev == 1 and s == 4)
                lam = CL/fr[f]
                b = L[k][f]-R[k][f]/lam+2*ion/lam*(fr[0]/fr[f])**2
                if ok:
                    ctx.assume(ctx.or_(b > 1e-6, b < -1e-6))
                init(na+M*f+s-1, b if ok else 0.0, 900.0 if ok else 0.0)
    for i in range(nx):
        ctx.close('state', nav.x[i], X[i], 1e-3)
        for k in range(nx):
            ctx.close('covariance', nav.P[i, k], Q[i][k], 1e-9)


# observation minus model ----------------------------------------------------
@harness(cases=[[s, nf, m] for s in (['G3', 'R7'], ['E1', 'C30'])
                for nf in (1, 2) for m in ('plain', 'cssr', 'base',
                                          'noant')])
def h_model(ctx, case):
    """code and phase residuals: observation minus modelled range"""
    sats, nf, mode = case
    p = filt(sats, nf)
    nav = p.nav
    sat = np.array([number(s) for s in sats])
    n = len(sats)
    r = {}

    def val(name, lo=-100, hi=100):
        if name not in r:
            r[name] = ctx.real(name, lo, hi)
        return r[name]
    nav.__dict__.update(tidecorr=uTideModel.NONE, trop_opt=1, iono_opt=1,
                        phw_opt=1, ephopt=2, elmin=0.1, rcv_ant=object(),
                        phw=np.zeros(uGNSS.MAXSAT), rsun=None)
    rs = [[1000.0*k, 0.0, 0.0] for k in range(n)]
    rr = [1.0, 2.0, 3.0]

    def idx(x):
        return int(x[0]//1000)
    ctx.patch(PS, 'ecef2pos', lambda x: np.zeros(3))
    ctx.patch(PS, 'tropmodel', lambda t, pos, model=None: (
        val('hs'), val('wet'), 0))
    ctx.patch(PS, 'geodist', lambda a, b: (val(f'rng{idx(a)}', 2e7, 4e7),
                                           np.array([idx(a)+.5, 0, 0])))
    ctx.patch(PS, 'satazel', lambda pos, e: (0.0, val(f'el{int(e[0])}', 0,
                                                      1.5)))
    ctx.patch(PS, 'shapiro', lambda a, b: val(f'rel{idx(a)}'))
    ctx.patch(PS, 'tropmapf', lambda t, pos, el, model=None: (
        val('mh'), val('mw')))
    ctx.patch(PS, 'windupcorr', lambda t, a, v, rr, s, ph, full=True: val(
        f'phw{idx(a)}', -2, 2))
    types = []

    def arx(nav, pos, e, sigs, rtype=1):
        types.append(rtype)
        v = [val(f'arx{s}') for s in sigs]
        if lack == 'rx' and int(e[0]) == 0:
            v[-1] = float('nan')
        return ctx.arr(v)

    def atx(nav, e, sigs, s, t, rs, sig0=None):
        v = [val(f'atx{s}{q}') for q in sigs]
        if int(e[0]) == 0 and lack == 'none':
            return None
        if int(e[0]) == 0 and lack == 'tx':
            v[-1] = float('nan')
        return ctx.arr(v)
    # antenna corrections missing for the first satellite
    lack = ctx.choice('lack', ['none', 'tx', 'rx']) if mode == 'noant' \
        else None
    ctx.patch(PS, 'antModelRx', arx)
    ctx.patch(PS, 'antModelTx', atx)
    cs = None
    cb, pb = {}, {}
    sig = sigtab(sats, nf)
    if mode in ('cssr', 'noant'):
        cs = NS(cssrmode=PS.sc.QZS_MADOCA, lc=[NS(
            cstat=(1 << PS.sCType.CBIAS) | (1 << PS.sCType.PBIAS),
            cbias=cb, pbias=pb)])
        for k, s in enumerate(sat):
            sy = sat2prn(s)[0]
            cb[s] = {q: val(f'cb{k}{q}') for q in sig[sy][uTYP.C]}
            pb[s] = {q: val(f'pb{k}{q}') for q in sig[sy][uTYP.L]}
    L = [[ctx.real(f'L{k}_{f}', 1e7, 2e8) for f in range(nf)]
         for k in range(n)]
    R = [[ctx.real(f'P{k}_{f}', 1e7, 4e7) for f in range(nf)]
         for k in range(n)]
    dts = [ctx.real(f'dts{k}', -1e-2, 1e-2) for k in range(n)]
    obs = NS(t=gtime_t(), sat=sat, sig=sig, L=ctx.arr(L), P=ctx.arr(R))
    rt = 0 if mode == 'base' else 1
    y, e, el = p.zdres(obs, cs, None, np.array(rs), np.zeros((n, 3)),
                       ctx.arr(dts), np.array(rr), rt)
    ctx.end()
    for k, s in enumerate(sat):
        if val(f'el{k}') < 0.1:
            for f in range(2*nf):
                ctx.check('low satellite', y[k, f] == 0)
            continue
        if k == 0 and lack:
            for f in range(2*nf):
                ctx.check('no antenna correction', y[k, f] == 0)
            continue
        sy = sat2prn(s)[0]
        base = val(f'rng{k}')+val(f'rel{k}')-CL*dts[k] + \
            val('mh')*val('hs')+val('mw')*val('wet')
        for f in range(nf):
            c, l = sig[sy][uTYP.C][f], sig[sy][uTYP.L][f]
            fr = frq(sats[k][0], f, nav.glo_ch.get(s, 0))
            tx = (lambda q: val(f'atx{s}{q}')) if cs else \
                (lambda q: 0)
            b = (lambda w, q: w[s][q]) if cs else \
                (lambda w, q: 0)
            ctx.close('code', y[k, f+nf], R[k][f]-(
                base+val(f'arx{c}')+tx(c)-b(cb, c)), 1e-3)
            ctx.close('phase', y[k, f], L[k][f]*(CL/fr)-(
                base+val(f'arx{l}')+tx(l)-b(pb, l)
                + val(f'phw{k}', -2, 2)*(CL/fr)), 1e-3)
    ctx.check('antenna of the receiver used', all(t == rt for t in types))


@harness(cases=[[pm, tr, io] for pm in (0, 1) for tr in (0, 1, 2)
                for io in (0, 1, 2)])
def h_setup(ctx, case):
    """initial covariance and process noise of each kind of state"""
    pm, trop, iono = case
    ctx.patch(PS, 'uGNSS', small)
    M, nf = small.MAXSAT, 2
    from cssrlib.gnss import Nav
    nav = Nav(nf=nf)
    nav.pmode = pm
    s = {k: ctx.real(k, 1e-3, 100) for k in (
        'sig_p0', 'sig_v0', 'sig_ztd0', 'sig_qp', 'sig_qv', 'sig_qztd',
        'sig_qion', 'sig_qb')}
    p0 = [ctx.real(f'p{i}', -9, 9) for i in range(3)]
    cfg = {'nav': dict(s, trop_opt=trop, iono_opt=iono)}
    p = PS.pppos(nav, ctx.arr(p0), config=cfg)
    it = p.IT(nav.na) if trop == 1 else 0
    ii = [p.II(k, nav.na) for k in (1, M)]
    ib = p.IB(1, 0, nav.na), p.IB(M, nf-1, nav.na)
    ctx.end()
    kinds = ['p']*3+['v']*3*pm+['ztd']*(trop == 1)+['ion']*M*(iono == 1)
    na = len(kinds)
    ctx.check('size', nav.na == na and nav.nx == na+M*nf)
    if trop == 1:
        ctx.check('troposphere state', it == kinds.index('ztd'))
    if iono == 1:
        ctx.check('ionosphere state', ii == [kinds.index('ion'), na-1])
    ctx.check('ambiguity state', ib == (na, nav.nx-1))
    for i in range(nav.nx):
        ctx.eq('state', nav.x[i], p0[i] if i < 3 else 0)
        for j in range(nav.nx):
            k = kinds[i] if i < na else ''
            v = s['sig_'+k+'0']**2 if i == j and k in ('p', 'v', 'ztd') \
                else 0
            ctx.close('initial covariance', nav.P[i, j], v, 1e-9)
    ctx.check('number of noises', len(nav.q) == na)
    for i in range(na):
        ctx.close('process noise', nav.q[i], s['sig_q'+kinds[i]]**2, 1e-9)
