"""C21 integer least-squares ambiguity resolution"""
import itertools
import math
from fractions import Fraction as F
import numpy as np
from engine.api import harness
from cssrlib import mlambda as M

BOUNDS = ['factorisation: dimension 1..3, any unit triangular factor with '
          'entries in -9..9 and any pivots 0.01..100',
          'reduction: dimension 2 (any factor, five pivot ratios) and 3 '
          '(sampled factors with one unknown entry)',
          'search: dimension 1..3 (thorough: 4), sampled factors, any float '
          'ambiguities in -1..1 (and around a large offset), optimality '
          'against every integer vector within 2 (dimension 2: 4) of the '
          'nearest one',
          'whole method (modes 1 and 2): sampled covariances, any float '
          'ambiguities']
ASSUMPTIONS = ['parmode 3 is outside: it is not selected anywhere']


def same(ctx, a, b):
    return ctx.and_(a-b <= 1e-6, a-b >= -1e-6)


def integral(ctx, x):
    return same(ctx, ctx.round(x), x)


def quad(L, d, x):
    """x' inv(L' D L) x  via  w = inv(L') x"""
    n = len(d)
    w = [None]*n
    for i in range(n-1, -1, -1):
        w[i] = x[i]-sum((w[k]*L[k][i] for k in range(i+1, n)), 0)
    return sum((w[i]*w[i]/d[i] for i in range(n)), 0)


@harness(cases=[1, 2, 3])
def h_ldl(ctx, n):
    """factorisation of a covariance matrix"""
    s = [ctx.real(f's{i}', 0.1, 10) for i in range(n)]
    d = [x*x for x in s]
    L = [[ctx.real(f'l{i}{j}', -9, 9) if j < i else int(i == j)
          for j in range(n)] for i in range(n)]
    Q = [[sum((L[k][i]*d[k]*L[k][j] for k in range(n)), 0) for j in range(n)]
         for i in range(n)]
    A = ctx.arr(Q)
    L2, d2 = M.ldldecom(A)
    ctx.end()
    for i in range(n):
        ctx.close('pivot', d2[i], d[i], 1e-6)
        for j in range(n):
            ctx.close('factor', L2[i, j], L[i][j], 1e-6)
            ctx.eq('input unchanged', A[i, j], Q[i][j])


def det(Z):
    n = len(Z)
    if n == 1:
        return Z[0][0]
    return sum((-1)**j*Z[0][j]*det([r[:j]+r[j+1:] for r in Z[1:]])
               for j in range(n))


RED = [[2, d] for d in ([1, 1], [4, 1], [1, 3], [1, 12], [.25, 5])] + \
    [[3, d, l] for d, l in (
        ([1, 1, 1], [None, .3, -.4]), ([4, 2, 1], [1.7, None, -2.2]),
        ([1, 2, 1.5], [.4, .3, None]), ([3, 1, 6], [-.3, None, 1.2]),
        ([1, 1.1, 2], [None, 2.6, .1]))]


@harness(cases=RED)
def h_reduce(ctx, case):
    """decorrelation is unimodular and keeps the quadratic form"""
    n, d = case[0], [F(x) for x in case[1]]
    pick = list(case[2]) if len(case) > 2 else [None]
    L = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    k = 0
    for i in range(n):
        for j in range(i):
            v = pick[k]
            k += 1
            L[i][j] = ctx.real('l', -2.4, 2.4) if v is None else F(str(v))
    fl = (lambda x: x) if ctx.symbolic else float
    L0 = ctx.arr([[fl(x) for x in r] for r in L])
    d0 = ctx.arr([fl(x) for x in d])
    if ctx.symbolic:
        rnd = M.np.round
        ctx.patch(M.np, 'round', lambda x: ctx.concrete(rnd(x)))
    L2, d2, Z = M.reduction(L0, d0)
    ctx.end()
    Zc = [[Z[i, j] for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            ctx.check('integer', integral(ctx, Zc[i][j]))
    ctx.check('unimodular', same(ctx, det(Zc)*det(Zc), 1))
    for i in range(n):
        ctx.check('pivots', d2[i] > 0)
        for j in range(n):
            if j < i:
                ctx.check('size', ctx.and_(L2[i, j] <= .5+1e-9,
                                           L2[i, j] >= -.5-1e-9))
            else:
                ctx.close('triangular', L2[i, j], int(i == j), 1e-9)
    # Z' L' D L Z = L2' D2 L2
    for i in range(n):
        for j in range(i+1):
            y = 0
            for k in range(n):
                a = sum((L[k][m]*Zc[m][i] for m in range(n)), 0)
                b = sum((L[k][m]*Zc[m][j] for m in range(n)), 0)
                y = y+a*b*d[k]
            x = sum((L2[k, i]*L2[k, j]*d2[k] for k in range(n)), 0)
            ctx.close('form', x, y, 1e-6)
    for j in range(n-1):
        l = L2[j+1, j]
        ctx.check('order', d2[j]+l*l*d2[j+1] >= d2[j+1]-1.1e-6)


# factor samples: pivots, strict lower part row by row
FAC = {1: [([.3], [])],
       2: [([1, 1], [0]), ([.5, 2], [.4]), ([3, .2], [-.5]),
           ([.05, .05], [.25]), ([1, 4], [.5]), ([.5, .004], [.2])],
       3: [([1, 1, 1], [0, 0, 0]), ([2, 1, .5], [.5, -.25, .5]),
           ([.1, .4, .3], [-.5, .5, .25]), ([.5, .003, .002], [.2, -.3, .1])],
       4: [([1, .5, .5, .25], [.25, 0, -.5, .5, .25, .25])]}


def factor(n, k):
    d, l = FAC[n][k]
    it = iter(l)
    return [F(str(x)) for x in d], \
        [[F(str(next(it))) if j < i else F(int(i == j)) for j in range(n)]
         for i in range(n)]


def check_best(ctx, L, d, a, cand, s, off, n, nc, rad):
    for i in range(nc):
        for j in range(n):
            ctx.check('integer', integral(ctx, cand[i][j]))
        ctx.close('norm', s[i], quad(L, d, [a[j]-cand[i][j]
                                            for j in range(n)]), 1e-8)
        if i:
            ctx.check('order', s[i] >= s[i-1]-1e-12)
            ctx.check('distinct', ctx.or_(*[ctx.not_(same(ctx, cand[i][j], cand[i-1][j]))
                                            for j in range(n)]))
    for z in itertools.product(range(-rad, rad+1), repeat=n):
        z = [z[j]+off[j] for j in range(n)]
        eq = [ctx.and_(*[same(ctx, cand[i][j], z[j]) for j in range(n)])
              for i in range(nc)]
        q = quad(L, d, [a[j]-z[j] for j in range(n)])
        ctx.check('optimal', ctx.or_(*eq, q >= s[nc-1]-1e-8))


LINES = {1: [([0], [1])],
         2: [([0, 0], [1, 0.3]), ([.2, .1], [0, 1]), ([.5, -.5], [.2, 1]),
             ([40000, -3], [1, -.7])],
         3: [([0, 0, 0], [1, .6, -.2]), ([.3, .4, -.1], [0, .1, 1]),
             ([.5, .5, .5], [.3, -1, 0]), ([.1, -.4, 1000], [1, 0, 0])],
         4: [([.5, .2, .3, -.4], [1, .3, -.2, .5]),
             ([0, 0, 0, 0], [.1, -.2, .3, 1])]}
SRCH = [[f, n, k, nc, o] for f in ('estimILS', 'msearch')
        for n, ks, ncs in [(1, 1, (1, 2, 3)), (2, 5, (1, 2, 3)),
                           (3, 3, (1, 2)), (4, 1, (2,))]
        for k in range(ks) for nc in ncs for o in range(len(LINES[n]))
        if n < 3 or (k+nc+o) % 2]
SRCHT = [[f, n, k, nc, o] for f in ('estimILS', 'msearch')
         for n in (3, 4) for k in range(len(FAC[n])) for nc in (1, 2, 3)
         for o in range(len(LINES[n]))]


def line(ctx, n, o):
    b, u = LINES[n][o]
    t = ctx.real('t', -1, 1)
    return [F(str(b[j]))+F(str(u[j]))*t if ctx.symbolic else b[j]+u[j]*t
            for j in range(n)]


def normal(ctx):
    if ctx.symbolic:
        nrm = M.norm

        class norm:
            @staticmethod
            def cdf(x):
                return nrm.cdf([float(v.const() if hasattr(v, 'const') else v) for v in x])
        ctx.patch(M, 'norm', norm)


def rounding(ctx):
    """explore the nearest integers one by one"""
    if ctx.symbolic:
        rnd = M.round
        ctx.patch(M, 'round', lambda x: ctx.concrete(rnd(x)))
        normal(ctx)


@harness(cases=SRCH, thorough=lambda t: SRCH+SRCHT, max_paths=4000)
def h_search(ctx, case):
    """the search returns the best integer vectors in order"""
    f, n, k, nc, o = case
    d, L = factor(n, k)
    a = line(ctx, n, o)
    rounding(ctx)
    cand, s = getattr(M, f)(np.array([[float(x) for x in w] for w in L]),
                            np.array([float(x) for x in d]), ctx.arr(a), nc)
    ctx.end()
    check_best(ctx, L, d, a, [[cand[j, i] for j in range(n)]
                              for i in range(nc)], s,
               [round(x) for x in LINES[n][o][0]], n, nc,
               {1: 6, 2: 4, 3: 2, 4: 2}[n])


@harness(cases=[[f, k, nc] for f in ('estimILS', 'msearch') for k in range(3)
                for nc in (1, 2)],
         thorough=lambda t: [[f, 3, nc] for f in ('estimILS', 'msearch')
                             for nc in (1, 2)])
def h_plane(ctx, case):
    """two or three unknown float ambiguities"""
    f, k, nc = case
    n = 3 if k == 3 else 2
    d, L = factor(n, [0, 1, 4, 1][k])
    r = F(3, 5) if n == 2 else F(2, 5)
    a = [ctx.real(f'a{j}', -r, r) for j in range(n)]
    rounding(ctx)
    cand, s = getattr(M, f)(np.array([[float(x) for x in w] for w in L]),
                            np.array([float(x) for x in d]), ctx.arr(a), nc)
    ctx.end()
    check_best(ctx, L, d, a, [[cand[j, i] for j in range(n)]
                              for i in range(nc)], s, [0]*n, n, nc,
               2 if n == 2 else 1)


def prob(d):
    p = 1
    for x in d:
        p *= math.erf(.5/math.sqrt(x)/math.sqrt(2))
    return p


# covariances: factors and an integer transformation hiding them
ZT = {2: [[[1, 0], [0, 1]], [[2, 1], [5, 3]], [[1, -7], [0, 1]]],
      3: [[[1, 0, 0], [4, 1, 0], [-3, 2, 1]], [[2, 1, 5], [1, 1, 2],
                                              [0, 0, 1]],
          [[1, 0, 0], [0, 1, 0], [0, 0, 1]]]}


@harness(cases=[[n, k, j, p, nc, s] for n, k, j in
                [(2, 1, 0), (2, 1, 1), (2, 4, 2), (3, 1, 0), (1, 0, 0),
                 (2, 5, 0), (2, 5, 1), (3, 3, 0), (3, 3, 2)]
                for p in (1, 2) for nc in (1, 2) for s in (1, 0.02)
                if p == 2 or s == 1],
         thorough=lambda t: [[3, 2, j, p, nc, s] for j in (0, 1) for p in
                             (1, 2) for nc in (1, 2) for s in (1, 0.02)])
def h_lambda(ctx, case):
    """fixed ambiguities are the nearest integer vectors in the metric of
    their covariance, the first entries conditional on the rest when only
    a part is fixed"""
    n, k, j, p, nc, sc = case
    d, L = factor(n, k)
    d = [x*F(str(sc)) for x in d]
    T = ZT[n][j] if n > 1 else [[1]]
    B = [[sum((L[i][m]*T[m][c] for m in range(n)), F(0)) for c in range(n)]
         for i in range(n)]
    Q = [[sum((B[i][a]*d[i]*B[i][b] for i in range(n)), F(0))
          for b in range(n)] for a in range(n)]
    a = line(ctx, n, 0)
    if n == 2 and p == 1:
        a = [a[0]+33, a[1]-7]
    rounding(ctx)
    A = np.array([[float(x) for x in r] for r in Q])
    fix, s, nfix, Ps = M.mlambda(ctx.arr(a), A, nc, p, 0.995)
    ctx.end()
    _, d2, Z = M.reduction(*M.ldldecom(A))
    d2 = [float(x) for x in d2]
    want = n
    if p == 2 and prob(d2) < .995:
        want = n-1 if n > 1 and prob(d2[1:]) > .995 else 0
    ctx.eq('number fixed', nfix, want)

    # solve Q x = y exactly
    def sq(x):
        M_ = [list(Q[i])+[x[i]] for i in range(n)]
        for i in range(n):
            for r in range(i+1, n):
                g = M_[r][i]/M_[i][i]
                M_[r] = [u-g*v if c < n else u-v*g for c, (u, v) in
                         enumerate(zip(M_[r], M_[i]))]
        y = [None]*n
        for i in range(n-1, -1, -1):
            y[i] = (M_[i][n]-sum((y[c]*M_[i][c] for c in range(i+1, n)),
                                 0))/M_[i][i]
        return sum((y[i]*x[i] for i in range(n)), 0)
    if p == 2 and nfix == 0:
        for i in range(n):
            ctx.close('float solution', fix[i], a[i], 1e-6)
        return
    if nfix == n:
        off = [33, -7] if n == 2 and p == 1 else [0]*n
        for i in range(nc):
            for c in range(n):
                ctx.check('integer', integral(ctx, fix[c, i]))
            ctx.close('norm', s[i], sq([a[c]-fix[c, i] for c in range(n)]),
                      1e-5)
        for z in itertools.product(range(-2, 3), repeat=n):
            z = [z[c]+off[c] for c in range(n)]
            eq = [ctx.and_(*[same(ctx, fix[c, i], z[c]) for c in range(n)])
                  for i in range(nc)]
            ctx.check('optimal', ctx.or_(*eq, sq([a[c]-z[c] for c in range(
                n)]) >= s[nc-1]-1e-5))
        return
    # partly fixed: the residual is a combination of whole-number constraints
    ctx.check('partial', p == 2 and nfix == n-1)
    for i in range(nc):
        x = [a[c]-fix[c, i] for c in range(n)]
        ctx.close('norm', s[i], sq(x), 1e-5)
        for c in range(1, n):
            ctx.check('integer', integral(ctx, sum(
                (int(round(float(Z[r, c])))*fix[r, i] for r in range(n)),
                0)))
        if i:
            ctx.check('order', s[i] >= s[i-1])
    for z in itertools.product(range(-2, 3), repeat=n):
        ctx.check('optimal', sq([a[c]-z[c] for c in range(n)])
                  >= s[0]-1e-5)


@harness(cases=[[.3], [.3, .01], [2, .05, .1]])
def h_rate(ctx, d):
    """success rate of the sequential rounding"""
    normal(ctx)
    p = prob(d)
    ctx.close('rate', M.sr_boost(np.array(d)), p, 1e-9)
    ctx.end()
