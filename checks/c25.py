"""C25: SP3 and RINEX clock files: parsing and interpolation."""
import math

import numpy as np

from engine.api import harness
from cssrlib import gnss, peph, rinex
from cssrlib.gnss import Nav, rCST, uGNSS

MISS = 999999.999999
EP = [2024, 2, 28, 23, 30, 0]


def sp3(ctx, sats, epochs, flag='P', ver='d', bases=(1.25, 1.025), acc=None,
        list_=None):
    """epochs: [(ep, [[(id, kind, 4 values, std, flags)]])]"""
    lst = list_ or sats
    h = ['#%s%s%04d %2d %2d %2d %2d %11.8f %7d d+D   IGS20 FIT  AAA' %
         (ver, flag, *epochs[0][0], len(epochs)),
         '## 2303 257400.00000000   300.00000000 60369 0.9791666666667']
    n = max(5, -(-len(lst)//17)) if len(lst) > 17 or acc else 1
    for k in range(n):
        h.append(('+  %3d   ' % len(lst) if k == 0 else '+        ') +
                 ''.join(lst[17*k:17*k+17]) +
                 '  0'*(17-len(lst[17*k:17*k+17])))
    a = acc or [0]*len(lst)
    for k in range(n):
        h.append('++       '+''.join('%3d' % x for x in a[17*k:17*k+17]) +
                 '  0'*(17-len(a[17*k:17*k+17])))
    h += ['%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc',
          '%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc',
          '%%f %10.7f %12.9f  0.00000000000  0.000000000000000' % bases,
          '%f  0.0000000  0.000000000  0.00000000000  0.000000000000000',
          '%i    0    0    0    0      0      0      0      0         0',
          '%i    0    0    0    0      0      0      0      0         0',
          '/* comment', '/* P  G01 comment']
    for ep, recs in epochs:
        h.append('*  %04d %2d %2d %2d %2d %11.8f' % tuple(ep))
        for sid, kind, vals, std, fl in recs:
            line = kind+sid+''.join(
                ctx.text(x, '14.6f') for x in vals)
            if std is not None:
                line += ''.join(' %2s' % ('' if x is None else x)
                                for x in std[:3])
                line += ' %3s' % ('' if std[3] is None else std[3])
            if fl:
                line = line.ljust(74)+fl
            h.append(line.rstrip(' '))
    h.append('EOF')
    return '\n'.join(h)+'\n'


def near(ctx, label, a, b, tol=1e-9):
    ctx.close(label, a, b, tol)


SID = ['G01', 'R24', 'E36', 'C60', 'J02']


@harness(cases=[['P', 'd', 1, 0], ['P', 'c', 2, 0], ['V', 'd', 1, 0],
                ['V', 'd', 2, 0], ['P', 'd', 1, 1], ['P', 'd', 1, 2],
                ['P', 'd', 3, 3]],
         budget=60, witnesses=2, max_paths=2000)
def h_sp3(ctx, case):
    """every record goes to its satellite and epoch in SI units; missing
    values stay undefined"""
    flag, ver, ne, opt = case
    sats = SID[:2] if ne < 3 else SID
    bad = ctx.choice('bad', [None, 'clk', 'all'])
    eps = [[2024, 2, 28, 23, 50, 0.0], [2024, 2, 29, 0, 0, 0.0],
           [2024, 2, 29, 0, 10, 30.5]][:ne]
    fls = [ctx.choice('fl', ['', ' P', 'EP  MP', '    MP'])
           if opt else '' for _ in range(1)]
    epochs, val, std = [], {}, {}
    for i, ep in enumerate(eps):
        recs = []
        for j, s in enumerate(sats):
            for kind in ('P', 'V') if flag == 'V' else ('P',):
                x = [ctx.real(f'{kind}{i}{j}{k}', -50000, 50000, res='1/64')
                     for k in range(4)]
                if kind == 'P' and j == 1 and i == 0 and bad:
                    if bad == 'all':
                        x[:3] = [0.0]*3
                    x[3] = MISS
                if kind == 'P' and j == 1 and i == 0 and bad and ne == 3:
                    x = [MISS]*4
                sd = [ctx.choice(f's{kind}', [None, 7]), 10, 5, 123] \
                    if j == 0 and i == 0 else None
                fl = fls[0] if j == 0 and i == 0 else ''
                if fl and sd is None:
                    sd = [None]*4
                recs.append((s, kind, x, sd, fl))
                val[i, s, kind] = x
                std[i, s, kind] = sd
        epochs.append((ep, recs))
    nav = Nav()
    d = peph.peph()
    d.parse_sp3(ctx.file(sp3(ctx, sats, epochs, flag, ver), 'x.sp3'), nav,
                opt if opt < 3 else 0)
    if opt == 2 and fls[0][-1:] not in ('P',) and 'P' not in fls[0]:
        # observed values are not wanted: nothing is left
        ctx.check('epochs', len(nav.peph) == 0 and nav.ne == 0)
        return
    ctx.check('epochs', len(nav.peph) == ne and nav.ne == ne)
    if len(nav.peph) != ne:
        return
    pc = len(fls[0]) > 1 and fls[0][1] == 'P'
    po = len(fls[0]) > 5 and fls[0][5] == 'P'
    used = {gnss.id2sat(s) for s in sats}
    for i, ep in enumerate(eps):
        p = nav.peph[i]
        ctx.close('epoch time', gnss.timediff(p.time, gnss.epoch2time(ep)),
                  0, 1e-6)
        for s in sats:
            k0 = gnss.id2sat(s)-1
            for k in range(4):
                sc = 1e3 if k < 3 else 1e-6
                x = val[i, s, 'P'][k]
                pred = (po if k < 3 else pc) if (i == 0 and s == sats[0]) \
                    else False
                gone = (opt == 1 and pred) or (opt == 2 and not pred)
                if gone or (not isinstance(x, (list,)) and _ismiss(x)):
                    ctx.nan('missing value', p.pos[k0, k])
                else:
                    near(ctx, 'value', p.pos[k0, k]/sc, x, 1e-8)
                if flag == 'V':
                    x = val[i, s, 'V'][k]
                    if gone:
                        continue
                    near(ctx, 'velocity', p.vel[k0, k]/sc*1e4, x, 1e-7)
                for kind, a, f in (('P', p.std, 1), ('V', p.vst, 1e-4)):
                    if (i, s, kind) not in std:
                        continue
                    sd = std[i, s, kind]
                    want = 0.0 if sd is None or sd[k] is None else \
                        (1.25**sd[k]*1e-3 if k < 3 else 1.025**sd[k]*1e-12)
                    near(ctx, 'std', a[k0, k], want*f, 1e-9 if k < 3
                         else 1e-18)
        for sat in (2, 40, 70):
            if sat not in used:
                ctx.nan('other satellites', p.pos[sat-1, 0])


def _ismiss(x):
    return isinstance(x, float) and x == MISS


@harness(cases=[[2], [17], [18], [40]], budget=30)
def h_sp3_header(ctx, case):
    """satellite list and accuracy codes of the header"""
    n = case[0]
    lst = ['G%02d' % (i+1) for i in range(min(n, 32))] + \
        ['E%02d' % (i+1) for i in range(n-32)]
    acc = [(3*i) % 17 for i in range(n)]
    acc[0] = ctx.choice('a0', [0, 5, 12])
    x = [ctx.real(f'x{k}', -50000, 50000, res='1/64') for k in range(4)]
    ep = [(EP, [(lst[k], 'P', x, None, '') for k in range(n)])]
    nav = Nav()
    d = peph.peph()
    d.parse_sp3(ctx.file(sp3(ctx, lst, ep, acc=acc), 'x.sp3'), nav)
    ctx.check('number of satellites', d.nsat == n)
    ctx.check('satellites', [int(v) for v in d.sat] ==
              [gnss.id2sat(s) for s in lst])
    ctx.check('accuracy', [int(v) for v in d.acc] == acc)
    ctx.check('one epoch', len(nav.peph) == 1)
    if nav.peph:
        for s in (lst[0], lst[-1]):
            for k in range(4):
                near(ctx, 'value', nav.peph[0].pos[gnss.id2sat(s)-1, k] /
                     (1e3 if k < 3 else 1e-6), x[k], 1e-8)


@harness(cases=[[['G01', 'E36'], 2], [['C33', 'G31', 'R05'], 3]], budget=60,
         witnesses=2)
def h_sp3_roundtrip(ctx, case):
    """orbits written to an SP3 file and read back"""
    sids, ne = case
    nav = Nav()
    sats = [gnss.id2sat(s) for s in sids]
    t0 = gnss.epoch2time(EP)
    miss = ctx.choice('miss', [None, 'clk', 'pos'])
    for i in range(ne):
        p = peph.peph_t(gnss.timeadd(t0, 300.0*i))
        for s in sats:
            for k in range(3):
                p.pos[s-1, k] = ctx.real(f'p{i}{s}{k}', -40000000, 40000000,
                                         res='1/8')
            p.pos[s-1, 3] = ctx.real(f'c{i}{s}', '-1/1000', '1/1000',
                                     res='1/1099511627776')
        if i == 1 and miss == 'clk':
            p.pos[sats[0]-1, 3] = float('nan')
        if i == 1 and miss == 'pos':
            p.pos[sats[0]-1, 0] = float('nan')
        nav.peph.append(p)
    import os
    path = ctx.file('', 'x.sp3')
    d = peph.peph()
    d.write_sp3(path, nav, sats)
    nav2 = Nav()
    peph.peph().parse_sp3(path, nav2)
    ctx.check('epochs', len(nav2.peph) == ne)
    if len(nav2.peph) != ne:
        return
    for i in range(ne):
        ctx.close('time', gnss.timediff(nav2.peph[i].time, nav.peph[i].time),
                  0, 1e-6)
        for s in sats:
            a, b = nav2.peph[i].pos[s-1], nav.peph[i].pos[s-1]
            lost = i == 1 and s == sats[0]
            for k in range(3):
                if lost and miss == 'pos':
                    near(ctx, 'no position', a[k], 0, 1e-9)
                else:
                    near(ctx, 'pos', a[k], b[k], 6e-4)
            if lost and miss == 'clk':
                ctx.nan('no clock', a[3])
            else:
                near(ctx, 'clk', a[3], b[3], 6e-13)


# ---------------------------------------------------------------------------
def rot(th, v):
    s, c = (round(f(th)*2.0**40)/2.0**40 for f in (math.sin, math.cos))
    return [c*v[0]+s*v[1], -s*v[0]+c*v[1], v[2]]


def orbit(ctx, ts, treq, sat, deg, res='1/16'):
    """nodes of a polynomial orbit in the frame fixed at the request time"""
    # one power of time at a time (the interpolation is linear in the values)
    k0 = ctx.choice('power', [1, 2, 3, deg//2, deg-1, deg])
    co = [[ctx.real(f'q{a}{k}', -1000000, 1000000, res=res)
           if k in (0, k0) and a < 2 else (1e7 if k == 0 else 0.0)
           for k in range(deg+1)] for a in range(3)]
    if ctx.choice('axis', [0, 1]):
        co[1], co[2] = co[2], co[1]
    nav = Nav()
    t0 = gnss.epoch2time(EP)
    sc = float(max(abs(t-treq) for t in ts))
    for t in ts:
        u = (t-treq)/sc
        q = [sum((co[a][k]*(u**k) for k in range(1, deg+1)), co[a][0])
             for a in range(3)]
        p = peph.peph_t(gnss.timeadd(t0, float(t)))
        th = rCST.OMGE*(t-treq)
        # position in the Earth-fixed frame of the node time
        x = rot(th, q)
        for a in range(3):
            p.pos[sat-1, a] = x[a]
        p.pos[sat-1, 3] = 1e-5
        nav.peph.append(p)
    nav.ne = len(nav.peph)
    return nav, [co[a][0] for a in range(3)]


def cases_poly():
    out = []
    g = list(range(0, 900*16, 900))
    for tr in (0, 1.25, 450, 6750, 6300, 7000, 13500, 13499, 12600.5, -900,
               14400):
        out.append([g, tr, 10])
    out.append([list(range(0, 300*12, 300)), 1700, 10])
    out.append([[300*i for i in range(11)], 1234, 10])
    out.append([[0, 900, 1800, 2700, 4500, 5400, 6300, 7200, 8100, 9900,
                 10800, 11700], 5000, 9])
    return out


@harness(cases=cases_poly, budget=60, witnesses=1)
def h_poly(ctx, case):
    """interpolation of a polynomial orbit is exact, Earth rotation between
    node and request time compensated"""
    ts, treq, deg = case
    sat = 5
    # coarser trigonometric constants keep the rationals small
    ctx.patch(peph, 'sin', lambda x: round(math.sin(x)*2.0**40)/2.0**40)
    ctx.patch(peph, 'cos', lambda x: round(math.cos(x)*2.0**40)/2.0**40)
    nav, want = orbit(ctx, ts, treq, sat, deg)
    d = peph.peph()
    t = gnss.timeadd(gnss.epoch2time(EP), float(treq))
    rs, dts, ve, vc = d.pephpos(t, sat, nav)
    ctx.check('result', rs is not None)
    if rs is None:
        return
    for a in range(3):
        ctx.close('position', rs[a], want[a], 5e-2)
    ctx.close('clock', dts[0], 1e-5, 1e-12)


def grid(ctx, n, step, sat, miss=None, clk=None):
    nav = Nav()
    t0 = gnss.epoch2time(EP)
    for i in range(n):
        p = peph.peph_t(gnss.timeadd(t0, float(step*i)))
        p.pos[sat-1, 0:3] = [20000e3+i, 1000e3*i, 5e6]
        p.pos[sat-1, 3] = 1e-5 if clk is None else clk[i]
        if miss is not None and i == miss[0]:
            if miss[1] == 'zero':
                p.pos[sat-1, 0:3] = 0.0
            elif miss[1] == 'nan':
                p.pos[sat-1, 0:3] = float('nan')
            elif miss[1] == 'zero+clk':
                p.pos[sat-1, 0:3] = 0.0
                p.pos[sat-1, 3] = float('nan')
            elif miss[1] == 'one':
                p.pos[sat-1, 1] = float('nan')
        nav.peph.append(p)
    nav.ne = n
    return nav


@harness(cases=[[16, 900], [11, 300], [10, 900], [13, 7]], budget=60)
def h_span(ctx, case):
    """no position outside the data span (plus 15 minutes) or with too few
    epochs"""
    n, step = case
    sat = 5
    nav = grid(ctx, n, step, sat)
    end = step*(n-1)
    dt = ctx.int('t', -3000, end+3000)
    d = peph.peph()
    # the rotation angle is not of interest here
    ctx.patch(peph, 'sin', lambda x: 0.0)
    ctx.patch(peph, 'cos', lambda x: 1.0)
    ctx.patch(peph.peph, 'interppol', lambda self, x, y, n: y[0])
    rs, dts, _, _ = d.pephpos(gnss.timeadd(gnss.epoch2time(EP), dt*1.0), sat,
                              nav)
    ok = ctx.and_(dt >= -900, dt <= end+900, n >= 11)
    ctx.check('span', ok if rs is not None else ctx.not_(ok))


@harness(cases=[['zero'], ['nan'], ['zero+clk'], ['one']], budget=60)
def h_missing(ctx, case):
    """a missing position among the nodes used gives no result, elsewhere it
    does not matter"""
    kind = case[0]
    n, step, sat = 30, 900, 5
    m = ctx.choice('m', list(range(0, 30, 1)))
    treq = ctx.choice('t', [100, 13000, 26100])
    nav = grid(ctx, n, step, sat, miss=(m, kind))
    d = peph.peph()
    t = gnss.timeadd(gnss.epoch2time(EP), float(treq))
    rs, dts, _, _ = d.pephpos(t, sat, nav)
    # all nodes within four steps are used, none beyond eleven
    lo, hi = (treq-4*step)/step, (treq+4*step)/step
    if lo <= m <= hi:
        ctx.check('missing position', rs is None)
    if m < (treq-11*step)/step or m > (treq+11*step)/step:
        ctx.check('position', rs is not None and
                  not any(math.isnan(float(x)) for x in rs))


@harness(cases=[[k] for k in range(4)], budget=60, witnesses=2)
def h_sp3clk(ctx, case):
    """clock of the SP3 file: linear between the two epochs around the
    request, undefined if one of them is missing"""
    k = case[0]
    n, step, sat = 12, 900, 5
    c = [ctx.real(f'c{i}', '-1/1000', '1/1000', res='1/1099511627776')
         if i in (5, 6) else 1e-4 for i in range(n)]
    if k == 1:
        c[5] = float('nan')
    elif k == 2:
        c[6] = float('nan')
    elif k == 3:
        c[5] = c[6] = float('nan')
    nav = grid(ctx, n, step, sat, clk=c)
    dt = ctx.real('t', '1/4', 899, res='1/4')
    ctx.patch(peph, 'sin', lambda x: 0.0)
    ctx.patch(peph, 'cos', lambda x: 1.0)
    ctx.patch(peph.peph, 'interppol', lambda self, x, y, n: y[0])
    d = peph.peph()
    rs, dts, _, vc = d.pephpos(gnss.timeadd(gnss.epoch2time(EP),
                                            4500+dt), sat, nav)
    if k:
        ctx.nan('no clock', dts[0])
    else:
        ctx.close('clock', dts[0], c[5]+(c[6]-c[5])*dt/900, 1e-14)


@harness(cases=[['mid'], ['early'], ['late'], ['node']], budget=60,
         witnesses=2)
def h_sp3var(ctx, case):
    """variance of the SP3 clock: standard deviation of the nearer node in
    metres plus the extrapolation error"""
    n, step, sat = 12, 900, 5
    nav = grid(ctx, n, step, sat)
    s = [ctx.real(f's{i}', 0, '1/1000000', res='1/1099511627776')
         for i in range(2)]
    dt = {'mid': 4500+ctx.int('t', 1, 899), 'early': -ctx.int('t', 1, 900),
          'late': 11*900+ctx.int('t', 1, 900), 'node': 4500}[case[0]]
    i0 = {'mid': 5, 'early': 0, 'late': 10, 'node': 4}[case[0]]
    nav.peph[i0].std[sat-1, 3] = s[0]
    nav.peph[i0+1].std[sat-1, 3] = s[1]
    ctx.patch(peph, 'sin', lambda x: 0.0)
    ctx.patch(peph, 'cos', lambda x: 1.0)
    ctx.patch(peph.peph, 'interppol', lambda self, x, y, n: y[0])
    d = peph.peph()
    rs, dts, ve, vc = d.pephpos(
        gnss.timeadd(gnss.epoch2time(EP), dt*1.0), sat, nav, True, True)
    C, X = rCST.CLIGHT, 1e-3
    if case[0] == 'mid':
        t = dt-4500
        a = s[0]*C+X*t
        b = s[1]*C+X*(900-t)
        first = t < 450
        want = ctx.ite(first, a, b)
        wantb = ctx.ite(t <= 450, a, b)
        ctx.check('variance', ctx.or_(
            ctx._near(vc, want*want, 1e-6), ctx._near(vc, wantb*wantb, 1e-6)))
    else:
        j, t = {'early': (0, -dt), 'late': (1, dt-9900),
                'node': (1, 0)}[case[0]]
        w = s[j]*C+X*t
        ctx.close('variance', vc, w*w, 1e-6)


# ---------------------------------------------------------------------------
def clkfile(ctx, ver, recs):
    o = 5 if ver >= 3.04 else 0
    lab = '%9.2f' % ver+' '*11+'C'.ljust(20)+'M'.ljust(20)
    out = [(lab if o == 0 else lab).ljust(65 if o else 60) +
           'RINEX VERSION / TYPE', ' '*(65 if o else 60)+'END OF HEADER']
    for typ, sid, ep, vals in recs:
        line = typ+' '+sid.ljust(9 if o else 4)+' '
        line += '%04d %02d %02d %02d %02d%10.6f%3d' % (*ep, len(vals))
        line += '   '+'  '.join(ctx.text(x, '19.12E' if k == 0 else '18.12E')
                                 for k, x in enumerate(vals))
        out.append(line)
    return '\n'.join(out)+'\n'


@harness(cases=[[3.00, 0], [3.04, 0], [3.00, 1], [3.04, 1]], budget=60,
         witnesses=2)
def h_clk_read(ctx, case):
    """clock records go to their satellite and epoch"""
    ver, twice = case
    ep = [[2024, 2, 28, 23, 59, 30.0], [2024, 2, 29, 0, 0, 0.0]]
    v = {}
    recs = []
    for i, e in enumerate(ep):
        for s in ('G01', 'E36', 'J02', 'C60', 'R24'):
            if s == 'E36' and i == 1:
                continue
            x = [ctx.real(f'b{i}{s}', '-1/1000', '1/1000',
                          res='1/1099511627776')]
            if s != 'C60':
                x.append(ctx.real(f's{i}{s}', 0, '1/1000',
                                  res='1/1099511627776'))
            v[i, s] = x
            recs.append(('AS', s, e, x))
        recs.append(('AR', 'BRUX', e, [1e-4, 1e-9]))
    nav = Nav()
    d = rinex.rnxdec()
    path = ctx.file(clkfile(ctx, ver, recs), 'x.clk')
    d.decode_clk(path, nav)
    if twice:
        d.decode_clk(path, nav)
    ctx.check('epochs', len(nav.pclk) == 2 and nav.nc == 2)
    if len(nav.pclk) != 2:
        return
    for i, e in enumerate(ep):
        ctx.close('time', gnss.timediff(nav.pclk[i].time,
                                        gnss.epoch2time(e)), 0, 1e-6)
        for s in ('G01', 'E36', 'J02', 'C60', 'R24', 'G02'):
            k = gnss.id2sat(s)-1
            x = v.get((i, s), [0.0])
            near(ctx, 'bias', nav.pclk[i].clk[k], x[0], 1e-14)
            near(ctx, 'std', nav.pclk[i].std[k], x[1] if len(x) > 1 else 0.0,
                 1e-14)


@harness(cases=[[2, 30], [5, 30], [9, 300], [1, 30]], budget=60, witnesses=2,
         max_paths=4000)
def h_clk(ctx, case):
    """clock interpolation: linear between the two epochs around the request
    time, constant up to 15 minutes beyond the span, nothing if missing"""
    n, step = case
    sat = 7
    nav = Nav()
    nav.pclk = []
    t0 = gnss.epoch2time(EP)
    c, s = [], []
    miss = ctx.choice('miss', [None]+list(range(min(n, 3))))
    for i in range(n):
        p = rinex.pclk_t(gnss.timeadd(t0, float(step*i)))
        c.append(ctx.real(f'c{i}', '1/100000', '1/1000',
                          res='1/1099511627776') if i != miss else 0.0)
        s.append(ctx.real(f's{i}', 0, '1/1000000', res='1/1099511627776'))
        p.clk[sat-1] = c[i]
        p.std[sat-1] = s[i]
        p.clk[sat] = 0.123
        nav.pclk.append(p)
    nav.nc = n

    end = step*(n-1)
    dt = ctx.int('t', -1000, end+1000)
    d = peph.peph()
    dts, vc = d.pephclk(gnss.timeadd(t0, dt*1.0), sat, nav, True)
    span = ctx.and_(dt >= -900, dt <= end+900, n >= 2)
    if dts is None:
        # allowed: outside, or one of the surrounding nodes is missing
        if miss is None:
            ctx.check('result inside the span', ctx.not_(span))
        else:
            lo = step*(miss-1) if miss > 0 else -10**9
            hi = step*(miss+1) if miss < n-1 else 10**9
            ctx.check('missing only near the gap', ctx.or_(
                ctx.not_(span), ctx.and_(dt >= lo, dt <= hi)))
        return
    ctx.check('nothing outside the span', span)
    C, X = rCST.CLIGHT, 1e-3
    # linear interpolation
    props = [ctx.implies(dt <= 0, ctx._near(dts[0], c[0], 1e-13)),
             ctx.implies(dt >= end, ctx._near(dts[0], c[-1], 1e-13))]
    for i in range(n-1):
        t = dt-step*i
        w = c[i]+(c[i+1]-c[i])*t/step
        inside = ctx.and_(t >= 0, t <= step)
        if miss in (i, i+1):
            j = i+1 if miss == i else i
            props.append(ctx.implies(ctx.and_(t > 0, t < step), False))
            continue
        props.append(ctx.implies(inside, ctx._near(dts[0], w, 1e-13)))
    for k, p in enumerate(props):
        ctx.check('interpolation', p)
    if miss is None:
        # variance: of the nearer node
        pv = [ctx.implies(dt <= 0, ctx._near(vc, (s[0]*C-X*dt)**2, 1e-5)),
              ctx.implies(dt >= end, ctx._near(
                  vc, (s[-1]*C+X*(dt-end))**2, 1e-5))]
        for i in range(n-1):
            t = dt-step*i
            pv.append(ctx.implies(ctx.and_(t >= 0, t <= step), ctx.or_(
                ctx.and_(2*t <= step, ctx._near(vc, (s[i]*C+X*t)**2, 1e-5)),
                ctx.and_(2*t >= step, ctx._near(
                    vc, (s[i+1]*C+X*(step-t))**2, 1e-5)))))
        for p in pv:
            ctx.check('variance', p)


@harness(cases=[['sp3'], ['clk'], ['none1'], ['none2'], ['cnone1'],
                ['cnone2'], ['zero']], budget=60, witnesses=2)
def h_peph2pos(ctx, case):
    """position, velocity by differentiation, clock with the relativistic
    correction, clock rate; nothing if any of the values is missing"""
    kind = case[0]
    d = peph.peph()
    nav = Nav()
    nav.nc = 2 if 'c' in kind[:1] else 0
    r0 = [ctx.real(f'r{k}', -30000000, 30000000, res='1/8')
          for k in range(3)]
    r1 = [r0[k]+ctx.real(f'd{k}', -4, 4, res='1/1024') for k in range(3)]
    c = [ctx.real(f'c{k}', '1/1000000', '1/1000', res='1/1099511627776')
         for k in range(4)]
    if kind == 'zero':
        c[0] = 0.0
    t0 = gnss.epoch2time(EP)

    def later(t):
        return gnss.timediff(t, t0) > 0

    def pos(time, sat, nav, vare=False, varc=False):
        k = 1 if later(time) else 0
        if kind == 'none%d' % (k+1):
            return None, None, False, False
        return ctx.arr(r1 if k else r0), ctx.arr([c[k], 0.0]), 4.0, 9.0

    def clk(time, sat, nav, varc=False):
        k = 1 if later(time) else 0
        if kind == 'cnone%d' % (k+1):
            return None, False
        return ctx.arr([c[2+k], 0.0]), 16.0
    d.pephpos, d.pephclk = pos, clk
    rs, dts, var = d.peph2pos(t0, 5, nav, True)
    if 'none' in kind:
        ctx.check('no result', rs is None and dts is None)
        return
    ctx.check('result', rs is not None)
    cc = c[2:] if kind == 'clk' else c[:2]
    v = [(r1[k]-r0[k])*1000 for k in range(3)]
    for k in range(3):
        ctx.close('position', rs[k], r0[k], 1e-6)
        ctx.close('velocity', rs[3+k], v[k], 1e-4)
    ctx.close('variance', var, 4.0+(16.0 if kind == 'clk' else 9.0), 1e-9)
    if kind == 'zero':
        return
    rel = -2*sum(r0[k]*v[k] for k in range(3))/rCST.CLIGHT**2
    ctx.close('clock', dts[0], cc[0]+rel, 1e-15)
    ctx.close('clock rate', dts[1], (cc[1]-cc[0])*1000, 1e-12)
