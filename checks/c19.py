"""C19 selection of the ephemeris and application of SSR corrections"""
import numpy as np
from fractions import Fraction as F
from engine.api import harness, isnan
from cssrlib import ephemeris as EP
from cssrlib.cssrlib import cssr, sCType, sCSSRTYPE as sc
from cssrlib.gnss import (uGNSS, Nav, Obs, Eph, Geph, gpst2time, gtime_t,
                          prn2sat, sat2prn, timediff)

BOUNDS = ['up to three ephemerides (arbitrary time differences to 1 s, issues '
          'and types) for the requested and another satellite',
          'one satellite position/velocity per path (seven rational '
          'geometries); orbit and clock model replaced by '
          'stand-ins, whose values and arguments are checked (the models are '
          'C20)', 'all corrections, rates and clock offsets (arbitrary reals '
          'in the stated ranges)', 'satposs with one and two satellites per '
          'call; expired corrections (issue -1) are outside']
WEEK, TOW = 2250, 3*86400+45000
CL = 299792458.0
TMAX = {'G': 7201, 'E': 14400, 'J': 7201, 'C': 7201, 'I': 7201, 'R': 1800,
        'S': 360}
SYS = {'G': uGNSS.GPS, 'E': uGNSS.GAL, 'J': uGNSS.QZS, 'C': uGNSS.BDS,
       'I': uGNSS.IRN, 'R': uGNSS.GLO, 'S': uGNSS.SBS}
PRN = {'G': 5, 'E': 36, 'J': 195, 'C': 30, 'I': 14, 'R': 7, 'S': 129}


def S(c, k=0):
    return prn2sat(SYS[c], PRN[c]-k)


class E:
    """ephemeris stand-in"""

    def __init__(self, sat, toe, iode, mode, **kw):
        self.sat, self.toe, self.iode, self.mode = sat, toe, iode, mode
        self.toc = toe
        self.svh, self.tgd, self.frq = 0, 0.0, 0
        self.__dict__.update(kw)


def time(t):
    """week time t (possibly symbolic integer) as gtime_t"""
    r = gtime_t()
    r.time = gpst2time(WEEK, TOW).time+t
    r.sec = 0.0
    return r


@harness(cases=[[s, i, k] for s in 'GEJCIRS' for i in (0, 1)
                for k in range(3)])
def h_find(ctx, case):
    """findeph"""
    s, withiode, k = case
    n = 3
    mode = ctx.choice('mode', [0, 1, 2])
    it = ctx.int('iode', 0, 1023) if withiode else -1
    nav = []
    d, ii, mm, ss = [], [], [], []
    for j in range(n):
        d.append(ctx.int(f'd{j}', -20000, 20000))
        ii.append(ctx.int(f'i{j}', 0, 1023))
        mm.append(mode if j != k else ctx.choice('m', [0, 1, 2, 3]))
        ss.append(S(s) if j != (k+1) % 3 or mode == 1 else
                  ctx.choice('s', [S(s), S(s, 1)]))
        nav.append(E(ss[-1], time(d[-1]), ii[-1], mm[-1]))
    args = [nav, time(0), S(s)]
    if withiode:
        args.append(it)
    if mode or not withiode:
        r = EP.findeph(*args, mode=mode)
    else:
        r = EP.findeph(*args)
    ad = [ctx.ite(x >= 0, x, 0-x) for x in d]
    ok = [ctx.and_(ss[j] == S(s), mm[j] == mode, ad[j] <= TMAX[s],
                   ii[j] == it if withiode else True) for j in range(n)]
    if r is None:
        ctx.check('none is eligible', ctx.not_(ctx.or_(*ok)))
        return
    q = [j for j in range(n) if nav[j] is r]
    ctx.check('one of the list', len(q) == 1)
    q = q[0]
    ctx.check('eligible', ok[q])
    if not withiode:
        ctx.check('nearest', ctx.and_(*[ctx.implies(ok[j], ad[q] <= ad[j])
                                        for j in range(n) if j != q]))


# ---------------------------------------------------------------------------
MODES = {  # service: (radial frame, rates, systems, nav mode of the system)
    'QZS_CLAS': ('v', 0, 'GEJR', {}),
    'QZS_MADOCA': ('v', 0, 'GEJR', {}),
    'GAL_HAS_SIS': ('v', 0, 'GE', {}),
    'BDS_PPP': ('r', 0, 'GC', {'C': 1}),
    'IGS_SSR': ('v', 0, 'GERJSI', {}),
    'RTCM3_SSR': ('v', 0, 'GERJ', {}),
    'PVS_PPP': ('e', 1, 'GERS', {'E': 1}),
    'SBAS_L1': ('e', 1, 'GJ', {}),
    'SBAS_L5': ('e', 1, 'GEJ', {'E': 1}),
    'DGPS': ('v', 0, 'GJ', {}),
}
# position, velocity: rational lengths, and of the cross product too
GEO = [((3, 4, 0), (0, 0, 2)), ((2, 6, 9), (3, 4, 0)), ((1, 0, 0), (3, 4, 0)),
       ((-2, 1, 2), (0, 3, -4)), ((1, 2, 2), (2, 1, -2)),
       ((0, -5, 0), (12, 3, 4)), ((4, 0, -3), (6, -6, 7))]


def cs_of(mode):
    if mode == 'PVS_PPP':
        from cssrlib.cssr_pvs import cssr_pvs
        cs = cssr_pvs()
    elif mode in ('SBAS_L1', 'SBAS_L5'):
        from cssrlib.sbas import sbasDec
        cs = sbasDec()
    elif mode == 'DGPS':
        import cssrlib.dgps as D
        # the decoders of disaster messages need data files
        D.jmaDec = D.camfDec = lambda year=0: None
        cs = D.dgpsDec()
    elif mode == 'BDS_PPP':
        from cssrlib.cssr_bds import cssr_bds
        cs = cssr_bds()
    elif mode == 'GAL_HAS_SIS':
        from cssrlib.cssr_has import cssr_has
        cs = cssr_has()
    else:
        cs = cssr()
    cs.cssrmode = sc[mode]
    return cs


def cross(a, b):
    return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]


def unit(ctx, a):
    n = ctx.sqrt(sum(x*x for x in a))
    return [x/n for x in a]


def frame(ctx, kind, r, v):
    """rows: radial, along, cross"""
    c = unit(ctx, cross(r, v))
    if kind == 'r':
        e = unit(ctx, r)
        return [e, cross(c, e), c]
    a = unit(ctx, v)
    return [cross(a, c), a, c]


def setup(ctx, mode, sats, p=''):
    """corrections of the service for the satellites"""
    cs = cs_of(mode)
    kind, rates, _, nm = MODES[mode]
    lc = cs.lc[0]
    cs.iodssr = 3
    cs.iodssr_c[sCType.ORBIT] = cs.iodssr_c[sCType.CLOCK] = 3
    cs.sat_n = list(sats)
    cs.mask_id = cs.mask_id_clk = 1
    lc.cstat = 0
    for a in ('iode', 'dorb', 'dclk', 'dvel', 'ddft', 't0', 'hclk', 'iodc',
              'iodc_c', 'iodc_c_p', 'dclk_p'):
        setattr(lc, a, {})
    out = {}
    for s in sats:
        q = f'{p}{s}.'
        o = dict(iode=ctx.int(q+'iode', 0, 255))
        o['orb'] = [ctx.real(f'{q}o{k}', -40, 40) for k in range(3)]
        o['clk'] = ctx.real(q+'c', -40, 40)
        lc.iode[s], lc.dorb[s], lc.dclk[s] = o['iode'], ctx.arr(o['orb']), \
            o['clk']
        o['t0'] = time(-30)
        lc.t0[s] = {sCType.ORBIT: o['t0'], sCType.CLOCK: time(-18)}
        lc.iodc[s] = lc.iodc_c[s] = 1
        lc.iodc_c_p[s] = 2
        o['vel'] = o['dft'] = None
        if rates:
            o['vel'] = [ctx.real(f'{q}v{k}', -1, 1) for k in range(3)]
            o['dft'] = ctx.real(q+'d', -1, 1)
            lc.dvel[s], lc.ddft[s] = ctx.arr(o['vel']), o['dft']
        out[s] = o
    return cs, out


def models(ctx, nav, rec, r, v):
    """stand-ins for the orbit and clock models"""
    def pos(t, eph, flg=False):
        rec.append((t, eph))
        return ctx.arr(list(r)), ctx.arr(list(v)), eph.dts

    def clk(t, eph):
        return eph.clk
    for n in ('eph2pos', 'geph2pos'):
        ctx.patch(EP, n, pos)
    for n in ('eph2clk', 'geph2clk'):
        ctx.patch(EP, n, clk)
    ctx.patch(EP, 'eph2rel', lambda t, eph: eph.rel)
    ctx.patch(EP, 'geph2rel', lambda r, v: -1e-9)


def ephs(ctx, nav, s, c, iode, mode):
    """the ephemeris of satellite s and others, all near in time"""
    e = E(s, time(-200), iode, mode, dts=ctx.real(f'{s}.dts', -1e-3, 1e-3),
          clk=ctx.real(f'{s}.clk', -1e-3, 1e-3), rel=-1e-9 if c == 'R' else
          ctx.real(f'{s}.rel', -1e-7, 1e-7), svh=ctx.int(f'{s}.svh', 0, 63),
          tgd=ctx.real(f'{s}.tgd', -1e-8, 1e-8), frq=-3)
    bad = dict(dts=0.5, clk=0.25, rel=0.0, svh=99, tgd=0.125, frq=5)
    lst = nav.geph if c == 'R' else nav.eph
    lst += [E(S(c, 2), time(0), iode, mode, **bad)]
    if iode is not None:
        lst += [E(s, time(0), iode+1, mode, **bad),
                E(s, time(-20000), iode, mode, **bad)]
    lst += [E(s, time(0), 0 if iode is None else iode, mode+1, **bad), e]
    return e


def run(ctx, api, nav, sats, cs, pr):
    t = time(0)
    if api == 'satpos':
        rs, vs, dts, svh = EP.satpos(sats[0], t, nav, cs)
        none = isnan(rs[0, 0])
        return [None if none else (
            [rs[0, k] for k in range(3)], [vs[0, k] for k in range(3)],
            dts[0], svh[0])]
    obs = Obs()
    obs.t = t
    obs.sat = np.array(sats)
    obs.sig = {sat2prn(s)[0]: {} for s in sats}
    obs.P = ctx.arr([[p] for p in pr])
    rs, vs, dts, svh, n = EP.satposs(obs, nav, cs)
    out = []
    for i in range(len(sats)):
        z = all(not hasattr(rs[i, k], 'ps') and rs[i, k] == 0.0
                for k in range(3))
        out.append(None if z else (
            [rs[i, k] for k in range(3)], [vs[i, k] for k in range(3)],
            dts[i], svh[i]))
    ctx.eq('count', n, len([x for x in out if x]))
    return out


def newnav():
    nav = Nav()
    nav.ephopt = 0
    nav.eph, nav.geph = [], []
    nav.x = np.array([-3962108.0, 3381309.0, 3668678.0, 0.0, 0.0, 0.0])
    nav.time_p = gtime_t()
    return nav


def txtime(ctx, label, t, want):
    ctx.close(label, timediff(t, time(0)), want, 1e-9)


@harness(cases=[[m, c, a] for m in MODES for c in MODES[m][2]
                for a in ('satpos', 'satposs')], budget=90, weight=2)
def h_apply(ctx, case):
    """position and clock: broadcast model plus corrections, once"""
    mode, c, api = case
    kind, rates, _, nm = MODES[mode]
    s = S(c)
    g = ctx.choice('geometry', range(len(GEO)))
    r, v = [[F(x)*k for x in e] for e, k in zip(GEO[g], (5311000, 700))]
    nav = newnav()
    cs, o = setup(ctx, mode, [s])
    o = o[s]
    kept = [o['orb'], o['vel']]
    hc = ctx.choice('hclk', [0, 1, 2])
    ctx.assume(not (hc and mode == 'BDS_PPP'))
    h = 0
    if hc:
        cs.lc[0].cstat |= 1 << sCType.HCLOCK
        h = ctx.real('h', -5, 5)
        cs.lc[0].hclk[s] = h if hc == 1 else np.nan
        h = h if hc == 1 else 0
    e = ephs(ctx, nav, s, c, o['iode'], nm.get(c, 0))
    rec = []
    models(ctx, nav, rec, r, v)
    pr = ctx.real('pr', 18e6, 43e6)
    for again in (0, 1):
        del rec[:]
        x, = run(ctx, api, nav, [s], cs, [pr])
        ctx.check('position', x is not None)
        if x is None:
            return
        ctx.check('one evaluation', len(rec) == 1)
        ctx.check('ephemeris', rec[0][1] is e)
        if api == 'satposs':
            txtime(ctx, 'transmission time', rec[0][0], 0-pr/CL-e.clk)
        else:
            txtime(ctx, 'time', rec[0][0], 0)
        ctx.eq('health', x[3], e.svh)
        ob, ck = o['orb'], o['clk']+h
        if rates:
            ob = [a+b*30 for a, b in zip(o['orb'], o['vel'])]
            ck = ck+o['dft']*18
        if kind == 'e':
            d = ob
        else:
            A = frame(ctx, kind, r, v)
            d = [sum(ob[i]*A[i][k] for i in range(3)) for k in range(3)]
        for k in range(3):
            ctx.close('orbit', x[0][k]-r[k], 0-d[k], 1e-6)
            ctx.close('velocity', x[1][k], v[k], 1e-9)
        w = e.dts+ck/CL
        if api == 'satpos':
            w = w-e.rel
        if c == 'G' and (kind == 'e' or mode == 'DGPS'):
            w = w-e.tgd
        ctx.close('clock', x[2], w, 1e-13)
        # the stored corrections are as before
        lc = cs.lc[0]
        for k in range(3):
            ctx.eq('stored', lc.dorb[s][k], kept[0][k])
            if rates:
                ctx.eq('stored', lc.dvel[s][k], kept[1][k])
        ctx.eq('stored', lc.dclk[s], o['clk'])
        ctx.eq('stored', lc.iode[s], o['iode'])
        if rates:
            ctx.eq('stored', lc.ddft[s], o['dft'])
        if c == 'R':
            ctx.eq('channel', nav.glo_ch.get(s), -3)
    ctx.end()


@harness(cases=[[n, f, c] for n in (0, 1) for f in (1, 2)
                for c in 'GEJCIR'])
def h_alone(ctx, case):
    """without corrections: group delay only for single frequency"""
    smode, nf, c = case
    api = ctx.choice('api', ['satpos', 'satposs'])
    s = S(c)
    nav = newnav()
    nav.smode, nav.nf = smode, nf
    e = ephs(ctx, nav, s, c, None, 0)
    e.iode = ctx.int('iode', 0, 1023)
    nav.geph = [x for x in nav.geph if x is e]
    keep = S(c, 2)
    nav.eph = [x for x in nav.eph if x is e or x.sat == keep]
    r, v = [[F(x)*k for x in u] for u, k in zip(GEO[1], (5311000, 700))]
    rec = []
    models(ctx, nav, rec, r, v)
    pr = ctx.real('pr', 18e6, 43e6)
    x, = run(ctx, api, nav, [s], None, [pr])
    ctx.check('position', x is not None)
    if x is None:
        return
    ctx.check('ephemeris', rec[0][1] is e)
    for k in range(3):
        ctx.eq('orbit', x[0][k], r[k])
        ctx.eq('velocity', x[1][k], v[k])
    w = e.dts
    if api == 'satpos':
        w = w-e.rel
    if smode == 1 and nf == 1 and c != 'R':
        w = w-e.tgd
    ctx.close('clock', x[2], w, 1e-13)
    ctx.eq('health', x[3], e.svh)
    ctx.end()


WHY = ['issue', 'mode', 'age', 'noeph', 'mask', 'noorb', 'noclk', 'nanorb',
       'nanclk', 'signal']


@harness(cases=[[m, a, w] for m in ('QZS_CLAS', 'GAL_HAS_SIS', 'BDS_PPP',
                                    'PVS_PPP', 'SBAS_L1')
                for a in ('satpos', 'satposs') for w in WHY
                if w != 'signal' or (m == 'BDS_PPP' and a == 'satposs')])
def h_missing(ctx, case):
    """a satellite without matching ephemeris or correction has no position,
    the other satellite is not affected"""
    mode, api, why = case
    kind, rates, _, nm = MODES[mode]
    c = 'C' if mode == 'BDS_PPP' else 'G'
    a, b = S(c), S('G', 1) if c == 'C' else S(c, 1)
    nav = newnav()
    cs, o = setup(ctx, mode, [a, b])
    ea = ephs(ctx, nav, a, c, o[a]['iode'], nm.get(c, 0))
    eb = ephs(ctx, nav, b, 'G', o[b]['iode'], nm.get('G', 0))
    lc = cs.lc[0]
    lst = nav.eph
    if why == 'issue':
        ea.iode = ctx.int('other', 0, 1023)
        ctx.assume(ea.iode != o[a]['iode'])
    elif why == 'mode':
        ea.mode = ctx.choice('m', [x for x in range(5)
                                   if x != nm.get(c, 0)])
    elif why == 'age':
        d = ctx.int('d', -40000, 40000)
        ctx.assume(ctx.or_(d > 7202, d < -7202))
        ea.toe = time(d)
    elif why == 'noeph':
        lst.remove(ea)
    elif why == 'mask':
        cs.sat_n.remove(a)
    elif why == 'noorb':
        del lc.iode[a], lc.dorb[a]
        lc.iodc.pop(a)
    elif why == 'noclk':
        del lc.dclk[a]
        lc.iodc_c.pop(a)
    elif why == 'nanorb':
        lc.dorb[a][ctx.choice('k', range(3))] = np.nan
    elif why == 'nanclk':
        lc.dclk[a] = np.nan
    r, v = [[F(x)*k for x in u] for u, k in zip(GEO[1], (5311000, 700))]
    # no ephemeris of the wrong satellite, issue or time is ever used
    rec = []
    models(ctx, nav, rec, r, v)
    if api == 'satpos':
        for s in (a, b):
            x, = run(ctx, api, nav, [s], cs, None)
            ctx.check('position', (x is None) == (s == a))
    else:
        order = ctx.choice('order', [[a, b], [b, a]])
        if why == 'signal':
            ctx.patch(Obs, '__setattr__', lambda self, k, x:
                      object.__setattr__(self, k, {uGNSS.GPS: {}}
                                         if k == 'sig' else x))
        x = run(ctx, api, nav, order, cs, [22e6, 23e6])
        for s, y in zip(order, x):
            ctx.check('position', (y is None) == (s == a))
            if s == b and y is not None:
                ob = o[b]['orb']
                if rates:
                    ob = [p+q*30 for p, q in zip(ob, o[b]['vel'])]
                A = frame(ctx, kind, r, v) if kind != 'e' else [
                    [1, 0, 0], [0, 1, 0], [0, 0, 1]]
                for k in range(3):
                    ctx.close('orbit', y[0][k]-r[k], 0-sum(
                        ob[i]*A[i][k] for i in range(3)), 1e-6)
                ctx.eq('health', y[3], eb.svh)
    ctx.check('ephemeris', all(e is eb for _, e in rec))
    ctx.end()


@harness(cases=['satpos', 'satposs'])
def h_precise(ctx, api):
    """precise orbits: position, clock and health"""
    c = ctx.choice('sys', 'GR')
    s = S(c)
    nav = newnav()
    nav.ephopt = 4
    have = ctx.choice('brdc', ['none', 'ok', 'no', 'nan'])
    if have in ('ok', 'nan'):
        e = ephs(ctx, nav, s, c, None, 0)
        nav.eph = [x for x in nav.eph if x is e or x.sat != s]
        nav.geph = [x for x in nav.geph if x is e or x.sat != s]
    elif have == 'no':
        nav.eph = [E(S('G', 1), time(0), 1, 0)]
        nav.geph = [E(S('R', 1), time(0), 1, 0)]
    r = [ctx.real(f'r{k}', 1e7, 4e7) for k in range(6)]
    d = ctx.real('d', -1e-3, 1e-3)
    rel = ctx.real('rel', -1e-7, 1e-7)
    rec = []

    class Orb:
        def peph2pos(self, t, sat, nav):
            rec.append(t)
            if have == 'nan':
                return (None, None, None) if ctx.choice('k', [0, 1]) else \
                    (ctx.arr(r), [np.nan], None)
            return ctx.arr(r), [d], None

        def pephrel(self, x):
            for k in range(6):
                ctx.eq('argument', x[k], r[k])
            return rel
    t = time(0)
    if api == 'satpos':
        rs, vs, dts, svh = EP.satpos(s, t, nav, None, Orb())
        none = isnan(rs[0, 0])
    else:
        obs = Obs()
        obs.t, obs.sat = t, np.array([s])
        obs.sig = {SYS[c]: {}}
        pr = ctx.real('pr', 18e6, 43e6)
        obs.P = ctx.arr([[pr]])
        rs, vs, dts, svh, n = EP.satposs(obs, nav, None, Orb())
        none = n == 0
    if have in ('no', 'nan'):
        ctx.check('no position', none)
        if have == 'no':
            ctx.check('health', svh[0] != 0)
        return
    ctx.check('position', not none)
    if none:
        return
    for k in range(3):
        ctx.eq('position', rs[0, k], r[k])
        ctx.eq('velocity', vs[0, k], r[k+3])
    ctx.close('clock', dts[0], d-(rel if api == 'satpos' else 0), 1e-15)
    ctx.eq('health', svh[0], e.svh if have == 'ok' else 0)
    if api == 'satposs':
        txtime(ctx, 'transmission time', rec[-1], 0-pr/CL-d)
    else:
        txtime(ctx, 'time', rec[-1], 0)
    ctx.end()


@harness(cases=list(MODES))
def h_empty(ctx, mode):
    """an epoch without satellites"""
    cs, _ = setup(ctx, mode, [S('G')])
    obs = Obs()
    obs.t, obs.sat, obs.P = time(0), np.array([], dtype=int), \
        np.zeros((0, 1))
    obs.sig = {uGNSS.GPS: {}}
    ctx.eq('count', EP.satposs(obs, newnav(), cs)[4], 0)
    ctx.eq('count', EP.satposs(obs, newnav())[4], 0)
