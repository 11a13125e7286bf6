"""C12 consistency of issues and age of Compact SSR corrections"""
import numpy as np
from engine.api import harness
from cssrlib import ephemeris as EP
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gpst2time, gtime_t, timeadd, uTYP, Nav, Obs, rSigRnx
from checks.csslib import Css, HOUR, TOW, WEEK, decoder, sat
from checks.c10 import message, verify
from checks.c11 import GRID, netmsg, submask

BOUNDS = ['sequences of one mask and up to 4 further mask/orbit/clock '
          'messages (thorough 5), issues 0..2 (arbitrary in h_mismatch), two '
          'satellites per mask', 'the orbit and clock model is replaced by a '
          'fixed position, so that the correction used is read off the '
          'result (satposs: one satellite per call)', 'Galileo HAS and BeiDou modes: see C15, C17']
M = [('G', [1, 7], [0, 10, 12], [[0, 1], [0, 2]]), ('E', [3], [0], None)]
ALL = ['orb', 'clk', 'cbias', 'pbias', 'bias-c', 'bias-p', 'bias-cp',
       'comb-o', 'comb-c', 'comb-oc', 'ura', 'stec', 'grid', 'atmos',
       'nbias', 'ncomb']


def any_message(c, kind, iod, p):
    """message kind with issue iod"""
    m = c.m
    if kind == 'ura':
        c.head(7, p+'h.', None, iod)
        m.any(p+'v', 18)
    elif kind == 'stec':
        c.head(8, p+'h.', None, iod)
        m.put(2, 1)
        m.put(5, 5)
        submask(c, [0, 2])
        m.any(p+'v', 2*(6+14+24))
    elif kind == 'grid':
        c.head(9, p+'h.', 1800, iod)
        m.put(2, 1)
        m.put(1, 0)
        m.put(5, 5)
        submask(c, [0, 2])
        m.any(p+'q', 6)
        m.put(6, 1)
        m.any(p+'v', 17+14)
    elif kind == 'atmos':
        c.head(12, p+'h.', 1800, iod)
        m.put(2, 2)
        m.put(2, 2)
        m.put(5, 5)
        m.put(6, 1)
        m.any(p+'q', 6)
        m.put(2, 0)
        m.any(p+'t', 9)
        submask(c, [0])
        m.any(p+'s', 6)
        m.put(2, 0)
        m.any(p+'v', 14)
    elif kind == 'nbias':
        netmsg(c.ctx, c, 6, 'bias', 'cp', 5, [0, 2], p)
    elif kind == 'ncomb':
        netmsg(c.ctx, c, 11, 'comb', 'oc', 5, [0, 2], p)
    else:
        return message(c, kind, None, iod, p)
    return None, None


ATTR = ['dorb', 'iode', 'dclk', 'cbias', 'pbias', 'di', 'ura', 'ci', 'dstec',
        'dth', 'dtw', 'ct', 'stec_quality', 'trop_quality', 'sat_n']


def snap(cs):
    """identity of everything a correction message may store"""
    out = []
    for lc in cs.lc:
        for a in ATTR:
            v = getattr(lc, a, None)
            out.append((id(v), sorted(v.items(), key=lambda x: str(x[0]))
                        if isinstance(v, dict) else None))
        out.append(lc.cstat & ~1)
    return out


def plain(x):
    """comparable form without symbolic comparisons"""
    if isinstance(x, list):
        return [plain(e) for e in x]
    if isinstance(x, tuple):
        return tuple(plain(e) for e in x)
    if isinstance(x, (int, str, type(None))):
        return x
    return id(x)


@harness(cases=[[k, b] for k in ALL for b in (0, 1)])
def h_mismatch(ctx, case):
    """a message of any other issue than the mask stores nothing"""
    kind, base = case
    c = Css(ctx)
    c.mask(M, iod=3)
    if base:
        message(c, 'comb-oc', 30, 3, 'x')
        message(c, 'bias-cp', 30, 3, 'y')
    cs = decoder()
    cs.grid = GRID
    cs.decode_cssr(c.buf(), 0)
    before = plain(snap(cs))
    iodc = [int(x) for x in cs.iodssr_c]
    d = Css(ctx)
    d.sats = c.sats
    iod = ctx.int('iod', 0, 15)
    ctx.assume(iod != 3)
    if kind[0] == 'n':
        h = _net(ctx, d, kind, iod)
    else:
        any_message(d, kind, iod, 'm')
    r = cs.decode_cssr(d.buf(), 0)
    ctx.check('rejected', r == 0)
    ctx.check('nothing stored', plain(snap(cs)) == before)
    ctx.check('issues kept', [int(x) for x in cs.iodssr_c] == iodc)


def _net(ctx, d, kind, iod):
    """network message with a given issue"""
    a = len(d.m)
    netmsg(ctx, d, 6 if kind == 'nbias' else 11, kind[1:],
           'cp' if kind == 'nbias' else 'oc', 5, [0, 2], 'm')
    # issue field: after 12+4+12+4+1 bits
    k = a+33
    d.m.b[k:k+4] = ctx._tobits(iod, 4)
    # the issue generated by netmsg is 3
    return None


# sequences of issues ------------------------------------------------------
MASKS = {0: [('G', [1, 7], [0], None)], 1: [('G', [7, 9], [0], None)],
         2: [('G', [1], [0], None), ('E', [3], [0], None)]}
STEPS = [['m', 0], ['m', 1], ['m', 2], ['o', 0], ['o', 1], ['c', 0],
         ['c', 1], ['oc', 2]]
POS = np.array([26560e3, 0.0, 0.0])
VEL = np.array([0.0, 3.0e3, 0.0])


class Brdc:
    svh = 0
    tgd = 0.0
    frq = 0


def usable(ctx, cs, s, api):
    """(orbit correction, clock correction) satpos/satposs use or None"""
    ctx.patch(EP, 'findeph', lambda nav, t, sat, iode=-1, mode=0: Brdc())
    ctx.patch(EP, 'eph2pos', lambda t, eph, flg=False:
              (ctx.arr(POS), ctx.arr(VEL), 0.0))
    ctx.patch(EP, 'eph2rel', lambda t, eph: 0.0)
    ctx.patch(EP, 'eph2clk', lambda t, eph: 0.0)
    nav = Nav()
    nav.ephopt = 0
    nav.x = np.zeros(6)
    nav.time_p = gtime_t()
    t = gpst2time(WEEK, TOW)
    if api == 'satpos':
        rs, vs, dts, svh = EP.satpos(s, t, nav, cs)
        x, c = [rs[0, k] for k in range(3)], dts[0]
        none = isinstance(x[0], float) and x[0] != x[0]
    else:
        obs = Obs()
        obs.t = t
        obs.sat = np.array([s])
        obs.sig = {k: {} for k in range(8)}
        from cssrlib.gnss import sat2prn
        obs.sig = {sat2prn(s)[0]: {}}
        obs.P = np.array([[22e6]])
        rs, vs, dts, svh, n = EP.satposs(obs, nav, cs)
        x, c = [rs[0, k] for k in range(3)], dts[0]
        none = n == 0
    ctx.end()
    if none:
        return None
    return [POS[k]-x[k] for k in range(3)], c*299792458.0


def sequence(ctx, steps, api):
    cs = decoder()
    cur = prev = None
    orb = clk = None
    for n, (a, iod) in enumerate(steps):
        c = Css(ctx)
        if a == 'm':
            c.mask(MASKS[iod], tow=TOW+30*n, iod=iod, p=f'm{n}.')
        else:
            # a provider of issue iod: satellites of that mask
            for s, slots, sg, _ in MASKS[iod]:
                c.sats += [(s, k, sg) for k in slots]
            _, out = message(c, {'o': 'orb', 'c': 'clk', 'oc': 'comb-oc'}[a],
                             100+n, iod, f'{n}')
        cs.decode_cssr(c.buf(), 0)
        if a == 'm':
            if iod != cur:
                prev, cur = cur, iod
        elif iod == cur:
            val = {sat(o['s'], o['slot']): o for o in out}
            if 'o' in a:
                orb = (iod, val)
            if 'c' in a:
                clk = (iod, val)
    for s in (sat('G', 1), sat('G', 7), sat('G', 9), sat('E', 3)):
        def good(x):
            return x is not None and x[0] in (cur, prev) and s in x[1]
        r = usable(ctx, cs, s, api)
        if not (good(orb) and good(clk)):
            ctx.check('not used', r is None)
            continue
        ctx.check('used', r is not None)
        if r is not None:
            for k in range(3):
                ctx.close('orbit', r[0][k], orb[1][s]['orb'][k], 1e-6)
            ctx.close('clock', r[1], clk[1][s]['clk'], 1e-6)


@harness(cases=[[a, b, n] for n in ('satpos', 'satposs')
                for a in range(8) for b in range(8)
                if n == 'satpos' or (b in (1, 5) and a != 3)], witnesses=2,
         thorough=lambda t: [[a, b, n, c] for n in ('satpos', 'satposs')
                             for a in range(8) for b in range(8)
                             for c in range(8)])
def h_issue(ctx, case):
    """corrections are applied only with the issue of the current or the
    preceding mask and for its satellites"""
    a, b, api, *c = case
    st = [['m', 0], STEPS[a], STEPS[b]]+[STEPS[i] for i in c]
    for k in range(2):
        st.append(STEPS[ctx.choice(f's{k}', range(8))])
    sequence(ctx, st, api)


@harness(cases=['clk', 'orb', 'none'])
def h_validity(ctx, case):
    """corrections older than their limit are dropped, younger are kept"""
    c = Css(ctx)
    c.mask(M)
    tc, to = 100, 40
    ho, oo = message(c, 'orb', to, 3, 'o') if case != 'clk' else (0, [])
    hc, oc = message(c, 'clk', tc, 3, 'c') if case != 'orb' else (0, [])
    if case == 'none':
        # a second mask with one more satellite, no correction yet
        c.mask([('G', [1, 7, 8], [0, 10, 12], None), ('E', [3], [0], None)],
               p='n.')
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    lim = dict(c=ctx.choice('limc', [30, 60]), o=ctx.choice('limo', [120]))
    cs.tmax = {sCType.CLOCK: float(lim['c']), sCType.ORBIT: float(lim['o'])}
    x = ctx.int('x', 0, 600)
    t = timeadd(gpst2time(WEEK, HOUR), ctx.num(x))
    cs.check_validity(t)
    for o in oc:
        s = sat(o['s'], o['slot'])
        old = x-tc > lim['c']
        v = cs.lc[0].dclk[s]
        ctx.close('clock', v, ctx.ite(old, 0, o['clk']), 1e-9)
    for o in oo:
        s = sat(o['s'], o['slot'])
        old = x-to > lim['o']
        for k in range(3):
            ctx.close('orbit', cs.lc[0].dorb[s][k],
                      ctx.ite(old, 0, o['orb'][k]), 1e-9)
        ctx.eq('iode', cs.lc[0].iode[s], ctx.ite(old, -1, o['iode']))


@harness(cases=[0, 1])
def h_stat(ctx, case):
    """usable only with mask, orbit, clock, code bias and the parts of the
    network of the user"""
    cs = decoder()
    cs.local_pbias = bool(case)
    g, n = ctx.u('global', 9), ctx.u('local', 9)
    cs.inet_ref = 7
    for k in range(len(cs.lc)):
        cs.lc[k].cstat = 0x1ff
    cs.lc[0].cstat = g
    cs.lc[7].cstat = n
    r = ctx.num(cs.chk_stat())

    def has(v, t):
        return ctx.floor(v*_f(1, 1 << t))-2*ctx.floor(
            v*_f(1, 2 << t)) == 1
    want = ctx.and_(*[has(g, t) for t in (
        sCType.MASK, sCType.ORBIT, sCType.CLOCK, sCType.CBIAS)],
        *[has(n, t) for t in (sCType.STEC, sCType.TROP)])
    if case:
        want = ctx.and_(want, has(n, sCType.PBIAS))
    ctx.check('status', ctx.or_(ctx.and_(r == 1, want),
                                ctx.and_(r == 0, ctx.not_(want))))


def _f(a, b):
    from fractions import Fraction
    return Fraction(a, b)
