"""C18 PVS (PPP via SouthPAN) corrections"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib.cssrlib import sCType
from cssrlib.gnss import uGNSS, prn2sat, gpst2time, timeadd
from checks.c15 import eqnan

BOUNDS = ['one or two messages of type 32, every slot number, all field '
          'values (not-available pattern in one field at a time); covariance '
          'matrix and DFREI are not decoded by the code',
          'SISNeT line decompression is outside (string processing)']
FLD = [('dx', 11, F(1, 16), -1), ('dy', 11, F(1, 16), -1),
       ('dz', 11, F(1, 16), -1), ('db', 12, F(1, 32), 1),
       ('vx', 8, F(1, 2048), -1), ('vy', 8, F(1, 2048), -1),
       ('vz', 8, F(1, 2048), -1), ('vb', 9, F(1, 4096), 1)]
WEEK, DAY, TOD = 2250, 3*86400, 45000


def slotsat(slot):
    for lo, hi, sys, base in ((1, 32, uGNSS.GPS, 0), (38, 69, uGNSS.GLO, 37),
                              (75, 110, uGNSS.GAL, 74),
                              (120, 158, uGNSS.SBS, 0),
                              (159, 195, uGNSS.BDS, 158)):
        if lo <= slot <= hi:
            return prn2sat(sys, slot-base)
    return None


def decoder():
    from cssrlib.cssr_pvs import cssr_pvs
    cs = cssr_pvs()
    cs.monlevel = 0
    cs.set_time(gpst2time(WEEK, DAY+TOD))
    return cs


def message(ctx, slot, p='', nan=None, t0=None, mt=32):
    m = ctx.msg()
    m.u(p+'pre', 4)
    m.put(6, mt)
    m.put(8, slot)
    o = dict(iodn=m.u(p+'iodn', 10))
    for n, w, s, g in FLD:
        v = m.s(p+n, w)
        if nan == n:
            ctx.assume(v == -(1 << (w-1)))
            o[n] = float('nan')
        else:
            ctx.assume(v != -(1 << (w-1)))
            o[n] = v*s*g
    if t0 is None:
        o['t0'] = 2*ctx.u(p+'t0h', 12)+1
        m.put(13, o['t0'])
    else:
        o['t0'] = m.put(13, t0)
    m.any(p+'cov', 99)
    m.any(p+'dfrei', 8)
    m.any(p+'crc', 24)
    m.put(-len(m) % 8, 0)
    return m.buf(), o


def verify(ctx, cs, s, o):
    lc = cs.lc[0]
    ctx.check('listed', s in cs.sat_n)
    ctx.eq('iodn', lc.iode[s], o['iodn'])
    for k, n in enumerate(('dx', 'dy', 'dz')):
        eqnan(ctx, n, lc.dorb[s][k], o[n])
    for k, n in enumerate(('vx', 'vy', 'vz')):
        eqnan(ctx, n, lc.dvel[s][k], o[n])
    eqnan(ctx, 'clock', lc.dclk[s], o['db'])
    eqnan(ctx, 'drift', lc.ddft[s], o['vb'])
    for t in (sCType.ORBIT, sCType.CLOCK):
        ctx.eq('t0', lc.t0[s][t].time, gpst2time(WEEK, DAY+TOD).time)
        ctx.check('status', lc.cstat >> t & 1 == 1)
        ctx.eq('iod', cs.iodssr_c[t], cs.iodssr)


@harness(cases=list(range(0, 256, 32)))
def h_slot(ctx, case):
    """every slot number"""
    slot = ctx.choice('slot', list(range(case, case+32)))
    cs = decoder()
    b, o = message(ctx, slot)
    cs.decode_cssr(b, 0)
    s = slotsat(slot)
    if s is None:
        ctx.eq('nothing', len(cs.sat_n), 0)
        for a in ('dorb', 'dvel', 'dclk', 'ddft', 'iode'):
            ctx.check('nothing stored', not getattr(cs.lc[0], a))
        return
    ctx.eq('sats', [int(x) for x in cs.sat_n], [s])
    verify(ctx, cs, s, o)


@harness(cases=[[a, b] for a in (1, 32, 75, 110) for b in (1, 75, 195, 158)])
def h_two(ctx, case):
    """two messages: the second only affects its satellite"""
    cs = decoder()
    b, o = message(ctx, case[0], 'a.')
    cs.decode_cssr(b, 0)
    kind = ctx.choice('kind', ['ok', 'even', 'type', 'slot'])
    s2 = 70 if kind == 'slot' else case[1]
    b2, o2 = message(ctx, s2, 'b.', t0=ctx.choice('t0', [0, 2, 5400])
                     if kind == 'even' else None,
                     mt=ctx.choice('mt', [0, 31, 33, 62])
                     if kind == 'type' else 32)
    cs.decode_cssr(b2, 0)
    a, b = slotsat(case[0]), slotsat(case[1])
    if kind == 'ok':
        verify(ctx, cs, b, o2)
    if kind != 'ok' or a != b:
        verify(ctx, cs, a, o)
    ctx.eq('sats', sorted(int(x) for x in cs.sat_n),
           sorted({a, b} if kind == 'ok' else {a}))


@harness(cases=[f[0] for f in FLD])
def h_nan(ctx, f):
    """not available patterns"""
    cs = decoder()
    b, o = message(ctx, 7, nan=f)
    cs.decode_cssr(b, 0)
    verify(ctx, cs, 7, o)


@harness(cases=[1, 75])
def h_validity(ctx, slot):
    """corrections older than 120 s are dropped"""
    cs = decoder()
    b, o = message(ctx, slot)
    cs.decode_cssr(b, 0)
    s = slotsat(slot)
    x = ctx.int('age', 0, 1000)
    cs.check_validity(timeadd(gpst2time(WEEK, DAY+TOD), ctx.num(x)))
    old = x > 120
    ctx.close('clock', cs.lc[0].dclk[s], ctx.ite(old, 0, o['db']), 1e-9)
    for k, n in enumerate(('dx', 'dy', 'dz')):
        ctx.close('orbit', cs.lc[0].dorb[s][k], ctx.ite(old, 0, o[n]), 1e-9)
    ctx.eq('iode', cs.lc[0].iode[s], ctx.ite(old, -1, o['iodn']))
