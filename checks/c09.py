"""C09 RTCM station, text and network-RTK messages"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib import rtcm as RT
from cssrlib.cssrlib import sCType
from cssrlib.gnss import bdt2time, gpst2time
from checks.rtcmlib import PRN, WEEK, sat

BOUNDS = ['station coordinates, heights, biases and residuals: every value '
          'of the fields', 'character strings of 0, 1, 3 and 31 characters '
          '(fixed text)', 'network messages of up to 3 satellites',
          'week 2400; GLONASS reference time at midweek']
TREF = gpst2time(WEEK, 302400)


def dec():
    cs = RT.rtcm()
    cs.monlevel = 0
    cs.week = WEEK
    cs.time = TREF
    return cs


def start(ctx, mt):
    m = ctx.msg()
    m.put(8, 0xd3)
    m.put(16, 100)
    m.put(12, mt)
    return m


@harness(cases=[[mt, sc] for mt in (1005, 1006, 1032) for sc in (0, 1)])
def h_position(ctx, case):
    """antenna reference point"""
    mt, scan = case
    m = start(ctx, mt)
    if mt == 1032:
        nid = m.u('nid', 12)
    rid = m.u('rid', 12)
    m.any('itrf', 6)
    if mt != 1032:
        m.any('ind', 3)
        ref = m.u('ref', 1)
    v = []
    for k, n in enumerate('xyz'):
        v.append(m.s(n, 38))
        if mt != 1032 and k < 2:
            m.any(f'r{k}', 2)
    if mt == 1006:
        h = m.u('h', 16)
    n = len(m.b)
    m.pad(8*60)
    cs = dec()
    i = cs.decode(m.buf(), scanmode=bool(scan))[0]
    ctx.eq('length', i, n)
    ctx.eq('station', cs.refid, rid)
    for k in range(3):
        ctx.close('xyz', cs.pos_arp[k], v[k]*F(1, 10000), 1e-6)
    if mt == 1006:
        ctx.close('height', cs.ant_height, h*F(1, 10000), 1e-9)
    if mt == 1032:
        ctx.eq('non-physical', cs.np_staid, nid)
    else:
        ctx.eq('type', cs.sti, ref)


TXT = ['', 'A', 'TRM', 'TRM59800.00     SCIS 1234567890']


@harness(cases=[[mt, k] for mt in (1007, 1008, 1033)
                for k in range(4 if mt < 1033 else 12)])
def h_antenna(ctx, case):
    """antenna and receiver descriptions"""
    mt, k = case
    m = start(ctx, mt)
    rid = m.u('rid', 12)
    tx = [TXT[(k+j*(1+k//4)) % 4] for j in range(5)]
    aid = None
    for j in range(dict([(1007, 1), (1008, 2), (1033, 5)])[mt]):
        m.put(8, len(tx[j]))
        for c in tx[j]:
            m.put(8, ord(c))
        if j == 0:
            aid = m.u('aid', 8)
    n = len(m.b)
    m.pad(8*300)
    cs = dec()
    i = cs.decode(m.buf())[0]
    ctx.eq('length', i, n)
    ctx.eq('station', cs.refid, rid)
    ctx.eq('setup', cs.ant_id, aid)
    for j, a in enumerate(('ant_desc', 'ant_serial', 'rcv_type', 'firm_ver',
                           'rcv_serial')):
        if j == 0 or mt > 1007 and j == 1 or mt == 1033:
            ctx.check(a, getattr(cs, a) == tx[j])


@harness(cases=list(range(16)))
def h_globias(ctx, case):
    """GLONASS code-phase biases of the flagged signals"""
    m = start(ctx, 1230)
    rid = m.u('rid', 12)
    m.any('al', 1)
    m.any('res', 3)
    m.put(4, case)
    on = [(case >> (3-k)) & 1 for k in range(4)]
    v = [m.s(f'b{k}', 16) if on[k] else 0 for k in range(4)]
    n = len(m.b)
    m.pad(8*20)
    cs = dec()
    i = cs.decode(m.buf())[0]
    ctx.eq('length', i, n)
    ctx.eq('station', cs.refid, rid)
    for k in range(4):
        ctx.close('bias', cs.glo_bias[k], v[k]*F(2, 100), 1e-9)


@harness(cases=['', 'RTCM', 'Žluťoučký', '測位衛星'])
def h_text(ctx, case):
    """Unicode text"""
    m = start(ctx, 1029)
    m.any('rid', 12)
    m.any('mjd', 16)
    m.any('sod', 17)
    b = case.encode()
    m.put(7, len(case))
    m.put(8, len(b))
    for c in b:
        m.put(8, c)
    m.any('tail', 24)
    cs = dec()
    cs.decode(m.buf())
    ctx.check('text', cs.ustr == case)


NRTK = dict(G=1030, R=1031, C=1303, E=1304, J=1305)


@harness(cases=[[s, n] for s in NRTK for n in (0, 1, 3)])
def h_residual(ctx, case):
    """residual error parameters of network RTK"""
    s, ns = case
    m = start(ctx, NRTK[s])
    if s == 'R':
        m.any('tow', 17)
    else:
        m.any('tow', 20)
    rid = m.u('rid', 12)
    nr = m.u('nref', 7)
    m.put(5, ns)
    lo, hi = PRN[s]
    ids = [hi, lo, lo+1][:ns]
    v = {}
    for k in ids:
        m.put(4 if s == 'J' else 6, k)
        v[k] = [m.u(f's{k}.{j}', w) for j, w in enumerate((8, 9, 6, 10, 10))]
    n = len(m.b)
    m.pad(8*60)
    cs = dec()
    i = cs.decode(m.buf())[0]
    ctx.eq('length', i, n)
    ctx.eq('station', cs.refid, rid)
    ctx.eq('stations', cs.nrefs, nr)
    ctx.eq('satellites', sorted(cs.nrtk_r), sorted(sat(s, k) for k in ids))
    scl = [F(5, 10**4), F(1, 10**8), F(1, 10**7), F(5, 10**4), F(1, 10**8)]
    for k in ids:
        for j in range(5):
            ctx.close('value', cs.nrtk_r[sat(s, k)][j], v[k][j]*scl[j], 1e-12)


MSM = dict(G=1070, R=1080, E=1090, S=1100, J=1110, C=1120)


def epoch(ctx, t, s, x, kind):
    """epoch t of a message with time field x"""
    if s == 'R' and kind != 'msm':
        y = t.time-18+10800-x
        ctx.eq('time of day', ctx.floor(y*1/86400)*86400, y)
        ctx.check('day', ctx.and_(t.time-TREF.time <= 43200,
                                  t.time-TREF.time >= -43200))
    else:
        ctx.eq('epoch', t.time, gpst2time(WEEK, 0).time+x +
               (14 if s == 'C' and kind != 'ssr' else 0))
    ctx.close('fraction', t.sec, 0, 1e-9)


@harness(cases=[['ssr', s] for s in 'GREJSC']+[['nrtk', s] for s in 'GRECJ'] +
         [['msm', s] for s in 'GEJC'])
def h_time(ctx, case):
    """epoch read ahead of decoding"""
    kind, s = case
    mt = dict(ssr=dict(G=1057, R=1063, E=1240, J=1246, S=1252, C=1258),
              nrtk=NRTK, msm=MSM)[kind][s]
    if kind != 'nrtk':
        mt += ctx.choice('type', range(6 if kind == 'ssr' else 7)) + \
            (kind == 'msm')
    m = start(ctx, mt)
    if kind == 'msm':
        m.any('rid', 12)
    x = ctx.int('t', 0, 86399 if s == 'R' else
                604799-(14 if s == 'C' and kind == 'nrtk' else 0))
    if kind == 'msm':
        m.put(30, x*1000)
    else:
        m.put(17 if s == 'R' else 20, x)
    m.any('rest', 80)
    cs = dec()
    epoch(ctx, cs.decode_time(m.buf()), s, x, kind)


@harness(cases=[4005, 1019, 1029])
def h_notime(ctx, case):
    """messages without such an epoch"""
    m = start(ctx, case)
    m.any('rest', 80)
    ctx.check('no time', dec().decode_time(m.buf()) is False)
