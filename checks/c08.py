"""C08 RTCM broadcast ephemeris messages"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib import rtcm as RT
from cssrlib.gnss import gpst2time, prn2sat, uGNSS
from checks.rtcmlib import SYS

BOUNDS = ['one message, every field value', 'reference time anywhere in '
          'weeks 2040..3080 for the week number (includes the 1024-week '
          'rollover), day fixed for the parameter checks',
          'angles: semicircles times pi, tolerance half a unit']
PI = F(31415926535897932384626433832795, 10**31)


def p2(n):
    return F(1, 1 << n)


SC = 'sc'
# (attribute, bits, signed, scale, angle)
ORB32 = [('crs', 16, 1, p2(5)), ('deln', 16, 1, p2(43), SC),
         ('M0', 32, 1, p2(31), SC), ('cuc', 16, 1, p2(29)),
         ('e', 32, 0, p2(33)), ('cus', 16, 1, p2(29)),
         ('sqrtA', 32, 0, p2(19)), ('toes', 16, 0, 16),
         ('cic', 16, 1, p2(29)), ('OMG0', 32, 1, p2(31), SC),
         ('cis', 16, 1, p2(29)), ('i0', 32, 1, p2(31), SC),
         ('crc', 16, 1, p2(5)), ('omg', 32, 1, p2(31), SC),
         ('OMGd', 24, 1, p2(43), SC)]
GAL32 = [f if f[0] != 'toes' else ('toes', 14, 0, 60) for f in ORB32]
BDS18 = [(f[0], 18, 1, p2(31)) if f[0] in ('cuc', 'cus', 'cic', 'cis') else
         (f[0], 18, 1, p2(6)) if f[0] in ('crs', 'crc') else
         ('toes', 17, 0, 8) if f[0] == 'toes' else f for f in ORB32]
IDOT = ('idot', 14, 1, p2(43), SC)
LAY = {
    'GPS': [('prn', 6), ('week', 10), ('sva', 4, 0, 1), ('code', 2, 0, 1),
            IDOT, ('iode', 8, 0, 1), ('toc', 16, 0, 16),
            ('af2', 8, 1, p2(55)), ('af1', 16, 1, p2(43)),
            ('af0', 22, 1, p2(31)), ('iodc', 10, 0, 1)]+ORB32 +
    [('tgd', 8, 1, p2(31)), ('svh', 6, 0, 1), ('flag', 1, 0, 1),
     ('fit', 1, 0, 1)],
    'QZS': [('prn', 4), ('toc', 16, 0, 16), ('af2', 8, 1, p2(55)),
            ('af1', 16, 1, p2(43)), ('af0', 22, 1, p2(31)),
            ('iode', 8, 0, 1)]+ORB32+[IDOT, ('code', 2, 0, 1), ('week', 10),
                                      ('sva', 4, 0, 1), ('svh', 6, 0, 1),
                                      ('tgd', 8, 1, p2(31)),
                                      ('iodc', 10, 0, 1), ('fit', 1, 0, 1)],
    'GALF': [('prn', 6), ('week', 12), ('iode', 10, 0, 1), ('sva', 8, 0, 1),
             IDOT, ('toc', 14, 0, 60), ('af2', 6, 1, p2(59)),
             ('af1', 21, 1, p2(46)), ('af0', 31, 1, p2(34))]+GAL32 +
    [('tgd', 10, 1, p2(32)), ('hs', 2), ('dvs', 1), ('pad', 7)],
    'GALI': [('prn', 6), ('week', 12), ('iode', 10, 0, 1), ('sva', 8, 0, 1),
             IDOT, ('toc', 14, 0, 60), ('af2', 6, 1, p2(59)),
             ('af1', 21, 1, p2(46)), ('af0', 31, 1, p2(34))]+GAL32 +
    [('tgd_b', 10, 1, p2(32)), ('tgd', 10, 1, p2(32)), ('hs', 2), ('dvs', 1),
     ('hs1', 2), ('dvs1', 1), ('pad', 2)],
    'BDS': [('prn', 6), ('week', 13), ('sva', 4, 0, 1), IDOT,
            ('iode', 5, 0, 1), ('toc', 17, 0, 8), ('af2', 11, 1, p2(66)),
            ('af1', 22, 1, p2(50)), ('af0', 24, 1, p2(33)),
            ('iodc', 5, 0, 1)]+BDS18 +
    [('tgd', 10, 1, F(1, 10**10)), ('tgd_b', 10, 1, F(1, 10**10)),
     ('svh', 1, 0, 1)],
    'IRN': [('prn', 6), ('week', 10), ('af0', 22, 1, p2(31)),
            ('af1', 16, 1, p2(43)), ('af2', 8, 1, p2(55)), ('sva', 4, 0, 1),
            ('toc', 16, 0, 16), ('tgd', 8, 1, p2(31)),
            ('deln', 22, 1, p2(41), SC), ('iode', 8, 0, 1), ('pad', 10),
            ('svh', 2, 0, 1), ('cuc', 15, 1, p2(28)), ('cus', 15, 1, p2(28)),
            ('cic', 15, 1, p2(28)), ('cis', 15, 1, p2(28)),
            ('crc', 15, 1, p2(4)), ('crs', 15, 1, p2(4)), IDOT,
            ('M0', 32, 1, p2(31), SC), ('toes', 16, 0, 16),
            ('e', 32, 0, p2(33)), ('sqrtA', 32, 0, p2(19)),
            ('OMG0', 32, 1, p2(31), SC), ('omg', 32, 1, p2(31), SC),
            ('OMGd', 22, 1, p2(41), SC), ('i0', 32, 1, p2(31), SC),
            ('pad', 4)]}
MT = dict(GPS=1019, QZS=1044, GALF=1045, GALI=1046, BDS=1042, IRN=1041)
PRN = dict(GPS=(1, 32), QZS=(1, 10), GALF=(1, 36), GALI=(1, 36),
           BDS=(1, 63), IRN=(1, 14))
ATT = {'toc', 'prn', 'week', 'pad', 'hs', 'dvs', 'hs1', 'dvs1', 'sqrtA'}


def build(ctx, k, prn, week=None, only=None):
    """only: symbolic field; the others get fixed patterns"""
    m = ctx.msg()
    m.put(24, 0)
    m.put(12, MT[k])
    v = {}
    for j, f in enumerate(LAY[k]):
        n = f[0]
        if n == 'prn':
            m.put(f[1], prn)
        elif n == 'week':
            v[n] = m.put(f[1], week % (1 << f[1])) \
                if week is not None else m.u('week', f[1])
        elif n == 'pad':
            m.any(f'pad{j}', f[1])
        elif len(f) > 2 and f[2]:
            v[n] = m.s(n, f[1])
        else:
            v[n] = m.u(n, f[1])
    return m, v


def dec(t):
    cs = RT.rtcm()
    cs.monlevel = 0
    cs.time = t
    cs.week = 2400
    return cs


@harness(cases=list(MT))
def h_params(ctx, case):
    """every parameter equals its field times its unit"""
    k = case
    prn = PRN[k][1]-1
    m, v = build(ctx, k, prn, week=2400)
    cs = dec(gpst2time(2400, 302400))
    i, o, eph, *_ = cs.decode(m.buf())
    ctx.eq('end', i, len(m))
    sys = uGNSS[k[:3]]
    ctx.eq('sat', eph.sat, prn2sat(sys, prn+(192 if k == 'QZS' else 0)))
    for f in LAY[k]:
        n = f[0]
        if n in ATT:
            continue
        x = getattr(eph, n)
        if len(f) > 4:
            s = f[3]*PI
            ctx.close(n, x, v[n]*s, s/4)
        elif f[3] == 1:
            ctx.eq(n, x, v[n])
        else:
            ctx.close(n, x, v[n]*f[3], f[3]/F(4))
    s = v['sqrtA']*p2(19)
    ctx.close('A', eph.A, s*s, F(1, 10**3))
    w = 2400
    if k == 'BDS':
        t0 = gpst2time(0, 0).time+1356*604800+14+604800*w
        ctx.eq('week', eph.week, w)
    else:
        t0 = gpst2time(w, 0).time
        ctx.eq('week', eph.week, w)
    ctx.eq('toe', eph.toe.time, t0+v['toes']*[f for f in LAY[k] if f[0] ==
                                              'toes'][0][3])
    ctx.eq('toc', eph.toc.time, t0+v['toc']*[f for f in LAY[k] if f[0] ==
                                             'toc'][0][3])
    if k == 'GALI':
        ctx.eq('svh', eph.svh, v['hs']*128+v['dvs']*64+v['hs1']*2+v['dvs1'])
        ctx.eq('code', eph.code, 0b1000000101)
        ctx.eq('mode', eph.mode, 0)
    elif k == 'GALF':
        ctx.eq('svh', eph.svh, v['hs']*16+v['dvs']*8)
        ctx.eq('code', eph.code, 0b100000010)
        ctx.eq('mode', eph.mode, 1)


@harness(cases=[k for k in MT if k != 'BDS'])
def h_week(ctx, case):
    """the broadcast week is the one nearest to the reference time"""
    k = case
    w = ctx.int('refweek', 2040, 3080)
    m, v = build(ctx, k, 1)
    cs = dec(gpst2time(w, 302400))
    i, o, eph, *_ = cs.decode(m.buf())
    d = eph.week-w
    ctx.check('nearest', ctx.and_(d <= 512, d >= -512))
    # congruent with the transmitted week
    x = eph.week-v['week']
    ctx.eq('congruent', ctx.floor(x*F(1, 1024))*1024, x)
    u = 60 if k[0:3] == 'GAL' else 16
    ctx.eq('toe', eph.toe.time, gpst2time(0, 0).time+eph.week*604800 +
           v['toes']*u)


@harness(cases=list(MT), budget=120)
def h_prn(ctx, case):
    """every satellite"""
    k = case
    prn = ctx.choice('prn', range(PRN[k][0], PRN[k][1]+1))
    m, v = build(ctx, k, prn, week=2400)
    cs = dec(gpst2time(2400, 302400))
    i, o, eph, *_ = cs.decode(m.buf())
    ctx.eq('sat', eph.sat, prn2sat(uGNSS[k[:3]],
                                   prn+(192 if k == 'QZS' else 0)))


def glo(ctx, prn, neg=None, fix=False):
    """neg: the only component with a free sign"""
    m = ctx.msg()
    m.put(24, 0)
    m.put(12, 1020)
    m.put(6, prn)
    v = {}

    def u(n, w):
        v[n] = m.u(n, w)

    def sm(n, w):
        # the sign of one component is free, the rest are positive
        s = m.put(1, ctx.choice(n+'.s', [0, 1]) if n == neg else 0)
        x = m.u(n, w-1)
        v[n] = -x if s == 1 else x
    u('frq', 5)
    m.any('cn', 4)
    v['h'] = 13 if fix else ctx.int('tkh', 0, 23)
    m.put(5, v['h'])
    v['m'] = 20 if fix else ctx.int('tkm', 0, 59)
    m.put(6, v['m'])
    u('tks', 1)
    u('bn', 1)
    m.any('P2', 1)
    v['tb'] = 57 if fix else ctx.int('tb', 1, 95)
    m.put(7, v['tb'])
    for a in 'xyz':
        sm(a+'d', 24)
        sm(a, 27)
        sm(a+'dd', 5)
    m.any('P3', 1)
    sm('gamn', 11)
    m.any('P', 3)
    sm('taun', 22)
    sm('dtaun', 5)
    u('En', 5)
    m.any('rest', 97)
    return m, v


@harness(cases=['', 'xd', 'y', 'zdd', 'x', 'yd', 'z', 'gamn', 'taun',
                'dtaun'])
def h_glo(ctx, case):
    """GLONASS ephemeris; sign-magnitude fields"""
    m, v = glo(ctx, 7, case, True)
    cs = dec(gpst2time(2400, 302400))
    i, o, e, g, *_ = cs.decode(m.buf())
    ctx.eq('end', i, len(m))
    ctx.eq('sat', g.sat, prn2sat(uGNSS.GLO, 7))
    ctx.eq('frq', g.frq, v['frq']-7)
    ctx.eq('svh', g.svh, v['bn'])
    ctx.eq('age', g.age, v['En'])
    ctx.eq('iode', g.iode, v['tb'])
    for j, a in enumerate('xyz'):
        for t, n, s in (('pos', '', p2(11)), ('vel', 'd', p2(20)),
                        ('acc', 'dd', p2(30))):
            ctx.close(t, getattr(g, t)[j], v[a+n]*s*1000, s*250)
    ctx.close('gamn', g.gamn, v['gamn']*p2(40), p2(42))
    ctx.close('taun', g.taun, v['taun']*p2(30), p2(32))
    ctx.close('dtaun', g.dtaun, v['dtaun']*p2(30), p2(32))


@harness(cases=[0, 302400, 604799])
def h_glotime(ctx, case):
    """GLONASS reference times are the instants next to the reference"""
    ref = gpst2time(2400, case)
    m, v = glo(ctx, 7)
    cs = dec(ref)
    i, o, e, g, *_ = cs.decode(m.buf())
    for t, tod in ((g.toe, v['tb']*900),
                   (g.tof, v['h']*3600+v['m']*60+v['tks']*30)):
        x = t.time-18+10800-tod
        ctx.eq('tod', ctx.floor(x*F(1, 86400))*86400, x)
        ctx.check('near', ctx.and_(t.time-ref.time <= 43200+18,
                                   t.time-ref.time >= -43200-18))


@harness()
def h_sbs(ctx, case):
    """SBAS GEO ephemeris"""
    m = ctx.msg()
    m.put(24, 0)
    m.put(12, 1043)
    prn = ctx.choice('prn', [120, 131, 158])
    m.put(6, prn-119)
    v = {}
    iodn = m.u('iodn', 8)
    toc = ctx.int('toc', 0, 5399)
    m.put(13, toc)
    ura = m.u('ura', 4)
    for n, w in (('x', 30), ('y', 30), ('z', 25), ('vx', 17), ('vy', 17),
                 ('vz', 18), ('ax', 10), ('ay', 10), ('az', 10),
                 ('af0', 12), ('af1', 8)):
        v[n] = m.s(n, w)
    tow = ctx.int('tow', 0, 604799)
    ref = gpst2time(2400, tow)
    cs = dec(ref)
    i, o, e, g, s, *_ = cs.decode(m.buf())
    ctx.eq('end', i, len(m))
    ctx.eq('sat', s.sat, prn2sat(uGNSS.SBS, prn))
    ctx.eq('iodn', s.iodn, iodn)
    for j, a in enumerate('xyz'):
        z = a == 'z'
        ctx.close('pos', s.pos[j], v[a]*(F(4, 10) if z else F(8, 100)),
                  F(1, 100))
        ctx.close('vel', s.vel[j], v['v'+a]*(F(4, 1000) if z else
                                             F(625, 10**6)), F(1, 10**5))
        ctx.close('acc', s.acc[j], v['a'+a]*(F(625, 10**7) if z else
                                             F(125, 10**7)), F(1, 10**6))
    ctx.close('af0', s.af0, v['af0']*p2(31), p2(33))
    ctx.close('af1', s.af1, v['af1']*p2(40), p2(42))
    d = s.t0.time-ref.time
    ctx.check('near', ctx.and_(d <= 43200, d >= -43200))
    x = s.t0.time-gpst2time(0, 0).time-toc*16
    ctx.eq('tod', ctx.floor(x*F(1, 86400))*86400, x)
    ctx.eq('frac', s.t0.sec, 0)
