"""C28 raw navigation message decoders"""
from fractions import Fraction as F
from engine.api import harness
from cssrlib import rawnav as RN
from cssrlib.gnss import uGNSS, prn2sat, epoch2time

BOUNDS = ['one complete set of subframes/pages/strings with every field value '
          'arbitrary, optionally preceded by a complete set of another issue '
          'and followed by any in-order part of a further issue',
          'one satellite per constellation; receiver week within half a roll-over '
          'of the broadcast week', 'sign of GLONASS CDMA fields and of the BDS '
          'integrity indices positive; almanac, UTC and ionosphere pages are not '
          'stored by the decoder', 'toe exactly half a week from the time of '
          'transmission excluded']
PI = F(314159265358979323846, 10**20)
SC = PI
WK = 604800


def p2(n):
    return F(1, 2**n) if n >= 0 else F(2**-n)


class Frame:
    """message with fields at given positions (0-based)"""

    def __init__(self, ctx, p, n, off=0, word=None):
        self.ctx, self.p, self.n, self.off = ctx, p, n, off
        self.b = [None]*n
        self.word = word
        self.v = {}

    def idx(self, k):
        """ICD bit number (1-based) to position"""
        k -= 1
        if self.word:
            w, g = self.word
            k = (k//w)*(w+g)+g+k % w
        return k+self.off

    def place(self, bits, pieces):
        i = 0
        for a, n in pieces:
            for j in range(n):
                k = self.idx(a+j)
                assert self.b[k] is None, (self.p, a, j)
                self.b[k] = bits[i]
                i += 1
        assert i == len(bits)

    def width(self, pieces):
        return sum(n for a, n in pieces)

    def put(self, v, *pieces):
        self.place(self.ctx._tobits(v, self.width(pieces)), pieces)
        return v

    const = {}

    def u(self, name, *pieces, v=None):
        n = self.width(pieces)
        if v is None:
            v = self.const.get(name)
        if v is None:
            v = self.ctx.u(self.p+name, n)
        self.v[name] = v
        self.place(self.ctx._tobits(v, n), pieces)
        return v

    def s(self, name, *pieces):
        n = self.width(pieces)
        v = self.ctx.s(self.p+name, n)
        self.v[name] = v
        self.place(self.ctx._tobits(v, n), pieces)
        return v

    def g(self, name, *pieces):
        """sign and magnitude"""
        n = self.width(pieces)
        sg = self.ctx.u(self.p+name+'_sg', 1)
        m = self.ctx.u(self.p+name, n-1)
        self.place(list(self.ctx._tobits(sg, 1))+list(self.ctx._tobits(m, n-1)),
                   pieces)
        v = self.ctx.ite(sg == 1, -m, m)
        self.v[name] = v
        return v

    def fields(self, spec):
        """[(name, kind, pieces...)]"""
        for f in spec:
            getattr(self, f[1])(f[0], *f[2])

    def buf(self, nbytes=None):
        m = self.ctx.msg()
        k, c = 0, 0
        while k < self.n:
            if self.b[k] is None:
                j = k
                while j < self.n and self.b[j] is None:
                    j += 1
                m.any(f'{self.p}x{c}', j-k)
                c += 1
                k = j
            else:
                m.b.append(self.b[k])
                k += 1
        return m.buf(nbytes)


class fixed:
    """fields with a constant value"""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        Frame.const = self.kw

    def __exit__(self, *a):
        Frame.const = {}


def fast(ctx):
    """forking bit helpers replaced by what h_bits proves of them"""
    R = RN.RawNav
    up = RN.bs.unpack_from

    def s2(self, b, p1, l1, p2_, l2):
        return up(f's{l1}', b, p1)[0]*2**l2+up(f'u{l2}', b, p2_)[0]

    def s3(self, b, p1, l1, p2_, l2, p3, l3):
        return up(f's{l1}', b, p1)[0]*2**(l2+l3) + \
            up(f'u{l2}', b, p2_)[0]*2**l3+up(f'u{l3}', b, p3)[0]

    def g(self, b, q, n):
        s, v = up(f'u1u{n-1}', b, q)
        return ctx.ite(s == 1, -v, v)

    for n, f in (('getbits2', s2), ('getbits3', s3), ('getbitg', g)):
        if hasattr(R, n):
            ctx.patch(R, n, f)
    if hasattr(R, 'urai2sva'):
        ctx.patch(R, 'urai2sva', lambda self, u, sys=None: pick(
            ctx, u, [F(str(x)) for x in URA]))


W2 = [(10, 6), (16, 2), (20, 12), (4, 14), (8, 10), (17, 15), (7, 11), (11, 13),
      (9, 9), (13, 1), (21, 11), (11, 21), (4, 6), (7, 17), (5, 17), (12, 12),
      (10, 1), (14, 4), (7, 14), (17, 1), (3, 16), (13, 14), (1, 13)]
W3 = [(2, 22, 8), (1, 22, 9), (6, 22, 4), (2, 12, 8)]
WG = [5, 11, 22, 24, 27, 32, 13, 15, 18, 19, 30, 35, 40]


@harness(cases=[[2, list(w)] for w in W2]+[[3, list(w)] for w in W3] +
         [[1, w] for w in WG]+[[0, 4]])
def h_bits(ctx, case):
    """split and sign-magnitude fields, accuracy index"""
    rn = RN.RawNav()
    n, w = case
    if n == 0:
        if hasattr(rn, 'urai2sva'):
            u = ctx.u('u', 4)
            g = rn.urai2sva(u)
            ctx.end()
            ctx.close('accuracy', g, pick(ctx, u, [F(str(x)) for x in URA]),
                      1e-9)
        return
    if not all(hasattr(rn, x) for x in ('getbits2', 'getbits3', 'getbitg',
                                        'getbitu2', 'getbitu3')):
        ctx.end()
        return
    f = Frame(ctx, '', 128)
    if n == 1:
        v = f.g('v', (6, w))
        b = f.buf()
        g = rn.getbitg(b, 5, w)
        gu = v
    else:
        v = ctx.s('v', sum(w))
        tb = ctx._tobits(v, sum(w))
        q, k, a = 4, 0, []
        for x in w:
            f.place(tb[k:k+x], [(q, x)])
            a += [q-1, x]
            k += x
            q += x+7
        b = f.buf()
        g = (rn.getbits2 if n == 2 else rn.getbits3)(b, *a)
        gu = (rn.getbitu2 if n == 2 else rn.getbitu3)(b, *a)
        gu = ctx.ite(v < 0, gu-2**sum(w), gu)
    ctx.end()
    ctx.eq('signed', g, v)
    ctx.eq('unsigned', gu, v)


def secs(t, ep):
    """seconds since an epoch"""
    return (t.time-epoch2time(ep).time)+t.sec


EP = {'G': [1980, 1, 6, 0, 0, 0], 'B': [2006, 1, 1, 0, 0, 14],
      'E': [1999, 8, 22, 0, 0, 0]}


def near(ctx, toes, tow):
    """number of weeks from the week of transmission to the week of toe"""
    d = toes-tow
    ctx.assume(ctx.and_(d != WK//2, d != -WK//2, toes < WK, tow < WK))
    return ctx.ite(d > WK//2, -1, ctx.ite(d < -WK//2, 1, 0))


def times(ctx, e, week, tow, toes, tocs, ep, wofs=0):
    """tot, toe, toc and week: toe/toc are the instants nearest to tot"""
    k = near(ctx, toes, tow)
    kc = near(ctx, tocs, tow)
    ctx.assume(kc == k)     # both refer to the same hours
    ctx.eq('tot', secs(e.tot, ep), week*WK+tow)
    ctx.eq('toes', e.toes, toes)
    ctx.eq('toe', secs(e.toe, ep), (week+k)*WK+toes)
    ctx.eq('toc', secs(e.toc, ep), (week+kc)*WK+tocs)
    ctx.eq('week', e.week, week+k+wofs)


def vals(ctx, e, v, tab):
    """attribute = field * scale"""
    for at, name, sc in tab:
        g = e
        for a in at.split('.'):
            g = g[int(a)] if a.isdigit() else getattr(g, a)
        ctx.close(at, g, v[name]*sc, float(abs(sc))*1e-2)


KEP = lambda c, cr, dn, od, an, ec: [
    ('cuc', 'cuc', c), ('cus', 'cus', c), ('cic', 'cic', c), ('cis', 'cis', c),
    ('crc', 'crc', cr), ('crs', 'crs', cr), ('deln', 'deln', dn*SC),
    ('OMGd', 'OMGd', od*SC), ('idot', 'idot', p2(43)*SC if an == p2(31)
                              else p2(44)*SC),
    ('M0', 'M0', an*SC), ('OMG0', 'OMG0', an*SC), ('i0', 'i0', an*SC),
    ('omg', 'omg', an*SC), ('e', 'e', ec)]


def merged(fs):
    v = {}
    for f in fs:
        for k in f.v:
            if k not in v:
                v[k] = f.v[k]
    return v


# ---------------------------------------------------------------- GPS/QZSS LNAV
def lnav(ctx, p, iode, iodc=None):
    W = lambda w, b, n: ((w-1)*30+b, n)
    fs = []
    for k in range(3):
        f = Frame(ctx, f'{p}{k+1}', 320, word=(30, 2))
        f.put(0x8b, (1, 8))
        f.u('tow', (31, 17))
        f.put(k+1, (50, 3))
        fs.append(f)
    a, b, c = fs
    a.u('wn', W(3, 1, 10))
    a.fields([('code', 'u', [W(3, 11, 2)]), ('ura', 'u', [W(3, 13, 4)]),
              ('svh', 'u', [W(3, 17, 6)]), ('l2p', 'u', [W(4, 1, 1)]),
              ('tgd', 's', [W(7, 17, 8)]), ('toc', 'u', [W(8, 9, 16)]),
              ('af2', 's', [W(9, 1, 8)]), ('af1', 's', [W(9, 9, 16)]),
              ('af0', 's', [W(10, 1, 22)])])
    a.u('iodc_h', W(3, 23, 2))
    a.u('iodc', W(8, 1, 8), v=iode if iodc is None else iodc)
    b.u('iode', W(3, 1, 8), v=iode)
    b.fields([('crs', 's', [W(3, 9, 16)]), ('deln', 's', [W(4, 1, 16)]),
              ('M0', 's', [W(4, 17, 8), W(5, 1, 24)]),
              ('cuc', 's', [W(6, 1, 16)]),
              ('e', 'u', [W(6, 17, 8), W(7, 1, 24)]),
              ('cus', 's', [W(8, 1, 16)]),
              ('sqrtA', 'u', [W(8, 17, 8), W(9, 1, 24)]),
              ('toe', 'u', [W(10, 1, 16)])])
    c.fields([('cic', 's', [W(3, 1, 16)]),
              ('OMG0', 's', [W(3, 17, 8), W(4, 1, 24)]),
              ('cis', 's', [W(5, 1, 16)]),
              ('i0', 's', [W(5, 17, 8), W(6, 1, 24)]),
              ('crc', 's', [W(7, 1, 16)]),
              ('omg', 's', [W(7, 17, 8), W(8, 1, 24)]),
              ('OMGd', 's', [W(9, 1, 24)]), ('idot', 's', [W(10, 9, 14)])])
    c.u('iode', W(10, 1, 8), v=iode)
    return fs


URA = [2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
       1024.0, 2048.0, 4096.0, 8192.0]


def pick(ctx, v, tab):
    r = 0
    for k, t in enumerate(tab):
        r = r+ctx.ite(v == k, t, 0)
    return r


def chk_lnav(ctx, e, v, wref, parts):
    """parts: which group is checked"""
    if parts == 'time':
        # week number modulo 1024, the one nearest to the receiver's week
        week = v['wn']+ctx.floor((wref-v['wn']+512)/1024)*1024 if not \
            isinstance(wref, int) else v['wn'] + \
            ctx.floor((F(wref)-v['wn']+512)/1024)*1024
        times(ctx, e, week, v['tow']*6, v['toe']*16, v['toc']*16, EP['G'])
        return
    vals(ctx, e, v, KEP(p2(29), p2(5), p2(43), p2(43), p2(31), p2(33)))
    vals(ctx, e, v, [('af0', 'af0', p2(31)), ('af1', 'af1', p2(43)),
                     ('af2', 'af2', p2(55)), ('tgd', 'tgd', p2(31)),
                     ('svh', 'svh', 1), ('code', 'code', 1), ('l2p', 'l2p', 1)])
    ctx.eq('iode', e.iode, v['iode'])
    ctx.eq('iodc', e.iodc, v['iode']+256*v['iodc_h'])
    ctx.close('sva', e.sva, pick(ctx, v['ura'], [F(str(x)) for x in URA]), 1e-9)
    root(ctx, e, v['sqrtA'], 19)


def root(ctx, e, s, n):
    ctx.close('A', e.A, s*s*p2(2*n), 1e-3)


SATS = {'G': prn2sat(uGNSS.GPS, 7), 'J': prn2sat(uGNSS.QZS, 195),
        'E': prn2sat(uGNSS.GAL, 11), 'C': prn2sat(uGNSS.BDS, 21),
        'R': prn2sat(uGNSS.GLO, 9), 'I': prn2sat(uGNSS.IRN, 4),
        'S': prn2sat(uGNSS.SBS, 137)}


@harness(cases=[[s, p, w] for s in 'GJ' for p, w in
                (('val', 2250), ('time', 2250), ('time', 2048))],
         thorough=[[s, p, w] for s in 'GJ' for p in ('val', 'time')
                   for w in (1023, 1500, 2047, 2048, 2250, 2300, 3071, 3072)])
def h_lnav(ctx, case):
    """GPS and QZSS LNAV"""
    sy, part, wref = case
    rn = RN.RawNav()
    fast(ctx)
    iode = ctx.u('iode', 8)
    fs = lnav(ctx, 'a', iode)
    v = merged(fs)
    if part == 'time':
        # within the unambiguous range
        d = ctx.floor((F(wref)-v['wn']+512)/1024)*1024+v['wn']-wref
        ctx.assume(ctx.and_(d > -500, d < 500))
    for k, f in enumerate(fs):
        e = rn.decode_gps_lnav(wref, 0, SATS[sy], f.buf())
        if k < 2:
            ctx.check('incomplete', e is None)
    ctx.end()
    ctx.check('complete', e is not None)
    ctx.eq('sat', e.sat, SATS[sy])
    chk_lnav(ctx, e, v, wref, part)


SUB3 = [[0], [1], [2], [0, 1], [1, 2], [0, 2]]


@harness(cases=[[s, q] for s in 'G' for q in SUB3] + [['J', [0]]])
def h_lnav_mix(ctx, case):
    """subframes of two issues are never combined"""
    sy, sub = case
    rn = RN.RawNav()
    fast(ctx)
    i1, i2 = ctx.u('iode1', 8), ctx.u('iode2', 8)
    ctx.assume(i1 != i2)
    A, B = lnav(ctx, 'a', i1), lnav(ctx, 'b', i2)
    for f in A:
        e = rn.decode_gps_lnav(2250, 0, SATS[sy], f.buf())
    out = [rn.decode_gps_lnav(2250, 0, SATS[sy], B[k].buf()) for k in sub]
    bad = lnav(ctx, 'c', i1)[0]
    rest = [k for k in range(3) if k not in sub]
    last = None
    for k in rest:
        last = rn.decode_gps_lnav(2250, 0, SATS[sy], B[k].buf())
    ctx.end()
    ctx.check('first', e is not None)
    ctx.check('mixed', all(o is None for o in out))
    ctx.check('second', last is not None)
    chk_lnav(ctx, last, merged(B), 2250, 'val')


@harness(cases=['iodc', 'preamble', 'sat'])
def h_lnav_bad(ctx, case):
    """inconsistent clock issue, wrong preamble, other satellite"""
    rn = RN.RawNav()
    fast(ctx)
    i1, i2 = ctx.u('iode1', 8), ctx.u('iode2', 8)
    ctx.assume(i1 != i2)
    fs = lnav(ctx, 'a', i1, i2 if case == 'iodc' else None)
    if case == 'preamble':
        pre = ctx.u('pre', 8)
        ctx.assume(pre != 0x8b)
        fs[2].b[2:10] = ctx._tobits(pre, 8)
    e = [rn.decode_gps_lnav(2250, 0, SATS['G']+(case == 'sat' and k == 1),
                            f.buf()) for k, f in enumerate(fs)]
    ctx.end()
    ctx.check('none', all(x is None for x in e))


# ------------------------------------------------------------------ GPS/QZS CNAV
def cnav(ctx, p, prn, toe, mt3=30):
    fs = []
    for k, mt in enumerate((10, 11, mt3)):
        f = Frame(ctx, f'{p}{mt}', 304)
        f.put(0x8b, (1, 8))
        f.put(prn, (9, 6))
        f.put(mt, (15, 6))
        f.u('tow', (21, 17))
        f.u('alert', (38, 1))
        fs.append(f)
    a, b, c = fs
    a.fields([('wn', 'u', [(39, 13)]), ('svh', 'u', [(52, 3)]),
              ('top', 'u', [(55, 11)]), ('ura_ed', 's', [(66, 5)]),
              ('dA', 's', [(82, 26)]), ('Adot', 's', [(108, 25)]),
              ('deln', 's', [(133, 17)]), ('delnd', 's', [(150, 23)]),
              ('M0', 's', [(173, 33)]), ('e', 'u', [(206, 33)]),
              ('omg', 's', [(239, 33)]), ('isf', 'u', [(272, 1)])])
    a.u('toe', (71, 11), v=toe)
    b.u('toe', (39, 11), v=toe)
    b.fields([('OMG0', 's', [(50, 33)]), ('i0', 's', [(83, 33)]),
              ('OMGd', 's', [(116, 17)]), ('idot', 's', [(133, 15)]),
              ('cis', 's', [(148, 16)]), ('cic', 's', [(164, 16)]),
              ('crs', 's', [(180, 24)]), ('crc', 's', [(204, 24)]),
              ('cus', 's', [(228, 21)]), ('cuc', 's', [(249, 21)])])
    c.u('toc', (61, 11), v=toe)
    c.u('top', (39, 11), v=a.v['top'])
    c.fields([('ned0', 's', [(50, 5)]), ('ned1', 'u', [(55, 3)]),
              ('ned2', 'u', [(58, 3)]), ('af0', 's', [(72, 26)]),
              ('af1', 's', [(98, 20)]), ('af2', 's', [(118, 10)]),
              ('tgd', 's', [(128, 13)])]+[
                  (f'isc{j}', 's', [(141+13*j, 13)]) for j in range(4)] +
             [('wn_op', 'u', [(257, 8)])])
    return fs


CN = KEP(p2(30), p2(8), p2(44), p2(44), p2(32), p2(34))
CNCLK = [('af0', 'af0', p2(35)), ('af1', 'af1', p2(48)), ('af2', 'af2', p2(60)),
         ('tgd', 'tgd', p2(35)), ('svh', 'svh', 1)]


def cn_orbit(ctx, e, v, sy, omgd=True):
    tab = [t for t in CN if t[0] != 'OMGd']
    vals(ctx, e, v, tab)
    if omgd:
        ref = F(-26, 10**10)
        ctx.close('OMGd', e.OMGd, (v['OMGd']*p2(44)+ref)*SC, 1e-3*float(p2(44)))
    a0 = 26559710 if sy == 'G' else 42164200
    ctx.close('A', e.A, a0+v['dA']*p2(9), 1e-6)
    vals(ctx, e, v, [('Adot', 'Adot', p2(21)), ('delnd', 'delnd', p2(57)*SC)])


def chk_top(ctx, e, v, week):
    ctx.assume(week >= 256)
    d = v['wn_op']-week+128
    w = week+d-ctx.floor(d/256)*256-128
    ctx.eq('wn_op', e.wn_op, w)
    ctx.eq('top', secs(e.top, EP['G']), w*WK+v['top']*300)


@harness(cases=[[s, p] for s in 'GJ' for p in ('val', 'time', 'top')])
def h_cnav(ctx, case):
    """GPS and QZSS CNAV"""
    sy, part = case
    rn = RN.RawNav()
    fast(ctx)
    toe = ctx.u('toe', 11)
    mt3 = 30 if sy == 'G' else 61
    fs = cnav(ctx, 'a', 7 if sy == 'G' else 3, toe, mt3)
    v = merged(fs)
    out = []
    for k, f in enumerate(fs):
        out.append(rn.decode_gps_cnav(0, 0, SATS[sy], f.buf()))
    e = out[-1]
    ctx.end()
    ctx.check('incomplete', out[0] is None and out[1] is None)
    ctx.check('complete', e is not None)
    ctx.eq('sat', e.sat, SATS[sy])
    if part == 'time':
        times(ctx, e, v['wn'], v['tow']*6, toe*300, toe*300, EP['G'])
        return
    if part == 'top':
        chk_top(ctx, e, v, v['wn'])
        return
    cn_orbit(ctx, e, v, sy)
    vals(ctx, e, v, CNCLK+[(f'isc.{j}', f'isc{j}', p2(35)) for j in range(4)])
    for j, n in enumerate(('ned0', 'ned1', 'ned2', 'ura_ed')):
        ctx.eq(n, e.urai[j], v[n])


@harness(cases=SUB3)
def h_cnav_mix(ctx, case):
    """CNAV messages of two issues are never combined"""
    rn = RN.RawNav()
    fast(ctx)
    t1, t2 = ctx.u('toe1', 11), ctx.u('toe2', 11)
    ctx.assume(t1 != t2)
    A, B = cnav(ctx, 'a', 7, t1), cnav(ctx, 'b', 7, t2)
    for f in A:
        e = rn.decode_gps_cnav(0, 0, SATS['G'], f.buf())
    out = [rn.decode_gps_cnav(0, 0, SATS['G'], B[k].buf()) for k in case]
    last = None
    for k in range(3):
        if k not in case:
            last = rn.decode_gps_cnav(0, 0, SATS['G'], B[k].buf())
    ctx.end()
    ctx.check('first', e is not None)
    ctx.check('mixed', all(o is None for o in out))
    ctx.check('second', last is not None)
    cn_orbit(ctx, last, merged(B), 'G')


# ---------------------------------------------------------------- GPS/QZS CNAV-2
def cnav2(ctx, page):
    f = Frame(ctx, '', 52+1200+274)
    f.u('toi', (1, 9))
    o = 52
    P = lambda b, n: [(o+b, n)]
    f.fields([('wn', 'u', P(1, 13)), ('itow', 'u', P(14, 8)),
              ('top', 'u', P(22, 11)), ('svh', 'u', P(33, 1)),
              ('ura_ed', 's', P(34, 5)), ('toe', 'u', P(39, 11)),
              ('dA', 's', P(50, 26)), ('Adot', 's', P(76, 25)),
              ('deln', 's', P(101, 17)), ('delnd', 's', P(118, 23)),
              ('M0', 's', P(141, 33)), ('e', 'u', P(174, 33)),
              ('omg', 's', P(207, 33)), ('OMG0', 's', P(240, 33)),
              ('i0', 's', P(273, 33)), ('OMGd', 's', P(306, 17)),
              ('idot', 's', P(323, 15)), ('cis', 's', P(338, 16)),
              ('cic', 's', P(354, 16)), ('crs', 's', P(370, 24)),
              ('crc', 's', P(394, 24)), ('cus', 's', P(418, 21)),
              ('cuc', 's', P(439, 21)), ('ned0', 's', P(460, 5)),
              ('ned1', 'u', P(465, 3)), ('ned2', 'u', P(468, 3)),
              ('af0', 's', P(471, 26)), ('af1', 's', P(497, 20)),
              ('af2', 's', P(517, 10)), ('tgd', 's', P(527, 13)),
              ('iscp', 's', P(540, 13)), ('iscd', 's', P(553, 13)),
              ('isf', 'u', P(566, 1)), ('wn_op', 'u', P(567, 8))])
    o = 52+1200
    f.put(page, (o+9, 6))
    # UTC 98 bits, ionosphere 64 bits, then the inter-signal corrections
    f.fields([(f'isc{j}', 's', P(15+98+64+13*j, 13)) for j in range(4)])
    return f


@harness(cases=[[s, p] for s in 'GJ' for p in ('val', 'time', 'top', 'page')])
def h_cnav2(ctx, case):
    """GPS and QZSS CNAV-2"""
    sy, part = case
    rn = RN.RawNav()
    fast(ctx)
    f = cnav2(ctx, 2 if part == 'page' else 1 if sy == 'G' else 61)
    e = rn.decode_gps_cnav2(0, 0, SATS[sy], f.buf())
    ctx.end()
    v = f.v
    if part == 'page':
        ctx.check('page', e is None)
        return
    ctx.check('complete', e is not None)
    if part == 'time':
        times(ctx, e, v['wn'], v['itow']*7200+v['toi']*18, v['toe']*300,
              v['toe']*300, EP['G'])
        return
    if part == 'top':
        chk_top(ctx, e, v, v['wn'])
        return
    cn_orbit(ctx, e, v, sy)
    vals(ctx, e, v, CNCLK+[(f'isc.{j}', f'isc{j}', p2(35)) for j in range(4)] +
         [('isc.4', 'iscd', p2(35)), ('isc.5', 'iscp', p2(35))])
    for j, n in enumerate(('ned0', 'ned1', 'ned2', 'ura_ed')):
        ctx.eq(n, e.urai[j], v[n])


# ----------------------------------------------------------------------- Galileo
def inav(ctx, p, iod):
    """five words in 112+16 data bits"""
    fs = []
    for k in range(1, 6):
        f = Frame(ctx, f'{p}w{k}', 240)
        f.put(0, (1, 2))
        f.put(k, (3, 6))
        # bits 1..112 of the word follow the two flags, the rest the odd page
        f.idx = lambda b: (b+1 if b <= 112 else b-113+122)
        if k < 5:
            f.u('iod', (7, 10), v=iod)
        fs.append(f)
    for f in fs:        # word type already placed with page numbering
        pass
    a, b, c, d, g = fs
    a.fields([('toe', 'u', [(17, 14)]), ('M0', 's', [(31, 32)]),
              ('e', 'u', [(63, 32)]), ('sqrtA', 'u', [(95, 32)])])
    b.fields([('OMG0', 's', [(17, 32)]), ('i0', 's', [(49, 32)]),
              ('omg', 's', [(81, 32)]), ('idot', 's', [(113, 14)])])
    c.fields([('OMGd', 's', [(17, 24)]), ('deln', 's', [(41, 16)]),
              ('cuc', 's', [(57, 16)]), ('cus', 's', [(73, 16)]),
              ('crc', 's', [(89, 16)]), ('crs', 's', [(105, 16)]),
              ('sisa', 'u', [(121, 8)])])
    d.fields([('cic', 's', [(23, 16)]), ('cis', 's', [(39, 16)]),
              ('toc', 'u', [(55, 14)]), ('af0', 's', [(69, 31)]),
              ('af1', 's', [(100, 21)]), ('af2', 's', [(121, 6)])])
    g.fields([('bgda', 's', [(48, 10)]), ('bgdb', 's', [(58, 10)]),
              ('e5bhs', 'u', [(68, 2)]), ('e1bhs', 'u', [(70, 2)]),
              ('e5bdvs', 'u', [(72, 1)]), ('e1bdvs', 'u', [(73, 1)]),
              ('wn', 'u', [(74, 12)]), ('tow', 'u', [(86, 20)])])
    ctx.assume(g.v['tow'] < WK)
    return fs


GALC = [('af0', 'af0', p2(34)), ('af1', 'af1', p2(46)), ('af2', 'af2', p2(59))]


def chk_sisa(ctx, e, s):
    v = ctx.ite(s < 50, s*F(1, 100), ctx.ite(
        s < 75, F(1, 2)+(s-50)*F(2, 100), ctx.ite(
            s < 100, 1+(s-75)*F(4, 100), ctx.ite(
                s < 126, 2+(s-100)*F(16, 100), -1))))
    ctx.close('sva', e.sva, v, 1e-9)


def chk_inav(ctx, e, v, part, src):
    if part == 'time':
        times(ctx, e, v['wn'], v['tow'], v['toe']*60, v['toc']*60, EP['E'],
              1024)
        return
    if part == 'sisa':
        chk_sisa(ctx, e, v['sisa'])
        return
    vals(ctx, e, v, KEP(p2(29), p2(5), p2(43), p2(43), p2(31), p2(33))+GALC +
         [('tgd', 'bgdb', p2(32)), ('tgd_b', 'bgda', p2(32))])
    root(ctx, e, v['sqrtA'], 19)
    ctx.eq('iode', e.iode, v['iod'])
    ctx.eq('svh', e.svh, v['e1bdvs']+2*v['e1bhs']+64*v['e5bdvs'] +
           128*v['e5bhs'])
    ctx.eq('code', e.code, {0: 1, 2: 4}[src]+512)


@harness(cases=[[p, s] for p, s in (('val', 0), ('val', 2), ('time', 0),
                                    ('sisa', 0))])
def h_inav(ctx, case):
    """Galileo I/NAV"""
    part, src = case
    rn = RN.RawNav()
    fast(ctx)
    fs = inav(ctx, 'a', ctx.u('iod', 10))
    v = merged(fs)
    ctx.assume(ctx.or_(v['sisa'] < 126, v['sisa'] == 255))
    out = [rn.decode_gal_inav(0, 0, SATS['E'], src, f.buf()) for f in fs]
    ctx.end()
    ctx.check('incomplete', all(o is None for o in out[:-1]))
    e = out[-1]
    ctx.check('complete', e is not None)
    ctx.eq('sat', e.sat, SATS['E'])
    chk_inav(ctx, e, v, part, src)


@harness(cases=[[0], [1], [2], [3], [0, 1], [0, 2, 3], [1, 2, 3], [3, 1]])
def h_inav_mix(ctx, case):
    """I/NAV words of two issues are never combined"""
    rn = RN.RawNav()
    fast(ctx)
    t1, t2 = ctx.u('iod1', 10), ctx.u('iod2', 10)
    ctx.assume(t1 != t2)
    with fixed(sisa=77):
        A, B = inav(ctx, 'a', t1), inav(ctx, 'b', t2)
    for f in A:
        e = rn.decode_gal_inav(0, 0, SATS['E'], 0, f.buf())
    out = [rn.decode_gal_inav(0, 0, SATS['E'], 0, B[k].buf()) for k in case]
    last = None
    for k in range(5):
        if k not in case:
            last = rn.decode_gal_inav(0, 0, SATS['E'], 0, B[k].buf())
    ctx.end()
    ctx.check('first', e is not None)
    ctx.check('mixed', all(o is None for o in out))
    ctx.check('second', last is not None)
    chk_inav(ctx, last, merged(B), 'val', 0)


def fnav(ctx, p, iod, svid):
    fs = []
    for k in range(1, 5):
        f = Frame(ctx, f'{p}p{k}', 248)
        f.put(k, (1, 6))
        if k == 1:
            f.put(svid, (7, 6))
            f.u('iod', (13, 10), v=iod)
        else:
            f.u('iod', (7, 10), v=iod)
        fs.append(f)
    a, b, c, d = fs
    a.fields([('toc', 'u', [(23, 14)]), ('af0', 's', [(37, 31)]),
              ('af1', 's', [(68, 21)]), ('af2', 's', [(89, 6)]),
              ('sisa', 'u', [(95, 8)]), ('bgda', 's', [(144, 10)]),
              ('hs', 'u', [(154, 2)]), ('wn', 'u', [(156, 12)]),
              ('tow', 'u', [(168, 20)]), ('dvs', 'u', [(188, 1)])])
    b.fields([('M0', 's', [(17, 32)]), ('OMGd', 's', [(49, 24)]),
              ('e', 'u', [(73, 32)]), ('sqrtA', 'u', [(105, 32)]),
              ('OMG0', 's', [(137, 32)]), ('idot', 's', [(169, 14)])])
    c.fields([('i0', 's', [(17, 32)]), ('omg', 's', [(49, 32)]),
              ('deln', 's', [(81, 16)]), ('cuc', 's', [(97, 16)]),
              ('cus', 's', [(113, 16)]), ('crc', 's', [(129, 16)]),
              ('crs', 's', [(145, 16)]), ('toe', 'u', [(161, 14)])])
    d.fields([('cic', 's', [(17, 16)]), ('cis', 's', [(33, 16)])])
    ctx.assume(a.v['tow'] < WK)
    ctx.assume(ctx.or_(a.v['sisa'] < 126, a.v['sisa'] == 255))
    return fs


def chk_fnav(ctx, e, v, part):
    if part == 'time':
        times(ctx, e, v['wn'], v['tow'], v['toe']*60, v['toc']*60, EP['E'],
              1024)
        return
    if part == 'sisa':
        chk_sisa(ctx, e, v['sisa'])
        return
    vals(ctx, e, v, KEP(p2(29), p2(5), p2(43), p2(43), p2(31), p2(33))+GALC +
         [('tgd', 'bgda', p2(32))])
    root(ctx, e, v['sqrtA'], 19)
    ctx.eq('iode', e.iode, v['iod'])
    ctx.eq('svh', e.svh, 8*v['dvs']+16*v['hs'])
    ctx.eq('code', e.code, 2+256)


@harness(cases=['val', 'time', 'sisa'])
def h_fnav(ctx, case):
    """Galileo F/NAV"""
    rn = RN.RawNav()
    fast(ctx)
    fs = fnav(ctx, 'a', ctx.u('iod', 10), 11)
    v = merged(fs)
    # received from page 2 on, and once more page 1
    out = [rn.decode_gal_fnav(0, 0, SATS['E'], 2, fs[k].buf())
           for k in (1, 2, 3)]
    e = rn.decode_gal_fnav(0, 0, SATS['E'], 2, fs[0].buf())
    ctx.end()
    ctx.check('incomplete', all(o is None for o in out))
    ctx.check('complete', e is not None)
    chk_fnav(ctx, e, v, case)


@harness(cases=[[0], [1], [2], [3], [0, 1], [0, 2, 3], [1, 2, 3], [3, 1]])
def h_fnav_mix(ctx, case):
    """F/NAV pages of two issues are never combined"""
    rn = RN.RawNav()
    fast(ctx)
    t1, t2 = ctx.u('iod1', 10), ctx.u('iod2', 10)
    ctx.assume(t1 != t2)
    with fixed(sisa=77):
        A, B = fnav(ctx, 'a', t1, 11), fnav(ctx, 'b', t2, 11)
    for k in (1, 2, 3, 0):
        e = rn.decode_gal_fnav(0, 0, SATS['E'], 2, A[k].buf())
    out = [rn.decode_gal_fnav(0, 0, SATS['E'], 2, B[k].buf()) for k in case]
    ctx.end()
    ctx.check('first', e is not None)
    ctx.check('mixed', all(o is None for o in out))


# ------------------------------------------------------------------------ BeiDou
EPH1 = [('toe', 'u', 11), ('sattype', 'u', 2), ('dA', 's', 26),
        ('Adot', 's', 25), ('deln', 's', 17), ('delnd', 's', 23),
        ('M0', 's', 33), ('e', 'u', 33), ('omg', 's', 33)]
EPH2 = [('OMG0', 's', 33), ('i0', 's', 33), ('OMGd', 's', 19),
        ('idot', 's', 15), ('cis', 's', 16), ('cic', 's', 16),
        ('crs', 's', 24), ('crc', 's', 24), ('cus', 's', 21), ('cuc', 's', 21)]
CLK = [('toc', 'u', 11), ('af0', 's', 25), ('af1', 's', 22), ('af2', 's', 11)]


def seq(f, pos, spec):
    for n, k, w in spec:
        getattr(f, k)(n, (pos, w))
        pos += w
    return pos


def bds_orbit(ctx, e, v):
    vals(ctx, e, v, CN+[('Adot', 'Adot', p2(21)), ('delnd', 'delnd', p2(57)*SC),
                        ('af0', 'af0', p2(34)), ('af1', 'af1', p2(50)),
                        ('af2', 'af2', p2(66))])
    ctx.close('A', e.A, ctx.ite(v['sattype'] == 3, 27906100, 42162200) +
              v['dA']*p2(9), 1e-6)


def bds_times(ctx, e, v, tow):
    ctx.assume(ctx.and_(v['toe']*300 < WK, v['toc']*300 < WK, tow < WK))
    times(ctx, e, v['wn'], tow, v['toe']*300, v['toc']*300, EP['B'])


def b1c(ctx, p, iodc, page, iode=None):
    f = Frame(ctx, p, 880)
    f.u('wn', (1, 13))
    f.u('how', (14, 8))
    f.u('iodc_h', (22, 2))
    f.u('iodc', (24, 8), v=iodc)
    f.u('iode', (32, 8), v=iodc if iode is None else iode)
    k = seq(f, 40, EPH1+EPH2+CLK)
    k = seq(f, k, [('tgd2a', 's', 12), ('isc1', 's', 12), ('tgd1', 's', 12)])
    f.put(page, (609, 6))
    k = seq(f, 615, [('hs', 'u', 2), ('integ', 'u', 3), ('mai', 'u', 4)])
    k = seq(f, k, [('oe', 'u', 5), ('top', 'u', 11), ('ocb', 'u', 5),
                   ('oc1', 'u', 3), ('oc2', 'u', 3)])
    f.u('soh', (873, 8))
    return f


@harness(cases=['val', 'time', 'iod', 'page'])
def h_b1c(ctx, case):
    """BDS B-CNAV1"""
    rn = RN.RawNav()
    fast(ctx)
    iod = ctx.u('iod', 8)
    io2 = None
    if case == 'iod':
        io2 = ctx.u('iod2', 8)
        ctx.assume(iod != io2)
    f = b1c(ctx, '', iod, 1 if case != 'page' else 3, io2)
    v = f.v
    pos(ctx, v)
    e = rn.decode_bds_b1c(0, 0, SATS['C'], f.buf())
    ctx.end()
    if case in ('iod', 'page'):
        ctx.check('none', e is None)
        return
    ctx.check('complete', e is not None)
    if case == 'time':
        bds_times(ctx, e, v, v['how']*3600+v['soh']*18)
        return
    bds_orbit(ctx, e, v)
    vals(ctx, e, v, [('tgd', 'tgd1', p2(34)), ('tgd_b', 'tgd2a', p2(34)),
                     ('isc.0', 'isc1', p2(34)), ('svh', 'hs', 1),
                     ('integ', 'integ', 1), ('sismai', 'mai', 1),
                     ('sisai.0', 'oe', 1), ('sisai.1', 'ocb', 1),
                     ('sisai.2', 'oc1', 1), ('sisai.3', 'oc2', 1),
                     ('iode', 'iode', 1), ('tops', 'top', 300)])
    ctx.eq('iodc', e.iodc, v['iodc_h']*256+v['iodc'])


def b2a(ctx, p, sow, iod):
    fs = {}
    for k, mt in enumerate((10, 11, 30, 34, 40)):
        f = Frame(ctx, f'{p}m{mt}', 288)
        f.put(21, (1, 6))
        f.put(mt, (7, 6))
        f.u('sow', (13, 18), v=sow+k)
        fs[mt] = f
    f = fs[10]
    k = seq(f, 31, [('wn', 'u', 13), ('i2a', 'u', 3), ('mai', 'u', 4),
                    ('i1c', 'u', 3)])
    f.u('iode', (k, 8), v=iod)
    seq(f, k+8, EPH1)
    f = fs[11]
    seq(f, 31, [('hs', 'u', 2)])
    seq(f, 43, EPH2)
    f = fs[30]
    k = seq(f, 43, CLK)
    f.u('iodc_h', (k, 2))
    f.u('iodc', (k+2, 8), v=iod)
    k = seq(f, k+10, [('tgd2a', 's', 12), ('isc2', 's', 12)])
    seq(f, k+74, [('tgd1', 's', 12)])
    f = fs[34]
    seq(f, 43, [('top34', 'u', 11), ('ocb34', 'u', 5), ('oc134', 'u', 3),
                ('oc234', 'u', 3)])
    f = fs[40]
    seq(f, 43, [('oe', 'u', 5), ('top', 'u', 11), ('ocb', 'u', 5),
                ('oc1', 'u', 3), ('oc2', 'u', 3)])
    return fs


def chk_b2a(ctx, e, v, part):
    if part == 'time':
        bds_times(ctx, e, v, v['sow']*3)
        return
    bds_orbit(ctx, e, v)
    vals(ctx, e, v, [('tgd', 'tgd1', p2(34)), ('tgd_b', 'tgd2a', p2(34)),
                     ('isc.1', 'isc2', p2(34)), ('svh', 'hs', 1),
                     ('sismai', 'mai', 1), ('sisai.0', 'oe', 1),
                     ('iode', 'iode', 1)])
    ctx.eq('iodc', e.iodc, v['iodc_h']*256+v['iodc'])
    ctx.eq('integ', e.integ, v['i2a']*8+v['i1c'])


def pos(ctx, v):
    for n in ('ocb', 'oc1', 'oc2', 'ocb34', 'oc134', 'oc234'):
        if n in v:
            ctx.assume(v[n] < (16 if n.startswith('ocb') else 4))
    if 'mai' in v:
        ctx.assume(v['mai'] < 8)


@harness(cases=['val', 'time', 'iod', 'gap1', 'gap2'])
def h_b2a(ctx, case):
    """BDS B-CNAV2"""
    rn = RN.RawNav()
    fast(ctx)
    gap = case in ('gap1', 'gap2')
    sow = 1234 if gap else ctx.u('sow', 18)
    ctx.assume(sow < 201600)
    fs = b2a(ctx, '', sow, ctx.u('iod', 8))
    v = merged(fs.values())
    pos(ctx, v)
    order = [34, 40, 10, 11, 30]
    if case in ('iod', 'gap1', 'gap2'):
        mt = {'iod': 30, 'gap1': 11, 'gap2': 30}[case]
        if case == 'iod':
            i2 = ctx.u('iod2', 8)
            ctx.assume(i2 != v['iode'])
            fs[mt] = b2a(ctx, 'o', sow, i2)[mt]
        else:
            fs[mt] = b2a(ctx, 'o', 0, v['iode'])[mt]
            s2 = ctx.u('sow2', 18)
            ctx.assume(s2 != sow+(1 if case == 'gap1' else 2))
            fs[mt].b[12:30] = ctx._tobits(s2, 18)
    e = None
    for mt in order:
        e = rn.decode_bds_b2a(0, 0, SATS['C'], fs[mt].buf())
    ctx.end()
    if case in ('iod', 'gap1', 'gap2'):
        ctx.check('none', e is None)
        return
    ctx.check('complete', e is not None)
    chk_b2a(ctx, e, v, case)


def b2b(ctx, p, sow):
    fs = {}
    o = 12
    for k, mt in enumerate((10, 30, 40)):
        f = Frame(ctx, f'{p}m{mt}', 512, off=o)
        f.put(mt, (1, 6))
        f.u('sow', (7, 20), v=sow+k)
        fs[mt] = f
    f = fs[10]
    seq(f, 31, EPH1+EPH2+[('integ', 'u', 3), ('mai', 'u', 4)])
    f = fs[30]
    k = seq(f, 27, [('wn', 'u', 13)])
    k = seq(f, k+4, CLK+[('tgd', 's', 12)])
    k = seq(f, k+74+97+138, [('top', 'u', 11), ('ocb', 'u', 5),
                             ('oc1', 'u', 3), ('oc2', 'u', 3), ('oe', 'u', 5),
                             ('hs', 'u', 2)])
    return fs


@harness(cases=['val', 'time', 'gap'])
def h_b2b(ctx, case):
    """BDS B-CNAV3"""
    rn = RN.RawNav()
    fast(ctx)
    sow = 3700 if case == 'gap' else ctx.u('sow', 20)
    ctx.assume(sow < WK-5)
    fs = b2b(ctx, '', sow)
    v = merged(fs.values())
    pos(ctx, v)
    if case == 'gap':
        s2 = ctx.u('sow2', 20)
        ctx.assume(s2 != sow+1)
        fs[30] = b2b(ctx, 'o', 0)[30]
        fs[30].b[18:38] = ctx._tobits(s2, 20)
        pos(ctx, fs[30].v)
    e0 = rn.decode_bds_b2b(0, 0, SATS['C'], fs[10].buf())
    e = rn.decode_bds_b2b(0, 0, SATS['C'], fs[30].buf())
    ctx.end()
    ctx.check('incomplete', e0 is None)
    if case == 'gap':
        ctx.check('none', e is None)
        return
    ctx.check('complete', e is not None)
    if case == 'time':
        bds_times(ctx, e, v, sow)
        return
    bds_orbit(ctx, e, v)
    vals(ctx, e, v, [('tgd', 'tgd', p2(34)), ('svh', 'hs', 1),
                     ('integ', 'integ', 1), ('sismai', 'mai', 1),
                     ('sisai.0', 'oe', 1), ('tops', 'top', 300)])


BK = KEP(p2(31), p2(6), p2(43), p2(43), p2(31), p2(33))
BC = [('af0', 'af0', p2(33)), ('af1', 'af1', p2(50)), ('af2', 'af2', p2(66)),
      ('tgd', 'tgd1', F(1, 10**10)), ('tgd_b', 'tgd2', F(1, 10**10)),
      ('svh', 'svh', 1), ('iode', 'aode', 1), ('iodc', 'aodc', 1)]


def d1(ctx, p, sow):
    """D1 subframes 1-3; positions are those of the ICD figures"""
    fs = []
    for k in range(3):
        f = Frame(ctx, f'{p}s{k+1}', 320)
        f.put(0x712, (1, 11))
        f.put(k+1, (16, 3))
        f.u('sow', (19, 8), (31, 12), v=sow+6*k)
        fs.append(f)
    a, b, c = fs
    a.fields([('svh', 'u', [(43, 1)]), ('aodc', 'u', [(44, 5)]),
              ('ura', 'u', [(49, 4)]), ('wn', 'u', [(61, 13)]),
              ('toc', 'u', [(74, 9), (91, 8)]), ('tgd1', 's', [(99, 10)]),
              ('tgd2', 's', [(109, 4), (121, 6)]), ('af2', 's', [(215, 11)]),
              ('af0', 's', [(226, 7), (241, 17)]),
              ('af1', 's', [(258, 5), (271, 17)]), ('aode', 'u', [(288, 5)])])
    b.fields([('deln', 's', [(43, 10), (61, 6)]),
              ('cuc', 's', [(67, 16), (91, 2)]),
              ('M0', 's', [(93, 20), (121, 12)]),
              ('e', 'u', [(133, 10), (151, 22)]), ('cus', 's', [(181, 18)]),
              ('crc', 's', [(199, 4), (211, 14)]),
              ('crs', 's', [(225, 8), (241, 10)]),
              ('sqrtA', 'u', [(251, 12), (271, 20)])])
    toe = ctx.u(p+'toe', 17)
    tb = ctx._tobits(toe, 17)
    b.place(tb[:2], [(291, 2)])
    c.place(tb[2:], [(43, 10), (61, 5)])
    c.v['toe'] = toe
    c.fields([('i0', 's', [(66, 17), (91, 15)]),
              ('cic', 's', [(106, 7), (121, 11)]),
              ('OMGd', 's', [(132, 11), (151, 13)]),
              ('cis', 's', [(164, 9), (181, 9)]),
              ('idot', 's', [(190, 13), (211, 1)]),
              ('OMG0', 's', [(212, 21), (241, 11)]),
              ('omg', 's', [(252, 11), (271, 21)])])
    return fs


def chk_d(ctx, e, v, part, sow):
    if part == 'time':
        ctx.assume(ctx.and_(v['toe']*8 < WK, v['toc']*8 < WK))
        times(ctx, e, v['wn'], sow, v['toe']*8, v['toc']*8, EP['B'])
        return
    vals(ctx, e, v, BK+BC)
    root(ctx, e, v['sqrtA'], 19)
    ctx.close('sva', e.sva, pick(ctx, v['ura'], [F(str(x)) for x in URA]), 1e-9)


@harness(cases=['val', 'time'])
def h_d1(ctx, case):
    """BDS D1"""
    rn = RN.RawNav()
    fast(ctx)
    sow = ctx.u('sow', 20)
    ctx.assume(sow < WK-20)
    fs = d1(ctx, '', sow)
    out = [rn.decode_bds_d1(0, 0, SATS['C'], f.buf()) for f in fs]
    ctx.end()
    ctx.check('incomplete', out[0] is None and out[1] is None)
    e = out[2]
    ctx.check('complete', e is not None)
    chk_d(ctx, e, merged(fs), case, sow)


@harness(cases=SUB3)
def h_d1_mix(ctx, case):
    """D1 subframes of two frames are never combined"""
    rn = RN.RawNav()
    fast(ctx)
    s1 = 36000
    A, B = d1(ctx, 'a', s1), d1(ctx, 'b', s1+30)
    if len(case) == 1:
        s2 = ctx.u('sow2', 20)
        ctx.assume(s2 != s1+6*case[0])
        B[case[0]].b[18:26] = ctx._tobits(s2, 20)[:8]
        B[case[0]].b[30:42] = ctx._tobits(s2, 20)[8:]
    for f in A:
        e = rn.decode_bds_d1(0, 0, SATS['C'], f.buf())
    out = [rn.decode_bds_d1(0, 0, SATS['C'], B[k].buf()) for k in case]
    ctx.end()
    ctx.check('first', e is not None)
    ctx.check('mixed', all(o is None for o in out))


def d2(ctx, p, sow, pages=range(1, 11)):
    fs = {}
    for k in pages:
        f = Frame(ctx, f'{p}g{k}', 160)
        f.put(0x712, (1, 11))
        f.put(1, (16, 3))
        f.u('sow', (19, 8), (31, 12), v=sow+3*(k-1))
        f.put(k, (43, 4))
        fs[k] = f
    sp = {1: [('svh', 'u', [(47, 1)]), ('aodc', 'u', [(48, 5)]),
              ('ura', 'u', [(61, 4)]), ('wn', 'u', [(65, 13)]),
              ('toc', 'u', [(78, 5), (91, 12)]), ('tgd1', 's', [(103, 10)]),
              ('tgd2', 's', [(121, 10)])],
          3: [('af0', 's', [(101, 12), (121, 12)])],
          4: [('af2', 's', [(73, 10), (91, 1)]), ('aode', 'u', [(92, 5)]),
              ('deln', 's', [(97, 16)])],
          5: [('M0', 's', [(51, 2), (61, 22), (91, 8)]),
              ('cus', 's', [(99, 14), (121, 4)])],
          6: [('sqrtA', 'u', [(77, 6), (91, 22), (121, 4)])],
          7: [('cis', 's', [(63, 18)]), ('toe', 'u', [(81, 2), (91, 15)])],
          8: [('crc', 's', [(66, 17), (91, 1)]), ('crs', 's', [(92, 18)])],
          9: [('OMG0', 's', [(52, 1), (61, 22), (91, 9)])],
          10: [('idot', 's', [(52, 1), (61, 13)])]}
    for k in fs:
        fs[k].fields(sp.get(k, []))
    # fields continued on the next page
    for n, w, k, a, b in (('af1', 22, 3, [(133, 4)], [(47, 6), (61, 12)]),
                          ('cuc', 18, 4, [(121, 14)], [(47, 4)]),
                          ('e', 32, 5, [(125, 10)], [(47, 6), (61, 16)]),
                          ('cic', 18, 6, [(125, 10)], [(47, 6), (61, 2)]),
                          ('i0', 32, 7, [(106, 7), (121, 14)],
                           [(47, 6), (61, 5)]),
                          ('OMGd', 24, 8, [(110, 3), (121, 16)], [(47, 5)]),
                          ('omg', 32, 9, [(100, 13), (121, 14)], [(47, 5)])):
        if k not in fs and k+1 not in fs:
            continue
        v = (ctx.u if n == 'e' else ctx.s)(p+n, w)
        tb = ctx._tobits(v, w)
        m = sum(x for _, x in a)
        if k in fs:
            fs[k].place(tb[:m], a)
            fs[k].v[n] = v
        if k+1 in fs:
            fs[k+1].place(tb[m:], b)
    return fs


@harness(cases=['val', 'time'])
def h_d2(ctx, case):
    """BDS D2"""
    rn = RN.RawNav()
    fast(ctx)
    sow = ctx.u('sow', 20)
    ctx.assume(sow < WK-40)
    fs = d2(ctx, '', sow)
    out = [rn.decode_bds_d2(0, 0, SATS['C'], fs[k].buf()) for k in range(1, 11)]
    ctx.end()
    ctx.check('incomplete', all(o is None for o in out[:-1]))
    e = out[-1]
    ctx.check('complete', e is not None)
    chk_d(ctx, e, merged(fs.values()), case, sow)


@harness(cases=[[k] for k in (1, 3, 4, 5, 6, 7, 8, 9, 10)])
def h_d2_mix(ctx, case):
    """D2 pages of two issues are never combined"""
    rn = RN.RawNav()
    fast(ctx)
    s1 = 36000
    A = d2(ctx, 'a', s1)
    B = d2(ctx, 'b', s1, case)
    s2 = ctx.u('sow2', 20)
    ctx.assume(s2 != s1+3*(case[0]-1))
    B[case[0]].b[18:26] = ctx._tobits(s2, 20)[:8]
    B[case[0]].b[30:42] = ctx._tobits(s2, 20)[8:]
    for k in range(1, 11):
        e = rn.decode_bds_d2(0, 0, SATS['C'], A[k].buf())
    out = rn.decode_bds_d2(0, 0, SATS['C'], B[case[0]].buf())
    ctx.end()
    ctx.check('first', e is not None)
    ctx.check('mixed', out is None)


# ------------------------------------------------------------------------- NavIC
def irn(ctx, p, towc):
    fs = []
    for k in range(2):
        f = Frame(ctx, f'{p}s{k+1}', 320)
        f.u('tow', (9, 17), v=towc+k)
        f.put(k, (28, 2))
        fs.append(f)
    a, b = fs
    seq(a, 31, [('wn', 'u', 10), ('af0', 's', 22), ('af1', 's', 16),
                ('af2', 's', 8), ('ura', 'u', 4), ('toc', 'u', 16),
                ('tgd', 's', 8), ('deln', 's', 22), ('iodec', 'u', 8)])
    seq(a, 31+60+54+10, [('svh', 'u', 2), ('cuc', 's', 15), ('cus', 's', 15),
                         ('cic', 's', 15), ('cis', 's', 15), ('crc', 's', 15),
                         ('crs', 's', 15), ('idot', 's', 14)])
    seq(b, 31, [('M0', 's', 32), ('toe', 'u', 16), ('e', 'u', 32),
                ('sqrtA', 'u', 32), ('OMG0', 's', 32), ('omg', 's', 32),
                ('OMGd', 's', 22), ('i0', 's', 32)])
    return fs


@harness(cases=[['val', 2250], ['time', 2250], ['gap', 2250]],
         thorough=[[p, w] for p in ('val', 'time', 'gap')
                   for w in (1100, 2047, 2048, 2250, 2600)])
def h_irn(ctx, case):
    """NavIC SPS navigation message"""
    part, wref = case
    rn = RN.RawNav()
    fast(ctx)
    tow = 4000 if part == 'gap' else ctx.u('tow', 17)
    ctx.assume(tow*12 < WK-12)
    fs = irn(ctx, '', tow)
    v = merged(fs)
    if part == 'gap':
        t2 = ctx.u('tow2', 17)
        ctx.assume(t2 != tow+1)
        fs[1] = irn(ctx, 'o', 0)[1]
        fs[1].b[8:25] = ctx._tobits(t2, 17)
    n = ctx.floor((F(wref)-v['wn']+512)/1024)*1024+v['wn']
    ctx.assume(ctx.and_(n-wref > -500, n-wref < 500))
    e0 = rn.decode_irn_lnav(wref, 0, SATS['I'], fs[0].buf())
    e = rn.decode_irn_lnav(wref, 0, SATS['I'], fs[1].buf())
    ctx.end()
    ctx.check('incomplete', e0 is None)
    if part == 'gap':
        ctx.check('none', e is None)
        return
    ctx.check('complete', e is not None)
    if part == 'time':
        ctx.assume(ctx.and_(v['toe']*16 < WK, v['toc']*16 < WK))
        times(ctx, e, n, tow*12, v['toe']*16, v['toc']*16, EP['G'])
        return
    vals(ctx, e, v, KEP(p2(28), p2(4), p2(41), p2(41), p2(31), p2(33)))
    vals(ctx, e, v, [('af0', 'af0', p2(31)), ('af1', 'af1', p2(43)),
                     ('af2', 'af2', p2(55)), ('tgd', 'tgd', p2(31)),
                     ('svh', 'svh', 1), ('iode', 'iodec', 1),
                     ('urai', 'ura', 1)])
    root(ctx, e, v['sqrtA'], 19)
    ctx.close('sva', e.sva, pick(ctx, v['ura'], [F(str(x)) for x in URA]), 1e-9)


@harness(cases=['val', 'time', 'prn'])
def h_irn_l1(ctx, case):
    """NavIC L1 SPS navigation message"""
    rn = RN.RawNav()
    fast(ctx)
    f = Frame(ctx, '', 52+1200+274)
    f.u('toi', (1, 9))
    k = seq(f, 53, [('wn', 'u', 13), ('itow', 'u', 8), ('alert', 'u', 1),
                    ('svh', 'u', 1), ('iodec', 'u', 4), ('ura', 'u', 5),
                    ('toe', 'u', 11), ('dA', 's', 26), ('Adot', 's', 26),
                    ('deln', 's', 19), ('delnd', 's', 23), ('M0', 's', 33),
                    ('e', 'u', 33), ('omg', 's', 33), ('OMG0', 's', 33),
                    ('OMGd', 's', 25), ('i0', 's', 33), ('idot', 's', 15),
                    ('cis', 's', 16), ('cic', 's', 16), ('crs', 's', 24),
                    ('crc', 's', 24), ('cus', 's', 21), ('cuc', 's', 21),
                    ('af0', 's', 29), ('af1', 's', 22), ('af2', 's', 15),
                    ('tgd', 's', 12), ('iscs', 's', 12), ('iscd', 's', 12),
                    ('rsf', 'u', 1)])
    prn = f.u('prn', (k+3, 6))
    f.put(0, (52+1200+1, 6))
    v = f.v
    ctx.assume(ctx.and_(v['ura'] < 16,
                        prn != 4 if case == 'prn' else prn == 4))
    e = rn.decode_irn_l1nav(0, 0, SATS['I'], f.buf())
    ctx.end()
    if case == 'prn':
        ctx.check('none', e is None)
        return
    ctx.check('complete', e is not None)
    tow = v['itow']*7200+v['toi']*18
    if case == 'time':
        ctx.assume(ctx.and_(v['toe']*300 < WK, tow < WK))
        times(ctx, e, v['wn']+1024, tow, v['toe']*300, v['toe']*300, EP['G'])
        return
    vals(ctx, e, v, CN+[('Adot', 'Adot', p2(21)), ('delnd', 'delnd', p2(57)*SC),
                        ('af0', 'af0', p2(35)), ('af1', 'af1', p2(50)),
                        ('af2', 'af2', p2(66)), ('tgd', 'tgd', p2(35)),
                        ('isc.4', 'iscd', p2(35)), ('isc.5', 'iscs', p2(35)),
                        ('svh', 'svh', 1), ('iode', 'iodec', 1),
                        ('iodc', 'iodec', 1)])
    ctx.close('A', e.A, 42164200+v['dA']*p2(9), 1e-6)


# ----------------------------------------------------------------------- GLONASS
def glo(ctx, p):
    """immediate strings; bit 85 of the string is sent first"""
    fs = []
    B = lambda hi, lo: [(86-hi, hi-lo+1)]
    for k in range(1, 6):
        f = Frame(ctx, f'{p}t{k}', 96)
        f.put(0, (1, 1))
        f.put(k, *B(84, 81))
        fs.append(f)
    for k, c in enumerate('xyz'):
        fs[k].fields([(f'v{c}', 'g', B(64, 41)), (f'a{c}', 'g', B(40, 36)),
                      (f'p{c}', 'g', B(35, 9))])
    fs[0].fields([('p1', 'u', B(78, 77)), ('th', 'u', B(76, 72)),
                  ('tm', 'u', B(71, 66)), ('ts', 'u', B(65, 65))])
    fs[1].fields([('bn', 'u', B(80, 78)), ('p2', 'u', B(77, 77)),
                  ('tb', 'u', B(76, 70))])
    fs[2].fields([('p3', 'u', B(80, 80)), ('gam', 'g', B(79, 69)),
                  ('p', 'u', B(67, 66)), ('ln', 'u', B(65, 65))])
    fs[3].fields([('tau', 'g', B(80, 59)), ('dtau', 'g', B(58, 54)),
                  ('en', 'u', B(53, 49)), ('p4', 'u', B(34, 34)),
                  ('ft', 'u', B(33, 30)), ('nt', 'u', B(26, 16)),
                  ('n', 'u', B(15, 11)), ('m', 'u', B(10, 9))])
    fs[4].fields([('tauc', 'g', B(69, 38)), ('n4', 'u', B(36, 32)),
                  ('tgps', 'g', B(31, 10))])
    return fs


@harness(cases=[['val', 0], ['gap1', 0], ['gap2', 0], ['gap3', 0]] +
         [['time', t] for t in (86402, 180000, 216001, 250000, 345590)],
         thorough=[['time', t] for t in range(86400, 259200, 14411)])
def h_glo(ctx, case):
    """GLONASS FDMA strings"""
    case, t0 = case
    rn = RN.RawNav()
    fast(ctx)
    fs = glo(ctx, '')
    v = merged(fs)
    ctx.assume(ctx.and_(v['th'] < 24, v['tm'] < 60, v['tb'] > 0, v['tb'] < 96))
    if case == 'val':
        t = 345678
    elif case == 'time':
        t = t0
    else:
        t = ctx.int('t', 86400, 5*86400)
    tt = [t+2*k for k in range(5)]
    if case.startswith('gap'):
        # one of the strings belongs to another frame
        g = int(case[3])-1
        d = ctx.int('d', -3000, 3000)
        ctx.assume(ctx.and_(d != 0, tt[g]+d > 0))
        tt[g] = tt[g]+d
    out = [rn.decode_glo_fdma(2250, tt[k], SATS['R'], fs[k].buf(), -3)
           for k in range(5)]
    ctx.end()
    if case.startswith('gap'):
        ctx.check('none', all(o is None for o in out))
        return
    ctx.check('incomplete', all(o is None for o in out[:3]))
    ctx.check('complete', out[3] is not None and out[4] is not None)
    e = out[4]
    if case == 'time':
        # UTC(SU) is UTC + 3 h; instants nearest to the reception
        for e, tr in ((out[3], tt[3]), (out[4], tt[4])):
            for nm, got, s in (('toe', e.toe, v['tb']*900), (
                    'tof', e.tof, v['th']*3600+v['tm']*60+v['ts']*30)):
                x = secs(got, EP['G'])-18-2250*WK+10800-s
                ctx.eq(nm+' of day', x-ctx.floor(x/86400)*86400, 0)
                y = secs(got, EP['G'])-2250*WK-tr
                ctx.check(nm+' nearest', ctx.and_(y <= 43200+18,
                                                  y >= -43200-18))
        return
    for k, c in enumerate('xyz'):
        vals(ctx, e, v, [(f'pos.{k}', f'p{c}', p2(11)*1000),
                         (f'vel.{k}', f'v{c}', p2(20)*1000),
                         (f'acc.{k}', f'a{c}', p2(30)*1000)])
    vals(ctx, e, v, [('gamn', 'gam', p2(40)), ('taun', 'tau', p2(30)),
                     ('dtaun', 'dtau', p2(30)), ('tau_c', 'tauc', p2(31)),
                     ('tau_gps', 'tgps', p2(30)), ('svh', 'bn', 1),
                     ('age', 'en', 1), ('sva', 'ft', 1), ('iode', 'tb', 1)])
    ctx.eq('frq', e.frq, -3)
    ctx.eq('flag', e.flag, v['p']+4*v['p1']+16*v['p2']+32*v['p3']+64*v['p4'] +
           128*v['m'])


@harness(cases=[0])
def h_glo_sat(ctx, case):
    """strings of two satellites are never combined"""
    rn = RN.RawNav()
    fast(ctx)
    fs, gs = glo(ctx, 'a'), glo(ctx, 'b')
    out = [rn.decode_glo_fdma(2250, 345678+2*k, SATS['R']+(k == 1),
                              (gs if k == 1 else fs)[k].buf(), 0)
           for k in range(4)]
    ctx.end()
    ctx.check('none', all(o is None for o in out))


def cdma(ctx, st):
    """L1OC (1) and L3OC (3) strings 10-12"""
    fs = []
    for mt in (10, 11, 12):
        f = Frame(ctx, f'c{mt}', 256 if st == 1 else 304)
        if st == 1:
            f.put(0x5f1, (1, 12))
            k = 13
        else:
            f.put(0x494e, (1, 20))
            k = 21
        f.put(mt, (k, 6))
        k += 6
        if st == 1:
            k = seq(f, k, [('j', 'u', 6), ('h', 'u', 1), ('l', 'u', 1),
                           ('p1', 'u', 4), ('p2', 'u', 1), ('kp', 'u', 2),
                           ('a', 'u', 1), ('ts', 'u', 16)])
        else:
            k = seq(f, k, [('ts', 'u', 15), ('j', 'u', 6), ('h', 'u', 1),
                           ('l', 'u', 1), ('p1', 'u', 4), ('p2', 'u', 1),
                           ('kp', 'u', 2), ('a', 'u', 1)])
        sp = {10: [('n4', 5), ('nt', 11), ('m', 3), ('ps', 6), ('tb', 10),
                   ('ee', 8), ('et', 8), ('re', 2), ('rt', 2), ('fe', -5),
                   ('ft', -5), ('tau', -32), ('gam', -19), ('beta', -15),
                   ('tauc', -40), ('dtauc', -13)],
              11: [('px', -40), ('py', -40), ('pz', -40), ('vx', -35),
                   ('vy', -35)],
              12: [('vz', -35), ('ax', -15), ('ay', -15), ('az', -15),
                   ('dx', -13), ('dy', -13), ('dz', -13), ('isc', -18),
                   ('tgps', -30)]}[mt]
        for n, w in sp:
            if w < 0:       # sign bit zero
                f.put(0, (k, 1))
                f.u(n, (k+1, -w-1))
            else:
                f.u(n, (k, w))
            k += abs(w)
        fs.append(f)
    return fs


@harness(cases=[[s, p] for s in (1, 3) for p in ('val', 'sat')] +
         [[s, [n4, nt]] for s in (1, 3) for n4, nt in
          ((7, 100), (8, 366), (8, 367), (8, 800), (7, 1097), (7, 1461))])
def h_cdma(ctx, case):
    """GLONASS L1OC and L3OC"""
    st, part = case
    rn = RN.RawNav()
    fast(ctx)
    fs = cdma(ctx, st)
    v = merged(fs)
    if part in ('val', 'sat'):
        n4, nt = 7, 100
    else:
        n4, nt = part
    ctx.assume(ctx.and_(v['n4'] == n4, v['nt'] == nt, v['tb']*90 < 86400,
                        v['ts']*(2 if st == 1 else 3) < 86400))
    dec = rn.decode_glo_l1oc if st == 1 else rn.decode_glo_l3oc
    ctx.patch(RN, 'gep2time', _conc(ctx, RN.gep2time, v, n4, nt))
    out = [dec(2250, 0, SATS['R']+(part == 'sat' and k == 1), f.buf())
           for k, f in enumerate(fs)]
    ctx.end()
    if part == 'sat':
        ctx.check('none', all(o is None for o in out))
        return
    ctx.check('incomplete', out[0] is None and out[1] is None)
    e = out[2]
    ctx.check('complete', e is not None)
    if part != 'val':
        day = epoch2time([1996+4*(n4-1), 1, 1, 0, 0, 0]).time+(nt-1)*86400
        for nm, got, s in (('toe', e.toe, v['tb']*90), (
                'tof', e.tof, v['ts']*(2 if st == 1 else 3))):
            ctx.eq(nm, got.time+got.sec, day+s-10800+18)
        return
    for k, c in enumerate('xyz'):
        if st == 1 and k == 1:      # longer than the buffered string
            ctx.close('vel.1', e.vel[1], v['vy']*p2(30)*1000, 1e-4)
        else:
            vals(ctx, e, v, [(f'vel.{k}', f'v{c}', p2(30)*1000)])
        vals(ctx, e, v, [(f'pos.{k}', f'p{c}', p2(20)*1000),
                         (f'acc.{k}', f'a{c}', p2(39)*1000),
                         (f'dpos.{k}', f'd{c}', p2(10))])
    vals(ctx, e, v, [('gamn', 'gam', p2(48)), ('taun', 'tau', p2(38)),
                     ('beta', 'beta', p2(57)), ('tau_c', 'tauc', p2(31)),
                     ('dtau_c', 'dtauc', p2(49)), ('tau_gps', 'tgps', p2(38)),
                     (f'isc.{1 if st == 1 else 2}', 'isc', p2(38)),
                     ('svh', 'h', 1), ('status', 'l', 1), ('iode', 'tb', 1),
                     ('sattype', 'm', 1), ('aode', 'ee', F(1, 4)),
                     ('aodc', 'et', F(1, 4)), ('urai.0', 'fe', 1),
                     ('urai.1', 'ft', 1)])
    ctx.eq('src', e.src, v['re']*4+v['rt'])
    ctx.eq('mode', e.mode, st)


def _conc(ctx, fn, v, n4, nt):
    """day numbers are the assumed constants"""
    def f(a, b, s):
        ctx.check('date fields', ctx.and_(a == n4, b == nt))
        return fn(n4, nt, s)
    return f


# -------------------------------------------------------------------------- SBAS
@harness(cases=['val', 'time', 'type'])
def h_sbas(ctx, case):
    """SBAS geostationary ephemeris (message type 9)"""
    rn = RN.RawNav()
    fast(ctx)
    f = Frame(ctx, '', 256)
    pre = f.u('pre', (1, 8))
    mt = f.u('mt', (9, 6))
    k = seq(f, 15, [('iodn', 'u', 8), ('t0', 'u', 13), ('ura', 'u', 4),
                    ('px', 's', 30), ('py', 's', 30), ('pz', 's', 25),
                    ('vx', 's', 17), ('vy', 's', 17), ('vz', 's', 18),
                    ('ax', 's', 10), ('ay', 's', 10), ('az', 's', 10),
                    ('af0', 's', 12), ('af1', 's', 8)])
    v = f.v
    ok = ctx.and_(ctx.or_(pre == 0x53, pre == 0x9a, pre == 0xc6), mt == 9)
    ctx.assume(ctx.not_(ok) if case == 'type' else ok)
    ctx.assume(v['t0'] < 5400)
    tow = 345678 if case == 'val' else ctx.int('tow', 0, WK-1)
    e = rn.decode_sbs_l1(2250, tow, SATS['S'], f.buf())
    ctx.end()
    if case == 'type':
        ctx.check('none', e is None)
        return
    ctx.check('decoded', e is not None)
    if case == 'time':
        x = secs(e.t0, EP['G'])-v['t0']*16
        ctx.eq('time of day', x-ctx.floor(x/86400)*86400, 0)
        d = secs(e.t0, EP['G'])-2250*WK-tow
        ctx.check('nearest', ctx.and_(d <= 43200, d >= -43200))
        return
    for k, c in enumerate('xyz'):
        vals(ctx, e, v, [(f'pos.{k}', f'p{c}', F(8, 100) if k < 2 else F(4, 10)),
                         (f'vel.{k}', f'v{c}', F(625, 10**6) if k < 2
                          else F(4, 1000)),
                         (f'acc.{k}', f'a{c}', F(125, 10**7) if k < 2
                          else F(625, 10**7))])
    vals(ctx, e, v, [('af0', 'af0', p2(31)), ('af1', 'af1', p2(40)),
                     ('iodn', 'iodn', 1)])
    ctx.check('svh', ctx.ite(v['ura'] == 15, 1, 0) == e.svh)
    ctx.close('sva', e.sva, pick(ctx, v['ura'],
                                 [F(str(x)) for x in URA[:15]]+[F(0)]), 1e-9)


# ------------------------------------------------------------------- GLONASS day
@harness(cases=[[1, 367], [366, 368], [731, 732], [1096, 1097], [1460, 1461]],
         thorough=[[1, 400], [300, 800], [700, 1150], [1000, 1461]])
def h_gep(ctx, case):
    """day number in the four-year interval to calendar time"""
    n4 = ctx.int('n4', 5, 8)
    nt = ctx.int('nt', *case)
    s = ctx.int('s', 0, 86399)
    n4c = ctx.concrete(n4)
    t = RN.gep2time(n4c, nt, s)
    ctx.end()
    t0 = epoch2time([1996+4*(n4c-1), 1, 1, 0, 0, 0]).time
    lp = {5: 13, 6: 14, 7: 16, 8: 18}
    x = t.time+t.sec-(t0+(nt-1)*86400+s-10800)
    ctx.check('time', ctx.and_(x >= 13, x <= 18))
    ctx.eq('whole seconds', x-ctx.floor(x), 0)
