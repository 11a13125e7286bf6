"""C35 QZSS navigation message authentication: what is authenticated"""
from engine.api import harness
from checks.c27 import bits, same

BOUNDS = ['the signature primitive is a recording stand-in whose answer is '
          'arbitrary: the exact bits given to it and the use of its answer '
          'are decided; the primitive itself (package cryptography) and the '
          'loading of public keys are assumed',
          'QZSS LNAV/CNAV/CNAV2: histories of up to four frames of one '
          'satellite, every bit of signature, salt and navigation data '
          'symbolic, key 1..255 and times of week fixed per case',
          'GPS LNAV/CNAV/CNAV2, Galileo F/NAV and I/NAV: one L6 message '
          'with two signatures; first, last and one other value of the time '
          'field',
          'bits whose treatment only the interface specification defines '
          '(telemetry word, HOW flags, reserved bits, CNAV health bits) are '
          'left open']
ASSUMPTIONS = ['frame layouts of IS-GPS-200/800, IS-QZSS-PNT and the Galileo '
               'OS SIS ICD; order of the signed fields as transmitted']
X = None        # position left open
IOD = 0x5a


class Key:
    def __init__(self, me, name):
        self.me, self.name = me, name

    def verify(self, ds, m, alg):
        me = self.me
        me.sigs.append((self.name, me.rs, bits(m),
                        type(alg.algorithm).__name__))
        if not me.ok[len(me.sigs)-1]:
            raise me.Q.InvalidSignature()


class Recv:
    def __init__(self, ctx, ok=(True,)*4, pk=True):
        from cssrlib import qznma as Q, osnma as O
        self.Q = Q
        self.sigs, self.rs, self.ok, self.paths = [], None, ok, []
        me = self

        class ut:
            @staticmethod
            def encode_dss_signature(r, s):
                me.rs = (r, s)
                return b'\x30'

        def load(path):
            me.paths.append(path)
            return Key(me, path) if pk else None
        ctx.patch(O, 'utils', ut)
        ctx.patch(Q, 'load_pubkey', load)
        self.q = Q.qznma()
        self.q.monlevel = 0

    def signed(self, ctx, k, ds, want, keyid):
        """k-th verification: signature ds over the bits want"""
        name, rs, m, alg = self.sigs[k]
        ctx.eq('hash', alg, 'SHA256')
        ctx.check('key', f'{keyid:03d}' in name)
        z = [0]*256
        same(ctx, 'signature r', ctx._tobits(rs[0], 256), (ds+z)[:256])
        same(ctx, 'signature s', ctx._tobits(rs[1], 256), (ds+z)[256:512])
        ctx.check('signed length', len(m) >= len(want))
        ii = [i for i, b in enumerate(want) if b is not X]
        same(ctx, 'signed bits', [m[i] for i in ii], [want[i] for i in ii])
        ctx.check('padding', all(b == 0 for b in m[len(want):]
                                 if isinstance(b, int)) and
                  all(isinstance(b, int) for b in m[len(want):]))


# --- navigation messages -----------------------------------------------
def cut(m, n):
    m.b = m.b[:n]
    return m


def lnav(ctx, p, sid, tow, head=(), rest=None):
    """LNAV subframe: words of 2+30 bits; (buffer, words)"""
    m = ctx.msg()
    w = []
    for k in range(10):
        m.put(2, 0)
        a = len(m)
        if k == 0:
            m.put(8, 0x8b)
            m.any(f'{p}tlm', 22)
        elif k == 1:
            m.put(17, tow//6)
            m.any(f'{p}how', 2)
            m.put(3, sid)
            m.any(f'{p}par', 8)
        elif k == 2 and head:
            for n, v in head:
                m.put(n, v)
            m.b.extend(rest[:14])
            m.any(f'{p}p{k}', 6+24-14-sum(n for n, _ in head))
        elif rest is not None:
            m.b.extend((rest[14+24*(k-3):14+24*(k-2)]+[0]*24)[:24])
            m.any(f'{p}p{k}', 6)
        elif (sid, k) in ((1, 7), (2, 2), (3, 9)):
            m.put(8, IOD)       # issue of data: concrete key of the store
            m.any(f'{p}w{k}', 22)
        else:
            m.any(f'{p}w{k}', 30)
        w.append(m.b[a:a+30])
    return m.buf(), w


def lnav_want(w, gps, tow=None):
    """signed 300 bits of a subframe"""
    o = [X]*24+[0]*6
    o += (w[1][:17] if tow is None else tow)+[X]*7+[0]*6
    for k in range(2, 9):
        o += w[k][:24]+[0]*6
    o += w[9][:17]+(w[9][17:22] if not gps else [X]*5)+[X]*2+[0]*6
    return o


def cnav(ctx, p, mt, tow, body=None, prn=193):
    """CNAV message of 300 bits in 38 bytes"""
    m = ctx.msg()
    m.put(8, 0x8b)
    m.put(6, prn & 63)
    m.put(6, mt)
    m.put(17, tow//6)
    m.any(f'{p}alert', 1)
    if body is not None:
        m.b.extend(body)
    a = {10: 70, 11: 38}.get(mt, 60)
    if body is None:
        m.any(f'{p}a', a-len(m))
        m.put(11, IOD)
    m.any(f'{p}b', 300-len(m))
    b = list(m.b)
    m.pad(4)
    return m.buf(), b


def cnav_want(b, k, tow=None):
    n = 276 if k < 2 else 127
    o = [X]*20+(b[20:37] if tow is None else tow)+[X]
    o += b[38:n]+[0]*(300-n)
    if k == 0:
        o[271] = X
    return o


def cnav2(ctx, p, toi, itow, page, body=None):
    """CNAV2 frame: 52 symbols of TOI, 600 + 600 symbols, 274 bits"""
    m = ctx.msg()
    m.put(9, toi)
    m.put(43, 0)
    a = len(m)
    m.any(f'{p}wn', 13)
    m.put(8, itow)
    m.any(f'{p}b', 600-21)
    b = m.b[a:a+600]
    m.put(1252-len(m), 0)
    m.put(8, 193)
    m.put(6, page)
    if body is not None:
        m.b.extend(body)
    m.any(f'{p}c', 1252+274-len(m))
    m.pad(1800)
    return m.buf(), b


def cnav2_want(ctx, toi, b):
    o = ctx._tobits(toi, 9)+b[:576]
    for k in (32, 33, 565):
        o[9+k] = X
    return o+[0]*24


def rds(ctx, keyid, n):
    """key id, signature and salt in three pages"""
    m = ctx.msg()
    m.put(8, keyid)
    a = len(m)
    m.any('ds', 512)
    ds = m.b[a:]
    a = len(m)
    m.any('salt', 16)
    salt = m.b[a:]
    m.any('spare', 3*n-len(m))
    return ds, salt, [m.b[n*k:n*k+n] for k in range(3)]


PAGE = dict(L=180, C=236, D=234)


def mode(Q, t):
    return {'L': Q.uNavId.GPS_LNAV, 'C': Q.uNavId.GPS_CNAV,
            'D': Q.uNavId.GPS_CNAV2}[t]


def feed_rds(ctx, r, t, pages, t0, sat, ks=(0, 1, 2), p=''):
    """the RDS pages; time of week of the last"""
    Q = r.Q
    for j, k in enumerate(ks):
        if t == 'L':
            tow = t0+30*j
            b, _ = lnav(ctx, f'{p}r{j}', 5, tow,
                        ((2, 3), (6, 60), (2, k+1)), pages[k])
        elif t == 'C':
            tow = t0+12*j
            m = ctx.msg()
            m.put(2, k+1)
            m.b.extend(pages[k])
            b, _ = cnav(ctx, f'{p}r{j}', 60, tow, m.b)
        else:
            tow = t0+18*j
            m = ctx.msg()
            m.put(2, k+1)
            m.b.extend(pages[k])
            b, _ = cnav2(ctx, f'{p}r{j}', tow % 7200//18, tow//7200, 60, m.b)
        r.q.decode(tow, msg=b, sat=sat, navmode=mode(Q, t))
    return tow


MT = [10, 11, 30]


def feed_nav(ctx, r, t, tow, sat, ks=(0, 1, 2), p='', mt3=30):
    """frames after the RDS; signed bits"""
    Q = r.Q
    out = []
    for k in ks:
        if t == 'L':
            b, w = lnav(ctx, f'{p}s{k}', k+1, tow+6+6*k)
            w = lnav_want(w, False)
        elif t == 'C':
            b, w = cnav(ctx, f'{p}s{k}', (10, 11, mt3)[k], tow+6+6*k)
            w = cnav_want(w, k)
        else:
            if k:
                continue
            x = tow+18
            b, w = cnav2(ctx, f'{p}s{k}', x % 7200//18, x//7200, 1)
            w = cnav2_want(ctx, x % 7200//18, w)
        r.q.decode(tow+6+6*k, msg=b, sat=sat, navmode=mode(Q, t))
        out += w
    return out


def accepted(ctx, r, sat, n):
    """number of successful authentications of the satellite"""
    q = r.q
    v = q.vstatus.get(sat, {})
    ctx.eq('authenticated', sum(v.values()), n)
    ctx.eq('valid satellites', q.count_valid_sat(), int(n > 0))
    ctx.eq('listed', sat in q.sat_t, n > 0)


def QZ(k=2):
    from cssrlib.gnss import prn2sat, uGNSS
    return prn2sat(uGNSS.QZS, 192+k)


@harness(cases=[[t, key, ok, t0] for t in 'LCD' for key, ok, t0 in (
    (1, 1, 3600), (255, 0, 345600), (37, 1, 6*98))] +
    [['C', 5, 1, 36000, m] for m in (33, 61)])
def h_qzss(ctx, case):
    """QZSS: signature of the RDS over the frames that follow it"""
    t, key, ok, t0 = case[:4]
    r = Recv(ctx, (ok,)*4)
    sat = QZ()
    ds, salt, pages = rds(ctx, key, PAGE[t])
    if t == 'D':
        t0 -= t0 % 18
    tow = feed_rds(ctx, r, t, pages, t0, sat)
    accepted(ctx, r, sat, 0)
    ctx.eq('nothing verified yet', len(r.sigs), 0)
    w = feed_nav(ctx, r, t, tow, sat, mt3=(case+[30])[4])
    ctx.eq('verifications', len(r.sigs), 1)
    r.signed(ctx, 0, ds, ctx._tobits(key, 8)+w+salt, key)
    accepted(ctx, r, sat, int(ok))
    for k in range(1, 4):
        accepted(ctx, r, QZ(k), int(ok)*(k == 2)) if k == 2 else \
            ctx.check('other satellites', QZ(k) not in r.q.vstatus)


@harness(cases=[[t, h] for t in 'LC' for h in (
    'no-rds', 'start', 'two-pages', 'gap', 'late', 'again', 'other',
    'no-key')] + [['D', h] for h in ('no-rds', 'two-pages', 'late',
                                     'no-key')])
def h_history(ctx, case):
    """no authentication without a complete signature and all its frames"""
    t, h = case
    r = Recv(ctx, pk=h != 'no-key')
    sat = QZ()
    ds, salt, pages = rds(ctx, 9, PAGE[t])
    n = 0
    t0 = 7200
    if h == 'no-rds':
        feed_nav(ctx, r, t, t0, sat)
    elif h == 'start':          # first frames of the week
        feed_nav(ctx, r, t, 0, sat)
    elif h == 'two-pages':
        tow = feed_rds(ctx, r, t, pages, t0, sat, (0, 1))
        feed_nav(ctx, r, t, tow, sat)
    elif h == 'gap':
        tow = feed_rds(ctx, r, t, pages, t0, sat)
        feed_nav(ctx, r, t, tow, sat, (0, 2))
    elif h == 'late':
        tow = feed_rds(ctx, r, t, pages, t0, sat)
        feed_nav(ctx, r, t, tow+36, sat)
    elif h == 'again':          # the signature is used once
        tow = feed_rds(ctx, r, t, pages, t0, sat)
        feed_nav(ctx, r, t, tow, sat)
        feed_nav(ctx, r, t, tow+30, sat, p='x')
        n = 1
    elif h == 'other':          # frames of another satellite
        tow = feed_rds(ctx, r, t, pages, t0, sat)
        feed_nav(ctx, r, t, tow, QZ(3))
        ctx.check('other satellite', QZ(3) not in r.q.vstatus)
    else:
        tow = feed_rds(ctx, r, t, pages, t0, sat)
        feed_nav(ctx, r, t, tow, sat)
    ctx.eq('verifications', len(r.sigs), n)
    accepted(ctx, r, sat, n)


# --- GPS and Galileo through L6 -----------------------------------------
def entry(ctx, m, p, mt, svid, key, iod, rlim):
    """one signature of the L6 message: (header, ds, salt, rtow)"""
    a = len(m)
    m.put(4, 0)
    rt = ctx.choice(p+'rtow', [0, 4095, rlim])
    m.put(20, rt)
    m.put(8, svid)
    m.put(4, mt)
    m.put(11, iod)
    m.any(p+'iod2', 22)
    m.put(8, key)
    hdr = m.b[a:]
    a = len(m)
    m.any(p+'ds', 512)
    ds = m.b[a:]
    a = len(m)
    m.any(p+'salt', 16)
    return hdr, ds, m.b[a:], rt


def l6(ctx, vid=3):
    m = ctx.msg()
    m.put(32, 0x1acffc1d)
    m.put(8, 199)
    m.put(3, vid)
    m.any('mt', 5)
    m.any('alert', 1)
    return m


def gnav(ctx, r, t, iod, p=''):
    """a navigation message held by the receiver, as decoded before;
    (type, satellite, svid, signed bits for a given rtow)"""
    from cssrlib.gnss import prn2sat, uGNSS
    Q = r.Q
    m = ctx.msg()
    f = []
    if t == 'L':
        sat, svid, mt = prn2sat(uGNSS.GPS, 7), 7, 1
        for k in range(3):
            b, w = lnav(ctx, f'{p}g{k}', k+1, 3600+6*k)
            m.b.extend(bits(b))
            f.append(w)

        def want(rt):
            return sum([lnav_want(f[k], True, ctx._tobits(rt+k, 17))
                        for k in range(3)], [])
    elif t == 'C':
        sat, svid, mt = prn2sat(uGNSS.GPS, 32), 32, 2
        for k in range(3):
            b, w = cnav(ctx, f'{p}g{k}', MT[k], 3600, prn=32)
            m.b.extend(bits(b))
            f.append(w)

        def want(rt):
            return sum([cnav_want(f[k], k, ctx._tobits(rt+k, 17))
                        for k in range(3)], [])
    elif t == 'F':
        sat, svid, mt = prn2sat(uGNSS.GAL, 11), 64+11, 4
        for k in range(4):
            m.put(6, k+1)
            m.any(f'{p}g{k}', 238)
            f.append(m.b[-244:])
            m.put(4, 0)

        def want(rt):
            o = []
            for k, a in enumerate((167, 194, 186, 189)):
                w = list(f[k])
                w[a:a+20] = ctx._tobits(rt+10*k, 20)
                o += w[:214]+[0]*24+[X]*6
            return o
    else:
        sat, svid, mt = prn2sat(uGNSS.GAL, 36), 64+36, 5
        m.any(f'{p}g', 640)
        f = list(m.b)

        def want(rt):
            o = list(f)
            o[512+85:512+105] = ctx._tobits(rt, 20)
            return o
    nm = Q.NavMsg(0, mt)
    nm.msg = m.buf()
    nm.tow, nm.iodn = 3600, iod
    r.q.navmsg.setdefault(sat, {}).setdefault(iod, {})[mt] = nm
    return mt, sat, svid, want


@harness(cases=[[a, b, o1, o2] for a, b, o1, o2 in (
    ('L', 'I', 1, 1), ('C', 'F', 1, 0), ('I', 'C', 0, 1), ('F', 'L', 1, 1),
    ('I', 'L', 0, 0), ('L', 'C', 1, 0))])
def h_gnss(ctx, case):
    """both signatures of an L6 message"""
    a, b, o1, o2 = case
    r = Recv(ctx, (o1, o2))
    iod = (77, 1023)
    nav = [gnav(ctx, r, t, iod[k], f'n{k}') for k, t in enumerate((a, b))]
    m = l6(ctx)
    en = []
    for k, t in enumerate((a, b)):
        mt, sat, svid, _ = nav[k]
        en.append(entry(ctx, m, f'e{k}', mt, svid, 12, iod[k],
                        100797 if t in 'LC' else 604760))
    m.pad(2000)
    r.q.decode(3600, msg_n=m.buf())
    ctx.eq('verifications', len(r.sigs), 2)
    for k in range(2):
        hdr, ds, salt, rt = en[k]
        r.signed(ctx, k, ds, hdr+nav[k][3](rt)+salt, 12)
    for k, ok in enumerate((o1, o2)):
        v = r.q.vstatus.get(nav[k][1], {})
        ctx.eq('authenticated issue', sorted(v), [iod[k]] if ok else [])
    ctx.eq('valid satellites', r.q.count_valid_sat(), o1+o2)


@harness(cases=['iod', 'sat', 'type', 'vendor', 'none', 'svid'])
def h_gnss_no(ctx, case):
    """nothing is authenticated without the message the signature names"""
    r = Recv(ctx)
    mt, sat, svid, _ = gnav(ctx, r, 'L', 77, 'n')
    m = l6(ctx, 2 if case == 'vendor' else 3)
    iod = 77
    if case == 'iod':
        iod = ctx.choice('x', [76, 0, 78, 77+256])
    elif case == 'sat':
        svid = ctx.choice('x', [6, 8, 64+7, 193, 202])
    elif case == 'type':
        mt = ctx.choice('x', [0, 2, 3, 4, 5, 6, 15])
    elif case == 'svid':
        svid = ctx.choice('x', [203, 255])
    elif case == 'none':
        svid = 0
    entry(ctx, m, 'e0', mt, svid, 12, iod, 100797)
    entry(ctx, m, 'e1', mt, svid, 12, iod, 100797)
    m.pad(2000)
    r.q.decode(3600, msg_n=m.buf())
    ctx.eq('verifications', len(r.sigs), 0)
    ctx.eq('valid satellites', r.q.count_valid_sat(), 0)


@harness(cases=[[t, b] for t in 'LC' for b in ('ok', 'id', 'iod')])
def h_store(ctx, case):
    """a navigation message is stored only if its parts belong together"""
    t, bad = case
    r = Recv(ctx)
    q = r.q
    from cssrlib.gnss import prn2sat, uGNSS
    sat = prn2sat(uGNSS.GPS, 7)
    buf = ctx.msg()
    n = 8 if t == 'L' else 11
    v = [ctx.int(f'i{k}', 0, 2**n-1) for k in range(3)]
    ids = [1, 2, 3] if t == 'L' else [10, 11, 33]
    if bad == 'id':
        k = ctx.choice('k', [0, 1, 2])
        ids[k] = ctx.choice('w', [0, 4, 5, 7] if t == 'L' else [12, 14, 0])
    if bad != 'iod':
        ctx.assume(ctx.and_(v[0] == v[1], v[1] == v[2]))
    else:
        ctx.assume(ctx.or_(v[0] != v[1], v[1] != v[2]))
    for k in range(3):
        if t == 'L':
            _, w = lnav(ctx, f's{k}', ids[k], 3600+6*k)
            x = ctx._tobits(v[k], 8)
            if k == 0:
                w[7][:8] = x
            elif k == 1:
                w[2][:8] = x
            else:
                w[9][:8] = x
            for y in w:
                buf.b.extend([0, 0]+list(y))
        else:
            _, w = cnav(ctx, f's{k}', ids[k], 3600+6*k)
            a = (70, 38, 60)[k]
            w[a:a+11] = ctx._tobits(v[k], 11)
            buf.b.extend(list(w)+[0]*4)
    n = len(buf)
    b = buf.buf()
    f = q.chk_gps_lnav if t == 'L' else q.chk_gps_cnav
    x = f(uGNSS.GPS, b)
    if bad != 'ok':
        ctx.check('refused', x is None)
        return
    ctx.check('complete', x is not None)
    if x is None:
        return
    ctx.eq('issue', x.iodn, v[0])
    ctx.eq('time', x.tow, 3600)
    same(ctx, 'message', bits(x.msg)[:n], bits(b)[:n])
    # reference times as transmitted
    if t == 'L':
        same(ctx, 'toe', ctx._tobits(x.toe, 16), bits(b)[320+290:320+306])
        same(ctx, 'toc', ctx._tobits(x.toc, 16), bits(b)[234:250])
    else:
        ctx.eq('toe', x.toe, v[0])
        ctx.eq('toc', x.toc, v[0])


def page(ctx, p, t, k, iod, tow):
    """k-th part of a navigation message as recorded: (buffer, stored bits)"""
    if t == 'L':
        _, w = lnav(ctx, p, k+1, tow)
        a = (7, 2, 9)[k]
        w[a][:8] = ctx._tobits(iod & 255, 8)
        o = [b for y in w for b in [0, 0]+list(y)]
        return o, o
    if t == 'C':
        _, w = cnav(ctx, p, (10, 11, 30)[k], tow, prn=1)
        a = (70, 38, 60)[k]
        w[a:a+11] = ctx._tobits(iod, 11)
        o = list(w)+[0]*4
        return o, o
    m = ctx.msg()
    if t == 'F':
        m.put(6, k+1)
        if k == 0:
            m.any(p+'sv', 6)
        m.put(10, iod)
        m.any(p+'x', 244-len(m))
        o = list(m.b)
        m.any(p+'y', 4)
        return m.b, o
    m.put(2, 0)
    m.put(6, k+1)
    if k < 4:
        m.put(10, iod)
    m.any(p+'x', 114-len(m))
    m.any(p+'tail', 8)
    m.any(p+'y', 16)
    m.any(p+'end', 240-len(m))
    return m.b, m.b[2:114]+m.b[122:138]


# (satellite, part, issue) in the order received -> stored (satellite, issue)
SEQ = [([(0, 0, 1), (1, 0, 7), (0, 1, 1), (1, 1, 7), (0, 2, 1), (1, 2, 7),
         (0, 3, 1), (1, 3, 7), (0, 4, 1), (1, 4, 7)],
        {0: {1}, 1: {7}}),
       ([(0, 0, 1), (0, 1, 2), (0, 2, 2), (0, 3, 2), (0, 4, 2),
         (1, 0, 2), (1, 1, 2), (1, 2, 2), (1, 3, 2), (1, 4, 2)],
        {0: set(), 1: {2}}),
       ([(0, 0, 1), (0, 1, 1), (0, 2, 1), (0, 3, 1), (0, 4, 1),
         (0, 0, 5), (0, 1, 5), (0, 2, 5), (0, 3, 5), (0, 4, 5),
         (1, 1, 3), (1, 2, 3), (1, 3, 3), (1, 4, 3)],
        {0: {1, 5}, 1: set()})]


@harness(cases=[[t, k] for t in 'LCFI' for k in range(3)], witnesses=2)
def h_load(ctx, case):
    """navigation messages recorded in a file: only complete ones of one
    issue are kept, each for its satellite, bit by bit"""
    import numpy as np
    from cssrlib.gnss import prn2sat, uGNSS
    t, k = case
    r = Recv(ctx)
    n = dict(L=3, C=3, F=4, I=5)[t]
    seq, want = SEQ[k]
    prn = (1, 32) if t in 'LC' else (1, 36)
    rows, kept = [], {}
    for j, (s, part, iod) in enumerate(seq):
        if part >= n:
            continue
        b, o = page(ctx, f'm{j}', t, part, iod, 3600+6*part)
        rows.append((2400, 3600.0+j, prn[s], 0, 300, ctx._mkbuf(
            list(b)+[0]*(-len(b) % 8))))
        kept[s, iod, part] = o
        if t == 'I' and part == 4:
            kept[s, iod, 4] = o
    v = np.zeros(len(rows), dtype=[
        ('wn', 'int'), ('tow', 'float'), ('prn', 'int'), ('type', 'int'),
        ('len', 'int'), ('nav', object)])
    for j, x in enumerate(rows):
        v[j] = x
    ctx.patch(r.Q, 'unhexlify', lambda x: x)

    class N:
        def __getattr__(self, a):
            return getattr(NP, a)

        def genfromtxt(self, f, dtype=None):
            return v
    NP = r.Q.np
    ctx.patch(r.Q, 'np', N())
    q = r.q
    getattr(q, 'load_navmsg_'+dict(L='lnav', C='cnav', F='fnav', I='inav')[
        t])('nav.txt')
    mode = dict(L=1, C=2, F=4, I=5)[t]
    sys = uGNSS.GPS if t in 'LC' else uGNSS.GAL
    size = dict(L=320, C=304, F=248, I=128)[t]
    for s in range(2):
        got = q.navmsg.get(prn2sat(sys, prn[s]), {})
        ctx.check('messages kept', {i for i in got if mode in got[i]} ==
                  want[s])
        for i in got:
            if mode not in got[i] or i not in want[s]:
                continue
            x = got[i][mode]
            b = bits(x.msg)
            for p in range(n):
                o = kept[s, i, p]
                same(ctx, f'part {p}', b[size*p:size*p+len(o)], o)
            ctx.eq('issue', x.iodn, i)
            if t in 'FI':
                a, c = ((248*2+160, 22), (16, 128*3+54))[t == 'I']
                same(ctx, 'toe', ctx._tobits(x.toe, 14), b[a:a+14])
                same(ctx, 'toc', ctx._tobits(x.toc, 14), b[c:c+14])
                a = (167, 128*4+85)[t == 'I']
                same(ctx, 'time', ctx._tobits(x.tow, 20), b[a:a+20])
            else:
                ctx.eq('time', x.tow, 3600)
