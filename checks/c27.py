"""C27 Galileo OSNMA: what is authenticated, and by what"""
from engine.api import harness

BOUNDS = ['hash, MAC and signature primitives are recording stand-ins that '
          'return arbitrary bits: the exact bits given to them and the use '
          'of their answers are decided; the primitives themselves (package '
          'cryptography) and the elliptic-curve point decoding are assumed',
          'DSM-KROOT with a P-256 signature (512 bit), all key sizes, 7..14 '
          'blocks as the sizes permit; DSM-PKR with a P-256 key (13 blocks)',
          'key chains of up to 6 steps, any subframe of any week',
          'all MAC look-up tables of the module except slot 10 of table 37 '
          '(value not confirmable without the ICD)',
          'whole decoding of two consecutive subframes of one satellite with '
          'every bit of the tags, keys and navigation data symbolic; '
          'slow-MAC list with up to three stored tags',
          'QZSS (qznma.py): property C35']
ASSUMPTIONS = ['OSNMA SIS ICD 1.1 layouts as stated in the harnesses']
KLEN = [96, 104, 112, 120, 128, 160, 192, 224, 256]
TLEN = {5: 20, 6: 24, 7: 28, 8: 32, 9: 40}
# (number of tags, slots of the even and odd subframe): ADKD and type
MACLT = {
    27: (6, '00S 00E 00E 00E 12S 00E 00S 00E 00E 04S 12S 00E'),
    28: (10, '00S 00E 00E 00E 00S 00E 00E 12S 00E 00E '
             '00S 00E 00E 00S 00E 00E 04S 12S 00E 00E'),
    31: (5, '00S 00E 00E 12S 00E 00S 00E 00E 12S 04S'),
    33: (6, '00S 00E 04S 00E 12S 00E 00S 00E 00E 12S 00E 12E'),
    34: (6, '00S FLX 04S FLX 12S 00E 00S FLX 00E 12S 00E 12E'),
    35: (6, '00S FLX 04S FLX 12S FLX 00S FLX FLX 12S FLX FLX'),
    36: (5, '00S FLX 04S FLX 12S 00S FLX 00E 12S 12E'),
    37: (5, '00S 00E 04S 00E 12S 00S 00E 00E 12S ???'),
    38: (5, '00S FLX 04S FLX 12S 00S FLX FLX 12S FLX'),
    39: (4, '00S FLX 04S FLX 00S FLX 00E 12S'),
    40: (4, '00S 00E 04S 12S 00S 00E 00E 12E'),
    41: (4, '00S FLX 04S FLX 00S FLX FLX 12S')}
# a key and tag size giving the number of tags of the table
SIZES = {4: (4, 9), 5: (2, 9), 6: (4, 9), 10: (2, 5)}


def bits(b):
    if hasattr(b, 'bits'):
        return list(b.bits)
    return [x >> (7-i) & 1 for x in bytes(b) for i in range(8)]


class Crypto:
    """recording stand-ins of the primitives used by osnma.py"""

    def __init__(self, ctx):
        from cssrlib import osnma as O
        self.ctx = ctx
        self.hashes = []        # (algorithm, message bits, digest buffer)
        self.macs = []          # (kind, key bits, message bits, mac buffer)
        self.sigs = []          # (public key name, r||s, message, algorithm)
        self.rs = None
        me = self

        class H:
            def __init__(self, alg):
                self.alg = type(alg).__name__
                self.m = []

            def update(self, m):
                self.m += bits(m)

            def finalize(self):
                for a, m, d in me.hashes:
                    if a == self.alg and ctx.symbolic and m == self.m:
                        return d
                d = ctx.bytes(f'hash{len(me.hashes)}', 32)
                me.hashes.append((self.alg, self.m, d))
                return d

        class M:
            kind, n = 'HMAC', 32

            def __init__(self, key, alg=None):
                self.key = bits(key)
                self.alg = type(alg).__name__
                self.m = []

            def update(self, m):
                self.m += bits(m)

            def finalize(self):
                d = ctx.bytes(f'mac{len(me.macs)}', self.n)
                me.macs.append((self.kind, self.key, self.m, d))
                return d

        class MC(M):
            kind, n = 'CMAC', 16

        class ns:
            pass
        h, hm, cm, al, ut = ns(), ns(), ns(), ns(), ns()
        h.Hash = H
        h.SHA256, h.SHA3_256 = O.hashes.SHA256, O.hashes.SHA3_256
        hm.HMAC, cm.CMAC = M, MC
        al.AES = lambda key: key
        def enc(r, s):
            me.rs = (r, s)
            return b'\x30'
        ut.encode_dss_signature = enc
        for k, v in dict(hashes=h, hmac=hm, cmac=cm, algorithms=al,
                         utils=ut).items():
            ctx.patch(O, k, v)
        self.O = O

    def pubkey(self, name, ok=True):
        me = self

        class PK:
            def verify(self, ds, msg, alg):
                me.sigs.append((name, me.rs, bits(msg),
                                type(alg.algorithm).__name__))
                if not ok:
                    raise me.O.InvalidSignature()
        return PK()


def receiver(ctx):
    from cssrlib.osnma import osnma
    c = Crypto(ctx)
    n = osnma(logfile='/dev/null')
    n.monlevel = 0
    n.dsm, n.nb, n.hk, n.mack = {}, {}, list(n.hk), list(n.mack)
    n.mack_p = ctx._mkbuf([0]*(480*36))
    n.mack_c = ctx._mkbuf([0]*(480*36))
    return n, c


def msg(ctx, name, n, nbytes=None):
    m = ctx.msg()
    m.any(name, n)
    return m


def same(ctx, label, a, b):
    """two bit sequences are equal for every input"""
    ctx.eq(label+': length', len(a), len(b))
    if len(a) != len(b):
        return
    n = len(a) + -len(a) % 8
    a, b = a+[0]*(n-len(a)), b+[0]*(n-len(b))
    ctx.check(label, a == b or ctx._mkbuf(list(a)) == ctx._mkbuf(list(b)))


def kroot(ctx, nb, ks, hf, mf=0, ts=9, maclt=27, p=''):
    """a DSM-KROOT of nb blocks"""
    m = ctx.msg()
    m.put(4, nb-6)
    f = dict(pkid=m.u(p+'pkid', 4), cidkr=m.u(p+'cidkr', 2))
    m.any(p+'r1', 2)
    m.put(2, hf)
    m.put(2, mf)
    m.put(4, ks)
    m.put(4, ts)
    m.put(8, maclt)
    m.any(p+'r2', 4)
    f['wn'] = m.u(p+'wn', 12)
    f['towh'] = m.u(p+'towh', 8)
    a = len(m)
    m.any(p+'alpha', 48)
    f['alp'] = m.b[a:]
    a = len(m)
    m.any(p+'kroot', KLEN[ks])
    f['kroot'] = m.b[a:]
    f['signed'] = m.b[8:]
    a = len(m)
    m.any(p+'ds', 512)
    f['ds'] = m.b[a:]
    a = len(m)
    m.any(p+'pdk', nb*104-len(m))
    f['pdk'] = m.b[a:]
    f['bits'] = list(m.b)
    return f


KCASES = [[ks, nb, hf] for ks, nb, hf in
          [(0, 7, 0), (4, 8, 0), (4, 8, 2), (4, 14, 0), (8, 9, 0), (5, 9, 2),
           (1, 7, 0), (2, 7, 0), (3, 8, 0), (6, 9, 0), (7, 9, 0), (8, 8, 0)]]


@harness(cases=KCASES, witnesses=1)
def h_kroot(ctx, case):
    """fields, padding hash, signed message of a DSM-KROOT"""
    ks, nb, hf = case
    n, c = receiver(ctx)
    k = kroot(ctx, nb, ks, hf)
    ctx.assume(k['pkid'] == 3)
    hdr = ctx.u('header', 8)
    n.nma_header = hdr
    n.dsm[5] = ctx._mkbuf(k['bits']+[0]*(2000-len(k['bits'])))
    ok = n.decode_dsm_kroot(5)
    l_pdk = nb*104-104-KLEN[ks]-512
    if l_pdk < 0:
        ctx.check('too short', not ok)
        return
    H = ctx._tobits(hdr, 8)
    alg = {0: 'SHA256', 2: 'SHA3_256'}[hf]
    ctx.eq('one hash', len(c.hashes), 1)
    ctx.eq('algorithm', c.hashes[0][0], alg)
    same(ctx, 'padding hash over', c.hashes[0][1],
         H+k['signed']+k['ds'])
    want = c.hashes[0][2][:l_pdk//8]
    ctx.check('accepted iff the padding agrees',
              (want == ctx._mkbuf(k['pdk'])) == bool(ok)
              if not ctx.symbolic else
              (want == ctx._mkbuf(k['pdk']) if ok else
               ctx.not_(want == ctx._mkbuf(k['pdk']))))
    st = bool(n.status & c.O.uOSNMA.ROOTKEY_LOADED)
    ctx.check('loaded iff accepted', st == bool(ok))
    ctx.check('not yet verified', not n.status & c.O.uOSNMA.ROOTKEY_VERIFIED)
    if not ok:
        return
    ctx.eq('week', n.wn, k['wn'])
    ctx.eq('hour', n.towh, k['towh'])
    ctx.eq('hash function', n.hf, hf)
    ctx.eq('key size', n.ks, ks)
    ctx.eq('tag size', n.ts, 9)
    ctx.eq('mac function', n.mf, 0)
    ctx.eq('look-up table', n.maclt, 27)
    ctx.eq('chain', n.cidkr, k['cidkr'])
    ctx.eq('public key', n.pkid, 3)
    same(ctx, 'alpha', bits(n.alp), k['alp'])
    same(ctx, 'root key', bits(n.kroot), k['kroot'])
    same(ctx, 'signature', bits(n.ds), k['ds'])
    good = ctx.choice('sig', [True, False, None])
    n.pk_list = {2: c.pubkey('k2'), 4: c.pubkey('k4')}
    if good is not None:
        n.pk_list[3] = c.pubkey('k3', good)
    r = n.verify_root_key()
    ctx.check('root key accepted iff the signature verifies',
              bool(r) == bool(good))
    ctx.check('status', bool(n.status & c.O.uOSNMA.ROOTKEY_VERIFIED) ==
              bool(good))
    if good is None:
        ctx.eq('no other key used', len(c.sigs), 0)
        return
    name, rs, m, a = c.sigs[0]
    ctx.eq('key used', name, 'k3')
    ctx.eq('digest', a, alg)
    same(ctx, 'signed message', m, H+k['signed'])
    ctx.eq('r', rs[0], int_of(ctx, k['ds'][:256]))
    ctx.eq('s', rs[1], int_of(ctx, k['ds'][256:]))


def int_of(ctx, b):
    if ctx.symbolic:
        from engine.sym import SymNum
        return SymNum.from_bits(list(reversed(b)))
    return int(''.join(map(str, b)), 2)


@harness(cases=[[mid, t] for mid in (0, 5, 10, 15) for t in (0, 1)],
         thorough=lambda t: [[m, t] for m in range(16) for t in (0, 1)],
         witnesses=1)
def h_pkr(ctx, case):
    """a new public key needs the Merkle tree root"""
    mid, twist = case
    n, c = receiver(ctx)
    n.hf = 0
    m = ctx.msg()
    m.put(4, 7)
    m.put(4, mid)
    itn = []
    for k in range(4):
        a = len(m)
        m.any(f'itn{k}', 256)
        itn.append(m.b[a:])
    m.put(4, 1)
    pid = m.u('npkid', 4)
    ctx.assume(pid == 9)
    a = len(m)
    m.any('npk', 264)
    npk = m.b[a:]
    mi = m.b[8+1024:]
    a = len(m)
    m.any('pdp', 13*104-len(m))
    pdp = m.b[a:]
    root = ctx.bytes('root', 32)
    n.root_mt = root
    n.dsm[12] = ctx._mkbuf(list(m.b)+[0]*(2000-len(m)))
    pts = []

    def dec(t, p):
        pts.append((t, bits(p)))
        return 'PK'
    n.pubkey_decompress = dec
    ok = n.decode_dsm_pkr(12)
    h = c.hashes
    same(ctx, 'padding hash', h[0][1], bits(root)+mi)
    pad = h[0][2][:len(pdp)//8] == ctx._mkbuf(pdp)
    if len(h) == 1:
        ctx.check('rejected', not ok and not n.pk_list)
        ctx.check('because of the padding', ctx.not_(pad)
                  if ctx.symbolic else not pad)
        return
    ctx.check('padding', pad)
    ctx.eq('hashes', len(h), 6)
    same(ctx, 'leaf', h[1][1], mi)
    for k in range(4):
        x, s = bits(h[1+k][2]), itn[k]
        same(ctx, f'node {k}', h[2+k][1],
             s+x if mid >> k & 1 else x+s)
    top = h[5][2] == root
    if ok:
        ctx.check('reaches the root', top)
        ctx.check('stored', n.pk_list == {9: 'PK'})
        ctx.eq('type', pts[0][0], 1)
        same(ctx, 'point', pts[0][1], npk)
    else:
        ctx.check('does not reach the root', ctx.not_(top)
                  if ctx.symbolic else not top)
        ctx.check('not stored', n.pk_list == {})


def setup_chain(ctx, n, c, ks=4, hf=0):
    n.ks, n.hf = ks, hf
    n.alp = ctx.bytes('alpha', 6)


@harness(cases=[[ks, ki, w] for ks, ki in
                [(4, 1), (4, 3), (4, 6), (0, 2), (8, 2)]
                for w in ('start', 'any')], witnesses=2)
def h_chain(ctx, case):
    """K(l-1) = trunc(hash(K(l) | GST(l-1) | alpha)), any time"""
    ks, ki, w = case
    n, c = receiver(ctx)
    setup_chain(ctx, n, c, ks)
    lk = KLEN[ks]
    key = ctx.bytes('key', lk//8)
    wn = ctx.int('wn', 1, 4095)
    q = ctx.int('q', 0, 8) if w == 'start' else ctx.int('q', 6, 20159)
    out = n.update_key_chain(key, wn, 30*q, ki)
    ctx.eq('steps', len(c.hashes), ki)
    prev = bits(key)
    for k, (a, m, d) in enumerate(c.hashes):
        ctx.eq('algorithm', a, 'SHA256')
        ctx.eq('size', len(m), lk+32+48)
        same(ctx, f'key {k}', m[:lk], prev)
        g = int_of(ctx, m[lk:lk+12])
        t = int_of(ctx, m[lk+12:lk+32])
        ctx.eq(f'GST {k}', g*604800+t, wn*604800+30*q-30*(k+1))
        ctx.check(f'tow {k}', t < 604800)
        same(ctx, f'alpha {k}', m[lk+32:], bits(n.alp))
        prev = bits(d)[:lk]
    same(ctx, 'result', bits(out), prev)


@harness(cases=[[s, d] for s in ('root', 'chain', 'forged', 'none')
                for d in (1, 2, 4)], witnesses=2)
def h_accept(ctx, case):
    """a key is accepted only if it leads to an authentic one"""
    how, d = case
    n, c = receiver(ctx)
    setup_chain(ctx, n, c)
    U = c.O.uOSNMA
    wn, tow = 1263, 604800-60
    T0 = wn*604800+tow           # subframe of the newest authentic key
    n.wn, n.towh = wn, 167       # root: 03600 s of the last hour
    n.kroot = ctx.bytes('kroot', 16)
    n.key = ctx.bytes('last', 16)
    n.key_p = ctx.bytes('before', 16)       # whatever the page before held
    key = ctx.bytes('key', 16)
    if how == 'root':
        n.status = U.ROOTKEY_VERIFIED
        T = wn*604800+167*3600+30*(d-1)
        steps, target = d, n.kroot
    elif how == 'none':
        n.status = 0
        T, steps, target = T0+30, None, None
    else:
        n.status = U.ROOTKEY_VERIFIED | U.KEYCHAIN_VERIFIED
        n.gst_sf_c = n.set_gst_sf(T0//604800, T0 % 604800)
        T = T0+30*d
        steps, target = d, n.key
        if how == 'chain' and d == 1:
            n.key_p = n.key
    w, t = T//604800, T % 604800
    n.gst_tow = t
    n.gst_sf = n.set_gst_sf(w, t)
    ok = n.verify_key_chain(key, w, t)
    st = bool(n.status & U.KEYCHAIN_VERIFIED)
    ctx.check('status', st == bool(ok))
    if how == 'none':
        ctx.check('no root key', not ok)
        return
    if ok:
        # the last hash of a chain starting at the key equals the authentic key
        ctx.check('steps', len(c.hashes) == steps)
        same(ctx, 'starts at the key', c.hashes[0][1][:128], bits(key))
        ctx.check('ends at an authentic key',
                  c.hashes[-1][2][:16] == target)
    elif len(c.hashes) == steps:
        e = c.hashes[-1][2][:16] == target
        ctx.check('an authentic key is not rejected',
                  ctx.not_(e) if ctx.symbolic else not e)


@harness(cases=[[ks, ts] for ks in (0, 2, 4, 5, 8)
                for ts in (5, 6, 7, 8, 9)],
         thorough=lambda t: [[ks, ts] for ks in range(9)
                             for ts in (5, 6, 7, 8, 9)], witnesses=1)
def h_mack(ctx, case):
    """tags come from the previous section, the key from the current one"""
    ks, ts = case
    n, c = receiver(ctx)
    n.ks, n.ts = ks, ts
    prn = ctx.choice('prn', [1, 20, 36])
    a, b = msg(ctx, 'first', 480), msg(ctx, 'second', 480)
    n.status = 0
    ctx.check('no root', not n.decode_mack(prn))
    n.status = c.O.uOSNMA.ROOTKEY_LOADED
    n.save_mack(a.buf(60), prn)
    n.save_mack(msg(ctx, 'other', 480).buf(60), 1+prn % 36)
    n.save_mack(b.buf(60), prn)
    ctx.check('decoded', n.decode_mack(prn))
    lt, lk = TLEN[ts], KLEN[ks]
    nt = (480-lk)//(lt+16)
    ctx.eq('number of tags', n.nt, nt)
    same(ctx, 'key', bits(n.key_c), b.b[nt*(lt+16):nt*(lt+16)+lk])
    A = a.b
    tag, seq, cop = n.decode_tags_info(0)
    same(ctx, 'tag 0', bits(tag)[:lt], A[:lt])
    same(ctx, 'MACSEQ', bits(seq)[:12], A[lt:lt+12])
    ctx.eq('cop 0', cop, int_of(ctx, A[lt+12:lt+16]))
    for k in range(1, nt):
        o = k*(lt+16)
        tag, prn_d, adkd, cop = n.decode_tags_info(k)
        same(ctx, f'tag {k}', bits(tag)[:lt], A[o:o+lt])
        o += lt
        ctx.eq(f'prn_d {k}', prn_d, int_of(ctx, A[o:o+8]))
        ctx.eq(f'adkd {k}', adkd, int_of(ctx, A[o+8:o+12]))
        ctx.eq(f'cop {k}', cop, int_of(ctx, A[o+12:o+16]))


def tagged(ctx, n, c, mid, tow):
    """receiver with symbolic tags of the table's size"""
    nt, t = MACLT[mid]
    slots = t.split()[:nt] if tow % 60 == 0 else t.split()[nt:]
    ks, ts = SIZES[nt]
    n.ks, n.ts, n.maclt, n.nt = ks, ts, mid, nt
    lt = TLEN[ts]
    m = ctx.msg()
    info = []
    for k in range(nt):
        m.any(f'tag{k}', lt)
        if k == 0:
            m.any('macseq', 12)
            m.any('cop0', 4)
            info.append(None)
        else:
            a = len(m)
            d, ad = m.u(f'prn_d{k}', 8), m.u(f'adkd{k}', 4)
            m.any(f'cop{k}', 4)
            info.append((d, ad, m.b[a:]))
    n.tag = m.buf((len(m)+7)//8)
    n.status = c.O.uOSNMA.ROOTKEY_LOADED | c.O.uOSNMA.ROOTKEY_VERIFIED
    n.gst_sf_p = n.set_gst_sf(1263, tow)
    return slots, info, list(m.b), lt


TAB = [[m, p] for m in MACLT for p in (0, 30)]


@harness(cases=TAB, witnesses=1)
def h_maclt(ctx, case):
    """tag sequence agrees with the look-up table"""
    mid, p = case
    n, c = receiver(ctx)
    tow = 345600+p
    slots, info, m, lt = tagged(ctx, n, c, mid, tow)
    prn = n.prn_a = ctx.choice('prn', [7, 31])
    if '???' in slots:
        ctx.assume(info[slots.index('???')][1] == n.adkd_t[37][9])
    ok = n.verify_maclt()
    conds = []
    for k in range(1, n.nt):
        d, ad, _ = info[k]
        if slots[k] in ('FLX', '???'):
            continue
        conds.append(ad == int(slots[k][:2]))
        if slots[k][2] == 'S':
            conds.append(d == prn)
    c_ = ctx.and_(*conds)
    ctx.check('accepted iff the slots agree', c_ if ok else ctx.not_(c_))


@harness(cases=TAB, witnesses=1)
def h_macseq(ctx, case):
    """MACSEQ covers the sender, the time and the flexible slots"""
    mid, p = case
    n, c = receiver(ctx)
    tow = 345600+p
    slots, info, m, lt = tagged(ctx, n, c, mid, tow)
    n.prn_a = prn = ctx.int('prn', 1, 36)
    n.mf = mf = ctx.choice('mf', [0, 1])
    n.key = ctx.bytes('key', 16)
    ok = n.verify_macseq()
    ctx.eq('one MAC', len(c.macs), 1)
    kind, key, mm, d = c.macs[0]
    ctx.eq('function', kind, ['HMAC', 'CMAC'][mf])
    same(ctx, 'key', key, bits(n.key))
    want = ctx._tobits(prn, 8)+[int(x) for x in f'{1263:012b}{tow:020b}']
    for k in range(1, n.nt):
        if slots[k] == 'FLX':
            want = want+info[k][2]
    same(ctx, 'message', mm, want)
    e = int_of(ctx, bits(d)[:12]) == int_of(ctx, m[lt:lt+12])
    ctx.check('accepted iff equal', e if ok else ctx.not_(e))


def words(ctx, p, iod=None, only=None):
    """I/NAV words 1..10 of a subframe; words 1..4 carry the issue"""
    out = {}
    for k in only or range(1, 11):
        m = ctx.msg()
        m.put(6, k)
        if 1 <= k <= 4:
            m.put(10, 77 if iod is None else iod)
        m.any(f'{p}w{k}', 128-len(m))
        out[k] = m
    return out


def store(n, ws, prn, tow0):
    for k, m in ws.items():
        n.save_gal_inav(m.buf(16), prn, tow0+k)


def covered(ctx, ws, adkd):
    if adkd == 4:
        return ws[6].b[6:105]+ws[10].b[86:128]
    return (ws[1].b[6:126]+ws[2].b[6:126]+ws[3].b[6:128]+ws[4].b[6:126] +
            ws[5].b[6:73])


@harness(cases=[[adkd, d, k, ts] for adkd, d, k, ts in
                [(0, 12, 1, 9), (0, 12, 3, 9), (0, 5, 2, 8), (12, 12, 5, 9),
                 (12, 5, 4, 6), (4, 12, 3, 9), (4, 255, 3, 9), (0, 12, 1, 5),
                 (0, 5, 2, 7)]], witnesses=2)
def h_tag(ctx, case):
    """a tag covers sender, time, counter, status and the navigation data"""
    adkd, prn_d, ctr, ts = case
    lt = TLEN[ts]
    n, c = receiver(ctx)
    n.ks, n.ts = 4, ts
    n.mf = mf = ctx.choice('mf', [0, 1])
    n.key = ctx.bytes('key', 16)
    hdr = ctx.u('header', 8)
    n.nma_header = hdr
    n.prn_a = 12
    wn, q = ctx.int('wn', 0, 4095), ctx.int('q', 0, 20159)
    g = n.set_gst_sf(wn, 30*q)
    src = prn_d if adkd != 4 and prn_d != 255 else 12
    ws = words(ctx, 'a')
    T = 345601
    store(n, ws, src, T-1)
    n.save_gal_inav(words(ctx, 'b', only=[9])[9].buf(16), src, T+30)
    n.save_gal_inav(words(ctx, 'c', only=[9])[9].buf(16), src, T+60)
    nav = n.gen_gal_utcmsg() if adkd == 4 else n.gen_gal_inavmsg(src)
    ctx.check('available', nav is not None)
    tb = msg(ctx, 'tag', lt)
    tag = tb.buf((lt+7)//8)
    t = c.O.taginfo(g, prn_d, 12, adkd, 0, tag, ctr, nav)
    ok = n.verify_navmsg(t)
    kind, key, mm, d = c.macs[0]
    ctx.eq('function', kind, ['HMAC', 'CMAC'][mf])
    same(ctx, 'key', key, bits(n.key))
    want = [] if ctr == 1 else ctx._tobits(12 if prn_d == 255 else prn_d, 8)
    want = want+ctx._tobits(12, 8)+ctx._tobits(wn, 12)
    want += ctx._tobits(30*q, 20)+ctx._tobits(ctr, 8)
    want += ctx._tobits(hdr, 8)[:2]+covered(ctx, ws, adkd)
    want += [0]*(-len(want) % 8)
    same(ctx, 'message', mm, want)
    e = int_of(ctx, bits(d)[:lt]) == int_of(ctx, tb.b)
    ctx.check('accepted iff equal', e if ok else ctx.not_(e))
    n.save_auth_nav(ok, t)
    got = {(p, i): v for p, x in n.vstatus.items() for i, v in x.items()}
    if not ok:
        ctx.check('nothing recorded', got == {})
    elif adkd == 4:
        ctx.check('UTC recorded', got == {(37, 0): 1})
    else:
        ctx.check('data recorded', len(got) == 1 and n.chk_nav(prn_d, 77) and
                  not n.chk_nav(prn_d, 78) and not n.chk_nav(prn_d+1, 77))


@harness(cases=[[w] for w in range(1, 6)], witnesses=1)
def h_mixed(ctx, case):
    """data of two issues or a missing word are not offered"""
    n, c = receiver(ctx)
    ws = words(ctx, 'a')
    w = case[0]
    how = ctx.choice('how', ['missing', 'issue', 'none'])
    if how == 'missing':
        del ws[w]
    elif how == 'issue' and w < 5:
        ws[w] = words(ctx, 'x', iod=78, only=[w])[w]
    store(n, ws, 4, 1200)
    for k in (1, 2):
        n.save_gal_inav(words(ctx, f'f{k}', only=[9])[9].buf(16), 4,
                        1201+30*k)
    nav = n.gen_gal_inavmsg(4)
    good = how == 'none' or how == 'issue' and w == 5
    ctx.check('offered iff complete', (nav is not None) == good)
    ctx.check('other satellite', n.gen_gal_inavmsg(5) is None)


@harness(witnesses=2)
def h_delay(ctx, case):
    """the data offered are those of two subframes ago"""
    n, c = receiver(ctx)
    seq = [words(ctx, f's{k}', only=[1, 2, 3, 4, 5, 6, 10])
           for k in range(4)]
    n.prn_a = 4
    for k, ws in enumerate(seq):
        if k >= 2:
            pass
        for w, m in ws.items():
            n.save_gal_inav(m.buf(16), 4, 1200+30*k+(1 if w == 1 else w+9))
        if k >= 2:
            same(ctx, f'navigation data at {k}', bits(n.gen_gal_inavmsg(4)),
                 covered(ctx, seq[k-2], 0)+[0]*3)
            same(ctx, f'UTC data at {k}', bits(n.gen_gal_utcmsg()),
                 covered(ctx, seq[k-2], 4)+[0]*3)
        else:
            ctx.check('nothing yet', n.gen_gal_inavmsg(4) is None)


@harness(witnesses=2)
def h_page(ctx, case):
    """I/NAV page pair: 128 data bits and 40 OSNMA bits"""
    n, c = receiver(ctx)
    m = ctx.msg()
    m.put(2, 0)
    m.any('even', 112)
    m.any('tail', 6)
    m.put(2, 2)
    m.any('odd', 16)
    m.any('nma', 40)
    m.any('rest', 240-len(m))
    nav, nma = n.load_gal_inav(m.buf(30))
    same(ctx, 'data', bits(nav), m.b[2:114]+m.b[122:138])
    same(ctx, 'nma', bits(nma), m.b[138:178])


HK = 0b01010010        # test status, chain 1, nominal


def hk(ctx, did, bid, payload, hdr=HK):
    m = ctx.msg()
    m.put(8, hdr)
    m.put(4, did)
    m.put(4, bid)
    m.b.extend(payload)
    return m.buf(15)


ORD = {'up': [0, 1, 2, 3, 4, 5, 6, 7], 'down': [7, 6, 5, 4, 3, 2, 1, 0],
       'mix': [3, 7, 1, 0, 5, 2, 6, 4], 'dup': [3, 7, 3, 1, 0, 0, 5, 2, 6, 4]}


@harness(cases=[[o] for o in ORD], witnesses=1)
def h_assembly(ctx, case):
    """DSM blocks in any order from any satellite"""
    n, c = receiver(ctx)
    k = kroot(ctx, 8, 4, 0)
    ctx.assume(k['pkid'] == 3)
    got = []
    n.decode_dsm_kroot = lambda did: got.append(
        (did, bits(n.dsm[did])[:8*104])) or True
    n.cid0 = 1
    order = ORD[case[0]]
    for i, b in enumerate(order):
        r = n.decode_hk(hk(ctx, 4, b, k['bits'][104*b:104*b+104]), 1+i)
        ctx.check(f'complete at the last block {i}',
                  bool(r) == (i == len(order)-1))
    ctx.eq('delivered once', len(got), 1)
    same(ctx, 'message', got[0][1], k['bits'])
    for h in (0b00010010, 0b11010010, 0b01000000 | 1):
        ctx.check('unusable status', not n.decode_hk(
            hk(ctx, 4, 1, k['bits'][104:208], h), 1))


@harness(cases=[['same'], ['forged'], ['badpad']], witnesses=2)
def h_renew(ctx, case):
    """root-key parameters that no signature covers are not trusted"""
    n, c = receiver(ctx)
    U = c.O.uOSNMA
    n.nma_header = HK
    n.cid0 = 1
    a = kroot(ctx, 8, 4, 0, p='a')
    b = kroot(ctx, 8, 4, 0, p='b') if case[0] != 'same' else a
    for k in (a, b):
        ctx.assume(k['pkid'] == 3)
    n.pk_list = {3: c.pubkey('k', True)}
    n.dsm[4] = ctx._mkbuf(a['bits']+[0]*(2000-832))
    if not n.decode_dsm_kroot(4):
        return
    n.verify_root_key()
    ctx.check('verified', bool(n.status & U.ROOTKEY_VERIFIED))
    n.pk_list = {3: c.pubkey('k', case[0] == 'same')}
    n.dsm[5] = ctx._mkbuf(b['bits']+[0]*(2000-832))
    n.decode_dsm_kroot(5)
    if n.status & U.ROOTKEY_LOADED and not n.status & U.ROOTKEY_VERIFIED:
        n.verify_root_key()
    if n.status & U.ROOTKEY_VERIFIED:
        same(ctx, 'the root key is the signed one', bits(n.kroot),
             a['kroot'])
        same(ctx, 'alpha', bits(n.alp), a['alp'])
        ctx.eq('week', n.wn, a['wn'])
        ctx.eq('hour', n.towh, a['towh'])


W0, T0 = 1263, 345600          # GST of the subframe before the tags


def feed(n, wn, tow, prn, head, mack, skip=(), order=None):
    """the 15 pages of a subframe: one byte of HKROOT, four of MACK"""
    st = []
    for i in order or range(15):
        if i not in skip:
            n.prn_a = prn
            p = n.ctx_join(head[i:i+1], mack[4*i:4*i+4])
            st.append(n.decode(p, wn+1024, tow+2*i, prn))
    return st


@harness(cases=[['ok', 9], ['lost', 9], ['lost1', 9], ['gap', 9],
                ['noroot', 9], ['ok', 6], ['next', 9]], witnesses=2)
def h_decode(ctx, case):
    """two subframes: what is reported authentic, and because of what"""
    how, ts = case
    n, c = receiver(ctx)
    n.ctx_join = lambda *b: ctx.join(*b)
    U = c.O.uOSNMA
    setup_chain(ctx, n, c)
    n.ts, n.mf, n.maclt = ts, 0, 27 if ts == 9 else 31
    n.ks = 4 if ts == 9 else 8
    lt, lk = TLEN[ts], KLEN[n.ks]
    nt = (480-lk)//(lt+16)
    n.cid0 = 1
    n.nma_header = HK
    n.status = U.ROOTKEY_LOADED | U.ROOTKEY_VERIFIED | U.KEYCHAIN_VERIFIED
    if how == 'noroot':
        n.status = U.ROOTKEY_LOADED
        n.pk_list, n.pkid, n.ds = {}, 3, ctx.bytes('sig', 64)
        n.did0 = 4
    # the newest authentic key belongs to the subframe of the tags
    n.key = last = ctx.bytes('last', lk//8)
    n.gst_sf_c = n.set_gst_sf(W0, T0)
    assert nt == MACLT[n.maclt][0]
    m = ctx.msg()
    slots = MACLT[n.maclt][1].split()
    slots = slots[nt:] if how == 'next' else slots[:nt]
    tags = []
    for k in range(nt):
        a = len(m)
        m.any(f'tag{k}', lt)
        tags.append(m.b[a:])
        if k == 0:
            m.any('seq', 12)
            seq = m.b[-12:]
            m.put(4, 0)
        else:
            m.put(8, 12 if slots[k][2] == 'S' else 5)
            m.put(4, int(slots[k][:2]))
            m.put(4, 0)
    m.any('key1', 480-len(m))
    m2 = ctx.msg()
    m2.any('x2', nt*(lt+16))
    a = len(m2)
    m2.any('key2', lk)
    key2 = m2.b[a:]
    m2.any('y2', 480-len(m2))
    # navigation data of the satellite two subframes earlier
    ws = words(ctx, 'a')
    store(n, ws, 12, T0-60)
    for k in (1, 2):
        n.save_gal_inav(words(ctx, f'f{k}', only=[9])[9].buf(16), 12,
                        T0-59+30*k)
    h = hk(ctx, 4, 2, ctx.msg().b+[0]*104)
    n.save_mack(m.buf(60), 12)
    T = T0+30 if how != 'next' else T0+60
    skip = ()
    if how == 'lost':
        skip = (ctx.choice('page', [3, 14]),)
    if how == 'lost1':
        skip = (0,)
    feed(n, W0, T, 12, h, m2.buf(60), skip)
    got = {(p, i): v for p, x in n.vstatus.items() for i, v in x.items()}
    if how in ('lost', 'lost1', 'noroot'):
        ctx.check('nothing authenticated', got == {} and not c.macs)
        return
    if how == 'next':
        # the tags of another subframe: time in the MAC tells them apart
        ctx.eq('steps', len(c.hashes), 2)
        if c.macs:
            same(ctx, 'time', c.macs[0][2][8:40],
                 [int(x) for x in f'{W0:012b}{T0+30:020b}'])
        return
    ctx.check('key checked', len(c.hashes) == 1)
    same(ctx, 'chain starts at the key', c.hashes[0][1][:lk], key2)
    chain = c.hashes[0][2][:lk//8] == last
    if not c.macs:
        ctx.check('key rejected', ctx.not_(chain) if ctx.symbolic
                  else not chain)
        ctx.check('nothing authenticated', got == {})
        return
    ctx.check('key accepted', chain)
    for k, (a, key, mm, d) in enumerate(c.macs):
        same(ctx, f'disclosed key {k}', key, key2)
    e = int_of(ctx, bits(c.macs[0][3])[:12]) == int_of(ctx, seq)
    if len(c.macs) == 1:
        ctx.check('MACSEQ rejected', ctx.not_(e))
        ctx.check('nothing authenticated', got == {})
        return
    ctx.check('MACSEQ accepted', e)
    own = [k for k in range(nt) if k == 0 or slots[k] in ('00S', '04S')]
    ctx.eq('tags computed', len(c.macs)-1, len(own))
    nav = utc = 0
    for q, k in enumerate(own):
        d, mm = c.macs[1+q][3], c.macs[1+q][2]
        ad = 4 if slots[k] == '04S' else 0
        want = [] if k == 0 else [int(x) for x in f'{12:08b}']
        want = want+[int(x) for x in f'{12:08b}{W0:012b}{T0:020b}{k+1:08b}']
        want += [0, 1]+covered(ctx, ws, ad)
        want += [0]*(-len(want) % 8)
        same(ctx, f'message {k}', mm, want)
        e = int_of(ctx, bits(d)[:lt]) == int_of(ctx, tags[k])
        nav = nav+ctx.ite(e, 1 if ad == 0 else 0, 0)
        utc = utc+ctx.ite(e, 1 if ad == 4 else 0, 0)
    ctx.eq('navigation data authenticated', got.pop((12, 77), 0), nav)
    ctx.eq('UTC authenticated', got.pop((37, 0), 0), utc)
    ctx.check('nothing else', got == {})


@harness(cases=[[list(x)] for x in
                [(300,), (270,), (330,), (330, 300), (270, 300, 330),
                 (300, 300), (330, 330, 300)]], witnesses=2)
def h_slow(ctx, case):
    """slow-MAC tags are verified once, ten subframes later"""
    ages, = case
    n, c = receiver(ctx)
    n.ctx_join = lambda *b: ctx.join(*b)
    U = c.O.uOSNMA
    n.flg_slowmac = True
    n.ks, n.ts, n.mf, n.maclt, n.hf = 4, 9, 0, 27, 0
    n.cid0 = 1
    n.nma_header = HK
    n.status = U.ROOTKEY_LOADED | U.ROOTKEY_VERIFIED | U.KEYCHAIN_VERIFIED
    n.verify_maclt = n.verify_macseq = lambda: True
    n.verify_key_chain = lambda *a: True
    n.gen_gal_inavmsg = n.gen_gal_utcmsg = lambda *a: None
    st = []
    for k, a in enumerate(ages):
        ws = words(ctx, f's{k}', iod=40+k)
        t = T0-a
        b = ctx._mkbuf(covered(ctx, ws, 0)+[0]*3)
        tag = ctx.bytes(f'tag{k}', 5)
        n.tag_list.append(c.O.taginfo(n.set_gst_sf(W0, t), 5+k, 12, 12, 0,
                                      tag, 5, b))
        st.append((t, ws, tag, 5+k, 40+k, a))
    m = ctx.msg()
    m.any('mack', 480)
    h = hk(ctx, 4, 2, [0]*104)
    feed(n, W0, T0+30, 20, h, ctx._mkbuf([0]*480))
    due = [x for x in st if x[5] == 300]
    ctx.eq('verified', len(c.macs), len(due))
    got = {(p, i): v for p, x in n.vstatus.items() for i, v in x.items()}
    for x, (a, key, mm, d) in zip(due, c.macs):
        t, ws, tag, prn, iod, _ = x
        want = [int(v) for v in f'{prn:08b}{12:08b}{W0:012b}{t:020b}'
                f'{5:08b}']+[0, 1]+covered(ctx, ws, 0)
        want += [0]*(-len(want) % 8)
        same(ctx, f'message {prn}', mm, want)
        e = d[:5] == tag
        r = got.pop((prn, iod), 0)
        if ctx.symbolic:
            ctx.check('recorded iff equal', e if r else ctx.not_(e))
        else:
            ctx.check('recorded iff equal', bool(r) == e)
        ctx.check('once', r <= 1)
    ctx.check('nothing else', got == {})
    feed(n, W0, T0+30, 21, h, ctx._mkbuf([0]*480))
    ctx.eq('not verified again', len(c.macs), len(due))
