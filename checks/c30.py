"""C30: QZSS SLAS (L1S) messages"""
import numpy as np

from engine.api import harness
from cssrlib import dgps, gnss
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gtime_t, rCST, uGNSS

BOUNDS = ['messages of 250 bits; masks of up to 23 satellites; sequences of '
          'one mask, one or two issue messages and corrections',
          'disaster reports (message types 43 and 44) are outside: their code '
          'tables are not part of the tree',
          'corrections of more than 14 satellites in one message are '
          'outside the format: the first 14 count']
SYS = [('G', uGNSS.GPS, 64, 0), ('J', uGNSS.QZS, 9, 192),
       ('R', uGNSS.GLO, 36, 0), ('E', uGNSS.GAL, 36, 0),
       ('C', uGNSS.BDS, 36, 0)]
PRE = [0x53, 0x9a, 0xc6]
M = [{'G': [1, 7, 32], 'J': [1, 4], 'E': [36], 'C': [19], 'R': [24]},
     {'G': [2, 5], 'C': [1, 36]},
     {'G': list(range(1, 19)), 'J': [2, 3, 9], 'E': [11, 12]}]


def sats(mask):
    return [gnss.prn2sat(y, p+o) for s, y, _, o in SYS
            for p in mask.get(s, [])]


def head(ctx, mt):
    m = ctx.msg()
    m.put(8, PRE[0])
    m.put(6, mt)
    return m


def mask_msg(ctx, mask, iodp):
    m = head(ctx, 48)
    m.put(2, iodp)
    for s, _, n, _ in SYS:
        for k in range(n):
            m.put(1, int(k+1 in mask.get(s, [])))
    return m.buf(32)


def iod_msg(ctx, d, ns, iodp, iodi, have, pre):
    """issue of data of the satellites with positions have"""
    m = head(ctx, 49)
    m.put(2, iodi)
    for k in range(23):
        m.put(1, int(k in have))
    v = {k: m.u(f'{pre}n{k}', 8) for k in have}
    m.pad(223-len(m))
    m.put(2, iodp)
    return m.buf(32), v


def cor_msg(ctx, iodp, iodi, code, h, have, pre):
    m = head(ctx, 50)
    m.put(2, iodp)
    m.put(2, iodi)
    m.put(6, code)
    m.put(1, h)
    for k in range(23):
        m.put(1, int(k in have))
    v = {k: m.s(f'{pre}p{k}', 12) for k in have[:14]}
    m.any(pre+'crc', max(0, 250-len(m)))
    return m.buf(32), v


def decoder(ctx):
    # the decoders of disaster reports need tables which are not in the tree
    ctx.patch(dgps, 'jmaDec', lambda *a, **k: None)
    ctx.patch(dgps, 'camfDec', lambda *a, **k: None)
    d = dgps.dgpsDec()
    d.monlevel = 0
    d.time = gnss.gpst2time(2300, 1000)
    return d


@harness(cases=[[k] for k in range(6)], witnesses=2)
def h_station(ctx, case):
    """positions of the monitoring stations of one message"""
    d = decoder(ctx)
    old = np.array(d.posr, dtype=float)
    m = head(ctx, 47)
    empty = case[0]-1
    code = [5, 0, 62, 31, 17]
    v = {}
    for k in range(5):
        if k == empty:
            m.put(6, 63)
            m.any('e', 36)
            continue
        m.put(6, code[k])
        v[code[k]] = m.s(f'lat{k}', 15), m.s(f'lon{k}', 15), m.u(f'h{k}', 6)
    m.any('crc', 26)
    d.decode_cssr(m.buf(32), 0)
    for c in range(63):
        if c in v:
            a, o, h = v[c]
            w = [a*0.005*rCST.D2R, (o*0.005+115)*rCST.D2R, h*50.0-100]
        else:
            w = [float(x) for x in old[c]]
        for j in range(3):
            ctx.close('position', d.posr[c, j], w[j], 1e-9)


@harness(cases=[[s, p] for s in range(5) for p in (0, 1)], witnesses=2)
def h_mask(ctx, case):
    """satellites of the mask, any mask bits of one system at a time"""
    si, part = case
    d = decoder(ctx)
    m = head(ctx, 48)
    iodp = m.u('iodp', 2)
    want = []
    for j, (s, y, n, o) in enumerate(SYS):
        if j != si:
            for k in range(n):
                on = k in (0, 3)
                m.put(1, int(on))
                if on:
                    want.append((y, k+1+o))
            continue
        n0 = 8*part if n > 10 else 4*part
        for k in range(n):
            on = ctx.choice(f'b{k}', [0, 1]) if n0 <= k < n0+4 else 0
            m.put(1, on)
            if on:
                want.append((y, k+1+o))
    d.decode_cssr(m.buf(32), 0)
    ctx.eq('issue', d.iodp, iodp)
    want = [gnss.prn2sat(*w) for w in want]
    ctx.check('satellites', list(d.sat) == want and d.nsat == len(want))


@harness(cases=[[k] for k in range(3)], witnesses=2, max_paths=3000)
def h_seq(ctx, case):
    """issues and corrections of the satellites named, only if the issue
    numbers match; those of the station addressed only"""
    mask = M[case[0]]
    sat = sats(mask)
    n = len(sat)
    d = decoder(ctx)
    d.decode_cssr(mask_msg(ctx, mask, 1), 0)
    ctx.check('mask', list(d.sat) == sat)
    ip = ctx.choice('ip', [1, 2])
    sel = {0: [0, 2, 3, 7], 1: [0, 1, 3], 2: [0, 5, 11, 22]}[case[0]]
    b, iod = iod_msg(ctx, d, n, ip, 3, sel, 'a')
    d.decode_cssr(b, 0)
    got = ip == 1
    iods = {sat[k]: x for k, x in iod.items()} if got else {}
    # a second message of issues
    if ctx.choice('second', [0, 1]):
        # all satellites, or without one of those named before
        all_ = [k for k in range(n)
                if k != ctx.choice('left out', [-1, sel[0], sel[2]])]
        b, iod2 = iod_msg(ctx, d, n, 1, 2, all_, 'b')
        d.decode_cssr(b, 0)
        iods = {sat[k]: x for k, x in iod2.items()}
        cur = 2
    else:
        cur = 3 if got else -1
    cp, ci, h = ctx.choice('cor', [(1, 3, 0), (1, 2, 0), (2, 3, 0),
                                   (1, 3, 1), (0, 0, 0)])
    code = ctx.choice('code', [0, 3, 31, 62])
    have = {0: [2, 3, 5], 1: [0, 2, 3], 2: list(range(3, 17))}[case[0]]
    t0 = d.time
    b, prc = cor_msg(ctx, cp, ci, code, h, have, 'c')
    d.decode_cssr(b, 0)
    ok = cp == 1 and ci == cur and h == 0 and cur >= 0
    for c in (0, 3, 31, 62):
        lc = d.lc[c+1]
        want = [k for k in have if sat[k] in iods] if ok and c == code else []
        ctx.check('satellites', list(lc.sat_n) == [sat[k] for k in want])
        if not want:
            continue
        ctx.check('no other satellite', sorted(lc.dclk) ==
                  sorted(sat[k] for k in want))
        for k in want:
            ctx.close('correction', lc.dclk[sat[k]], prc[k]*0.04, 1e-9)
            ctx.eq('issue of data', lc.iode[sat[k]], iods[sat[k]])
            for ct in (sCType.CLOCK, sCType.ORBIT):
                ctx.check('time', lc.t0[sat[k]][ct] is t0)
            for j in range(3):
                ctx.eq('no orbit correction', lc.dorb[sat[k]][j], 0)


@harness(cases=[[14], [15], [20]], witnesses=2)
def h_many(ctx, case):
    """at most 14 corrections fit in a message"""
    mask = M[2]
    sat = sats(mask)
    d = decoder(ctx)
    d.decode_cssr(mask_msg(ctx, mask, 0), 0)
    b, iod = iod_msg(ctx, d, 23, 0, 1, list(range(23)), 'a')
    d.decode_cssr(b, 0)
    have = list(range(2, 2+case[0]))
    b, prc = cor_msg(ctx, 0, 1, 7, 0, have, 'c')
    d.decode_cssr(b, 0)
    lc = d.lc[8]
    ctx.check('satellites', list(lc.sat_n) == [sat[k] for k in have[:14]])
    for k in have[:14]:
        ctx.close('correction', lc.dclk[sat[k]], prc[k]*0.04, 1e-9)
        ctx.eq('issue of data', lc.iode[sat[k]], iod[k])


@harness(cases=[[]], witnesses=2)
def h_health(ctx, case):
    """health bits of each constellation"""
    d = decoder(ctx)
    m = head(ctx, 51)
    v = {y: m.u('h'+s, n) for s, y, n, _ in SYS}
    d.decode_cssr(m.buf(32), 0)
    for y, x in v.items():
        ctx.eq('health', d.svh[y], x)


@harness(cases=[[]], witnesses=2)
def h_validity(ctx, case):
    """corrections are dropped 120 s after their reception"""
    mask = M[1]
    sat = sats(mask)
    d = decoder(ctx)
    t0 = d.time
    d.decode_cssr(mask_msg(ctx, mask, 0), 0)
    d.check_validity(t0)
    b, iod = iod_msg(ctx, d, 4, 0, 1, [0, 1, 2, 3], 'a')
    d.decode_cssr(b, 0)
    b, prc = cor_msg(ctx, 0, 1, 3, 0, [0, 1, 3], 'c')
    d.decode_cssr(b, 0)
    ctx.patch(d, 'get_station', lambda r: (3, 50000.0))
    ctx.close('baseline', d.set_dgps_corr(np.zeros(3)), 50.0, 1e-9)
    # the mask is repeated
    d.decode_cssr(mask_msg(ctx, mask, 0), 0)
    dt = ctx.int('dt', 0, 1000)
    d.check_validity(gnss.timeadd(t0, dt*1.0))
    for k in (0, 1, 3):
        old = dt > 120
        ctx.close('correction', d.lc[0].dclk[sat[k]],
                  ctx.ite(old, 0, prc[k]*0.04), 1e-9)
        ctx.check('issue', ctx.ite(old, d.lc[0].iode[sat[k]] == -1,
                                   d.lc[0].iode[sat[k]] == iod[k]))


@harness(cases=[[k] for k in (0, 3, 62)], witnesses=2)
def h_select(ctx, case):
    """the corrections used are those of the nearest station with a known
    position"""
    code = case[0]
    mask = M[1]
    sat = sats(mask)
    d = decoder(ctx)
    ctx.check('nothing before the first corrections',
              d.set_dgps_corr(np.zeros(3)) == -1)
    d.decode_cssr(mask_msg(ctx, mask, 0), 0)
    b, iod = iod_msg(ctx, d, 4, 0, 1, [0, 1, 2, 3], 'a')
    d.decode_cssr(b, 0)
    prc = {}
    for c in (0, 3, 62):
        b, prc[c] = cor_msg(ctx, 0, 1, c, 0, [0, 2], f'c{c}')
        d.decode_cssr(b, 0)
    d.posr = np.zeros((64, 3))
    lat, lon = (ctx.choice('lat', [-0.2, 0.6]), 2.4)
    for c in (0, 3, 62):
        off = 0.01 if c == code else 0.02
        d.posr[c, :] = [lat+off*ctx.choice(f's{c}', [-1, 1]), lon, 10.0]
    ctx.patch(dgps, 'ecef2pos', lambda r: np.array([lat, lon, 0.0]))
    bl = d.set_dgps_corr(np.zeros(3))
    ctx.close('baseline', bl, 0.01*rCST.RE_WGS84*1e-3, 1e-6)
    ctx.check('satellites', list(d.sat_n) == [sat[0], sat[2]])
    for k in (0, 2):
        ctx.close('correction', d.lc[0].dclk[sat[k]], prc[code][k]*0.04, 1e-9)
        ctx.eq('issue', d.lc[0].iode[sat[k]], iod[k])
    ctx.check('issue of the mask', d.iodssr_c[sCType.CLOCK] == 0 and
              d.iodssr_c[sCType.ORBIT] == 0)
