"""C26: Bias-SINEX and ANTEX data: validity, units, frames, interpolation."""
import math

import numpy as np

from engine.api import harness
from cssrlib import gnss, peph
from cssrlib.gnss import Nav, gtime_t, rCST, rSigRnx, uGNSS, uSIG, uTYP

BOUNDS = ['up to three records; whole seconds',
          'ANTEX files with two antennas and two frequencies, 19 or 15 nodes',
          'directions: zenith angle symbolic with the azimuth free, the '
          'rotation from ECEF to the antenna frame replaced by a symbolic '
          'vector (its formula: h_frame)']
T0 = 1704067200  # 2024-01-01


# biases ----------------------------------------------------------------------
@harness(cases=[[n, k] for n in (1, 2, 3) for k in ('osb', 'std', 'dcb')],
         witnesses=2)
def h_lookup(ctx, case):
    """a bias is that of the satellite and signal, valid at the epoch"""
    n, kind = case
    d = peph.biasdec()
    sg = [rSigRnx('GC1C'), rSigRnx('GC1W'), rSigRnx('GL1C')]
    want_sat, want_sig = 5, sg[0]
    rec = []
    for i in range(n):
        sat = ctx.choice(f'sat{i}', [5, 6])
        sig = ctx.choice(f'sig{i}', [0, 1])
        a = ctx.int(f'a{i}', 0, 100000)
        b = ctx.int(f'b{i}', 0, 100000)
        v = ctx.real(f'v{i}', -100, 100)
        s = ctx.real(f's{i}', 0, 10)
        t = gtime_t(T0+a), gtime_t(T0+b)
        if kind == 'dcb':
            d.dcb.append(peph.bias_t(sat, *t, sg[2], sg[sig], v, s))
        else:
            d.osb.append(peph.bias_t(sat, *t, sg[sig], rSigRnx(), v, s))
        rec.append((sat == 5 and sig == 0, a, b, v, s))
    tr = ctx.int('t', 0, 100000)
    time = gtime_t(T0+tr)
    hit = [ctx.and_(ok, tr >= a, tr < b) for ok, a, b, _, _ in rec]
    if kind == 'dcb':
        v, s, code = d.getdcb(want_sat, time, want_sig)
        if v is None:
            ctx.check('no bias', ctx.not_(ctx.or_(*hit)))
            return
        ctx.check('bias', ctx.or_(*[
            ctx.and_(h, ctx._near(v, r[3], 1e-12), ctx._near(s, r[4], 1e-12))
            for h, r in zip(hit, rec)]))
        ctx.check('other signal of the pair', code == sg[2])
        return
    f, j = (d.getosb, 3) if kind == 'osb' else (d.getosbstd, 4)
    v = f(want_sat, time, want_sig)
    if isinstance(v, float) and math.isnan(v):
        ctx.check('no bias', ctx.not_(ctx.or_(*hit)))
        return
    ctx.check('bias', ctx.or_(*[
        ctx.and_(h, ctx._near(v, r[j], 1e-12)) for h, r in zip(hit, rec)]))


def ydoy(t):
    if t is None:
        return '0000:000:00000'
    ep = gnss.time2epoch(gtime_t(int(t)))
    y0 = gnss.epoch2time([ep[0], 1, 1, 0, 0, 0]).time
    return '%04d:%03d:%05d' % (ep[0], (t-y0)//86400+1, (t-y0) % 86400)


def bline(ctx, typ, sys, prn, site, o1, o2, t1, t2, unit, v, s):
    return ' %-4s %s063 %-3s %-9s %-4s %-4s %s %s %-4s ' % (
        typ, sys, prn, site, o1, o2, ydoy(t1), ydoy(t2), unit) + \
        ctx.text(v, '21.4f')+' '+ctx.text(s, '11.6f')


@harness(cases=[['OSB'], ['DSB']], witnesses=2)
def h_parse(ctx, case):
    """records of the bias file are stored for their satellite, signal and
    interval; those of stations and of other receivers are not"""
    typ = case[0]
    day = 86400
    base = ctx.choice('day', [T0, T0-day, T0+59*day, T0+365*day])
    iv = {}
    out = ['%=BIA 1.00 COD', '*', ' OSB  G063 G01           C1C', '+BIAS/SOLUTION',
           '*BIAS SVN_ PRN STATION__ OBS1 OBS2']
    val, rows = {}, []
    sys = ['G', 'R', 'E', 'C', 'J']
    prn = {'G': 'G32', 'R': 'R05', 'E': 'E36', 'C': 'C60', 'J': 'J02'}
    o = {'G': ('C1C', 'C2W', 'L1C', 'L2W'), 'R': ('C1P', 'C2P', 'L1C', 'L2C'),
         'E': ('C1X', 'C5X', 'L1X', 'L5X'), 'C': ('C2I', 'C6I', 'L2I', 'L6I'),
         'J': ('C1C', 'C2L', 'L1C', 'L2L')}
    rest = ctx.choice('site', ['ABMF', 'BRUX'])
    lo, hi = ctx.choice('open', [(0, day), (None, day), (0, None),
                                 (3600, day-1)])
    t1 = None if lo is None else base+lo
    t2 = None if hi is None else base+hi
    for s in sys:
        for k in (0, 2):
            v = ctx.real(f'{s}{k}v', -99999, 99999, res='1/10000')
            d = ctx.real(f'{s}{k}s', 0, 999, res='1/1000000')
            unit = 'cyc' if k and typ == 'DSB' else 'ns'
            site = 'BRUX' if s == 'R' else ''
            out.append(bline(ctx, typ, s, prn[s], site, o[s][k],
                             o[s][k+1] if typ == 'DSB' else '', t1, t2,
                             unit, v, d))
            val[s, k] = v, d
    # a receiver
    w = ctx.real('rcv', -99999, 99999, res='1/10000')
    out.insert(6, bline(ctx, typ, 'G', 'G', 'BRUX00BEL', 'C1C',
                        'C2W' if typ == 'DSB' else '', t1, t2, 'ns', w, 1.0))
    out += ['-BIAS/SOLUTION',
            bline(ctx, typ, 'G', 'G32', '', 'C1C', 'C2W' if typ == 'DSB'
                  else '', t1, t2, 'ns', w, 1.0), '%=ENDBIA']
    d = peph.biasdec()
    d.parse(ctx.file('\n'.join(out)+'\n', 'x.bia'), rest)
    lst = d.dcb if typ == 'DSB' else d.osb
    want = [(s, k) for s in sys for k in (0, 2) if s != 'R' or rest == 'BRUX']
    ctx.check('number of records', len(lst) == len(want))
    if len(lst) != len(want):
        return
    mid = gtime_t(base+day//2)
    for (s, k), r in zip(want, lst):
        sat = gnss.id2sat(prn[s])
        ctx.check('satellite', r.sat == sat)
        ctx.check('signal', r.sig1 == rSigRnx(s+o[s][k]))
        if typ == 'DSB':
            ctx.check('second signal', r.sig2 == rSigRnx(s+o[s][k+1]))
        ctx.close('bias', r.bias, val[s, k][0], 1e-9)
        ctx.close('std', r.std, val[s, k][1], 1e-9)
        if lo is not None:
            ctx.check('start', r.tst.time == t1)
        if hi is not None:
            ctx.check('end', r.ted.time == t2)
        if typ == 'OSB':
            ctx.close('lookup', d.getosb(sat, mid, r.sig1), val[s, k][0],
                      1e-9)
            out_ = (gtime_t(base-1) if lo is not None else None,
                    gtime_t(base+day) if hi is not None else None)
            for t in out_:
                if t is not None:
                    ctx.nan('outside', d.getosb(sat, t, r.sig1))


# antennas --------------------------------------------------------------------
@harness(cases=[['sat'], ['rcv']], witnesses=2)
def h_search(ctx, case):
    """the antenna is that of the satellite (or type) valid at the epoch"""
    kind = case[0]
    lst = []
    name = 7 if kind == 'sat' else 'TRM59800.00     SCIS'
    other = 8 if kind == 'sat' else 'TRM59800.00     NONE'
    rec = []
    for i in range(3):
        p = peph.pcv_t()
        own = ctx.choice(f'own{i}', [True, False])
        if kind == 'sat':
            p.sat, p.type = (name if own else other), 'BLOCK IIF'
        else:
            p.sat, p.type = None, name if own else other
        a, b = ctx.int(f'a{i}', 0, 100000), ctx.int(f'b{i}', 0, 100000)
        op = ctx.choice(f'open{i}', [0, 1, 2]) if i < 2 else 3
        if not op & 1:
            p.ts = gtime_t(T0+a)
        if not op & 2:
            p.te = gtime_t(T0+b)
        lst.append(p)
        rec.append((own, op, a, b))
    tr = ctx.int('t', 0, 100000)
    got = peph.searchpcv(lst, name, gtime_t(T0+tr))
    ok = [ctx.and_(own, True if op & 1 else tr >= a,
                   True if op & 2 else tr <= b) for own, op, a, b in rec]
    if got is None:
        ctx.check('no antenna', ctx.not_(ctx.or_(*ok)))
    else:
        k = [i for i, p in enumerate(lst) if p is got]
        ctx.check('antenna', len(k) == 1 and ok[k[0]])


def alab(s, lab):
    return s.ljust(60)+lab


def antex(ctx, ants):
    out = [alab('     1.4            M', 'ANTEX VERSION / SYST'),
           alab('A', 'PCV TYPE / REFANT'), alab('', 'END OF HEADER')]
    for typ, ser, fr, to, zen, freqs in ants:
        out.append(alab('', 'START OF ANTENNA'))
        out.append(alab('%-20s%-20s' % (typ, ser)+'G063      2011-036A',
                        'TYPE / SERIAL NO'))
        out.append(alab('COPIED              IGS/AIUB', 'METH / BY / # / DATE'))
        out.append(alab('     0.0', 'DAZI'))
        out.append(alab('  %6.1f%6.1f%6.1f' % tuple(zen),
                        'ZEN1 / ZEN2 / DZEN'))
        out.append(alab('%6d' % len(freqs), '# OF FREQUENCIES'))
        for lab, ep in (('VALID FROM', fr), ('VALID UNTIL', to)):
            if ep:
                out.append(alab('%6d%6d%6d%6d%6d%13.7f' % tuple(ep), lab))
        out.append(alab('IGS14_2038', 'SINEX CODE'))
        out.append(alab('START OF ANTENNA', 'COMMENT'))
        for f, off, var in freqs:
            out.append(alab('   '+f, 'START OF FREQUENCY'))
            # (a blank between the numbers)
            out.append(alab('  '+''.join(' '+ctx.text(x, '9.2f' if k else
                                                      '7.2f')
                                         for k, x in enumerate(off)),
                            'NORTH / EAST / UP'))
            out.append('   NOAZI'+''.join(' '+ctx.text(x, '7.2f')
                                          for x in var))
            out.append('     0.0'+''.join('%8.2f' % (99+k)
                                          for k in range(len(var))))
            out.append(alab('   '+f, 'END OF FREQUENCY'))
        f = freqs[0][0]
        out.append(alab('   '+f, 'START OF FREQ RMS'))
        out.append(alab('%10.2f%10.2f%10.2f' % (9, 9, 9),
                        'NORTH / EAST / UP'))
        out.append('   NOAZI'+'%8.2f' % 9*len(freqs[0][2]))
        out.append(alab('   '+f, 'END OF FREQ RMS'))
        out.append(alab('', 'END OF ANTENNA'))
    return '\n'.join(out)+'\n'


@harness(cases=[['G05', 0], ['E12', 0], [None, 0], [None, 1], ['G05', 1]],
         witnesses=2)
def h_antex(ctx, case):
    """offsets (receiver: east, north, up; satellite: x, y, z) and variations
    of each antenna and frequency"""
    ser, rcvonly = case
    s2 = (ser or 'G')[0]
    other = ('BLOCK IIA', 'G31', [1990, 1, 2, 0, 0, 0.0],
             [2004, 11, 22, 23, 59, 59.9999999], (0, 17, 1),
             [('G01', [1.0, 2.0, 3.0], [float(k) for k in range(18)])])
    rcv = ('LEIAR25.R4      LEIT', '', None, None, (0, 90, 5),
           [('G02', [4.0, 5.0, 6.0], [0.5*k for k in range(19)])])
    zen = (0, 90, 5) if ser is None else (0, 14, 1) if s2 == 'E' \
        else (0, 17, 1)
    nv = round((zen[1]-zen[0])/zen[2])+1
    fr = [2011, 7, 16, 0, 0, 0.0] if ser else None
    to = ctx.choice('until', [None, [2023, 9, 1, 23, 59, 59.9999999]]) \
        if ser else None
    fs = [s2+'01', s2+('05' if s2 == 'E' else '02')]
    off = [[ctx.real(f'o{f}{k}', -999, 999, res='1/100')
            for k in range(3)] for f in fs]
    var = [[ctx.real(f'v{f}{k}', -500, 500, res='1/100') for k in range(nv)]
           for f in fs]
    own = ('GALILEO-2' if s2 == 'E' else 'BLOCK IIF' if ser else
           'TRM59800.00     SCIS', ser or '', fr, to, zen,
           [(f, o, v) for f, o, v in zip(fs, off, var)])
    first = ctx.choice('first', [0, 1])
    ants = [own, other, rcv] if first else [other, rcv, own]
    d = peph.atxdec()
    d.readpcv(ctx.file(antex(ctx, ants), 'x.atx'), bool(rcvonly))
    ns = 0 if rcvonly else 1+(ser is not None)
    ctx.check('number of antennas', len(d.pcvs) == ns and
              len(d.pcvr) == 1+(ser is None))
    if ser and rcvonly:
        return
    t = gnss.epoch2time([2020, 1, 1, 0, 0, 0])
    p = peph.searchpcv(d.pcvs if ser else d.pcvr,
                       gnss.id2sat(ser) if ser else own[0], t)
    ctx.check('antenna found', p is not None)
    if p is None:
        return
    if fr:
        ctx.check('valid from', p.ts.time == gnss.epoch2time(fr).time)
    ctx.check('valid until', p.te.time ==
              (gnss.epoch2time(to).time if to else 0))
    ctx.check('grid', list(p.zen) == list(zen) and p.nv == nv)
    for f, o, v in zip(fs, off, var):
        sig = rSigRnx(f[0]+'L'+f[2])
        ctx.check('frequency', sig in p.off and sig in p.var)
        w = o if ser else [o[1], o[0], o[2]]
        for k in range(3):
            ctx.close('offset', p.off[sig][k], w[k], 1e-9)
        ctx.check('nodes', len(p.var[sig]) == nv)
        for k in range(nv):
            ctx.close('variation', p.var[sig][k], v[k], 1e-9)


@harness(cases=[[]], witnesses=2)
def h_ngs(ctx, case):
    """NGS antenna file: offsets as east, north, up and variations of both
    frequencies"""
    v = [[ctx.real(f'v{f}{k}', -99, 99, res='1/10') for k in range(19)]
         for f in (1, 2)]
    o = [[ctx.real(f'o{f}{k}', -999, 999, res='1/10') for k in range(3)]
         for f in (1, 2)]
    out = []
    for j, t in enumerate(('AOAD/M_B        OSOD', 'TRM59800.00     SCIS')):
        out.append('%-20s%-20s' % (t, 'CHOKE RING'))
        for f in (0, 1):
            w, q = (v[f], o[f]) if j else ([1.0]*19, [9.0, 8.0, 7.0])
            out.append('  '+''.join(' '+ctx.text(x, '9.1f' if k else '7.1f')
                                    for k, x in enumerate(q)))
            out.append(''.join(' '+ctx.text(x, '5.1f') for x in w[:10]))
            out.append(''.join(' '+ctx.text(x, '5.1f') for x in w[10:]))
    d = peph.atxdec()
    d.readngspcv(ctx.file('\n'.join(out)+'\n', 'x.ngs'))
    ctx.check('antennas', len(d.pcvr) == 2)
    p = peph.searchpcv(d.pcvr, 'TRM59800.00     SCIS', gtime_t(T0))
    ctx.check('found', p is not None)
    if p is None:
        return
    ctx.check('grid', list(p.zen) == [0.0, 90.0, 5.0] and p.nv == 19)
    for f in (0, 1):
        sig = rSigRnx('GL%d' % (f+1))
        for k, i in enumerate((1, 0, 2)):
            ctx.close('offset', p.off[sig][k], o[f][i], 1e-9)
        for k in range(19):
            ctx.close('variation', p.var[sig][k], v[f][k], 1e-9)


BAND = dict(L1=1, L2=2, L5=5, L6=6, L7=7, L8=8)


def freq_of(s, k=0):
    if s[0] == 'R':
        return {'1': 1602e6+562500*k, '2': 1246e6+437500*k,
                '3': 1202.025e6}[s[2]]
    return {'1': 1575.42e6, '2': 1561.098e6 if s[0] == 'C' else 1227.6e6,
            '5': 1176.45e6, '6': 1268.52e6 if s[0] == 'C' else 1278.75e6,
            '7': 1207.14e6, '8': 1191.795e6}[s[2]]


def pcv(ctx, sat, bands, zen, name):
    p = peph.pcv_t()
    p.sat, p.type = sat, name
    p.zen = [float(z) for z in zen]
    p.nv = int((zen[1]-zen[0])/zen[2])+1
    for b in bands:
        p.off[rSigRnx(b)] = ctx.arr([ctx.real(f'{name}{b}o{k}', -3000, 3000,
                                              res='1/100') for k in range(3)])
        p.var[rSigRnx(b)] = ctx.arr([ctx.real(f'{name}{b}v{k}', -100, 100,
                                              res='1/100')
                                     for k in range(p.nv)])
    return p


def lin(ctx, v, zen, za):
    """interpolation between the nodes, constant beyond the last one"""
    n = len(v)
    out = v[n-1]
    for k in range(n-2, -1, -1):
        a = zen[0]+zen[2]*k
        w = v[k]+(v[k+1]-v[k])*(za-a)/zen[2]
        out = ctx.ite(za <= a+zen[2], w, out)
    return ctx.ite(za <= zen[0], v[0], out)


RX = {'GC1C': 'GL1', 'GL2W': 'GL2', 'GL5Q': 'GL2', 'EL1X': 'GL1',
      'EC5X': 'GL2', 'EL7Q': 'GL2', 'CL2I': 'GL1', 'CC1P': 'GL1',
      'CL6I': 'GL2', 'CL7I': 'GL2', 'JC1C': 'GL1', 'JL2L': 'GL2',
      'JL5Q': 'GL2', 'RC1C': 'GL1', 'RL2P': 'GL2', 'IL5A': 'GL2',
      'SC1C': 'GL1', 'SL5I': 'GL2'}


@harness(cases=[[s, rt] for s in RX for rt in (1, 0)][:] +
         [['EL1X own', 1], ['CL6I own', 0]], witnesses=1, max_paths=400)
def h_rx(ctx, case):
    """receiver antenna: offset of the band along the line of sight, variation
    linear in the zenith angle; substitute band only if there is no own one"""
    s, rt = case
    own = s.endswith('own')
    s = s[:4]
    bands = ['GL1', 'GL2']
    zen = (0, 90, 30)
    b = RX[s]
    if own:
        b = s[0]+'L'+s[2]
        bands.append(b)
    nav = Nav()
    A = pcv(ctx, None, bands, zen, 'a')
    B = pcv(ctx, None, bands, zen, 'b')
    nav.rcv_ant, nav.rcv_ant_b = A, B
    p = A if rt else B
    e = [ctx.real(f'e{k}', -1, 1, res='1/65536') for k in range(3)]
    za = ctx.real('za', 0, 90, res='1/1024')
    seen = []

    def enu(pos, v):
        seen.append(v)
        return ctx.arr(e)

    def acos(c):
        seen.append(c)
        return za*(math.pi/180)
    ctx.patch(peph, 'ecef2enu', enu)
    ctx.patch(peph.np, 'arccos', acos)
    los = np.array([0.1, 0.2, 0.3])
    d = peph.antModelRx(nav, np.zeros(3), los, [rSigRnx(s)], rt)
    ctx.end()
    ctx.check('line of sight', seen[0] is los)
    ctx.close('zenith angle', seen[1], e[2], 1e-12)
    off, var = p.off[rSigRnx(b)], p.var[rSigRnx(b)]
    w = (-sum(off[k]*e[k] for k in range(3))+lin(ctx, list(var), zen, za)) \
        / 1000
    ctx.close('correction', d[0], w, 1e-6)


@harness(cases=[[0], [1]], witnesses=1)
def h_rx_missing(ctx, case):
    """no correction where the antenna has no calibration of the band"""
    nav = Nav()
    nav.rcv_ant = nav.rcv_ant_b = pcv(ctx, None, ['GL1'], (0, 90, 45), 'a')
    ctx.patch(peph, 'ecef2enu', lambda pos, v: np.array([0.6, 0.0, 0.8]))
    d = peph.antModelRx(nav, np.zeros(3), np.zeros(3),
                        [rSigRnx('GL1C'), rSigRnx('GL2W')], case[0])
    ctx.nan('missing band', d[1])
    ctx.check('other band', not math.isnan(d[0]) if isinstance(d[0], float)
              else True)


ROT = [[0.6, 0.8, 0.0], [-0.48, 0.36, 0.8], [0.64, -0.48, 0.6]]


@harness(cases=[[s, m] for s in ('GC1C', 'GL2W', 'GL5Q', 'RL1C', 'RL3Q',
                                 'EL5X', 'CL8X', 'CL6I', 'JL2L')
                for m in ('com', 'one', 'two')], witnesses=1, max_paths=400)
def h_tx(ctx, case):
    """satellite antenna: offset relative to the reference of the orbit (centre
    of mass, one signal, or ionosphere-free pair) along the line of sight plus
    variation with the nadir angle"""
    s, mode = case
    g = s[0]
    bands = {'G': ['GL1', 'GL2'], 'R': ['RL1', 'RL2'], 'J': ['JL1', 'JL2'],
             'E': ['EL1', 'EL5', 'EL7'], 'C': ['CL2', 'CL5', 'CL6']}[g]
    b = {'GL5': 'GL2', 'RL3': 'RL2', 'CL8': 'CL5'}.get(
        g+'L'+s[2], g+'L'+s[2])
    zen = (0, 14, 7)
    sat = gnss.prn2sat({'G': uGNSS.GPS, 'R': uGNSS.GLO, 'J': uGNSS.QZS,
                        'E': uGNSS.GAL, 'C': uGNSS.BDS}[g],
                       194 if g == 'J' else 9)
    nav = Nav()
    t = gnss.epoch2time([2024, 3, 1, 0, 0, 0])
    old = pcv(ctx, sat, bands, zen, 'old')
    old.te = gnss.timeadd(t, -1.0)
    p = pcv(ctx, sat, bands, zen, 'new')
    p.ts = t
    oth = pcv(ctx, sat+1, bands, zen, 'oth')
    nav.sat_ant = [oth, old, p]
    nav.glo_ch = {sat: -3}
    nav.rsun = 'sun'
    ref = {'com': None, 'one': [bands[0]], 'two': bands[:2]}[mode]
    sig0 = None if ref is None else [rSigRnx(g+'C'+r[2:]+{
        'G': 'C', 'R': 'C', 'J': 'L', 'E': 'X', 'C': 'X'}[g]) for r in ref]
    R = np.array(ROT)
    args = []

    def frame(time, rs, rsun=None):
        args.append((time, rs, rsun))
        return R
    za = ctx.real('za', 0, 20, res='1/1024')
    seen = []

    def acos(c):
        seen.append(c)
        return za*(math.pi/180)
    ctx.patch(peph, 'orb2ecef', frame)
    ctx.patch(peph.np, 'arccos', acos)
    e = ctx.arr([ctx.real(f'e{k}', -1, 1, res='1/65536') for k in range(3)])
    rs = np.array([2e7, 1e7, 5e6])
    d = peph.antModelTx(nav, e, [rSigRnx(s), rSigRnx(g+'S'+b[2:])], sat, t,
                        rs, sig0)
    ctx.end()
    ctx.check('frame', args[0][0] is t and args[0][1] is rs and
              args[0][2] == 'sun')
    ez = [x for x in ROT[2]]
    ctx.close('nadir angle', seen[0], -sum(ez[k]*e[k] for k in range(3)),
              1e-9)
    o = [p.off[rSigRnx(b)][k] for k in range(3)]
    if ref:
        if len(ref) == 1:
            fac = [1.0]
        else:
            f1, f2 = (freq_of(r, -3) for r in ref)
            fac = [f1*f1/(f1*f1-f2*f2), -f2*f2/(f1*f1-f2*f2)]
        for fk, r in zip(fac, ref):
            for k in range(3):
                o[k] = o[k]-p.off[rSigRnx(r)][k]*fk
    ec = [sum(o[i]*ROT[i][k] for i in range(3)) for k in range(3)]
    w = (sum(ec[k]*e[k] for k in range(3)) +
         lin(ctx, list(p.var[rSigRnx(b)]), zen, za))/1000
    for k in range(2):
        ctx.close('correction', d[k], w, 1e-6)


@harness(cases=[['GC1C', 'GC2W'], ['GL1C'], ['EC1C', 'EC5Q'], ['RC1C', 'RC2C'],
                ['GC1C', 'GC5Q'], ['GC1C', 'GC2W', 'none'],
                ['GC1C', 'GC2W', 'sat']], witnesses=1)
def h_apc2com(ctx, case):
    """orbit of the antenna phase centre to the centre of mass"""
    bad = case[-1] if case[-1] in ('none', 'sat') else None
    sig = case[:2] if not bad else case[:2]
    g = sig[0][0]
    bands = [g+'L1', g+('L5' if g == 'E' else 'L2')]
    sub = {'GL5': 'GL2'}
    sat = gnss.prn2sat({'G': uGNSS.GPS, 'R': uGNSS.GLO, 'E': uGNSS.GAL}[g], 4)
    nav = Nav()
    t = gnss.epoch2time([2024, 3, 1, 0, 0, 0])
    p = pcv(ctx, sat, bands[:1] if bad == 'none' else bands, (0, 14, 7), 'a')
    nav.sat_ant = [] if bad == 'sat' else [p]
    R = np.array(ROT)
    ctx.patch(peph, 'orb2ecef', lambda time, rs, rsun=None: R)
    d = peph.apc2com(nav, sat, t, np.array([2e7, 1e7, 5e6]),
                     [rSigRnx(s) for s in sig], 2)
    if bad:
        ctx.check('no correction', d is None)
        return
    fac = [1.0]
    if len(sig) == 2:
        f1, f2 = (freq_of(s, 2) for s in sig)
        fac = [f1*f1/(f1*f1-f2*f2), -f2*f2/(f1*f1-f2*f2)]
    for k in range(3):
        w = 0
        for f, s in zip(fac, sig):
            b = g+'L'+s[2]
            o = p.off[rSigRnx(sub.get(b, b))]
            w = w-sum(o[i]*ROT[i][k] for i in range(3))*f/1000
        ctx.close('offset', d[k], w, 1e-6)


@harness(cases=[[k] for k in range(6)], witnesses=1)
def h_frame(ctx, case):
    """axes of the satellite antenna: z to the Earth, y perpendicular to the
    plane of Sun, satellite and Earth, right handed and orthonormal"""
    # orbit and Sun directions from Pythagorean triples, scale symbolic
    r, s = [([3, 4, 0], [0, 5, 12]), ([6, -2, 3], [-100, 40, 7]),
            ([-2, 6, 3], [90, 20, -50]), ([2, 3, 6], [-1, -200, 3]),
            ([-1, -4, -8], [120, -3, 9]), ([4, 4, -7], [-50, 60, 70])][case[0]]
    k = ctx.real('k', 1000000, 10000000, res='1')
    rs = ctx.arr([x*k for x in r])
    sun = [x*1e9 for x in s]
    if ctx.choice('sun', [0, 1]):
        A = peph.orb2ecef(gtime_t(T0), rs, ctx.arr(sun))
    else:
        t = []

        def sm(tutc, erpv, rsun=False, rmoon=False, gmst=False):
            t.append(tutc)
            return ctx.arr(sun), None, None
        ctx.patch(peph, 'sunmoonpos', sm)
        A = peph.orb2ecef(gtime_t(T0), rs)
        ctx.end()
        ctx.check('time of the Sun', gnss.timediff(
            t[0], gnss.gpst2utc(gtime_t(T0))) == 0)
    n = math.sqrt(sum(x*x for x in r))
    for j in range(3):
        ctx.close('z axis', A[2][j], -r[j]/n, 1e-6)
    x, y = [A[0][j] for j in range(3)], [A[1][j] for j in range(3)]
    z = [-q/n for q in r]
    ctx.close('y to z', sum(a*b for a, b in zip(y, z)), 0, 1e-5)
    ctx.close('y to Sun', sum(a*b for a, b in zip(y, s)), 0, 1e-3)
    ctx.close('unit', sum(a*a for a in y), 1, 1e-5)
    w = [y[1]*z[2]-y[2]*z[1], y[2]*z[0]-y[0]*z[2], y[0]*z[1]-y[1]*z[0]]
    for j in range(3):
        ctx.close('right handed', x[j], w[j], 1e-5)
    # the Sun is on the side of positive x
    ctx.check('side of the Sun', sum(a*b for a, b in zip(x, s)) > 0)
