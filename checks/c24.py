"""C24: RINEX navigation and observation files round-trip."""
import io

import numpy as np

from engine.api import harness
from cssrlib import gnss, rinex
from cssrlib.gnss import uGNSS, uTYP, rSigRnx, Eph, Geph, Seph, Nav

# ---------------------------------------------------------------------------
# record layouts (RINEX 4.02 tables A8-A31): four fields per line, first line
# has three after the epoch; '-' spare
KEP = ['cuc e cus sqrtA', None, 'i0 crc omg OMGd']
LAY = {
    ('G', 'LNAV'): ['af0 af1 af2', 'iode crs deln M0', KEP[0],
                    'toes cic OMG0 cis', KEP[2], 'idot code week l2p',
                    'sva svh tgd iodc', 'tot fit - -'],
    ('G', 'CNAV'): ['af0 af1 af2', 'Adot crs deln M0', KEP[0],
                    'tops cic OMG0 cis', KEP[2], 'idot delnd urai0 urai1',
                    'urai3 svh tgd urai2', 'isc0 isc1 isc2 isc3',
                    'tot wn_op integ -'],
    ('G', 'CNV2'): ['af0 af1 af2', 'Adot crs deln M0', KEP[0],
                    'tops cic OMG0 cis', KEP[2], 'idot delnd urai0 urai1',
                    'urai3 svh tgd urai2', 'isc0 isc1 isc2 isc3',
                    'isc4 isc5 - -', 'tot wn_op integ -'],
    ('E', 'INAV'): ['af0 af1 af2', 'iode crs deln M0', KEP[0],
                    'toes cic OMG0 cis', KEP[2], 'idot code week -',
                    'sva svh bgda bgdb', 'tot - - -'],
    ('C', 'D1'): ['af0 af1 af2', 'iode crs deln M0', KEP[0],
                  'toes cic OMG0 cis', KEP[2], 'idot - week -',
                  'sva svh tgd tgd_b', 'tot iodc - -'],
    ('C', 'CNV1'): ['af0 af1 af2', 'Adot crs deln M0', KEP[0],
                    'toes cic OMG0 cis', KEP[2], 'idot delnd sattype tops',
                    'sisai0 sisai1 sisai2 sisai3', 'isc0 - tgd tgd_b',
                    'sismai svh integ iodc', 'tot - - iode'],
    ('C', 'CNV2'): ['af0 af1 af2', 'Adot crs deln M0', KEP[0],
                    'toes cic OMG0 cis', KEP[2], 'idot delnd sattype tops',
                    'sisai0 sisai1 sisai2 sisai3', '- isc1 tgd tgd_b',
                    'sismai svh integ iodc', 'tot - - iode'],
    ('C', 'CNV3'): ['af0 af1 af2', 'Adot crs deln M0', KEP[0],
                    'toes cic OMG0 cis', KEP[2], 'idot delnd sattype tops',
                    'sisai0 sisai1 sisai2 sisai3', 'sismai svh integ tgd',
                    'tot - - -'],
    ('I', 'LNAV'): ['af0 af1 af2', 'iode crs deln M0', KEP[0],
                    'toes cic OMG0 cis', KEP[2], 'idot - week -',
                    'sva svh tgd -', 'tot - - -'],
    ('I', 'L1NV'): ['af0 af1 af2', 'Adot crs deln M0', KEP[0],
                    'iode cic OMG0 cis', KEP[2], 'idot delnd - integ',
                    'urai svh tgd -', 'isc5 isc4 - -', 'tot - - -'],
    ('I', 'L1NV1'): ['af0 af1 af2', 'Adot crs deln M0', KEP[0],
                     'iode cic OMG0 cis', KEP[2], 'idot delnd - integ',
                     'urai svh - tgd', '- - isc5 isc4', 'tot - - -'],
}
LAY['J', 'LNAV'] = LAY['G', 'LNAV']
LAY['J', 'CNAV'] = LAY['G', 'CNAV']
LAY['J', 'CNV2'] = LAY['G', 'CNV2']
LAY['E', 'FNAV'] = LAY['E', 'INAV']
LAY['C', 'D2'] = LAY['C', 'D1']
MODE = {'LNAV': 0, 'CNAV': 1, 'CNV1': 1, 'CNV2': 2, 'CNV3': 3, 'INAV': 0,
        'FNAV': 1, 'D1': 0, 'D2': 0, 'L1NV': 2, 'L1NV1': 2}
PRN = {'G': [1, 32], 'E': [1, 36], 'J': [2, 9], 'C': [6, 58], 'I': [3, 14]}
INT = {'iode': 255, 'iodc': 1023, 'l2p': 1, 'sva': 15, 'svh': 255, 'fit': 8,
       'urai0': 31, 'urai1': 7, 'urai2': 7, 'urai3': 15, 'wn_op': 4095,
       'integ': 3, 'sattype': 3, 'tops': 604799, 'sisai0': 31, 'sisai1': 31,
       'sisai2': 7, 'sisai3': 7, 'sismai': 15, 'urai': 15,
       'toes': 604799, 'tot': 604799}
TOC = {'G': [2024, 2, 29, 22, 30, 0], 'E': [2024, 12, 31, 23, 50, 0],
       'C': [2023, 7, 1, 1, 0, 0], 'J': [2025, 1, 1, 0, 0, 0],
       'I': [2024, 6, 30, 23, 59, 48]}
BDTOFF = 14


def epoch(s, ep):
    return '%s %04d %02d %02d %02d %02d %02d' % (s, *ep)


def weekof(s, ep):
    w, _ = gnss.time2gpst(gnss.epoch2time(ep))
    return w-1356 if s == 'C' else w


def values(ctx, s, typ, rows=None):
    """symbolic content of one ephemeris record"""
    v = {}
    for row in LAY[s, typ]:
        for n in row.split():
            if n == '-' or n in v:
                continue
            if n == 'code':
                # data sources; Galileo: bits 0-2 and clock reference 8, 9
                v[n] = (ctx.choice('code', [517, 513, 516]) if typ == 'INAV'
                        else 258) if s == 'E' else ctx.u('code', 2)
            elif n == 'week':
                v[n] = weekof(s, TOC[s])
            elif n == 'integ' and s == 'I':
                v[n] = 1 if typ == 'L1NV1' else 0
            elif n == 'svh' and s == 'J':
                v[n] = ctx.u(n, 6)
            elif n in INT:
                v[n] = ctx.int(n, 0, INT[n])
            elif n == 'sqrtA':
                v[n] = ctx.real(n, 5000, 6500, res='1/1024')
            elif n == 'e':
                v[n] = ctx.real(n, 0, '1/2', res='1/1048576')
            else:
                v[n] = ctx.real(n, -1000, 1000, res='1/1024')
    return v


def record(ctx, s, typ, prn, v, ver=4.02, pad=False):
    p = prn
    out = []
    if ver >= 4:
        out.append('> EPH %s%02d %s' % (s, p, typ[:4].ljust(4)))
    sid = '%s%02d' % (s, p)
    for k, row in enumerate(LAY[s, typ]):
        line = epoch(sid, TOC[s]) if k == 0 else '    '
        for n in row.split():
            line += ' '*19 if n == '-' else ctx.text(v[n]*1.0, '19.12E')
        out.append(line if pad else line.rstrip(' '))
    return out


def header(ver, extra=()):
    h = ['%9.2f' % ver+' '*11+'NAVIGATION DATA'.ljust(20)+'M'.ljust(20) +
         'RINEX VERSION / TYPE']
    for a in extra:
        h.append(a)
    h.append(' '*60+'END OF HEADER')
    return h


def readnav(ctx, lines, nav=None):
    nav = Nav() if nav is None else nav
    d = rinex.rnxdec()
    d.decode_nav(ctx.file('\n'.join(lines)+'\n', 'f.rnx'), nav)
    return nav


def satof(s, prn):
    return gnss.id2sat('%s%02d' % (s, prn))


def expect(ctx, s, typ, v, eph, ver=4.02, label=''):
    """the decoded ephemeris has the values of the record"""
    L = label
    mode = MODE[typ]
    ctx.check(L+'mode', eph.mode == mode)
    skip = {'toes', 'week', 'tot', 'sqrtA', 'bgda', 'bgdb', 'svh', 'code'}
    for n, x in v.items():
        if n in skip:
            continue
        if n[-1].isdigit() and n[:-1] in ('urai', 'sisai', 'isc') and \
                n not in ('af0', 'i0'):
            got = getattr(eph, n[:-1])[int(n[-1])]
        else:
            got = getattr(eph, n)
        ctx.close(L+n, got, x, 1e-9)
    ctx.close(L+'A', eph.A, v['sqrtA']*v['sqrtA'], 1e-2)
    if s == 'J':
        sv, m = v['svh'], None
        # health bits without those of L1 C/A and C/B, kept in code
        b0 = sv % 2
        b4 = ctx.floor(sv/16) % 2
        ctx.close(L+'svh', eph.svh, sv-b0-16*b4, 1e-9)
        ctx.close(L+'code', eph.code, b0+16*b4, 1e-9)
    else:
        ctx.close(L+'svh', eph.svh, v['svh'], 1e-9)
        if 'code' in v:
            ctx.close(L+'code', eph.code, v['code'], 1e-9)
    if s == 'E':
        e5b = typ == 'INAV'
        ctx.close(L+'bgd', eph.tgd, v['bgdb'] if e5b else v['bgda'], 1e-9)
        ctx.close(L+'bgd other', eph.tgd_b,
                  v['bgda'] if e5b else v['bgdb'], 1e-9)
        ctx.close(L+'iodc', eph.iodc, v['iode'], 1e-9)
    # times
    toc = gnss.epoch2time(TOC[s])
    off = BDTOFF if s == 'C' else 0
    ctx.close(L+'toc', gnss.timediff(eph.toc, toc), off, 1e-6)
    w0 = weekof(s, TOC[s])
    ctx.check(L+'week', eph.week == w0)
    base = gnss.bdt2time(w0, 0) if s == 'C' else gnss.gpst2time(w0, 0)
    if 'toes' in v:
        ctx.close(L+'toes', eph.toes, v['toes'], 1e-9)
        ctx.close(L+'toe', gnss.timediff(eph.toe, base), v['toes']+off, 1e-6)
    else:                      # reference time of ephemeris is that of clock
        ctx.close(L+'toe', gnss.timediff(eph.toe, toc), 0, 1e-6)
        ctx.close(L+'toes', eph.toes, gnss.time2gpst(toc)[1], 1e-6)
    ctx.close(L+'tot', gnss.timediff(eph.tot, base), v['tot']+off, 1e-6)


def cases_read():
    out = []
    for (s, typ) in LAY:
        out.append([s, typ, PRN[s][0], 4.02])
        if MODE[typ] == 0 or (s == 'E'):
            out.append([s, typ, PRN[s][1], 3.04])
    out.append(['C', 'D2', 1, 4.00])
    return out


@harness(cases=cases_read, budget=60, witnesses=2)
def h_nav_read(ctx, case):
    """every field of an ephemeris record goes to the parameter of the RINEX
    table"""
    s, typ, prn, ver = case
    v = values(ctx, s, typ)
    lines = header(ver)+record(ctx, s, typ, prn, v, ver)
    nav = readnav(ctx, lines)
    ctx.check('one record', len(nav.eph) == 1 and not nav.geph)
    if len(nav.eph) != 1:
        return
    ctx.check('satellite', nav.eph[0].sat == satof(s, prn))
    expect(ctx, s, typ, v, nav.eph[0], ver)


def fill(eph, s, typ, v):
    eph.mode = MODE[typ]
    eph.isc = [0.0]*6
    eph.urai = [0]*4
    eph.sisai = [0]*5
    for n, x in v.items():
        if n in ('sqrtA', 'tot', 'bgda', 'bgdb'):
            continue
        if n[-1].isdigit() and n[:-1] in ('urai', 'sisai', 'isc'):
            getattr(eph, n[:-1])[int(n[-1])] = x
        else:
            setattr(eph, n, x)
    off = BDTOFF if s == 'C' else 0
    toc = gnss.timeadd(gnss.epoch2time(TOC[s]), off)
    eph.toc = toc
    w0 = weekof(s, TOC[s])
    eph.week = w0
    base = gnss.bdt2time(w0, 0) if s == 'C' else gnss.gpst2time(w0, 0)
    base = gnss.timeadd(base, off)
    if 'toes' in v:
        eph.toe = gnss.timeadd(base, v['toes']*1.0)
    else:
        eph.toe = toc
        eph.toes = gnss.time2gpst(toc)[1]
    eph.tot = gnss.timeadd(base, v['tot']*1.0)
    return eph


WFIELDS = ['af0', 'af1', 'af2', 'iode', 'iodc', 'Adot', 'crs', 'crc', 'cus',
           'cuc', 'cis', 'cic', 'e', 'i0', 'A', 'deln', 'delnd', 'M0',
           'OMG0', 'OMGd', 'omg', 'idot', 'tgd', 'tgd_b', 'sva', 'svh',
           'fit', 'toes', 'tops', 'l2p', 'sattype', 'sismai', 'code',
           'integ', 'week', 'wn_op', 'mode', 'sat']


def cases_rt():
    out = []
    for (s, typ) in LAY:
        out.append([s, typ, PRN[s][0], 0])
    out += [['G', 'LNAV', 7, 1], ['E', 'INAV', 11, 1], ['C', 'D1', 30, 1],
            ['C', 'D2', 60, 0], ['J', 'LNAV', 4, 1], ['I', 'LNAV', 5, 1],
            ['C', 'CNV3', 40, 0]]
    return out


@harness(cases=cases_rt, budget=90, witnesses=2)
def h_nav_roundtrip(ctx, case):
    """an ephemeris written to a navigation file and read back has the same
    values within the printed precision"""
    s, typ, prn, roll = case
    if typ == 'D2' and prn == PRN['C'][0]:
        prn = 3
    v = values(ctx, s, typ)
    sa = ctx.choice('sa', [5153, 5440]) if s in 'GE' else 6493
    v['sqrtA'] = sa
    if s == 'J':
        # health without L1 C/A and C/B; their bits are in code
        x = ctx.u('hb', 2)
        v['svh'] = 2*ctx.u('h1', 3)+32*ctx.u('h2', 1)
        v['code'] = (x % 2)+16*ctx.floor(x/2)
    eph = fill(Eph(satof(s, prn)), s, typ, v)
    eph.A = sa*sa*1.0
    if 'bgda' in v:
        e5b = typ == 'INAV'
        eph.tgd = v['bgdb'] if e5b else v['bgda']
        eph.tgd_b = v['bgda'] if e5b else v['bgdb']
        eph.iodc = eph.iode
    if s == 'I':
        eph.iodc = eph.iode
    if roll:        # message of the week before the reference time
        eph.tot = gnss.timeadd(eph.toe, -7200.0)
    if s == 'G' and MODE[typ] > 0:
        eph.sva = v['urai3']
    if s == 'J' and MODE[typ] > 0:
        eph.sva = v['urai3']
    fh = io.StringIO()
    enc = rinex.rnxenc()
    enc.rnx_nav_header(fh)
    enc.rnx_nav_body(eph, fh)
    nav = readnav(ctx, fh.getvalue().split('\n')[:-1])
    ctx.check('one record', len(nav.eph) == 1)
    if len(nav.eph) != 1:
        return
    g = nav.eph[0]
    for n in WFIELDS:
        if n == 'code' and s == 'J':    # health of the L1 signals
            continue
        ctx.close(n, getattr(g, n), getattr(eph, n),
                  1e-4 if n == 'A' else 1e-9)
    for n in ('isc', 'urai', 'sisai'):
        a, b = getattr(g, n), getattr(eph, n)
        if n == 'urai' and s == 'I':
            continue
        for k in range(4 if n != 'isc' else 6):
            ctx.close(f'{n}{k}', a[k], b[k], 1e-9)
    for n in ('toc', 'toe', 'tot'):
        ctx.close(n, gnss.timediff(getattr(g, n), getattr(eph, n)), 0, 1e-5)


# ---------------------------------------------------------------------------
GF = ['taun', 'gamn', 'frq', 'svh', 'age', 'flag', 'dtaun', 'urai']


def gvals(ctx):
    v = {}
    for n in ('px', 'py', 'pz', 'vx', 'vy', 'vz', 'ax', 'ay', 'az', 'taun',
              'gamn', 'dtaun'):
        v[n] = ctx.real(n, -1000, 1000, res='1/1024')
    return v


GT = {'px': 0, 'py': 1, 'pz': 2}


def gline(ctx, vals):
    return '    '+''.join(' '*19 if x is None else ctx.text(x*1.0, '19.12E')
                          for x in vals)


@harness(cases=[['FDMA', 3.04, 0], ['FDMA', 3.05, 0], ['FDMA', 4.02, 0],
                ['FDMA', 4.02, 1], ['FDMA', 3.05, 2], ['L1OC', 4.02, 0],
                ['L3OC', 4.02, 0]], budget=60, witnesses=2)
def h_glo_read(ctx, case):
    """GLONASS FDMA and CDMA records"""
    typ, ver, var = case
    v = gvals(ctx)
    fdma = typ == 'FDMA'
    v['svh'] = ctx.u('svh', 3)
    ep = [2024, 3, 2, 23, 45, 0]
    t0 = ctx.int('t0', 0, 1200)      # frame time after 23:30 of the same day
    week, tow = gnss.time2gpst(gnss.epoch2time(ep))
    tof = tow-900+t0 if fdma else 0
    beta = ctx.real('beta', -1, 1, res='1/1024')
    frq = ctx.int('frq', -7, 6)
    age = ctx.int('age', 0, 31)
    out = header(ver)
    if ver >= 4:
        out.append('> EPH R05 '+typ)
    out.append(epoch('R05', ep)+''.join(ctx.text(x*1.0, '19.12E') for x in (
        -v['taun'], v['gamn'], tof % 604800 if fdma else beta)))
    dval = ctx.u('dval', 1)
    grp = ctx.real('grp', -1, 1, res='1/1024')
    frqp = frq if var != 1 else frq+256*(1 if frq < 0 else 0)
    out.append(gline(ctx, [v['px'], v['vx'], v['ax'], v['svh']]))
    out.append(gline(ctx, [v['py'], v['vy'], v['ay'],
                           frqp if fdma else dval]))
    out.append(gline(ctx, [v['pz'], v['vz'], v['az'], age if fdma else grp]))
    flag = ctx.u('flag', 9)
    urai = ctx.u('urai', 4)
    cd = {}
    if ver >= 3.05 and fdma:
        out.append(gline(ctx, [flag, v['dtaun'], urai]) +
                   (' '*19 if var == 0 else ''))
    elif ver >= 3.05:
        for n in ('sattype', 'src', 'aode', 'aodc', 'flag2', 'sn', 'u1'):
            cd[n] = ctx.u(n, 3)
        for n in ('tin', 'tau1', 'tau2', 'psi', 'win', 'dw', 'wmax', 'd0',
                  'd1', 'd2'):
            cd[n] = ctx.real(n, -10, 10, res='1/1024')
        tot = ctx.int('tot', 1000, 2000)
        out.append(gline(ctx, [cd[n] for n in
                               ('sattype', 'src', 'aode', 'aodc')]))
        out.append(gline(ctx, [cd[n] for n in
                               ('flag2', 'tin', 'tau1', 'tau2')]))
        out.append(gline(ctx, [cd[n] for n in ('psi', 'sn', 'win', 'dw')]))
        out.append(gline(ctx, [cd[n] for n in ('wmax', 'd0', 'd1', 'd2')]))
        out.append(gline(ctx, [urai, cd['u1'], None, tow-900+t0]))
    nav = readnav(ctx, out)
    ctx.check('one record', len(nav.geph) == 1 and not nav.eph)
    if len(nav.geph) != 1:
        return
    g = nav.geph[0]
    ctx.check('satellite', g.sat == satof('R', 5))
    ctx.check('mode', g.mode == {'FDMA': 0, 'L1OC': 1, 'L3OC': 3}[typ])
    for i, c in enumerate('xyz'):
        ctx.close('pos'+c, g.pos[i], v['p'+c]*1000, 1e-6)
        ctx.close('vel'+c, g.vel[i], v['v'+c]*1000, 1e-6)
        ctx.close('acc'+c, g.acc[i], v['a'+c]*1000, 1e-6)
    ctx.close('taun', g.taun, v['taun'], 1e-9)
    ctx.close('gamn', g.gamn, v['gamn'], 1e-9)
    ctx.close('svh', g.svh, v['svh'], 1e-9)
    toe = gnss.utc2gpst(gnss.epoch2time(ep))
    ctx.close('toe', gnss.timediff(g.toe, toe), 0, 1e-6)
    ctx.close('iode', g.iode, ((23*4+3+12) % 96), 1e-9)
    ctx.close('tof', gnss.timediff(g.tof, toe), t0-900, 1e-6)
    if fdma:
        ctx.close('frq', g.frq, frq, 1e-9)
        ctx.close('age', g.age, age, 1e-9)
        if ver >= 3.05:
            ctx.close('status', g.status, flag, 1e-9)
            ctx.close('dtaun', g.dtaun, v['dtaun'], 1e-9)
            ctx.close('urai', g.urai[0], urai, 1e-9)
    else:
        ctx.close('beta', g.beta, beta, 1e-9)
        ctx.close('status', g.status, dval, 1e-9)
        ctx.close('isc', g.isc[1 if typ == 'L1OC' else 2], grp, 1e-9)
        for n in ('sattype', 'src', 'aode', 'aodc', 'sn', 'tin', 'tau1',
                  'tau2', 'psi', 'win', 'dw', 'wmax'):
            ctx.close(n, getattr(g, n), cd[n], 1e-9)
        for k in range(3):
            ctx.close('dpos', g.dpos[k], cd[f'd{k}'], 1e-9)
        ctx.close('flag', g.flag, cd['flag2'], 1e-9)
        ctx.close('urai0', g.urai[0], urai, 1e-9)
        ctx.close('urai1', g.urai[1], cd['u1'], 1e-9)


@harness(cases=[[0, 'R01'], [0, 'R24'], [1, 'R07'], [3, 'R09']], budget=60,
         witnesses=2)
def h_glo_roundtrip(ctx, case):
    """GLONASS ephemerides through a navigation file"""
    mode, sid = case
    v = gvals(ctx)
    g = Geph(gnss.id2sat(sid))
    g.mode = mode
    toe = gnss.utc2gpst(gnss.epoch2time([2024, 3, 3, 0, 15, 0]))
    g.toe = toe
    g.tof = gnss.timeadd(toe, ctx.int('t0', -1800, 900)*1.0)
    g.iode = 13
    for i, c in enumerate('xyz'):
        g.pos[i] = g.vel[i] = g.acc[i] = 0.0
    g.pos = [v['p'+c]*1000 for c in 'xyz']
    g.vel = [v['v'+c]*1000 for c in 'xyz']
    g.acc = [v['a'+c]*1000 for c in 'xyz']
    g.taun, g.gamn, g.dtaun = v['taun'], v['gamn'], v['dtaun']
    g.svh = ctx.u('svh', 3)
    g.isc = [0.0]*3
    g.urai = [0, 0]
    g.dpos = [0.0]*3
    cmp_ = ['taun', 'gamn', 'svh', 'iode', 'mode', 'sat', 'flag']
    if mode == 0:
        g.frq = ctx.int('frq', -7, 6)
        g.age = ctx.u('age', 5)
        g.flag = ctx.u('flag', 9)
        g.sva = ctx.u('sva', 4)
        cmp_ += ['frq', 'age', 'sva', 'dtaun']
    else:
        g.beta = ctx.real('beta', -1, 1, res='1/1024')
        g.status = ctx.u('status', 1)
        g.isc[1 if mode == 1 else 2] = ctx.real('isc', -1, 1, res='1/1024')
        for n in ('sattype', 'src', 'aode', 'aodc', 'flag', 'sn'):
            setattr(g, n, ctx.u(n, 3))
        for n in ('tin', 'tau1', 'tau2', 'psi', 'win', 'dw', 'wmax'):
            setattr(g, n, ctx.real(n, -10, 10, res='1/1024'))
        g.dpos = [ctx.real(f'd{k}', -10, 10, res='1/1024') for k in range(3)]
        g.urai = [ctx.u('u0', 4), ctx.u('u1', 4)]
        cmp_ += ['beta', 'status', 'sattype', 'src', 'aode', 'aodc', 'sn',
                 'tin', 'tau1', 'tau2', 'psi', 'win', 'dw', 'wmax']
    fh = io.StringIO()
    enc = rinex.rnxenc()
    enc.rnx_nav_header(fh)
    enc.rnx_gnav_body(g, fh)
    nav = readnav(ctx, fh.getvalue().split('\n')[:-1])
    ctx.check('one record', len(nav.geph) == 1)
    if len(nav.geph) != 1:
        return
    r = nav.geph[0]
    for n in cmp_:
        ctx.close(n, getattr(r, n), getattr(g, n), 1e-8)
    for n in ('pos', 'vel', 'acc'):
        for k in range(3):
            ctx.close(n, getattr(r, n)[k], getattr(g, n)[k], 2e-6)
    if mode:
        for k in range(3):
            ctx.close('dpos', r.dpos[k], g.dpos[k], 1e-8)
            ctx.close('isc', r.isc[k], g.isc[k], 1e-8)
        for k in range(2):
            ctx.close('urai', r.urai[k], g.urai[k], 1e-8)
    ctx.close('toe', gnss.timediff(r.toe, g.toe), 0, 1e-5)
    ctx.close('tof', gnss.timediff(r.tof, g.tof), 0, 1e-5)


@harness(cases=[['S20'], ['S37']], budget=60, witnesses=2)
def h_sbs_roundtrip(ctx, case):
    """SBAS ephemerides through a navigation file"""
    s = Seph(gnss.id2sat(case[0]))
    s.t0 = gnss.epoch2time([2024, 3, 3, 0, 15, 12])
    s.tof = gnss.timeadd(s.t0, ctx.int('t', 0, 600)*1.0)
    r3 = lambda n: [ctx.real(n+c, -50000, 50000, res='1/64') for c in 'xyz']
    s.pos, s.vel, s.acc = r3('p'), r3('v'), r3('a')
    s.af0 = ctx.real('af0', -1, 1, res='1/1024')
    s.af1 = ctx.real('af1', -1, 1, res='1/1024')
    s.svh = ctx.u('svh', 4)
    s.sva = ctx.real('sva', 0, 4096, res='1/64')
    s.iodn = ctx.u('iodn', 8)
    fh = io.StringIO()
    enc = rinex.rnxenc()
    enc.rnx_nav_header(fh)
    enc.rnx_snav_body(s, fh)
    nav = readnav(ctx, fh.getvalue().split('\n')[:-1])
    ctx.check('one record', len(nav.seph) == 1)
    if len(nav.seph) != 1:
        return
    g = nav.seph[0]
    for n in ('sat', 'af0', 'af1', 'svh', 'sva', 'iodn'):
        ctx.close(n, getattr(g, n), getattr(s, n), 1e-7)
    for n in ('pos', 'vel', 'acc'):
        for k in range(3):
            ctx.close(n, getattr(g, n)[k], getattr(s, n)[k], 1e-6)
    ctx.close('t0', gnss.timediff(g.t0, s.t0), 0, 1e-5)
    ctx.close('tof', gnss.timediff(g.tof, s.tof), 0, 1e-5)


@harness(cases=[['G', 'LNAV'], ['C', 'D1'], ['E', 'INAV'], ['G', 'CNAV'],
                ['R', 'FDMA']], budget=60, witnesses=2)
def h_nav_history(ctx, case):
    """writing a sequence of messages: every new ephemeris is written once"""
    s, typ = case
    fh = io.StringIO()
    enc = rinex.rnxenc()
    enc.rnx_nav_header(fh)
    sats = [satof(s, 7), satof(s, 8)]
    ep0 = gnss.epoch2time([2024, 3, 3, 0, 0, 0])
    seq = [ctx.choice(f'm{i}', [0, 1, 2, 3]) for i in range(3)]
    want = []
    for i, k in enumerate(seq):
        # k: satellite and reference time; the issue number is the same (as
        # BeiDou's age of data often is)
        sat, j = sats[k % 2], k//2
        if s == 'R':
            e = Geph(sat)
            e.mode = 0
            e.toe = gnss.utc2gpst(gnss.timeadd(ep0, 86400.0*j+900))
            e.tof = e.toe
            e.toes = gnss.time2gpst(e.toe)[1]
            e.iode = 13
            enc.rnx_gnav_body(e, fh)
        else:
            e = Eph(sat)
            e.mode = MODE[typ]
            e.isc = [0.0]*6
            e.toc = gnss.timeadd(ep0, 7200.0*j+(14 if s == 'C' else 0))
            e.toe = e.toc
            e.tot = e.toc
            e.week, e.toes = gnss.time2gpst(gnss.timeadd(ep0, 7200.0*j))
            if s == 'C':
                e.week -= 1356
            e.tops = int(e.toes)
            e.iode = 1
            e.A = 26560000.0
            e.cuc = 0.0
            enc.rnx_nav_body(e, fh)
        if i == 0 or all(q != k for q in seq[:i]):
            want.append((sat, j))
    nav = readnav(ctx, fh.getvalue().split('\n')[:-1])
    lst = nav.geph if s == 'R' else nav.eph
    got = []
    for e in lst:
        dt = gnss.timediff(e.toe, ep0)
        got.append((e.sat, int(dt > 3600.0)))
    ctx.check('every ephemeris', all(w in got for w in want))
    again = [seq[i] == seq[i-1] for i in range(1, 3)]
    ctx.check('only those written', all(g in want for g in got))
    if not any(seq[i] != seq[i-1] for i in range(1, 3)):
        ctx.check('repeated message written once', len(got) == 1)


# ---------------------------------------------------------------------------
def opar(ctx, lines):
    return ['    '+''.join(' '*19 if x is None else ctx.text(x*1.0, '19.12E')
                           for x in row) for row in lines]


@harness(cases=[['G', 'LNAV'], ['C', 'CNVX'], ['E', 'IFNV'], ['J', 'LNAV'],
                ['C', 'D1D2'], ['R', 'LXOC'], ['I', 'L1NV', 'KLOB'],
                ['I', 'L1NV', 'NEQN'], ['STO', 'G'], ['STO', 'E'],
                ['EOP', 'G'], ['hdr', 'GPSA'], ['hdr', 'QZSA']],
         budget=60, witnesses=2)
def h_sys_read(ctx, case):
    """ionosphere, system time offset and earth orientation records do not
    disturb the ephemeris that follows and give their parameters"""
    kind = case[0]
    s = 'G'
    v = values(ctx, s, 'LNAV')
    x = [ctx.real(f'x{k}', -1000, 1000, res='1/1024') for k in range(30)]
    ep = [2024, 3, 3, 12, 0, 0]
    lead = '    '+epoch('', ep)[1:]
    rec, hdr = [], []
    ver = 4.02
    if kind == 'hdr':
        ver = 3.04
        for c, o in (('A', 0), ('B', 4)):
            hdr.append((case[1][:3]+c+' ' +
                        ''.join(ctx.text(x[o+k], '12.4E') for k in range(4))
                        ).ljust(60)+'IONOSPHERIC CORR')
        hdr.append('    18'.ljust(60)+'LEAP SECONDS')
    elif kind == 'STO':
        g = case[1]
        ch = {'G': 'GPUT', 'E': 'GAGP'}[g]
        lab = {'G': 'LNAV', 'E': 'IFNV'}[g]
        rec = ['> STO %s01 %s' % (g, lab), lead+' '+ch]
        rec += opar(ctx, [x[0:4]])
    elif kind == 'EOP':
        rec = ['> EOP G01 LNAV',
               lead+''.join(ctx.text(a, '19.12E') for a in x[0:3])]
        rec += opar(ctx, [[None]+x[3:6], x[6:10]])
    else:
        typ = case[1]
        st = case[2] if len(case) > 2 else ''
        rec = ['> ION %s01 %s %s' % (kind, typ, st)]
        h3 = lead+''.join(ctx.text(a, '19.12E') for a in x[0:3])
        if typ == 'IFNV':
            fl = ctx.u('fl', 5)
            rec += [h3]+opar(ctx, [[fl]])
        elif typ == 'CNVX':
            rec += [h3]+opar(ctx, [x[3:7], x[7:9]])
        elif typ == 'LXOC':
            rec += [h3]
        elif st == 'KLOB':
            rec += [lead+ctx.text(x[0], '19.12E')]+opar(
                ctx, [x[1:5], x[5:9], x[9:13]])
        elif st == 'NEQN':
            rec += [lead+ctx.text(x[0], '19.12E')]+opar(
                ctx, [x[1+4*k:5+4*k] for k in range(6)])
        else:
            rc = ctx.u('rc', 1)
            rec += [h3]+opar(ctx, [x[3:7], [x[7], rc]])
    out = header(ver, hdr)+rec+record(ctx, s, 'LNAV', 9, v, ver)
    nav = readnav(ctx, out)
    ctx.check('one record', len(nav.eph) == 1)
    if len(nav.eph) == 1:
        expect(ctx, s, 'LNAV', v, nav.eph[0], label='eph ')
    L = lambda lab, a, b: ctx.close(lab, a, b, 1e-8)
    t = gnss.epoch2time(ep)
    if kind == 'hdr':
        for k in range(4):
            L('ion a', nav.ion[0, k], x[k])
            L('ion b', nav.ion[1, k], x[4+k])
        ctx.check('leap seconds', nav.leaps == 18)
        return
    sys = gnss.char2sys(case[1] if kind in ('STO', 'EOP') else kind)
    if kind == 'EOP':
        if case[1] == 'G':
            p = nav.eop_prm[uGNSS.GPS][0]
        for k in range(6):
            L('eop', p.prm[k], x[k])
        L('eop t', p.t_t, x[6])
        for k in range(3):
            L('dut', p.prm[6+k], x[7+k])
        ctx.close('t_eop', gnss.timediff(p.t_eop, t), 0, 1e-6)
        return
    if kind == 'STO':
        p = nav.sto_prm[sys][{'G': 0, 'E': 2}[case[1]]]
        L('sto t', p.t_t, x[0])
        for k in range(3):
            L('sto a', p.a[k], x[1+k])
        ctx.check('sto source', p.prm[0] == {'G': uGNSS.GPS,
                                             'E': uGNSS.GAL}[case[1]])
        ctx.check('sto target', p.prm[1] == {'G': uGNSS.NONE,
                                             'E': uGNSS.GPS}[case[1]])
        ctx.close('t_ot', gnss.timediff(p.t_ot, t), 0, 1e-6)
        return
    im = {'LNAV': 0, 'IFNV': 2, 'D1D2': 3, 'CNVX': 5, 'L1NV': 6,
          'LXOC': 7}[case[1]]
    p = nav.ion_prm[sys][im]
    ctx.close('t_tm', gnss.timediff(p.t_tm, t), 0, 1e-6)
    typ = case[1]
    if typ == 'IFNV':
        for k in range(3):
            L('ai', p.prm[k], x[k])
        L('flags', p.prm[3], fl)
    elif typ == 'CNVX':
        for k in range(9):
            L('bdgim', p.prm[k], x[k])
    elif typ == 'LXOC':
        for k in range(3):
            L('lxoc', p.prm[k], x[k])
    elif case[-1] == 'KLOB':
        L('iod', p.iod, x[0])
        for k in range(8):
            L('klob', p.prm[k], x[1+k])
        for k in range(4):
            L('region', p.region[k], x[9+k])
    elif case[-1] == 'NEQN':
        L('iod', p.iod, x[0])
        for j in range(3):
            for k in range(8):
                L('neqn', p.prm[j, k], x[1+8*j+k])
    else:
        for k in range(8):
            L('klob', p.prm[k], x[k])
        L('region code', p.prm[8], rc)


# ---------------------------------------------------------------------------
SIGS = {'G': ['C1C', 'L1C', 'D1C', 'S1C', 'C2W', 'L2W', 'D2W', 'S2W', 'C2L',
              'L2L', 'D2L', 'S2L', 'C5Q', 'L5Q', 'D5Q', 'S5Q', 'C1W', 'L1W',
              'D1W', 'S1W', 'C1L', 'L1L', 'D1L', 'S1L', 'C5X', 'L5X', 'D5X',
              'S5X'],
        'E': ['C1C', 'L1C', 'D1C', 'S1C', 'C5Q', 'L5Q', 'D5Q', 'S5Q', 'C7Q',
              'L7Q', 'D7Q', 'S7Q', 'C6C', 'L6C', 'D6C', 'S6C'],
        'R': ['C1C', 'L1C', 'S1C'], 'J': ['C1C', 'L1C', 'C2L', 'L2L'],
        'C': ['C2I', 'L2I', 'C6I', 'L6I', 'C7D', 'L7D'],
        'S': ['C1C', 'L1C'], 'I': ['C5A', 'L5A']}


def obshdr(sigs, ver=4.02, extra=()):
    h = ['%9.2f' % ver+' '*11+'OBSERVATION DATA'.ljust(20)+'M'.ljust(20) +
         'RINEX VERSION / TYPE']
    for s, lst in sigs:
        n = len(lst)
        for k in range(0, max(n, 1), 13):
            a = '%s  %3d' % (s, n) if k == 0 else ' '*6
            for x in lst[k:k+13]:
                a += ' '+x
            h.append(a.ljust(60)+'SYS / # / OBS TYPES')
    h += list(extra)
    h.append(' '*60+'END OF HEADER')
    return h


def obsrec(ctx, ep, recs, flag=0, text='14.3f'):
    """recs: [(id, [(value or None, lli, ssi)])]"""
    out = ['> %04d %02d %02d %02d %02d %10.7f  %d%3d' %
           (*ep, flag, len(recs))]
    for sid, cols in recs:
        a = sid
        for v, l, ss in cols:
            a += ' '*14 if v is None else ctx.text(v*1.0, text)
            a += l+ss
        out.append(a.rstrip(' '))
    return out


def siglist(sel):
    return [rSigRnx(gnss.char2sys(s), c) for s, c in sel]


def cases_obs():
    return [[[['G', 4]], 0], [[['G', 13]], 0], [[['G', 14]], 1],
            [[['G', 26]], 0], [[['G', 27]], 0], [[['G', 28]], 1],
            [[['G', 8], ['E', 16]], 0], [[['G', 4], ['R', 3], ['E', 8]], 0],
            [[['J', 4], ['C', 6], ['I', 2]], 0], [[['S', 2], ['G', 4]], 1],
            [[['C', 6], ['E', 4]], 2],
            [[['G', 4], ['R', 3], ['E', 4]], 3],
            [[['C', 3], ['G', 4], ['J', 3]], 3]]


@harness(cases=cases_obs, budget=60, witnesses=2, max_paths=4000)
def h_obs_read(ctx, case):
    """each column of an observation record becomes the value of its signal
    and satellite"""
    spec, var = case
    sel, sigs = [], []
    for s, n in spec:
        lst = SIGS[s][:n]
        if var == 1:
            lst = lst[::-1]
        sigs.append((s, lst))
        use = lst if var != 2 else lst[:-1]
        if var == 3 and s == spec[1][0]:
            use = []        # constellation in the file, but not selected
        sel += [(s, c) for c in use if c in SIGS[s][:n]]
    d = rinex.rnxdec()
    d.setSignals(siglist(sel))
    prn = {'G': 5, 'E': 11, 'R': 7, 'J': 3, 'C': 21, 'S': 22, 'I': 9}
    prn2 = {'G': 32, 'E': 1, 'R': 24, 'J': 1, 'C': 63, 'S': 58, 'I': 14}
    recs, exp = [], {}
    for s, lst in sigs:
        for q, pr in enumerate((prn[s], prn2[s])[:1 if len(spec) > 2 else 2]):
            cols = []
            sat = gnss.id2sat('%s%02d' % (s, pr))
            for j, c in enumerate(lst):
                v = ctx.real(f'{s}{pr}{c}', -9999, 30000000, res='1/8')
                lli = ctx.choice(f'l{s}{pr}{c}', [' ', '0', '1', '2', '3']
                                 if c == lst[1] and q == 0 else [' ']
                                 if c != 'L2W' else ['5']) \
                    if c[0] == 'L' else ' '
                if q == 1 and j == 2:
                    v = None
                cols.append((v, lli, '7' if c[0] == 'L' else ' '))
                exp[sat, c] = (0.0 if v is None else v, lli)
            recs.append(('%s%02d' % (s, pr), cols))
            if var == 3 and s == spec[0][0]:
                # a constellation without observation types in the header
                recs.append(('S2%d' % q, cols))
    ep = [2024, 5, 6, 7, 8, 29.5]
    lines = obshdr(sigs)+obsrec(ctx, ep, recs)
    lines += obsrec(ctx, [2024, 5, 6, 7, 9, 0.0], recs[:1])
    d.decode_obsh(ctx.file('\n'.join(lines)+'\n', 'f.rnx'))
    obs = d.decode_obs()
    recs = [x for x in recs if x[0][0] in [q for q, _ in sel]]
    ctx.close('time', gnss.timediff(obs.t, gnss.epoch2time(ep)), 0, 1e-6)
    ctx.check('satellites', [int(x) for x in obs.sat] ==
              [gnss.id2sat(r[0]) for r in recs])
    if len(obs.sat) != len(recs):
        return
    for k, (sid, cols) in enumerate(recs):
        s = sid[0]
        sys = gnss.char2sys(s)
        sat = gnss.id2sat(sid)
        for c in [c for q, c in sel if q == s]:
            v, lli = exp[sat, c]
            sg = rSigRnx(sys, c)
            j = obs.sig[sys][sg.typ].index(sg)
            a = {uTYP.C: obs.P, uTYP.L: obs.L, uTYP.D: obs.D,
                 uTYP.S: obs.S}[sg.typ]
            ctx.close(f'{sid} {c}', a[k, j], v, 1e-6)
            if sg.typ == uTYP.L:
                want = 1 if lli in '1357' else 0
                ctx.check(f'lli {lli}', int(obs.lli[k, j]) == want)
    obs2 = d.decode_obs()
    ctx.close('second epoch', gnss.timediff(obs2.t, obs.t), 30.5, 1e-6)
    ctx.check('second epoch satellites', [int(x) for x in obs2.sat] ==
              [gnss.id2sat(recs[0][0])])
    obs3 = d.decode_obs()
    ctx.check('end of file', obs3.t.time == 0)


@harness(cases=[[2], [3], [4], [5], [6]], budget=60)
def h_obs_event(ctx, case):
    """event records between epochs carry no observations"""
    fl = case[0]
    sel = [('G', 'C1C'), ('G', 'L1C')]
    d = rinex.rnxdec()
    d.setSignals(siglist(sel))
    v = [ctx.real(f'v{k}', 1, 30000000, res='1/8') for k in range(4)]
    lines = obshdr([('G', ['C1C', 'L1C'])])
    lines += obsrec(ctx, [2024, 5, 6, 7, 8, 0.0],
                    [('G05', [(v[0], ' ', ' '), (v[1], ' ', '7')])])
    if fl == 6:
        lines += obsrec(ctx, [2024, 5, 6, 7, 8, 30.0],
                        [('G05', [(None, ' ', ' '), (3.0, ' ', ' ')])], 6)
    elif fl == 5:
        lines += ['> 2024 05 06 07 08 30.0000000  5  0']
    else:
        lines += ['>'+' '*30+'%d%3d' % (fl, 2),
                  'SITE B'.ljust(60)+'MARKER NAME',
                  'G05 something'.ljust(60)+'COMMENT']
    lines += obsrec(ctx, [2024, 5, 6, 7, 9, 0.0],
                    [('G07', [(v[2], ' ', ' '), (v[3], ' ', '7')])])
    d.decode_obsh(ctx.file('\n'.join(lines)+'\n', 'f.rnx'))
    o = d.decode_obs()
    ctx.check('first', [int(x) for x in o.sat] == [5])
    o = d.decode_obs()
    ctx.close('second time', gnss.timediff(
        o.t, gnss.epoch2time([2024, 5, 6, 7, 9, 0])), 0, 1e-6)
    ctx.check('second', [int(x) for x in o.sat] == [7])
    if len(o.sat) == 1:
        ctx.close('P', o.P[0, 0], v[2], 1e-6)
        ctx.close('L', o.L[0, 0], v[3], 1e-6)


@harness(cases=[[]], budget=60, witnesses=2)
def h_obs_header(ctx, case):
    """station data of the observation file header"""
    p = [ctx.real(f'p{k}', -7000000, 7000000, res='1/16') for k in range(3)]
    e = [ctx.real(f'e{k}', -10, 10, res='1/16') for k in range(3)]
    ch = {i: ctx.int(f'c{i}', -7, 6) for i in range(1, 11)}
    ex = ['REC'.ljust(20)+'septentrio x5'.ljust(20)+'5.4'.ljust(20) +
          'REC # / TYPE / VERS',
          '123'.ljust(20)+'jav_grant-g3t   none'.ljust(20)+' '*20 +
          'ANT # / TYPE',
          ''.join(ctx.text(x, '14.4f') for x in p).ljust(60) +
          'APPROX POSITION XYZ',
          ''.join(ctx.text(x, '14.4f') for x in (e[2], e[0], e[1])).ljust(60)
          + 'ANTENNA: DELTA H/E/N']
    sl = [' R%02d ' % i+ctx.text(ch[i], '2d') for i in sorted(ch)]
    ex += [(' 10'+''.join(sl[:8])).ljust(60)+'GLONASS SLOT / FRQ #',
           ('   '+''.join(sl[8:])).ljust(60)+'GLONASS SLOT / FRQ #']
    ex += ['  2024     5     6     7     8   29.5000000     GPS'.ljust(60) +
           'TIME OF FIRST OBS']
    d = rinex.rnxdec()
    d.decode_obsh(ctx.file('\n'.join(obshdr([('G', ['C1C'])], extra=ex)) +
                           '\n', 'f.rnx'))
    for k in range(3):
        ctx.close('position', d.pos[k], p[k], 1e-6)
        ctx.close('eccentricity', d.ecc[k], e[k], 1e-6)
    for i in ch:
        ctx.close('channel', d.glo_ch[gnss.id2sat('R%02d' % i)], ch[i], 1e-9)
    ctx.check('antenna', d.ant == 'JAV_GRANT-G3T   NONE')
    ctx.check('receiver', d.rcv.strip() == 'SEPTENTRIO X5')
    ctx.close('first', gnss.timediff(d.ts, gnss.epoch2time(
        [2024, 5, 6, 7, 8, 29.5])), 0, 1e-6)


@harness(cases=[[[0, 30, 60], [0, 30, 60]], [[0, 30, 60], [30, 60]],
                [[30, 60], [0, 30]], [[0, 1, 2, 30], [30, 31]],
                [[0, 30], [60, 90]], [[60, 90], [0, 30]], [[0], [1]]],
         budget=30)
def h_obs_sync(ctx, case):
    """rover and base observations are paired within the threshold; the end
    of either file ends the search"""
    off = ctx.choice('off', [0.0, 0.05, -0.05])
    decs = []
    v = ctx.real('v', 1, 30000000, res='1/8')
    for k, ts in enumerate(case):
        d = rinex.rnxdec()
        d.setSignals(siglist([('G', 'C1C'), ('G', 'L1C')]))
        lines = obshdr([('G', ['C1C', 'L1C'])])
        for t in ts:
            tt = t+(off if k else 0)
            lines += obsrec(
                ctx, [2024, 5, 6, 7, 8+int((tt+60)//60), (tt+60) % 60],
                [('G05', [(v, ' ', ' '), (v, ' ', '7')])])
        d.decode_obsh(ctx.file('\n'.join(lines)+'\n', 'f.rnx'))
        real = d.decode_obs
        cnt = [0]

        def lim(real=real, cnt=cnt):
            cnt[0] += 1
            if cnt[0] > 50:
                raise TimeoutError('endless search')
            return real()
        d.decode_obs = lim
        decs.append(d)
    common = sorted(set(case[0]) & set(case[1]))
    for q in range(len(common)+1):
        try:
            o, b = rinex.sync_obs(decs[0], decs[1])
        except TimeoutError:
            ctx.check('search ends', False)
            return
        if q < len(common):
            ctx.check('pair', abs(gnss.timediff(o.t, b.t)) <= 0.1)
            ctx.check('pair is the next common epoch', abs(gnss.timediff(
                o.t, gnss.epoch2time([2024, 5, 6, 7, 9, 0]))-common[q]) < .1)
        else:
            ctx.check('end of data', o.t.time == 0 or b.t.time == 0)


def cases_obsrt():
    return [[['G'], 1, 'CLDS'], [['G'], 3, 'CLDS'], [['G'], 4, 'CLDS'],
            [['G'], 7, 'CLDS'], [['G'], 6, 'CL'], [['G', 'E'], 2, 'CLS'],
            [['G'], 5, 'CLDS'], [['C', 'J'], 2, 'CL']]


@harness(cases=cases_obsrt, budget=60, witnesses=2)
def h_obs_roundtrip(ctx, case):
    """observations written to a file and read back"""
    sl, nf, typs = case
    tab, sel = {}, []
    T = {'C': uTYP.C, 'L': uTYP.L, 'D': uTYP.D, 'S': uTYP.S}
    for s in sl:
        sys = gnss.char2sys(s)
        bands = []
        for c in SIGS[s]:
            if c[1:] not in bands:
                bands.append(c[1:])
        tab[sys] = {T[t]: [rSigRnx(sys, t+b) for b in bands[:nf]]
                    for t in typs}
        for t in typs:
            sel += tab[sys][T[t]]
    obs = gnss.Obs()
    ep = [2024, 5, 6, 7, 8, 29.5]
    obs.time = obs.t = gnss.epoch2time(ep)
    obs.sat = np.array([gnss.id2sat(s+'07') for s in sl])
    n = len(sl)

    def mat(nm, lo, hi):
        return ctx.arr([[ctx.real(f'{nm}{i}{k}', lo, hi, res='1/8')
                         for k in range(nf)] for i in range(n)])
    obs.P = mat('P', 1, 30000000)
    obs.L = mat('L', 1, 150000000)
    obs.D = mat('D', 1, 9999)
    obs.S = ctx.arr([[40.5]*nf]*n)
    obs.lli = ctx.arr([[ctx.choice(f'l{i}{k}', [0, 1]) if k == 0 else 0
                        for k in range(nf)] for i in range(n)])
    fh = io.StringIO()
    enc = rinex.rnxenc(tab)
    enc.rnx_obs_header(obs.time, fh)
    enc.rnx_obs_body(obs, fh)
    d = rinex.rnxdec()
    d.setSignals(sel)
    d.decode_obsh(ctx.file(fh.getvalue(), 'f.rnx'))
    o = d.decode_obs()
    ctx.close('time', gnss.timediff(o.t, obs.t), 0, 1e-6)
    ctx.check('satellites', [int(x) for x in o.sat] ==
              [int(x) for x in obs.sat])
    if len(o.sat) != n:
        return
    for i in range(n):
        for k in range(nf):
            ctx.close('P', o.P[i, k], obs.P[i, k], 6e-4)
            ctx.close('L', o.L[i, k], obs.L[i, k], 6e-4)
            ctx.check('lli', int(o.lli[i, k]) == int(obs.lli[i, k]))
            if 'D' in typs:
                ctx.close('D', o.D[i, k], obs.D[i, k], 6e-4)
            if 'S' in typs:
                ctx.close('S', o.S[i, k], obs.S[i, k], 6e-4)
    ctx.close('first', gnss.timediff(d.ts, obs.t), 0, 1e-6)


# attributes that stand for the same signal (component) of a band
ALIKE = {'G': {'12': ('CW', 'SLX'), '5': ('IQX',)},
         'E': {'578': ('IQX',), '16': ('BCX',)},
         'J': {'126': ('SLX',), '5': ('IQX',)}, 'C': {'157': ('PX',)}}
SUBST = [['G', '1', 'C', 'CWSLX'], ['G', '2', 'W', 'CWSLX'],
         ['G', '2', 'L', 'CWSLX'], ['G', '5', 'Q', 'IQX'],
         ['E', '1', 'C', 'BCX'], ['E', '5', 'Q', 'IQX'],
         ['E', '7', 'I', 'IQX'], ['E', '6', 'B', 'BCX'],
         ['J', '1', 'S', 'SLX'], ['J', '2', 'L', 'SLX'],
         ['J', '5', 'X', 'IQX'], ['C', '5', 'P', 'PX'],
         ['C', '7', 'P', 'PX'], ['R', '1', 'C', 'CP']]


@harness(cases=SUBST, budget=60, witnesses=2)
def h_subst(ctx, case):
    """signals the file does not have are replaced by another component of
    the same band, whatever signals it has; the others stay"""
    s, band, att, atts = case
    sys = gnss.char2sys(s)
    d = rinex.rnxdec()
    other = 'C1C' if band != '1' else 'C2X'
    if s in 'EC':
        other = 'C'+('1X' if band != '1' else '6X')
    d.setSignals([rSigRnx(s+other), rSigRnx(s+'C'+band+att),
                  rSigRnx(s+'L'+band+att)])
    d.setSignals([rSigRnx('SC1C')])
    have = {}
    d.sig_map = {sys: {}}
    n = 0
    for t in 'CL':
        for a in atts:
            have[t, a] = ctx.choice(f'{t}{a}', [0, 1])
            if have[t, a]:
                d.sig_map[sys][n] = rSigRnx(s+t+band+a)
                n += 1
    d.sig_map[sys][n] = rSigRnx(s+other)
    d.autoSubstituteSignals()
    for t, T in (('C', uTYP.C), ('L', uTYP.L)):
        sig = d.getSignals(sys, T)[-1]
        ctx.check('same kind', sig.sys == sys and sig.typ == T and
                  sig.str()[:2] == t+band)
        got = sig.str()[2]
        ok = [a for g in [x for k, v in ALIKE.get(s, {}).items()
                          if band in k for x in v if att in x]
              for a in g if have.get((t, a))]
        if have.get((t, att)) or not ok:
            ctx.eq('signal kept', got, att)
        else:
            ctx.check('replaced', got in ok)
    ctx.eq('available signal', d.getSignals(sys, uTYP.C)[0].str(), other)
    ctx.eq('other system', d.getSignals(uGNSS.SBS, uTYP.C)[0].str(), 'C1C')


@harness(cases=[[p] for p in ([3, 1, 2], [40, 5, 90, 33], [1], [2, 9])],
         witnesses=2)
def h_sort(ctx, case):
    """rows stay with their satellite when an epoch is sorted"""
    sats = case[0]
    o = gnss.Obs()
    o.sat = ctx.arr(sats)
    v = {}
    for a in ('P', 'L', 'D', 'S', 'lli'):
        v[a] = [[ctx.real(f'{a}{s}_{k}', -1e8, 1e8) for k in range(2)]
                for s in sats]
        setattr(o, a, ctx.arr(v[a]))
    o.sort()
    for j, s in enumerate(sorted(sats)):
        ctx.eq('satellite', o.sat[j], s)
        for a in v:
            for k in range(2):
                ctx.eq(a, getattr(o, a)[j, k], v[a][sats.index(s)][k])
