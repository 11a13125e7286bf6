"""C36 almanacs: reading, selection, propagation"""
import math
from fractions import Fraction as F
from engine.api import harness
from cssrlib import ephemeris as EP
from cssrlib.gnss import Alm, uGNSS, gpst2time, gst2time, bdt2time, gtime_t, \
    prn2sat

BOUNDS = ['YUMA and Galileo XML files of two records, every value of the '
          'numbers; week numbers: every number of the file against the '
          'listed present weeks', 'selection among up to three records at '
          'any epochs', 'propagation: any elements as reals, up to 8 weeks '
          'from the reference epoch; circular orbits for every mean '
          'anomaly, eccentric ones (0.005..0.1) for listed anomalies and '
          'arguments of perigee; sin, '
          'cos and arctan2 of the same argument are the same unknown']
MU = dict(G=3.986005e14, E=3.986004418e14, J=3.986005e14, C=3.986004418e14)
OM = dict(G=7.2921151467e-5, E=7.2921151467e-5, J=7.2921151467e-5,
          C=7.292115e-5)
SYS = dict(G=uGNSS.GPS, E=uGNSS.GAL, J=uGNSS.QZS, C=uGNSS.BDS)
T0 = dict(G=gpst2time, J=gpst2time, E=gst2time, C=bdt2time)
TXT = [('Eccentricity', 'e', 0, 0.1), ('Orbital Inclination(rad)', 'i0', -2,
                                       2),
       ('Rate of Right Ascen(r/s)', 'OMGd', -1e-7, 1e-7),
       ('Right Ascen at Week(rad)', 'OMG0', -7, 7),
       ('Argument of Perigee(rad)', 'omg', -7, 7),
       ('Mean Anom(rad)', 'M0', -7, 7), ('Af0(s)', 'af0', -1e-2, 1e-2),
       ('Af1(s/s)', 'af1', -1e-8, 1e-8)]


@harness(cases=[[s, w, d] for s in 'GJEC' for w, d in (
    (2400, 0), (2400, 1), (2400, -3), (2047, 1), (2048, -1), (2400, -1022))])
def h_yuma(ctx, case):
    """YUMA file read in week w, records of week w+d"""
    s, w, d = case
    now = T0[s](w, 300000)
    ctx.patch(EP, 'timeget', lambda: now)
    out, rec = [], []
    prns = dict(G=(1, 32), J=(193, 199), E=(2, 36), C=(1, 63))[s]
    for k, prn in enumerate(prns):
        v = {}
        out.append(f'******** Week {w} almanac for PRN-{prn:02d} ********')
        out.append(f'ID:                         {prn:02d}')
        v['svh'] = ctx.choice(f'health{k}', [0, 63])
        out.append(f"Health:                     {v['svh']:03d}")
        v['toas'] = ctx.int(f'toa{k}', 0, 147)*4096
        rows = {}
        for t, n, lo, hi in TXT:
            if k and n == 'OMG0':
                t = 'Right Ascen at TOA(rad)'
            v[n] = ctx.real(f'{n}{k}', lo, hi, F(1, 2**40))
            rows[n] = f"{t}: {ctx.text(v[n], '.20f')}"
        v['sqrtA'] = ctx.real(f'a{k}', 5000, 6600, F(1, 2**10))
        out += [rows['e'], 'Time of Applicability(s):  ' +
                ctx.text(v['toas'], 'd'), rows['i0'], rows['OMGd'],
                'SQRT(A)  (m 1/2): '+ctx.text(v['sqrtA'], '.12f'),
                rows['OMG0'], rows['omg'], rows['M0'], rows['af0'],
                rows['af1'], f'week:                        '
                f'{(w+d) % 1024:4d}', '']
        rec.append(v)
    a = EP.loadyuma(ctx.file('\n'.join(out)+'\n', 'alm.txt'), SYS[s])
    ctx.end()
    ctx.eq('records', len(a), 2)
    for k, x in enumerate(a):
        v = rec[k]
        ctx.eq('satellite', x.sat, prn2sat(SYS[s], prns[k]))
        for n in [t[1] for t in TXT]+['toas', 'svh']:
            ctx.close(n, getattr(x, n), v[n], 1e-14)
        ctx.close('axis', x.A, v['sqrtA']*v['sqrtA'], 1e-3)
        ctx.close('epoch', x.toa.time+x.toa.sec,
                  T0[s](w+d, 0).time+v['toas'], 1e-6)
        ctx.eq('week', x.week, w+d)


class Node:
    def __init__(self, text='', **ch):
        self.text, self.ch = text, ch

    def find(self, p):
        n = self
        for q in p.split('/'):
            if q not in ('', '.'):
                n = n.ch.get(q)
                if n is None or isinstance(n, list):
                    n = n[0] if n else None
                if n is None:
                    return None
        return n

    def findall(self, p):
        n = self.ch.get(p.split('/')[-1], [])
        return n if isinstance(n, list) else [n]


XML = [('ecc', 'e', 0, 0.03), ('deltai', 'di', -0.1, 0.1),
       ('omega0', 'OMG0', -1, 1), ('omegaDot', 'OMGd', -1e-8, 1e-8),
       ('w', 'omg', -1, 1), ('m0', 'M0', -1, 1), ('af0', 'af0', -1e-3, 1e-3),
       ('af1', 'af1', -1e-8, 1e-8), ('aSqRoot', 'da', -1, 1)]


@harness(cases=[[k, d] for k in range(4) for d in (-1, 0, 1)])
def h_xml(ctx, case):
    """Galileo XML file issued in the k-th week of a cycle of four; records
    of the week before, the same and the next week"""
    k0, d = case
    issue = ['2024-02-10T10:00:00', '2024-02-17T10:00:00',
             '2024-02-24T10:00:00', '2024-03-02T10:00:00'][k0]
    week = 1276-4+3+k0          # Galileo week of the issue date
    svs, rec = [], []
    for k, prn in enumerate((1, 36)):
        v = {n: ctx.real(f'{n}{k}', lo, hi, F(1, 2**40))
             for _, n, lo, hi in XML}
        v['toas'] = ctx.int(f'toa{k}', 0, 1007)*600
        st = [ctx.choice(f's{k}.{j}', x) for j, x in
              enumerate(([0, 3], [0, 1], [0, 2]))]
        v['svh'] = st[0]*16+st[1]*4+st[2]
        al = {t: Node(ctx.text(v[n], '.20f')) for t, n, _, _ in XML}
        al['iod'] = Node('7')
        al['t0a'] = Node(ctx.text(v['toas'], 'd'))
        al['wna'] = Node(str((week+d) % 4))
        svs.append(Node(
            SVID=Node(str(prn)), almanac=Node(**al),
            svFNavSignalStatus=Node(statusE5a=Node(str(st[0]))),
            svINavSignalStatus=Node(statusE5b=Node(str(st[1])),
                                    statusE1B=Node(str(st[2])))))
        rec.append(v)
    root = Node(header=Node(**{'GAL-header': Node(issueDate=Node(issue))}),
                body=Node(Almanacs=Node(svAlmanac=svs)))

    class tree:
        def getroot(self):
            return root

    class et:
        @staticmethod
        def parse(fname):
            return tree()
    ctx.patch(EP, 'et', et)
    a = EP.loadXmlAlmanac('x.xml')
    ctx.eq('records', len(a), 2)
    for x, v, prn in zip(a, rec, (1, 36)):
        ctx.eq('satellite', x.sat, prn2sat(uGNSS.GAL, prn))
        ctx.eq('health', x.svh, v['svh'])
        pi = math.pi
        ra = v['da']+ctx.sqrt(29600000.0)
        ctx.close('axis', x.A, ra*ra, 1e-3)
        ctx.close('inclination', x.i0, v['di']*pi+56*pi/180, 1e-12)
        for n in ('OMG0', 'OMGd', 'omg', 'M0'):
            ctx.close(n, getattr(x, n), v[n]*pi, 1e-12)
        for n in ('e', 'af0', 'af1', 'toas'):
            ctx.close(n, getattr(x, n), v[n], 1e-14)
        ctx.close('epoch', x.toa.time+x.toa.sec,
                  gst2time(week+d, 0).time+v['toas'], 1e-6)


@harness(cases=[0, 1, 2])
def h_find(ctx, case):
    """the record of the satellite nearest in time, not farther than tmax"""
    lst, dt = [], []
    t0 = gpst2time(2400, 0)
    now = gtime_t(t0.time)
    sats = [[5, 5, 5], [5, 6, 5], [6, 7, 8]][case]
    for k, s in enumerate(sats):
        a = Alm(s)
        d = ctx.int(f'd{k}', -10**7, 10**7)
        a.toa = gtime_t(t0.time+d)
        lst.append(a)
        dt.append(ctx.ite(d >= 0, d, -d))
    tmax = ctx.choice('tmax', [None, 604800])
    r = EP.findalm(lst, now, 5) if tmax is None else \
        EP.findalm(lst, now, 5, tmax)
    ok = [k for k, s in enumerate(sats) if s == 5]
    lim = tmax or 10**9
    if not ok:
        ctx.check('no record', r is None)
        return
    if r is None:
        for k in ok:
            ctx.check('none only if none is near', dt[k] > lim)
        return
    j = [k for k, a in enumerate(lst) if a is r]
    ctx.check('satellite', len(j) == 1 and j[0] in ok)
    ctx.check('age', dt[j[0]] <= lim)
    for k in ok:
        ctx.check('nearest', dt[j[0]] <= dt[k])


@harness(cases=[[s, e] for s in 'GEJC' for e in (
    [0, None], [0.005, 1.0], [0.02, -2.5], [0.1, 3.0], [0.1, 0.5])])
def h_pos(ctx, case):
    """position and clock are those of the Kepler orbit"""
    s, (e, M) = case
    a = Alm(prn2sat(SYS[s], 193 if s == 'J' else 12))
    a.toas = ctx.int('toa', 0, 147)*4096
    a.toa = gpst2time(2300, 0)
    a.e = float(e)
    for n, v in (('i0', 2), ('OMG0', 7), ('OMGd', 1e-7), ('omg', 7),
                 ('af0', 1e-2), ('af1', 1e-8)):
        if n == 'omg' and M is not None:
            continue
        setattr(a, n, ctx.real(n, -v, v))
    t = gtime_t()
    if M is None:
        a.A = ctx.real('A', 6e6, 4.3e7)
        a.M0 = ctx.real('M0', -7, 7)
        dt = ctx.real('dt', -4838400, 4838400)
    else:
        a.A = 26559000.0
        a.omg = ctx.choice('perigee', [0.7, -2.0])
        dt = ctx.choice('dt', [-604800*3-4000, 1000, 604800+1000])
    n = ctx.sqrt(MU[s]/(a.A*a.A*a.A))
    if M is not None:
        n = math.sqrt(MU[s]/a.A**3)
        a.M0 = M-n*dt
    t.time, t.sec = a.toa.time, dt
    rs, dts = EP.alm2pos(t, a)
    ctx.end()
    if M is None:
        E = a.M0+n*dt
        sE, cE = ctx.sin(E), ctx.cos(E)
    else:
        E = M
        for _ in range(100):
            E = M+e*math.sin(E)
        sE, cE = math.sin(E), math.cos(E)
    nu = ctx.atan2(math.sqrt(1-e*e)*sE, cE-e) if M is None else \
        math.atan2(math.sqrt(1-e*e)*sE, cE-e)
    u = nu+a.omg
    r = a.A*(1-e*cE)
    O = a.OMG0+(a.OMGd-OM[s])*dt-OM[s]*a.toas
    cu, su = (ctx.cos(u), ctx.sin(u)) if M is None else \
        (math.cos(u), math.sin(u))
    x, y = r*cu, r*su
    so, co, si, ci = ctx.sin(O), ctx.cos(O), ctx.sin(a.i0), ctx.cos(a.i0)
    w = [x*co-y*ci*so, x*so+y*ci*co, y*si]
    for k in range(3):
        ctx.close('position', rs[k], w[k], 1e-3)
    ctx.close('clock', dts, a.af0+a.af1*dt, 1e-12)
