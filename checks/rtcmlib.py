"""independent description of the RTCM 3 / IGS SSR message layouts"""
from fractions import Fraction as F
from cssrlib.gnss import uGNSS, rSigRnx, uTYP, uSIG, prn2sat, gpst2time

G, R, E, C, J, S = (uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS, uGNSS.QZS,
                    uGNSS.SBS)
SYS = dict(G=G, R=R, E=E, C=C, J=J, S=S)
BASE = dict(G=1057, R=1063, E=1240, J=1246, S=1252, C=1258)
KINDS = ['orb', 'clk', 'cbias', 'comb', 'ura', 'hclk']
# SSR test message numbers (RTCM SSR working draft)
TEST = dict(R=dict(orb=41, clk=42, cbias=43, comb=44, ura=45, hclk=46,
                   pbias=86),
            E=dict(orb=62, clk=65, cbias=68, comb=71, ura=74, hclk=77,
                   pbias=87),
            C=dict(orb=63, clk=66, cbias=69, comb=72, ura=75, hclk=78,
                   pbias=88),
            J=dict(orb=64, clk=67, cbias=70, comb=73, ura=76, hclk=79,
                   pbias=89),
            G=dict(pbias=85))
PB = dict(G=1265, R=1266, E=1267, J=1268, S=1269, C=1270)
IGS = dict(G=20, R=40, E=60, J=80, C=100, S=120)
IGSK = dict(orb=1, clk=2, comb=3, hclk=4, cbias=5, pbias=6, ura=7)
PRN = dict(G=(1, 32), R=(1, 27), E=(1, 36), C=(1, 63), J=(1, 10),
           S=(1, 39))
OFS = dict(G=0, R=0, E=0, C=0, J=192, S=119)
# signal and tracking mode identifiers
SIG = dict(
    G={0: '1C', 1: '1P', 2: '1W', 5: '2C', 6: '2D', 7: '2S', 8: '2L',
       9: '2X', 10: '2P', 11: '2W', 14: '5I', 15: '5Q', 16: '5X', 17: '1S',
       18: '1L', 19: '1X'},
    R={0: '1C', 1: '1P', 2: '2C', 3: '2P', 4: '4A', 5: '4B', 6: '6A',
       7: '6B'},
    E={0: '1A', 1: '1B', 2: '1C', 3: '1X', 4: '1Z', 5: '5I', 6: '5Q',
       7: '5X', 8: '7I', 9: '7Q', 10: '7X', 11: '8I', 12: '8Q', 13: '8X',
       14: '6A', 15: '6B', 16: '6C', 17: '6X', 18: '6Z'},
    C={0: '2I', 1: '2Q', 2: '2X', 3: '6I', 4: '6Q', 5: '6X', 6: '7I',
       7: '7Q', 8: '7X', 9: '1D', 10: '1P', 11: '1X', 12: '5D', 13: '5P',
       14: '5X', 15: '1A'},
    J={0: '1C', 1: '1S', 2: '1L', 3: '2S', 4: '2L', 5: '2X', 6: '5I',
       7: '5Q', 8: '5X', 9: '6S', 10: '6L', 11: '6X', 12: '1X', 17: '6E'},
    S={0: '1C', 1: '5I', 2: '5Q', 3: '5X'})
ORB = [('dr', 22, F(1, 10000)), ('da', 20, F(4, 10000)),
       ('dc', 20, F(4, 10000)), ('ddr', 21, F(1, 10**6)),
       ('dda', 19, F(4, 10**6)), ('ddc', 19, F(4, 10**6))]
CLK = [('c0', 22, F(1, 10000)), ('c1', 21, F(1, 10**6)),
       ('c2', 27, F(2, 10**8))]
WEEK = 2400


def msgtype(dialect, kind, sys):
    """(message number, IGS subtype)"""
    if dialect == 'igs':
        return 4076, IGS[sys]+IGSK[kind]
    if dialect == 'test':
        return TEST[sys].get(kind), None
    if kind == 'pbias':
        return PB[sys], None
    return BASE[sys]+KINDS.index(kind), None


def iodelen(dialect, sys):
    if dialect == 'igs':
        return 8
    return {'E': 10, 'S': 24}.get(sys, 8)


def idlen(dialect, sys):
    if dialect == 'igs':
        return 6
    return {'R': 5, 'J': 4}.get(sys, 6)


def sat(sys, slot):
    return prn2sat(SYS[sys], OFS[sys]+slot)


class Ssr:
    """message under construction; every field is named after its place"""

    def __init__(self, ctx, dialect, kind, sys, nsat, nan=None, iyaw=None,
                 tow=None):
        self.ctx, self.d, self.k, self.s = ctx, dialect, kind, sys
        m = self.m = ctx.msg()
        self.nanfield = nan
        mt, sub = msgtype(dialect, kind, sys)
        self.mt = mt
        m.put(24, 0)
        m.put(12, mt)
        if dialect == 'igs':
            m.any('ver', 3)
            m.put(8, sub)
        if sys == 'R' and dialect != 'igs':
            self.tow = ctx.int('tod', 0, 86399) if tow is None else tow
            m.put(17, self.tow)
        else:
            self.tow = ctx.int('tow', 0, 604799) if tow is None else tow
            m.put(20, self.tow)
        self.udi = m.u('udi', 4)
        self.mi = m.u('mi', 1)
        if kind in ('orb', 'comb'):
            self.datum = m.u('datum', 1)
        self.iod = m.u('iodssr', 4)
        self.pid = m.u('pid', 16)
        self.sid = m.u('sid', 4)
        self.iyaw = True
        self.iex = None
        if kind == 'pbias':
            if dialect == 'test':
                self.iyaw = iyaw
                m.put(1, int(iyaw))
                self.iex = m.u('iex', 4)
            else:
                m.any('cons', 2)
        m.put(6, nsat)
        self.sats = []

    def fld(self, name, n, scl, pre):
        """signed field; the reserved pattern only in self.nanfield"""
        v = self.m.s(pre+name, n)
        if self.nanfield == pre+name:
            self.ctx.assume(v == -(1 << (n-1)))
            return float('nan')
        self.ctx.assume(v != -(1 << (n-1)))
        return v*scl

    def add(self, slot, sigs=(), nsig=None):
        ctx, m, k = self.ctx, self.m, self.k
        p = f's{len(self.sats)}.'
        m.put(idlen(self.d, self.s), slot)
        o = dict(slot=slot)
        if k in ('orb', 'comb'):
            o['iode'] = m.u(p+'iode', iodelen(self.d, self.s))
            o['orb'] = [self.fld(n, b, s, p) for n, b, s in ORB]
        if k in ('clk', 'comb'):
            o['clk'] = [self.fld(n, b, s, p) for n, b, s in CLK]
        if k == 'hclk':
            o['hclk'] = self.fld('hc', 22, F(1, 10000), p)
        if k == 'ura':
            o['cls'] = m.u(p+'cls', 3)
            o['val'] = m.u(p+'val', 3)
        if k == 'cbias':
            m.put(5, len(sigs))
            o['cb'] = []
            for j, c in enumerate(sigs):
                m.put(5, c)
                o['cb'].append((c, self.fld(f'cb{j}', 14, F(1, 100), p)))
        if k == 'pbias':
            m.put(5, len(sigs))
            if self.iyaw:
                o['yaw'] = m.u(p+'yaw', 9)*F(1, 256)
                o['dyaw'] = self.fld('dyaw', 8, F(1, 8192), p)
            o['pb'] = []
            for j, c in enumerate(sigs):
                m.put(5, c)
                si = m.u(f'{p}si{j}', 1)
                wl = m.u(f'{p}wl{j}', 2) if self.d != 'test' else None
                di = m.u(f'{p}di{j}', 4)
                o['pb'].append((c, si, wl, di,
                                self.fld(f'pb{j}', 20, F(1, 10000), p)))
        self.sats.append(o)
        return o

    def buf(self):
        return self.m.buf()
