"""independent description of the Compact SSR (4073) message layouts"""
from fractions import Fraction as F
from cssrlib.gnss import uGNSS, rSigRnx, uTYP, prn2sat, gpst2time

SYS = dict(G=uGNSS.GPS, R=uGNSS.GLO, E=uGNSS.GAL, C=uGNSS.BDS, J=uGNSS.QZS,
           S=uGNSS.SBS, D=uGNSS.BDS)
ID = dict(G=0, R=1, E=2, C=3, J=4, S=5, D=7)      # D: BDS-3
OFS = dict(G=0, R=0, E=0, C=0, J=192, S=119, D=18)
NSLOT = dict(G=32, R=32, E=36, C=40, J=10, S=39, D=40)
SIG = dict(
    G=['1C', '1P', '1W', '1S', '1L', '1X', '2S', '2L', '2X', '2P', '2W',
       '5I', '5Q', '5X'],
    R=['1C', '1P', '2C', '2P', '4A', '4B', '4X', '6A', '6B', '6X', '3I',
       '3Q', '3X'],
    E=['1B', '1C', '1X', '5I', '5Q', '5X', '7I', '7Q', '7X', '8I', '8Q',
       '8X', '6B', '6C', '6X'],
    C=['2I', '2Q', '2X', '6I', '6Q', '6X', '7I', '7Q', '7X', '1D', '1P',
       '1X', '5D', '5P', '5X'],
    J=['1C', '1S', '1L', '1X', '2S', '2L', '2X', '5I', '5Q', '5X'],
    S=['1C', '5I', '5Q', '5X'])
SIG['D'] = SIG['C']
WEEK = 2300
TOW = 264600                # tow of the mask
HOUR = TOW//3600*3600
ORB = [(15, F(16, 10000)), (13, F(64, 10000)), (13, F(64, 10000))]
CLK = (15, F(16, 10000))
CB = (11, F(2, 100))
PB = (15, F(1, 1000))


def sat(s, slot):
    return prn2sat(SYS[s], OFS[s]+slot)


def rsig(s, t, k):
    return rSigRnx(SYS[s], t, SIG[s][k])


def name(s, t, k):
    """RINEX code of signal k: 'C1C', 'L5Q' ..."""
    return {uTYP.C: 'C', uTYP.L: 'L'}[t]+SIG[s][k]


class Css:
    """message stream under construction (several messages in one buffer)"""

    def __init__(self, ctx, nan=None, pre=''):
        self.ctx, self.nan, self.pre = ctx, nan, pre
        self.m = ctx.msg()
        self.sats = []          # (sys, slot, [signal ids])

    def fld(self, nm, n, scl):
        """signed field; the reserved pattern only in self.nan"""
        v = self.m.s(self.pre+nm, n)
        if self.nan == nm:
            self.ctx.assume(v == -(1 << (n-1)))
            return float('nan')
        self.ctx.assume(v != -(1 << (n-1)))
        return v*scl

    def head(self, sub, p, tow=None, iod=None):
        """header common to all messages; returns field values"""
        m, h = self.m, {}
        p = self.pre+p
        m.put(12, 4073)
        m.put(4, sub)
        if sub == 1:
            h['tow'] = tow if tow is not None else \
                self.ctx.int(p+'tow', 0, 604799)
            m.put(20, h['tow'])
        else:
            h['dtow'] = tow if tow is not None else \
                self.ctx.int(p+'dtow', 0, 3599)
            m.put(12, h['dtow'])
        h['udi'] = m.u(p+'udi', 4)
        h['mi'] = m.u(p+'mi', 1)
        h['iod'] = m.put(4, iod) if iod is not None else m.u(p+'iod', 4)
        return h

    def mask(self, gnss, tow=TOW, iod=3, p='m.'):
        """gnss: list of (sys, slots, signals, cells or None); cells: per
        satellite list of positions in signals"""
        self.h = h = self.head(1, p, tow, iod)
        m = self.m
        m.put(4, len(gnss))
        self.sats = []
        self.groups = gnss
        for s, slots, sigs, cells in gnss:
            m.put(4, ID[s])
            m.put(40, sum(1 << (40-k) for k in slots))
            m.put(16, sum(1 << (15-k) for k in sigs))
            m.put(1, 0 if cells is None else 1)
            for j, k in enumerate(sorted(slots)):
                sg = sorted(sigs)
                if cells is not None:
                    m.put(len(sg), sum(1 << (len(sg)-1-c)
                                       for c in cells[j]))
                    sg = [sg[c] for c in sorted(cells[j])]
                self.sats.append((s, k, sg))
        return h

    # blocks of one satellite
    def orb(self, s, p):
        iode = self.m.u(self.pre+p+'iode', 10 if s == 'E' else 8)
        return iode, [self.fld(p+f'o{j}', *ORB[j]) for j in range(3)]

    def clk(self, p):
        return self.fld(p+'clk', *CLK)

    def cb(self, p):
        return self.fld(p+'cb', *CB)

    def pb(self, p):
        v = self.fld(p+'pb', *PB)
        return v, self.m.u(self.pre+p+'di', 2)

    def buf(self):
        # end of the stream: a message of another type
        self.m.put(12, 0)
        self.m.put(4, 0)
        return self.m.buf()


def decoder(mode=None):
    from cssrlib.cssrlib import cssr
    cs = cssr()
    cs.monlevel = 0
    cs.week = WEEK
    return cs


def time_of(h):
    if 'tow' in h:
        return gpst2time(WEEK, 0).time+h['tow']
    return gpst2time(WEEK, 0).time+HOUR+h['dtow']


STEC = [(14, F(5, 100)), (12, F(2, 100)), (12, F(2, 100)), (10, F(2, 100)),
        (8, F(5, 1000)), (8, F(5, 1000))]
NCOEF = [1, 3, 4, 6]


def quality(c, v):
    """quality indicator, metre; None: unknown"""
    if (c, v) == (0, 0):
        return None
    if (c, v) == (7, 7):
        return 5.4665
    return (3**c*(1+v/4)-1)*1e-3
