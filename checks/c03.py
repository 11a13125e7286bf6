"""C03 signal codes and carrier frequencies"""
from engine.api import harness
from cssrlib import gnss
from cssrlib.gnss import uGNSS, uTYP, rSigRnx

LET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
CH = {'GPS': 'G', 'GAL': 'E', 'QZS': 'J', 'BDS': 'C', 'GLO': 'R',
      'SBS': 'S', 'IRN': 'I'}
# RINEX 3.05/4.0 observation codes: band -> (codes that must be accepted,
# codes on which this check takes no position)
CODES = {
    'GPS': {1: ('CSLXPWYM', 'N'), 2: ('CDSLXPWYMN', ''), 5: ('IQX', '')},
    'GLO': {1: ('CP', 'X'), 2: ('CP', 'X'), 3: ('IQX', ''), 4: ('ABX', ''),
            6: ('ABX', '')},
    'GAL': {1: ('ABCXZ', ''), 5: ('IQX', ''), 6: ('ABCXZ', ''),
            7: ('IQX', ''), 8: ('IQX', '')},
    'SBS': {1: ('C', ''), 5: ('IQX', '')},
    'QZS': {1: ('CSLXZEB', ''), 2: ('SLX', ''), 5: ('IQXDPZ', ''),
            6: ('SLXEZ', '')},
    'BDS': {1: ('DPX', 'SLZAN'), 2: ('IQX', ''), 5: ('DPX', ''),
            6: ('IQX', 'DPZA'), 7: ('IQXDPZ', ''), 8: ('DPX', '')},
    'IRN': {1: ('DPX', ''), 5: ('ABCX', ''), 9: ('ABCX', '')},
}
FREQ = {
    'GPS': {1: 1575.42e6, 2: 1227.60e6, 5: 1176.45e6},
    'GAL': {1: 1575.42e6, 5: 1176.45e6, 6: 1278.75e6, 7: 1207.14e6,
            8: 1191.795e6},
    'QZS': {1: 1575.42e6, 2: 1227.60e6, 5: 1176.45e6, 6: 1278.75e6},
    'BDS': {1: 1575.42e6, 2: 1561.098e6, 5: 1176.45e6, 6: 1268.52e6,
            7: 1207.14e6, 8: 1191.795e6},
    'GLO': {3: 1202.025e6, 4: 1600.995e6, 6: 1248.06e6},
    'SBS': {1: 1575.42e6, 5: 1176.45e6},
    'IRN': {1: 1575.42e6, 5: 1176.45e6, 9: 2492.028e6},
}
BOUNDS = ['all band digits 1..9, attribute letters A..Z and the four '
          'observation types of the seven systems; GLONASS channels -7..13']


@harness(cases=list(CODES), budget=120)
def h_codes(ctx, case):
    """valid RINEX codes round-trip, invalid attributes are rejected"""
    band = ctx.choice('band', sorted(CODES[case]))
    att = ctx.choice('att', LET)
    typ = ctx.choice('typ', 'CLDS')
    ok, free = CODES[case][band]
    code = f'{typ}{band}{att}'
    if att in ok:
        s = rSigRnx(uGNSS[case], code)
        ctx.eq('str', s.str(), code)
        ctx.eq('repr', repr(s), CH[case]+code)
        ctx.eq('sys', s.sys, uGNSS[case])
        ctx.eq('typ', int(s.typ), 'CLDS'.index(typ)+1)
        t = rSigRnx(CH[case]+code)
        ctx.check('equal', t == s)
        ctx.check('hash', hash(t) == hash(s))
        ctx.eq('band', int(s.band()), band*100)
        u = s.toTyp(uTYP.L)
        ctx.eq('toTyp', u.str(), 'L'+code[1:])
        ctx.eq('toAtt', s.toAtt(att).str(), code)
        ctx.eq('toAtt none', s.toAtt().str().strip(), code[:2])
    elif att not in free:
        ctx.check('reject', ctx.raises(lambda: rSigRnx(uGNSS[case], code),
                                       ValueError))


@harness(cases=list(CODES), budget=120)
def h_distinct(ctx, case):
    """different codes are different signals"""
    b1 = ctx.choice('b1', sorted(CODES[case]))
    b2 = ctx.choice('b2', sorted(CODES[case]))
    a1 = ctx.choice('a1', CODES[case][b1][0])
    a2 = ctx.choice('a2', CODES[case][b2][0])
    s1 = rSigRnx(uGNSS[case], f'C{b1}{a1}')
    s2 = rSigRnx(uGNSS[case], f'C{b2}{a2}')
    ctx.check('distinct', (s1 == s2) == ((b1, a1) == (b2, a2)))
    ctx.check('typ', not s1 == s1.toTyp(uTYP.L))


@harness(cases=list(FREQ))
def h_freq(ctx, case):
    """carrier frequency and wavelength of every band"""
    band = ctx.choice('band', sorted(FREQ[case]))
    typ = ctx.choice('typ', 'CL')
    s = rSigRnx(uGNSS[case], f'{typ}{band}{CODES[case][band][0][0]}')
    k = ctx.int('k', -7, 13)
    ctx.close('freq', s.frequency(), FREQ[case][band], 1e-3)
    ctx.close('freq k', s.frequency(k), FREQ[case][band], 1e-3)
    ctx.close('wl', s.wavelength()*FREQ[case][band], 299792458.0, 1e-3)


@harness(cases=[1, 2])
def h_glo_fdma(ctx, case):
    """GLONASS FDMA: centre + channel * spacing; unknown channel -> None"""
    k = ctx.int('k', -7, 13)
    s = rSigRnx(uGNSS.GLO, f'L{case}C')
    f = s.frequency(k)
    f0, df = {1: (1602e6, 562500), 2: (1246e6, 437500)}[case]
    ctx.close('freq', f, f0+k*df, 1e-3)
    ctx.close('wl', s.wavelength(k)*(f0+k*df), 299792458.0, 1e-2)
    ctx.check('none', s.frequency() is None and s.wavelength() is None)


@harness()
def h_bad_input(ctx, case):
    """malformed codes are rejected, not silently mapped"""
    c = ctx.choice('c', ['', 'C', 'X1C', 'Q1C', '1CC', 'C1CC5', 'CC1'])
    ctx.check('reject', ctx.raises(lambda: rSigRnx(uGNSS.GPS, c),
                                   ValueError))
