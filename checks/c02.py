"""C02 satellite numbering"""
from engine.api import harness
from cssrlib import gnss
from cssrlib.gnss import uGNSS

RNG = {'GPS': (1, 32, 'G'), 'GAL': (1, 36, 'E'), 'QZS': (193, 209, 'J'),
       'BDS': (1, 63, 'C'), 'GLO': (1, 32, 'R'), 'SBS': (120, 158, 'S'),
       'IRN': (1, 14, 'I')}
OFS = {'QZS': 192, 'SBS': 100}
SYS = list(RNG)
BOUNDS = ['every PRN of the seven systems, every satellite number 1..233']


@harness(cases=SYS)
def h_roundtrip(ctx, case):
    """(system, PRN) -> number -> (system, PRN), number within 1..MAXSAT"""
    lo, hi, ch = RNG[case]
    prn = ctx.int('prn', lo, hi)
    sys = uGNSS[case]
    sat = gnss.prn2sat(sys, prn)
    ctx.check('range', ctx.and_(sat >= 1, sat <= uGNSS.MAXSAT))
    s2, p2 = gnss.sat2prn(sat)
    ctx.eq('sys', s2, sys)
    ctx.eq('prn', p2, prn)


@harness(cases=[[a, b] for i, a in enumerate(SYS) for b in SYS[i:]])
def h_injective(ctx, case):
    """two different satellites never share a number"""
    a, b = case
    p = ctx.int('p', *RNG[a][:2])
    q = ctx.int('q', *RNG[b][:2])
    sa, sb = gnss.prn2sat(uGNSS[a], p), gnss.prn2sat(uGNSS[b], q)
    if a == b:
        ctx.check('distinct', ctx.or_(ctx.not_(sa == sb), p == q))
    else:
        ctx.check('distinct', ctx.not_(sa == sb))


@harness()
def h_onto(ctx, case):
    """every number 1..MAXSAT is a satellite and converts back to itself"""
    sat = ctx.int('sat', 1, int(uGNSS.MAXSAT))
    sys, prn = gnss.sat2prn(sat)
    ctx.check('sys', sys in [uGNSS[s] for s in SYS])
    lo, hi, ch = RNG[uGNSS(sys).name]
    ctx.check('prn', ctx.and_(prn >= lo, prn <= hi))
    ctx.eq('back', gnss.prn2sat(uGNSS(sys), prn), sat)


@harness(cases=SYS, budget=100)
def h_id(ctx, case):
    """the RINEX identifier is letter + two digits and converts back"""
    lo, hi, ch = RNG[case]
    prn = ctx.int('prn', lo, hi)
    sat = gnss.prn2sat(uGNSS[case], prn)
    s = gnss.sat2id(sat)
    k = ctx.concrete(prn)
    ctx.eq('id', s, f'{ch}{k-OFS.get(case, 0):02d}')
    ctx.eq('back', gnss.id2sat(s), sat)


@harness()
def h_chars(ctx, case):
    """system letters convert both ways, singly and in lists"""
    i = ctx.choice('i', range(len(SYS)))
    j = ctx.choice('j', range(len(SYS)))
    a, b = SYS[i], SYS[j]
    ca, cb = RNG[a][2], RNG[b][2]
    ctx.eq('char2sys', gnss.char2sys(ca), uGNSS[a])
    ctx.eq('sys2char', gnss.sys2char(uGNSS[a]), ca)
    ctx.eq('list', gnss.char2sys(ca+cb), [uGNSS[a], uGNSS[b]])
    ctx.eq('list back', gnss.sys2char([uGNSS[a], uGNSS[b]]), [ca, cb])


@harness(cases=['QZS', 'SBS', 'GPS', 'GAL', 'GLO'])
def h_sid2prn(ctx, case):
    """satellite slot ids (1-based) convert to PRNs"""
    lo, hi, _ = RNG[case]
    sid = ctx.int('sid', 1, hi-lo+1)
    ctx.eq('prn', gnss.sid2prn(uGNSS[case], sid), sid+lo-1)
