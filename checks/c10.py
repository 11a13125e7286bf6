"""C10 Compact SSR satellite and signal corrections"""
import itertools
from engine.api import harness
from cssrlib.cssrlib import sCType
from cssrlib.gnss import uTYP
from checks.csslib import (Css, NSLOT, SIG, TOW, HOUR, decoder, name, quality,
                           sat, time_of)

BOUNDS = ['masks of 1..3 systems, up to 3 satellites and 4 signals in all '
          'harnesses but h_mask/h_sigmask, which take every slot and every '
          'signal id', 'all field values; reserved pattern in one field at a '
          'time', 'week fixed (2300); the epoch of the messages after the '
          'mask in the hour of the mask', 'NavIC (id 6) has no decoder '
          'support and reserved signal ids are outside']
M = [
    [('G', [32], [0, 10], None)],
    [('E', [2, 36], [1, 4], None)],
    [('G', [1, 7], [0, 10, 12], [[0, 1], [0, 2]]), ('E', [3], [0], None)],
    [('J', [1, 3], [0, 5, 8], [[1], [0, 1, 2]]), ('C', [40], [0, 3], None)],
    [('R', [24], [0, 2], None), ('D', [1, 28], [9, 12], [[0, 1], [1]])],
    [('S', [1, 39], [0, 2], [[0, 1], [0]]), ('G', [5], [11], [[0]])],
]
KINDS = ['orb', 'clk', 'cbias', 'pbias', 'bias-c', 'bias-p', 'bias-cp',
         'comb-o', 'comb-c', 'comb-oc']
SUB = dict(orb=2, clk=3, cbias=4, pbias=5)


def message(c, kind, tow=None, iod=3, p=''):
    """append one correction message for the satellites of the mask"""
    m = c.m
    h = c.head(SUB.get(kind, 6 if 'bias-' in kind else 11), 'b.'+p, tow, iod)
    a, _, opt = kind.partition('-')
    ocb = dict(orb='o', clk='c', cbias='c', pbias='p').get(kind, opt)
    if opt:
        x, y = ('c', 'p') if a == 'bias' else ('o', 'c')
        m.put(1, int(x in opt))
        m.put(1, int(y in opt))
        m.put(1, 0)
    out = []
    orbit = kind in ('orb', 'clk') or a == 'comb'
    for k, (s, slot, sg) in enumerate(c.sats):
        q = f'{p}s{k}.'
        o = dict(s=s, slot=slot)
        if orbit:
            if 'o' in ocb:
                o['iode'], o['orb'] = c.orb(s, q)
            if 'c' in ocb:
                o['clk'] = c.clk(q)
        else:
            o['cb'], o['pb'] = [], []
            for j in sg:
                if 'c' in ocb:
                    o['cb'].append((j, c.cb(f'{q}{j}.')))
                if 'p' in ocb:
                    o['pb'].append((j, *c.pb(f'{q}{j}.')))
            if 'c' not in ocb:
                del o['cb']
            if 'p' not in ocb:
                del o['pb']
        out.append(o)
    return h, out


def codes(d):
    return sorted(k.str() for k in d)


def verify(ctx, cs, out, inet=0):
    lc = cs.lc[inet]
    for key, nm in (('orb', 'dorb'), ('iode', 'iode'), ('clk', 'dclk'),
                    ('cb', 'cbias'), ('pb', 'pbias')):
        if key in out[0]:
            ctx.eq('sats:'+nm, sorted(getattr(lc, nm).keys()),
                   sorted(sat(o['s'], o['slot']) for o in out))
    for o in out:
        k = sat(o['s'], o['slot'])
        if 'orb' in o:
            ctx.eq('iode', lc.iode[k], o['iode'])
            for j in range(3):
                ctx.close('rac'[j], lc.dorb[k][j], o['orb'][j], 1e-9)
        if 'clk' in o:
            ctx.close('clk', lc.dclk[k], o['clk'], 1e-9)
        if 'cb' in o:
            ctx.eq('code signals', codes(lc.cbias[k]), sorted(
                name(o['s'], uTYP.C, j) for j, _ in o['cb']))
            for j, v in o['cb']:
                ctx.close('cbias', find(lc.cbias[k], name(o['s'], uTYP.C,
                                                          j)), v, 1e-9)
        if 'pb' in o:
            ctx.eq('phase signals', codes(lc.pbias[k]), sorted(
                name(o['s'], uTYP.L, j) for j, *_ in o['pb']))
            for j, v, di in o['pb']:
                n = name(o['s'], uTYP.L, j)
                ctx.close('pbias', find(lc.pbias[k], n), v, 1e-9)
                ctx.eq('di', find(lc.di[k], n), di)


def find(d, n):
    for k, v in d.items():
        if k.str() == n:
            return v
    return None


SCT = dict(orb=[sCType.ORBIT], clk=[sCType.CLOCK], cbias=[sCType.CBIAS],
           pbias=[sCType.PBIAS])
SCT.update({'bias-c': [sCType.CBIAS], 'bias-p': [sCType.PBIAS],
            'bias-cp': [sCType.CBIAS, sCType.PBIAS],
            'comb-o': [sCType.ORBIT], 'comb-c': [sCType.CLOCK],
            'comb-oc': [sCType.ORBIT, sCType.CLOCK]})


def status(ctx, cs, kind, h):
    ctx.eq('epoch', cs.time.time, time_of(h))
    ctx.eq('epoch:frac', cs.time.sec, 0)
    for t in SCT[kind]:
        ctx.eq('udi', cs.udi[t], h['udi'])
        ctx.eq('iod', cs.iodssr_c[t], h['iod'])
        ctx.check('cstat', (cs.lc[0].cstat >> t) & 1 == 1)
        if t == sCType.MASK:
            continue
        for s in cs.sat_n:
            ctx.eq('t0', cs.lc[0].t0[s][t].time, time_of(h))


def sections(ctx, c, cs):
    """the mask as decoded"""
    ctx.eq('mask:sats', list(cs.sat_n), [sat(s, k) for s, k, _ in c.sats])
    ctx.eq('mask:nsat', cs.nsat_n, len(c.sats))
    ctx.eq('mask:nsig', list(cs.nsig_n), [len(g) for *_, g in c.sats])
    for s, k, g in c.sats:
        ctx.eq('mask:signals', [x.str()[1:] for x in cs.sig_n[sat(s, k)]],
               [SIG[s][j] for j in g])


@harness(cases=[[k, i] for k in KINDS for i in range(len(M))])
def h_values(ctx, case):
    """mask and one correction message, every field value"""
    kind, i = case
    c = Css(ctx)
    c.mask(M[i])
    h, out = message(c, kind)
    cs = decoder()
    r = cs.decode_cssr(c.buf(), 0)
    ctx.eq('end', r, -1)
    sections(ctx, c, cs)
    status(ctx, cs, kind, h)
    verify(ctx, cs, out)


def nancases():
    out = []
    for i, m in ((2, M[2]), (3, M[3])):
        s = m[0][0]
        sg = [m[0][2][j] for j in m[0][3][1]]
        for k in KINDS:
            if k in ('orb', 'comb-o', 'comb-oc'):
                out += [[k, i, f's1.o{j}'] for j in range(3)]
            if k in ('clk', 'comb-c', 'comb-oc'):
                out += [[k, i, 's1.clk']]
            if k in ('cbias', 'bias-c', 'bias-cp'):
                out += [[k, i, f's1.{g}.cb'] for g in sg]
            if k in ('pbias', 'bias-p', 'bias-cp'):
                out += [[k, i, f's1.{g}.pb'] for g in sg]
    return out


@harness(cases=nancases())
def h_nan(ctx, case):
    """the reserved pattern gives not-a-number for that field alone"""
    kind, i, nan = case
    c = Css(ctx, nan=nan)
    c.mask(M[i])
    h, out = message(c, kind)
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    verify(ctx, cs, out)


@harness(cases=[[s, p] for s in NSLOT for p in (0, 1)])
def h_mask(ctx, case):
    """every satellite slot, alone and next to another one"""
    s, p = case
    k = ctx.choice('slot', range(1, NSLOT[s]+1))
    slots = [k] if p == 0 else sorted({k, NSLOT[s] if k < NSLOT[s] else 1})
    c = Css(ctx)
    c.mask([(s, slots, [0, 2], None)])
    h, out = message(c, 'clk', tow=0)
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    sections(ctx, c, cs)
    verify(ctx, cs, out)


@harness(cases=[[s, cm] for s in SIG for cm in (0, 1)])
def h_sigmask(ctx, case):
    """every pair of signals of a system, with and without cell mask"""
    s, cm = case
    n = len(SIG[s])
    a, b = ctx.choice('pair', list(itertools.combinations(range(n), 2)))
    c = Css(ctx)
    c.mask([(s, [1, 2], [a, b], [[1], [0, 1]] if cm else None)])
    h, out = message(c, 'bias-cp', tow=0)
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    sections(ctx, c, cs)
    verify(ctx, cs, out)


@harness(cases=list(range(2, 5)))
def h_cells(ctx, case):
    """every cell mask of two satellites and up to 4 signals"""
    n = case
    sub = [list(x) for r in range(1, n+1)
           for x in itertools.combinations(range(n), r)]
    x = ctx.choice('x', sub)
    y = ctx.choice('y', sub)
    c = Css(ctx)
    c.mask([('G', [3, 4], [0, 2, 10, 12][:n], [x, y]),
            ('E', [1], [4], None)])
    h, out = message(c, 'cbias', tow=0)
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    sections(ctx, c, cs)
    verify(ctx, cs, out)


@harness(cases=[0, 1])
def h_maskhead(ctx, case):
    """header of the mask message: any epoch, interval and issue"""
    c = Css(ctx)
    h = c.mask(M[2 if case else 0], tow=None, iod=None)
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    ctx.eq('epoch', cs.time.time, time_of(h))
    ctx.eq('iod', cs.iodssr, h['iod'])
    ctx.check('cstat', (cs.lc[0].cstat >> sCType.MASK) & 1 == 1)
    ctx.eq('hour', cs.tow0, ctx.floor(h['tow']*ctx_f(1, 3600))*3600)
    sections(ctx, c, cs)


def ctx_f(a, b):
    from fractions import Fraction
    return Fraction(a, b)


@harness(cases=[0, 1])
def h_ura(ctx, case):
    """user range accuracy: class and value of every satellite"""
    c = Css(ctx)
    c.mask(M[2])
    h = c.head(7, 'u.', None, 3)
    v = []
    for k in range(3):
        if k == case:
            u = ctx.choice('c', range(8)), ctx.choice('v', range(8))
        else:
            u = (2, 5) if k == 2 else (6, 1)
        c.m.put(3, u[0])
        c.m.put(3, u[1])
        v.append(u)
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    ctx.eq('udi', cs.udi[sCType.URA], h['udi'])
    ctx.eq('sats', sorted(cs.lc[0].ura), sorted(sat(s, k)
                                                for s, k, _ in c.sats))
    for (s, k, _), u in zip(c.sats, v):
        q = quality(*u)
        if q is None:
            ctx.nan('unknown', cs.lc[0].ura[sat(s, k)])
        else:
            ctx.close('ura', cs.lc[0].ura[sat(s, k)], q, 1e-9)


@harness(cases=[[a, b] for a in ('orb', 'clk', 'cbias', 'comb-oc')
                for b in ('orb', 'clk', 'pbias', 'bias-cp', 'comb-c')])
def h_stream(ctx, case):
    """two messages after one mask: the later replaces its own kind only"""
    a, b = case
    c = Css(ctx)
    c.mask(M[2])
    ha, oa = message(c, a, tow=30, p='a')
    hb, ob = message(c, b, tow=60, p='b')
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    for x, y in zip(oa, ob):
        for k in y:
            if k not in ('s', 'slot'):
                x.pop(k, None)
    if len(oa[0]) > 2:
        verify(ctx, cs, oa)
    verify(ctx, cs, ob)
    ctx.eq('epoch', cs.time.time, time_of(hb))


@harness(cases=[[k, i] for k in ('orb', 'cbias', 'comb-oc') for i in (2, 4)])
def h_remask(ctx, case):
    """a new mask (other satellites) governs the messages that follow"""
    kind, i = case
    c = Css(ctx)
    c.mask(M[3])
    message(c, kind, tow=30, p='a')
    iod = ctx.choice('iod', [3, 4])
    c.mask(M[i], tow=TOW+30, iod=iod, p='n.')
    h, out = message(c, kind, tow=60, iod=iod, p='b')
    cs = decoder()
    cs.decode_cssr(c.buf(), 0)
    sections(ctx, c, cs)
    status(ctx, cs, kind, h)
    verify(ctx, cs, out)
