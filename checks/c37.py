"""C37 disaster reports: JMA DC reports and EWSS common alert messages"""
from fractions import Fraction as F
import numpy as np
from engine.api import harness
from cssrlib import ewss
from cssrlib.gnss import epoch2time, gpst2time, timediff, gtime_t

BOUNDS = ['every DC report type with every bit of its fields; report month '
          'over listed months (leap and common years, December), day within '
          'the month; codes for which the text tables have no entry are out '
          'of scope (the tables are not part of the tree: any code has some '
          'text); reserved classes of the CAMF settings likewise', 'one common alert message of each sort: every bit of the '
          'target area, of the time of onset and of the specific settings '
          'of the listed hazards; one ellipse axis index at a time']
ASSUMPTIONS = ['IS-QZSS-DCR-014 and EWSS CAMF 1.0 layouts as stated in the '
               'harnesses', 'events reported on the first or last days of '
               'another month than the report (the report has no month for '
               'them) are out of scope']


class Tab(dict):
    """text table with an entry for every code"""

    def __getitem__(self, k):
        return 'x'

    def __contains__(self, k):
        return True

    def keys(self):
        return self


ewss.print = print      # so that a harness can see what is printed


def jma(ctx, ep, tables=None):
    ctx.patch(ewss.jmaDec, 'load_msg',
              lambda self, f: (tables or {}).get(f, Tab()))
    d = ewss.jmaDec()
    d.monlevel = 0
    d.time = epoch2time(ep)
    return d


def head(ctx, dc, month, last, spare):
    """bits up to the disaster specific part; returns message, day, h, m"""
    m = ctx.msg()
    m.any('pre', 14)
    m.put(3, ctx.choice('rc', [3, 7]))
    m.put(4, dc)
    m.put(4, month)
    day = m.u('day', 5)
    hh, mm = m.u('hour', 5), m.u('min', 6)
    ctx.assume(ctx.and_(day >= 1, day <= last, hh <= 23, mm <= 59))
    m.put(2, ctx.choice('it', [0, 2]))
    m.any('sp', spare)
    return m, (day, hh, mm)


def tail(ctx, m):
    m.any('tail', 214-len(m))
    vn = m.u('vn', 6)
    m.any('crc', 250-len(m))
    return m.buf(32), vn


def at(ctx, label, t, year, month, dhm, add=0):
    w = epoch2time([year, month, 1, 0, 0, 0]).time
    d, h, mi = dhm
    ctx.close(label, t.time+t.sec-w, (d-1+add)*86400+h*3600+mi*60, 1e-6)


def moment(ctx, m, n, last):
    d, h, mi = m.u(n+'d', 5), m.u(n+'h', 5), m.u(n+'m', 6)
    ctx.assume(ctx.and_(d >= 1, d <= last, h <= 23, mi <= 59))
    return d, h, mi


def position(ctx, m, n):
    """degrees of latitude and longitude, either hemisphere"""
    out = []
    for k, b in ((n+'la', 7), (n+'lo', 8)):
        s = m.u(k+'s', 1)
        d, mi, sc = m.u(k+'d', b), m.u(k+'m', 6), m.u(k+'c', 6)
        v = d+mi*F(1, 60)+sc*F(1, 3600)
        out.append((1-2*s)*v)
    return out


def flat(x):
    if isinstance(x, (list, tuple)) or hasattr(x, 'tolist') and \
            getattr(x, 'ndim', 0):
        return [w for v in x for w in flat(v)]
    return [x]


def values(ctx, label, got, want):
    """same numbers in the same order, whatever their nesting"""
    got, want = flat(got), flat(want)
    ctx.eq(label+' count', len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        ctx.close(f'{label} {k}', g, w, 1e-6)


DATES = [[2024, 2, 29], [2025, 2, 28], [2025, 12, 31], [2028, 8, 31]]


@harness(cases=DATES, witnesses=2)
def h_quake(ctx, case):
    """earthquake early warning"""
    y, mo, last = case
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, 1, mo, last, 4)
    m.any('lg', 6)
    m.any('co', 27)
    o = moment(ctx, m, 'o', last)
    de, ma, ep = m.u('de', 9), m.u('ma', 7), m.u('ep', 10)
    L, U = m.u('L', 4), m.u('U', 4)
    some = {0: m.u('p0', 1)}
    m.put(40, 1 << 7)     # prefectures 2..41: only 34
    m.b.extend([0]*38)
    some[79] = m.u('p79', 1)
    buf, vn = tail(ctx, m)
    r = d.decode(buf, 14)
    ctx.check('accepted', r is None or r != -1)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    at(ctx, 'occurrence', d.tb, y, mo, o)
    w = [33]
    if ctx.concrete(some[0]):
        w = [0]+w
    if ctx.concrete(some[79]):
        w = w+[79]
    values(ctx, 'regions', d.params[0], w)
    values(ctx, 'event', d.params[1], [de, ma*F(1, 10), ep, L, U])


@harness(cases=DATES, witnesses=2)
def h_hypocenter(ctx, case):
    """hypocentre report"""
    y, mo, last = case
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, 2, mo, last, 10)
    co = [m.u(f'co{k}', 9) for k in range(3)]
    moment(ctx, m, 'o', last)
    de, ma, ep = m.u('de', 9), m.u('ma', 7), m.u('ep', 10)
    pos = position(ctx, m, 'e')
    buf, vn = tail(ctx, m)
    d.decode(buf, 14)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    values(ctx, 'position', d.pos, pos)
    values(ctx, 'notices', d.params[0], co)
    values(ctx, 'event', d.params[1], [de, ma*F(1, 10), ep])


@harness(cases=[[2025, 2, 28, k] for k in range(3)], witnesses=2)
def h_intensity(ctx, case):
    """seismic intensities: up to 16 prefectures, some of them absent"""
    y, mo, last, var = case
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, 3, mo, last, 10)
    o = moment(ctx, m, 'o', last)
    es, reg = [], []
    for k in range(16):
        if (var == 0 and k in (0, 5, 15)) or (var == 1 and k > 2):
            m.put(9, 0)
            continue
        e, g = m.u(f'es{k}', 3), m.u(f'pl{k}', 6)
        ctx.assume(g >= 1 if k == 1 else e >= 1)
        es.append(e)
        reg.append(g)
    buf, vn = tail(ctx, m)
    d.decode(buf, 14)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    at(ctx, 'occurrence', d.tb, y, mo, o)
    values(ctx, 'intensity', d.params[0], es)
    values(ctx, 'region', d.params[1], reg)


@harness(cases=[[n] for n in (1, 2, 3, 28)], witnesses=2)
def h_nankai(ctx, case):
    """pages of the Nankai trough report are put together in any order"""
    n = case[0]
    d = jma(ctx, [2025, 2, 14, 5, 6, 7])
    order = list(range(1, n+1))
    if n > 1:
        order = order[1:]+order[:1]
    text = {}
    for q in order[:3]:
        m = ctx.msg()
        m.any(f'{q}pre', 14)
        m.put(3, 3)
        m.put(4, 4)
        m.put(4, 2)
        m.put(5, 3)
        m.put(5, 4)
        m.put(6, 5)
        m.put(2, 0)
        m.any(f'{q}sp', 10)
        m.any(f'{q}is', 4)
        text[q] = [m.u(f'{q}t{k}', 8) for k in range(18)]
        m.put(6, q)
        m.put(6, n)
        m.any(f'{q}sp2', 1)
        vn = m.u(f'{q}vn', 6)
        m.any(f'{q}crc', 250-len(m))
        d.decode(m.buf(32), 14)
        ctx.eq('version', d.vn, vn)
        values(ctx, 'page', d.params[1], [q, n])
    for q in text:
        for k in range(18):
            ctx.eq('text', d.msg[(q-1)*18+k], text[q][k])


@harness(cases=[c+[k] for c in DATES for k in (-1, 0, 3)], witnesses=2)
def h_tsunami(ctx, case):
    """tsunami warning: arrivals today or tomorrow"""
    y, mo, last, empty = case
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, 5, mo, last, 10)
    co = [m.u(f'co{k}', 9) for k in range(3)]
    dw = m.u('dw', 4)
    arr, row = [], []
    for k in range(5):
        if k == empty:
            m.put(26, 0)
            continue
        # what is not zero differs: any time, the first minute of a day
        d1, h, mi = m.u(f'd{k}', 1), m.u(f'h{k}', 5), m.u(f'm{k}', 6)
        ctx.assume(ctx.and_(h <= 23, mi <= 59))
        ctx.assume(ctx.and_(d1 == 0, h == 0, mi == 0) if k == 2 else
                   ctx.and_(d1 == 0, h == 0, mi >= 1) if k == 4 else
                   ctx.and_(d1 == 0, h >= 1) if k == 3 else h >= 1)
        arr.append((d1, h, mi))
        r = m.u(f'th{k}', 4), m.u(f'pl{k}', 10)
        ctx.assume(r[1] >= 1)
        if k == 2:
            ctx.assume(r[0] >= 1)
        row += list(r)
    buf, vn = tail(ctx, m)
    d.decode(buf, 14)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    values(ctx, 'notices', d.params[0], co)
    values(ctx, 'warning', [d.params[1], d.params[2:]], [dw, row])
    ctx.eq('arrivals', len(d.tb), len(arr))
    for k, (d1, h, mi) in enumerate(arr):
        at(ctx, 'arrival', d.tb[k], y, mo, (t[0]+d1, h, mi))


@harness(cases=DATES, witnesses=2)
def h_pacific(ctx, case):
    """northwest Pacific tsunami advisory"""
    y, mo, last = case
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, 6, mo, last, 10)
    tp = m.u('tp', 3)
    arr, row = [], []
    for k in range(5):
        d1, h, mi = m.u(f'd{k}', 1), m.u(f'h{k}', 5), m.u(f'm{k}', 6)
        ctx.assume(ctx.and_(h <= 23, mi <= 59))
        arr.append((d1, h, mi))
        r = m.u(f'th{k}', 9), m.u(f'pl{k}', 7)
        ctx.assume(r[1] >= 1)
        row += list(r)
    buf, vn = tail(ctx, m)
    d.decode(buf, 14)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    values(ctx, 'advisory', d.params, [tp, row])
    ctx.eq('arrivals', len(d.tb), len(arr))
    for k, (d1, h, mi) in enumerate(arr):
        at(ctx, 'arrival', d.tb[k], y, mo, (t[0]+d1, h, mi))


@harness(cases=[[2024, 2, 29, 8], [2025, 12, 31, 8], [2024, 2, 29, 9],
                [2025, 12, 31, 9]], witnesses=2)
def h_volcano(ctx, case):
    """volcano and ash fall reports"""
    y, mo, last, dc = case
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, dc, mo, last, 7 if dc == 8 else 10)
    w, rows = [], []
    have = (0, 2, 3)
    if dc == 8:
        w.append(m.u('du', 3))
        o = moment(ctx, m, 'o', last)
        w += [m.u('dw', 7), m.u('vo', 12)]
        for k in range(5):
            if k in have:
                r = m.u(f'reg{k}', 23)
                ctx.assume(r >= 1)
                rows.append(r)
            else:
                m.put(23, 0)
    else:
        o = moment(ctx, m, 'o', last)
        w += [m.u('dw', 2), m.u('vo', 12)]
        for k in range(4):
            if k in have:
                r = [m.u(f'ho{k}', 3), m.u(f'dw{k}', 3), m.u(f'reg{k}', 23)]
                ctx.assume(r[2] >= 1)
                rows += r
            else:
                m.put(29, 0)
    buf, vn = tail(ctx, m)
    d.decode(buf, 14)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    at(ctx, 'event', d.tb, y, mo, o)
    values(ctx, 'event', d.params, [w, rows])


@harness(cases=[[dc, k] for dc in (10, 11, 14) for k in (-1, 0, 2)],
         witnesses=2)
def h_regions(ctx, case):
    """weather, flood and marine warnings: absent records are left out"""
    dc, empty = case
    y, mo, last = 2024, 2, 29
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, dc, mo, last, 10)
    want = []
    if dc == 10:
        want.append(m.u('ar', 3))
    n, a, b = {10: (6, 5, 19), 11: (3, 4, 40), 14: (8, 5, 14)}[dc]
    for k in range(n):
        if k == empty:
            m.put(a+b, 0)
            continue
        r = m.u(f'w{k}', a), m.u(f'r{k}', b)
        ctx.assume(ctx.and_(r[0] >= 1, r[1] >= 1))
        want += list(r)
    buf, vn = tail(ctx, m)
    d.decode(buf, 14)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    values(ctx, 'warnings', d.params, want)


@harness(cases=DATES, witnesses=2)
def h_typhoon(ctx, case):
    """typhoon report"""
    y, mo, last = case
    d = jma(ctx, [y, mo, 14, 5, 6, 7])
    m, t = head(ctx, 12, mo, last, 10)
    o = moment(ctx, m, 'o', last)
    dt = m.u('dt', 3)
    m.any('sp2', 8)
    v = [m.u('du', 7), m.u('tn', 7), m.u('sr', 4), m.u('ic', 4)]
    pos = position(ctx, m, 'c')
    v += [m.u('pr', 11), m.u('w1', 7), m.u('w2', 7)]
    buf, vn = tail(ctx, m)
    d.decode(buf, 14)
    ctx.eq('version', d.vn, vn)
    at(ctx, 'report', d.ta, y, mo, t)
    at(ctx, 'reference', d.tb, y, mo, o)
    values(ctx, 'typhoon', d.params, [dt, v])
    values(ctx, 'centre', d.pos, pos)


@harness(cases=[[dc] for dc in (0, 7, 13, 15)]+[[1, r] for r in (0, 5)],
         witnesses=2)
def h_unknown(ctx, case):
    """unknown reports leave the last decoded one in place"""
    d = jma(ctx, [2025, 2, 14, 5, 6, 7])
    d.params, d.ta, d.vn = ['keep'], 'ta', 3
    m = ctx.msg()
    m.any('pre', 14)
    m.put(3, case[1] if len(case) > 1 else ctx.choice('rc', [3, 7]))
    m.put(4, case[0])
    m.any('all', 250-len(m))
    ctx.eq('refused', d.decode(m.buf(32), 14), -1)
    ctx.check('kept', d.params == ['keep'] and d.ta == 'ta' and d.vn == 3)


# -- common alert message ----------------------------------------------------
AXIS = [0.216, 0.292, 0.395, 0.535, 0.723, 0.978, 1.322, 1.788, 2.418, 3.269,
        4.421, 5.979, 8.085, 10.933, 14.784, 19.992, 27.035, 36.559, 49.439,
        66.855, 90.407, 122.255, 165.324, 223.564, 302.322, 408.824, 552.846,
        747.603, 1010.970, 1367.116, 1848.727, 2500.0]


class Frame:
    def __getitem__(self, k):
        return Frame()

    def __eq__(self, o):
        return Frame()

    def __len__(self):
        return 0


def camf(ctx):
    ctx.patch(ewss.camfDec, 'load_msg', lambda self, f: Tab())

    class J:
        load = staticmethod(lambda fh: {f'{k+1:02d}': f'pref{k+1:02d}'
                                        for k in range(47)})

    class P:
        read_csv = staticmethod(lambda *a, **k: Frame())
        isna = staticmethod(lambda v: True)
    ctx.patch(ewss, 'json', J)
    ctx.patch(ewss, 'pd', P)
    d = ewss.camfDec(bdir=DIR(ctx))
    d.monlevel = 0
    return d


def DIR(ctx):
    """the only file opened directly is the list of prefectures"""
    return Base(ctx.file('{}', 'jis.json'))


class Base(str):
    def __add__(self, o):
        return Base(self) if o.startswith('jisx0401') else str(o)


def alert(ctx, hcat=44, sel=0, subj=0, smai=None, smii=None, fields=(),
          pid=1, regi=111, every=False):
    """message; returns (buffer, values)"""
    m, v = ctx.msg(), {}
    m.any('before', 24)
    pick = ctx.choice if every else lambda n, vals: vals[-1]
    v['mt'] = pick('mt', [0, 1, 2, 3])
    m.put(2, v['mt'])
    m.put(9, regi)
    m.put(5, pid)
    m.put(7, hcat)
    v['sev'] = pick('sev', [0, 3])
    m.put(2, v['sev'])
    v['wn'] = m.u('wn', 1)
    v['tow'] = m.u('tow', 14)
    v['dur'] = pick('dur', [0, 2])
    m.put(2, v['dur'])
    m.put(1, sel)
    v['ver'] = m.u('ver', 3)
    if sel == 0:
        m.any('lists', 10)
    else:
        v['inst'] = pick('inst', [0, 1, 2, 3])
        m.put(2, v['inst'])
        m.put(8, pick('info', [0, 1, 127]))
    v['lat'], v['lon'] = m.u('lat', 16), m.u('lon', 17)
    m.put(5, smai)
    m.put(5, smii)
    v['LM'], v['Lm'] = smai, smii
    v['az'] = m.u('az', 6)
    m.put(2, subj)
    for n, b in fields:
        v[n] = m.u(n, b)
    m.any('fill', 24+122-len(m))
    return m, v


@harness(cases=[[s, a, b] for s in (0, 1)
                for a, b in ((0, 31), (31, 0), (17, 17), (1, 2))],
         witnesses=2)
def h_area(ctx, case):
    """target ellipse with and without its refinement"""
    s, a, b = case
    d = camf(ctx)
    d.time = gpst2time(2380, 300000)
    m, v = alert(ctx, sel=s, smai=a, smii=b, subj=0, every=True,
                 fields=[(f'c{k}', 3) for k in range(1, 5)])
    ctx.assume(ctx.and_(v['tow'] >= 1, v['tow'] <= 10080))
    n = d.decode(m.buf(32), 24)
    ctx.eq('length', n, 24+122)
    ctx.close('latitude', d.lat, v['lat']*F(180, 65535)-90 +
              v['c1']*F(343, 10**6), 1e-5)
    ctx.close('longitude', d.lon, v['lon']*F(360, 131071)-180 +
              v['c2']*F(343325, 10**9), 1e-5)
    for n, k, c in (('LM', a, 'c3'), ('Lm', b, 'c4')):
        x = F(AXIS[k])
        step = x-F(AXIS[k-1]) if k else x
        ctx.close(n, getattr(d, n), x-v[c]*F(1, 8)*step, 1e-6)
    ctx.close('azimuth', d.az, v['az']*F(180, 64)-90, 1e-6)
    ctx.eq('version', d.ver, v['ver']+1)
    ctx.eq('type', d.mt, ('Test', 'Alert', 'Update', 'All Clear')[
        v['mt']])
    ctx.eq('severity', d.severity, {0: 'unknown', 3: 'extreme'}[v['sev']])
    ctx.eq('duration', d.duration, {0: 'unknown',
                                    2: '6h<duration<12h'}[v['dur']])


@harness(cases=[[w, t] for w in (2380, 2399)
                for t in (100, 86300, 86500, 300000, 604700)], witnesses=2)
def h_onset(ctx, case):
    """time of onset: minute of the week which starts on Monday"""
    w, t = case
    d = camf(ctx)
    d.time = gpst2time(w, t)
    m, v = alert(ctx, sel=0, smai=3, smii=3, subj=2)
    ctx.assume(ctx.and_(v['tow'] >= 1, v['tow'] <= 10080))
    d.decode(m.buf(32), 24)
    monday = gpst2time(w if t >= 86400 else w-1, 86400)
    ctx.close('onset', d.th.time+d.th.sec-monday.time,
              (v['tow']-1)*60+v['wn']*604800, 1e-6)


@harness(cases=[[k] for k in range(8)], witnesses=2)
def h_second(ctx, case):
    """secondary ellipse and centre of the hazard"""
    k = case[0]
    d = camf(ctx)
    d.time = gpst2time(2380, 300000)
    if k % 2:
        m, v = alert(ctx, sel=0, smai=4*k, smii=31-3*k, subj=1,
                     fields=[('c5', 7), ('c6', 7)])
        d.decode(m.buf(32), 24)
        for n, c in (('dlat', 'c5'), ('dlon', 'c6')):
            # zero is left out of the scale
            c = v[c]
            ctx.close(n, getattr(d, n), ctx.ite(c <= 63, c, c+1)*F(20, 128) -
                      10, 1e-6)
    else:
        m, v = alert(ctx, sel=0, smai=4*k, smii=31-3*k, subj=2,
                     fields=[('c7', 2), ('c8', 3), ('c9', 5), ('c10', 5)])
        d.decode(m.buf(32), 24)
        L, q = F(AXIS[4*k]), F(AXIS[31-3*k])
        ctx.close('distance', d.dist, v['c7']*L, 1e-5)
        ctx.close('major', d.LMs, (v['c8']+1)*L*F(1, 4), 1e-5)
        ctx.close('minor', d.Lms, (v['c8']+1)*q*F(1, 4), 1e-5)
        ctx.close('bearing', d.theta, v['c9']*F(45, 4), 1e-6)


# hazard code -> settings in the order they are sent (attribute, bits, number
# of classes)
B4 = {36: [('d1', 4, 9), ('d2', 3, 8), ('d3', 4, 16), ('d4', 4, 16)],
      43: [('d5', 3, 8)], 44: [('d5', 3, 8)],
      63: [('d6', 4, 16)], 71: [('d6', 4, 16)],
      80: [('d7', 3, 5), ('d8', 4, 13), ('d9', 3, 8)],
      82: [('d36', 3, 5), ('d8', 4, 13), ('d9', 3, 8)],
      79: [('d8', 4, 13), ('d9', 3, 8), ('d11', 3, 6)],
      77: [('d8', 4, 13), ('d9', 3, 8), ('d10', 3, 6), ('d16', 3, 6)],
      70: [('d12', 3, 8)], 74: [('d9', 3, 8), ('d13', 4, 10)],
      68: [('d15', 2, 4)], 72: [('d16', 3, 6)],
      81: [('d8', 4, 13), ('d6', 4, 16)],
      64: [('d8', 4, 13), ('d9', 3, 8), ('d16', 3, 6), ('d11', 3, 6)],
      69: [('d17', 3, 5), ('d13', 4, 10)],
      75: [('d13', 4, 10), ('d8', 4, 13)],
      65: [('d18', 2, 4)], 33: [('d19', 3, 5)], 32: [('d20', 3, 5)],
      47: [('d8', 4, 13), ('d5', 3, 8)], 37: [('d21', 3, 5)],
      103: [('d22', 3, 5)], 16: [('d24', 3, 6)], 23: [('d25', 4, 10)],
      19: [('d27', 4, 12)], 15: [('d28', 3, 6)], 18: [('d24', 3, 6)],
      57: [('d29', 5, 14)], 9: [('d30', 4, 9)], 5: [('d31', 4, 16)],
      4: [('d32', 2, 4), ('d33', 2, 4)], 6: [('d34', 2, 4)]}


@harness(cases=[[h] for h in B4], witnesses=2)
def h_detail(ctx, case):
    """quantitative information of each hazard"""
    h = case[0]
    d = camf(ctx)
    d.time = gpst2time(2380, 300000)
    m, v = alert(ctx, hcat=h, sel=0, smai=3, smii=3, subj=3)
    del m.b[24+122-15:]
    f = {}
    for k, (n, b, c) in enumerate(B4[h]):
        if k == 0 or ctx.choice('pick', [0, 1]) == 0 and k == 1:
            f[n] = m.u(n, b)
            ctx.assume(f[n] < c)
            f[n] = ctx.concrete(f[n])
        else:
            f[n] = (c-1)*(3-k)//3
            m.put(b, f[n])
    m.any('rest', 24+122-len(m))
    ctx.eq('length', d.decode(m.buf(32), 24), 24+122)
    for n, b, c in B4[h]:
        t = getattr(d, n+'_t', None)
        ctx.eq(n, getattr(d, n), f[n]*22.5 if n == 'd3' else t[f[n]])


@harness(cases=[[0], [1]], witnesses=2)
def h_skip(ctx, case):
    """what is not supported is skipped as a whole"""
    d = camf(ctx)
    d.time = gpst2time(2380, 300000)
    if case[0]:
        d.hazard_t = {1: 'x'}
    ctx.patch(ewss, 'print', lambda *a, **k: None)
    m, v = alert(ctx, hcat=44, sel=1-case[0], smai=3, smii=3, regi=5)
    ctx.eq('length', d.decode(m.buf(32), 24), 24+122)


@harness(cases=[[k] for k in range(4)], witnesses=2)
def h_ext(ctx, case):
    """extended message: the prefectures of the target area"""
    k = case[0]
    d = camf(ctx)
    said = []
    ctx.patch(ewss, 'print', lambda *a, **q: said.append(
        ' '.join(str(x) for x in a)))
    d.monlevel = 1
    d.time = gpst2time(2380, 300000)
    d.sel, d.pid = (0, 2) if k == 0 else (1, 1+k)
    m = ctx.msg()
    m.any('before', 24+122)
    bit = {}
    if k in (1, 2):
        m.put(1, 0)
        for j in range(47):
            if j in (0, 12, 25, 46):
                bit[j] = ctx.choice(f'p{j}', [0, 1])
            else:
                bit[j] = int(j in (3, 30) and k == 1)
            m.put(1, bit[j])
        m.any('spare', 17)
        m.any('end', 9)
    else:
        if k == 3:
            d.pid = 1
        m.any('all', 74)
    ctx.eq('length', d.decode_ext(m.buf(32), 24+122), 24+122+74)
    if k in (1, 2):
        t = '\n'.join(said)
        for j in range(47):
            ctx.eq('prefecture', f'pref{j+1:02d}' in t, bit[j] == 1)
