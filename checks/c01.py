"""C01 time systems and calendar"""
from fractions import Fraction

from engine.api import harness
from cssrlib import gnss
from cssrlib.gnss import gtime_t

RES = Fraction(1, 2**20)
BOUNDS = ['weeks 0..4095, seconds of week on a 2^-20 s grid',
          'calendar dates 1970-01-01..2099-12-31, fraction of second on a '
          '2^-10 s grid', 'GPS-UTC over 1980-01-06..2037']
ASSUMPTIONS = []

DAY0 = {'gpst': 3657, 'gst': 10825, 'bdt': 13149}     # days since 1970-01-01
LEAPS = [(1981, 7, 1, 1), (1982, 7, 1, 2), (1983, 7, 1, 3), (1985, 7, 1, 4),
         (1988, 1, 1, 5), (1990, 1, 1, 6), (1991, 1, 1, 7), (1992, 7, 1, 8),
         (1993, 7, 1, 9), (1994, 7, 1, 10), (1996, 1, 1, 11),
         (1997, 7, 1, 12), (1999, 1, 1, 13), (2006, 1, 1, 14),
         (2009, 1, 1, 15), (2012, 7, 1, 16), (2015, 7, 1, 17),
         (2017, 1, 1, 18)]


def civil_days(y, m, d):
    """days since 1970-01-01 (proleptic Gregorian)"""
    y -= m <= 2
    era = y//400
    yoe = y-era*400
    doy = (153*(m+(-3 if m > 2 else 9))+2)//5+d-1
    doe = yoe*365+yoe//4-yoe//100+doy
    return era*146097+doe-719468


def tot(t):
    return t.time+t.sec


def mkt(time, sec):
    return gtime_t(time, sec)


@harness(cases=['gpst', 'gst', 'bdt'])
def h_week_tow(ctx, case):
    """week/tow -> time -> week/tow is the identity and the time is exact"""
    f = getattr(gnss, case+'2time')
    g = getattr(gnss, 'time2'+case)
    w = ctx.int('week', 0, 4095)
    s = ctx.real('tow', 0, 604800-RES, RES)
    t = f(w, s)
    ctx.close('time', (t.time-DAY0[case]*86400-604800*w)+(t.sec-s), 0, 1e-6)
    ctx.check('sec range', ctx.and_(t.sec >= 0, t.sec < 1))
    w2, s2 = g(t)
    ctx.eq('week', w2, w)
    ctx.close('tow', s2, s, 1e-6)


@harness(cases=['gpst', 'gst', 'bdt'])
def h_week_rollover(ctx, case):
    """tow outside 0..604800 carries into the week"""
    f = getattr(gnss, case+'2time')
    g = getattr(gnss, 'time2'+case)
    w = ctx.int('week', 2, 4000)
    s = ctx.real('tow', -604800, 2*604800-RES, RES)
    t = f(w, s)
    t = gnss.timeadd(t, 0.0)
    ctx.close('time', (t.time-DAY0[case]*86400-604800*w)+(t.sec-s), 0, 1e-6)
    w2, s2 = g(t)
    ctx.close('total', (w2-w)*604800+(s2-s), 0, 1e-6)
    ctx.check('tow range', ctx.and_(s2 >= 0, s2 < 604800))


@harness()
def h_bdt_gpst(ctx, case):
    """BDT = GPST - 14 s, week offset 1356"""
    w = ctx.int('week', 0, 2000)
    s = ctx.real('tow', 0, 604800-RES, RES)
    a = gnss.bdt2gpst(gnss.bdt2time(w, s))
    b = gnss.gpst2time(w+1356, s)
    ctx.close('offset', (a.time-b.time)+(a.sec-b.sec), 14, 1e-6)
    c = gnss.gpst2bdt(a)
    w2, s2 = gnss.time2bdt(c)
    ctx.close('back', (w2-w)*604800+(s2-s), 0, 1e-6)


@harness()
def h_gst_gpst(ctx, case):
    """Galileo week 0 is GPS week 1024, same seconds"""
    w = ctx.int('week', 0, 2000)
    s = ctx.real('tow', 0, 604800-RES, RES)
    a = gnss.gst2time(w, s)
    b = gnss.gpst2time(w+1024, s)
    ctx.close('offset', (a.time-b.time)+(a.sec-b.sec), 0, 1e-6)


@harness()
def h_timeadd(ctx, case):
    """timeadd adds exactly, normalises, and does not modify its argument"""
    t = mkt(ctx.int('time', 0, 2**32), ctx.real('sec', 0, 1-RES, RES))
    t0, s0 = t.time, t.sec
    dt = ctx.real('dt', -10**6, 10**6, RES)
    r = gnss.timeadd(t, dt)
    ctx.close('sum', (r.time-t0)+(r.sec-s0)-dt, 0, 1e-6)
    ctx.check('range', ctx.and_(r.sec >= 0, r.sec < 1))
    ctx.eq('arg time', t.time, t0)
    ctx.eq('arg sec', t.sec, s0)
    ctx.close('diff', gnss.timediff(r, t), dt, 1e-6)
    ctx.close('anti', gnss.timediff(t, r), -dt, 1e-6)


@harness(budget=120)
def h_calendar(ctx, case):
    """time -> calendar -> time for every second 1970..2099"""
    n = ctx.int('time', 0, 4102444800-1)
    f = ctx.real('sec', 0, 1-Fraction(1, 1024), Fraction(1, 1024))
    ep = gnss.time2epoch(mkt(n, f))
    y, m, d = ep[0], ep[1], ep[2]
    ctx.check('month', ctx.and_(m >= 1, m <= 12))
    m = ctx.concrete(m)
    ctx.check('day', ctx.and_(d >= 1, d <= 31))
    ctx.check('hms', ctx.and_(ep[3] >= 0, ep[3] <= 23, ep[4] >= 0,
                              ep[4] <= 59, ep[5] >= 0, ep[5] < 60))
    # independent day count, valid 1901..2099 without century rule
    y2 = y-1 if m <= 2 else y
    doy = (153*(m+(-3 if m > 2 else 9))+2)//5+d-1
    days = (y2-1968)*365+ctx.floor((y2-1968)/4)+doy-671
    sec = days*86400+ep[3]*3600+ep[4]*60+ep[5]
    ctx.close('calendar', sec-n-f, 0, 1e-6)
    t = gnss.epoch2time(ep)
    ctx.close('back', (t.time-n)+(t.sec-f), 0, 1e-6)


@harness(budget=120)
def h_epoch(ctx, case):
    """calendar -> time is the proleptic day count; -> calendar is identity"""
    y = ctx.int('y', 1980, 2099)
    m = ctx.choice('m', list(range(1, 13)))
    d = ctx.int('d', 1, 28)
    hh = ctx.int('h', 0, 23)
    mm = ctx.int('mi', 0, 59)
    ss = ctx.real('s', 0, 60-Fraction(1, 1024), Fraction(1, 1024))
    t = gnss.epoch2time([y, m, d, hh, mm, ss])
    y2 = y-1 if m <= 2 else y
    doy = (153*(m+(-3 if m > 2 else 9))+2)//5+d-1
    days = (y2-1968)*365+ctx.floor((y2-1968)/4)+doy-671
    ctx.close('time', (t.time-days*86400-hh*3600-mm*60)+(t.sec-ss), 0, 1e-6)
    doy0 = gnss.time2doy(t)
    ny = (y-1-1968)*365+ctx.floor((y-1-1968)/4)+306-671
    ctx.close('doy', doy0*86400, (days-ny+1)*86400+hh*3600+mm*60+ss, 2e-6)


@harness(budget=120)
def h_leap(ctx, case):
    """GPST -> UTC applies the published leap seconds; UTC -> GPST inverts"""
    n = ctx.int('time', 3657*86400+100, 67*365*86400)
    f = ctx.real('sec', 0, 1-Fraction(1, 1024), Fraction(1, 1024))
    t = mkt(n, f)
    u = gnss.gpst2utc(t)
    dt = gnss.timediff(t, u)
    exp = 0
    for y, m, d, k in LEAPS:
        b = civil_days(y, m, d)*86400
        # in GPST the new offset k applies from b+k on
        exp = exp+ctx.num(n >= b+k)
    ctx.close('leap', dt, exp, 1e-6)
    t2 = gnss.utc2gpst(u)
    # during the inserted second itself UTC (POSIX count) is ambiguous
    amb = False
    for y, m, d, k in LEAPS:
        b = civil_days(y, m, d)*86400
        amb = ctx.or_(amb, ctx.and_(n >= b+k-1, n < b+k))
    ctx.check('inverse', ctx.or_(amb, ctx._near(gnss.timediff(t2, t), 0,
                                                1e-6)))


@harness(cases=['week', 'day'])
def h_adjtime(ctx, case):
    """roll-over adjustment: within half a period of the reference, and the
    change is a multiple of the period"""
    P = {'week': 604800, 'day': 86400}[case]
    base = ctx.int('tref', 10**9, 2*10**9)
    tref = mkt(base, ctx.real('fr', 0, 1-RES, RES))
    k = ctx.real('dt', -Fraction(3*P, 2), Fraction(3*P, 2), RES)
    t = gnss.timeadd(tref, k)
    r = gnss.adjtime(t, tref) if case == 'week' else \
        gnss.adjtime(t, tref, dt=86400.0)
    d = gnss.timediff(r, tref)
    ctx.check('near', ctx.and_(d <= P/2+1e-6, d >= -P/2-1e-6))
    c = gnss.timediff(r, t)
    ctx.check('multiple', ctx.or_(ctx._near(c, 0, 1e-6), ctx._near(c, P, 1e-6),
                                  ctx._near(c, -P, 1e-6)))


@harness()
def h_tod2tow(ctx, case):
    """time of day resolved to the day nearest to the reference"""
    w = ctx.int('week', 1000, 3000)
    s = ctx.real('tow', 0, 604800-RES, RES)
    tod = ctx.real('tod', 0, 86400-RES, RES)
    ref = gnss.gpst2time(w, s)
    r = gnss.tod2tow(tod, ref)
    d = gnss.timediff(r, ref)
    ctx.check('near', ctx.and_(d <= 43200+1e-6, d >= -43200-1e-6))
    w2, s2 = gnss.time2gpst(r)
    k = ctx.floor(s2/86400)
    ctx.check('tod', ctx.or_(*[ctx._near(s2-86400*k+j*86400, tod, 1e-6)
                               for j in (0, 1, -1)]))


@harness(budget=120)
def h_glo2time(ctx, case):
    """GLONASS time of day (UTC+3h) resolved near the reference"""
    n = ctx.int('time', civil_days(2017, 1, 2)*86400,
                civil_days(2036, 1, 1)*86400)
    f = ctx.real('sec', 0, 1-RES, RES)
    tod = ctx.real('tod', 0, 86400-RES, RES)
    ref = mkt(n, f)
    r = gnss.glo2time(ref, tod)
    d = gnss.timediff(r, ref)
    ctx.check('near', ctx.and_(d <= 43200+1e-6, d >= -43200-1e-6))
    # GPST = UTC+18 s, GLONASS time = UTC+3 h
    loc = (r.time-18+10800-315964800)+r.sec
    k = ctx.floor(loc/86400)
    ctx.check('tod', ctx.or_(*[ctx._near(loc-86400*k+j*86400, tod, 1e-6)
                               for j in (0, 1, -1)]))


@harness()
def h_time2str(ctx, case):
    """printed date has the fields of the calendar conversion"""
    n = ctx.choice('time', [civil_days(y, m, d)*86400+s for y, m, d, s in (
        (1980, 1, 6, 0), (1999, 12, 31, 86399), (2000, 2, 29, 3661),
        (2024, 2, 29, 43200), (2023, 10, 9, 36009), (2099, 12, 31, 59))])
    f = ctx.real('sec', 0, 1-Fraction(1, 1024), Fraction(1, 1024))
    t = mkt(n, 0.0)
    import datetime
    e = datetime.datetime(1970, 1, 1)+datetime.timedelta(seconds=n)
    ctx.eq('str', gnss.time2str(t), e.strftime('%Y-%m-%d %H:%M:%S'))
    ctx.close('keep', gnss.timediff(mkt(n, f), t), f, 1e-9)
