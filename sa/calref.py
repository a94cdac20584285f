"""Published holiday rules, as sets of days over [1901-01-01, 2199-12-31].

This file is the oracle for the calendars: each (calendar, market) is a union of
rules.  Rules are set expressions over the day universe of days.py; nothing here
is derived from /repo except the residual date lists of spec/holidays.json, which
hold the announced (not rule-based) closures.
"""
import datetime as dt, json, os
from fractions import Fraction as Fr
import math
import days
from days import ALL, D0, D1, N, part

HERE = os.path.dirname(os.path.abspath(__file__))

MON, TUE, WED, THU, FRI, SAT, SUN = range(7)


def yrs(a=None, b=None):
    """years a..b inclusive"""
    r = 0
    for y, s in part("year").items():
        if (a is None or y >= a) and (b is None or y <= b):
            r |= s
    return r


def Y(*ys):
    r = 0
    for y in ys:
        r |= part("year").get(y, 0)
    return r


def M(m):
    return part("month")[m]


def D(a, b=None):
    r = 0
    for d in range(a, (b or a) + 1):
        r |= part("day").get(d, 0)
    return r


def W(*ws):
    r = 0
    for w in ws:
        r |= part("wd")[w]
    return r


def F(m, d, y=ALL):
    """a fixed date"""
    return M(m) & D(d) & y


def R(m, d, n=2, y=ALL):
    """a fixed date, moved to Monday when one of the n following days is that Monday"""
    return F(m, d, y) | (shift_days(F(m, d, y), 1, n) & W(MON))


def shift_days(s, a, b):
    """days lying a..b days after a day of s"""
    r = 0
    for k in range(a, b + 1):
        r |= days.shift(s, -k)
    return r


def NEAR(m, d, y=ALL):
    """a fixed date; Saturday observed on Friday, Sunday observed on Monday"""
    s = F(m, d, y)
    return s | (days.shift(s & W(SUN), -1)) | (days.shift(s & W(SAT), 1))


def WIN(m, a, b, w, y=ALL):
    """the given weekday falling on day a..b of month m"""
    return M(m) & D(a, b) & W(w) & y


def nth(m, k, w, y=ALL):
    return WIN(m, 7 * k - 6, 7 * k, w, y)


def last(m, w, y=ALL):
    e = {1: 31, 2: 28, 3: 31, 4: 30, 5: 31, 6: 30, 7: 31, 8: 31, 9: 30, 10: 31, 11: 30, 12: 31}[m]
    return WIN(m, e - 6, e, w, y)


def XMAS(y=ALL):
    """25 and 26 December with their substitute days"""
    return F(12, 25, y) | (F(12, 27, y) & W(MON, TUE)) | F(12, 26, y) | (F(12, 28, y) & W(MON, TUE))


def on(*ds):
    r = 0
    for y, m, d in ds:
        r |= 1 << (dt.date(y, m, d) - D0).days
    return r


def span(y, m1, d1, m2, d2):
    a, b = dt.date(y, m1, d1), dt.date(y, m2, d2)
    return on(*[((a + dt.timedelta(i)).year, (a + dt.timedelta(i)).month, (a + dt.timedelta(i)).day) for i in range((b - a).days + 1)])


def easter(y):
    """Gregorian Easter Sunday (anonymous / Meeus computus)"""
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    n = h + l - 7 * m + 114
    return dt.date(y, n // 31, n % 31 + 1)


def orthodox(y):
    """Orthodox Easter Sunday: Julian computus carried to the Gregorian calendar"""
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    n = d + e + 114
    j = dt.date(y, n // 31, n % 31 + 1)
    return j + dt.timedelta(y // 100 - y // 400 - 2)


_em = {}


def E(k, y=ALL, f=easter):
    """k days after Easter Monday"""
    if f not in _em:
        _em[f] = on(*[(d.year, d.month, d.day) for d in (f(v) + dt.timedelta(1) for v in range(1901, 2200))])
    return days.shift(_em[f], -k) & y if k >= 0 else days.shift(_em[f], -k) & y


def O(k, y=ALL):
    return E(k, y, orthodox)


def equinox(base, m):
    """day number floor(base + 0.242194 (y - 1980) - floor((y - 1980) / 4))"""
    r = []
    for y in range(1901, 2200):
        r.append((y, m, math.floor(Fr(base) + Fr("0.242194") * (y - 1980) - (y - 1980) // 4)))
    return on(*r)


WEEKEND = W(SAT, SUN)
GOOD_FRIDAY, EASTER_MONDAY, ASCENSION, WHIT_MONDAY, CORPUS = -3, 0, 38, 49, 59


def fixed(*mds):
    r = 0
    for m, d in mds:
        r |= F(m, d)
    return r


def us_parts():
    wash = WIN(2, 15, 21, MON, yrs(1971)) | NEAR(2, 22, yrs(None, 1970))
    mem = last(5, MON, yrs(1971)) | NEAR(5, 30, yrs(None, 1970))
    labor = nth(9, 1, MON)
    columbus = nth(10, 2, MON, yrs(1971))
    vy = yrs(None, 1970) | yrs(1978)
    vets = NEAR(11, 11, vy) | nth(10, 4, MON, yrs(1971, 1977))
    vets_ns = R(11, 11, 1, vy) | nth(10, 4, MON, yrs(1971, 1977))
    june = NEAR(6, 19, yrs(2022))
    thanks = nth(11, 4, THU)
    ny = R(1, 1, 1)
    return wash, mem, labor, columbus, vets, vets_ns, june, thanks, ny


def unitedstates():
    wash, mem, labor, columbus, vets, vets_ns, june, thanks, ny = us_parts()
    mlk = WIN(1, 15, 21, MON, yrs(1983))
    ind, xm = NEAR(7, 4), NEAR(12, 25)
    settlement = WEEKEND | ny | (F(12, 31) & W(FRI)) | mlk | wash | mem | june | ind | labor | columbus | vets | thanks | xm
    libor = settlement & ~(((F(7, 5) & W(MON)) | (F(7, 3) & W(FRI))) & yrs(2015))
    pres = WIN(11, 1, 7, TUE, yrs(None, 1968) | Y(*range(1904, 1981, 4)))
    special = on((2025, 1, 9), (2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11),
                 (2001, 9, 11), (2001, 9, 12), (2001, 9, 13), (2001, 9, 14), (1994, 4, 27), (1985, 9, 27), (1977, 7, 14),
                 (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31), (1969, 2, 10), (1968, 7, 5), (1968, 4, 9),
                 (1963, 11, 25), (1961, 5, 29), (1958, 12, 26), (1954, 12, 24), (1956, 12, 24), (1965, 12, 24))
    crisis = 0                       # the 1968 paperwork crisis: closed on Wednesdays from mid June
    for o, s in part("ordinal").items():
        if o >= 163:
            crisis |= s
    crisis &= Y(1968) & W(WED)
    nyse = WEEKEND | ny | wash | E(-3) | mem | june | ind | labor | thanks | xm | WIN(1, 15, 21, MON, yrs(1998)) | pres | special | crisis
    gov = (WEEKEND | ny | mlk | wash | (E(-3) & (yrs(None, 1995) | ~D(1, 7) & ALL)) | mem | june | ind | labor | columbus | vets_ns | thanks | xm
           | on((2018, 12, 5), (2025, 1, 9), (2012, 10, 30), (2004, 6, 11)))
    sofr = gov | E(-3)
    nerc = WEEKEND | ny | mem | R(7, 4, 1) | labor | thanks | R(12, 25, 1)
    fed = WEEKEND | ny | mlk | wash | mem | june | R(7, 4, 1) | labor | columbus | vets_ns | thanks | R(12, 25, 1)
    return {None: settlement, "Settlement": settlement, "Libor": libor, "NYSE": nyse, "GovernmentBond": gov, "SOFR": sofr, "NERC": nerc, "FederalReserve": fed}


def unitedkingdom():
    s = (WEEKEND | R(1, 1) | E(-3) | E(0) | XMAS()
         | nth(5, 1, MON, ALL & ~Y(1995, 2020)) | F(5, 8, Y(1995, 2020))
         | last(5, MON, ALL & ~Y(2002, 2012, 2022)) | last(8, MON)
         | on((2002, 6, 3), (2002, 6, 4), (2012, 6, 4), (2012, 6, 5), (2022, 6, 2), (2022, 6, 3), (2011, 4, 29), (2022, 9, 19), (2023, 5, 8), (1999, 12, 31)))
    return {k: s for k in (None, "Settlement", "Exchange", "Metals")}


def argentina():
    oct_ = WIN(10, 10, 12, MON) | WIN(10, 15, 16, MON)
    return WEEKEND | F(1, 1) | E(-4) | E(-3) | F(5, 1) | F(5, 25) | nth(6, 3, MON) | F(7, 9) | nth(8, 3, MON) | oct_ | F(12, 8) | F(12, 24) | F(12, 31) | (F(12, 30) & W(FRI))


def australia():
    s = (WEEKEND | R(1, 1) | R(1, 26) | E(-3) | E(0) | F(4, 25) | nth(6, 2, MON) | XMAS() | on((2022, 9, 22)))
    full = s | nth(8, 1, MON) | nth(10, 1, MON)
    return {None: full, "Settlement": full, "ASX": s}


def austria():
    nat = F(10, 26, yrs(1967)) | F(11, 12, yrs(1919, 1934))
    s = WEEKEND | fixed((1, 1), (1, 6), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)) | E(0) | E(38) | E(49) | E(59) | nat
    x = WEEKEND | fixed((1, 1), (5, 1), (12, 24), (12, 25), (12, 26), (12, 31)) | E(-3) | E(0) | E(49) | nat
    return {None: s, "Settlement": s, "Exchange": x}


def botswana():
    def sub2(m, d):      # moved to Monday, or to Tuesday when the day itself is a Sunday
        return F(m, d) | (F(m, d + 1) & W(MON)) | (F(m, d + 2) & W(TUE))
    return (WEEKEND | sub2(1, 1) | E(-3) | E(0) | R(5, 1, 1) | E(38) | R(7, 1, 1) | nth(7, 3, MON) | F(9, 30) | sub2(10, 1)
            | F(12, 25) | R(12, 26, 1))


def brazil():
    c = WEEKEND | fixed((1, 1), (4, 21), (5, 1), (9, 7), (10, 12), (11, 2), (11, 15), (12, 25)) | E(-3) | E(-49) | E(-48) | E(59)
    s = c | F(11, 20, yrs(2024))
    x = (c | F(1, 25, yrs(None, 2021)) | F(7, 9, yrs(None, 2021)) | F(11, 20, yrs(2007) & ~Y(2022, 2023)) | F(12, 24)
         | F(12, 31) | (M(12) & D(29, 31) & W(FRI)))
    return {None: s, "Settlement": s, "Exchange": x}


def canada():
    s = (WEEKEND | R(1, 1) | nth(2, 3, MON, yrs(2008)) | E(-3) | WIN(5, 18, 24, MON) | R(7, 1) | nth(8, 1, MON) | nth(9, 1, MON)
         | R(9, 30, 2, yrs(2021)) | nth(10, 2, MON) | XMAS())
    f = s | R(11, 11)
    return {None: f, "Settlement": f, "TSX": s}


def chile():
    def near(m, d):      # holidays moved to the Monday of 26 June..2 July / 9..15 October
        pass
    s = (WEEKEND | F(1, 1) | (F(1, 2, yrs(2017)) & W(MON)) | E(-3) | E(-2) | F(5, 1) | F(5, 21)
         | WIN(6, 26, 29, MON) | WIN(7, 2, 2, MON) | F(7, 16) | F(8, 15)
         | (F(9, 17) & ((W(MON) & yrs(2007)) | (W(FRI) & yrs(2017)))) | F(9, 18) | F(9, 19) | (F(9, 20, yrs(2007)) & W(FRI))
         | WIN(10, 9, 12, MON) | WIN(10, 15, 15, MON)
         | (((F(10, 27) & W(FRI)) | (F(10, 31) & ~W(TUE, WED)) | (F(11, 2) & W(FRI))) & yrs(2008))
         | fixed((11, 1), (12, 8), (12, 25), (12, 31)) | on((2018, 1, 16), (2017, 4, 19), (2022, 9, 16)))
    return s             # the winter solstice days (from 2021) are residual dates


def czechrepublic():
    return (WEEKEND | fixed((1, 1), (5, 1), (5, 8), (7, 5), (7, 6), (9, 28), (10, 28), (11, 17), (12, 24), (12, 25), (12, 26))
            | E(-3, yrs(2016)) | E(0) | on((2004, 1, 2), (2004, 12, 31)))


def denmark():
    return (WEEKEND | E(-4) | E(-3) | E(0) | E(25, yrs(None, 2023)) | E(38) | E(39, yrs(2009)) | E(49)
            | fixed((1, 1), (6, 5), (12, 24), (12, 25), (12, 26), (12, 31)))


def finland():
    return WEEKEND | fixed((1, 1), (1, 6), (5, 1), (12, 6), (12, 24), (12, 25), (12, 26)) | E(-3) | E(0) | E(38) | WIN(6, 19, 25, FRI)


def france():
    base = WEEKEND | fixed((1, 1), (5, 1), (5, 8), (7, 14), (8, 15), (11, 1), (11, 11), (12, 25)) | E(0)
    x = WEEKEND | fixed((1, 1), (5, 1), (12, 24), (12, 25), (12, 26), (12, 31)) | E(-3) | E(0)
    # 10 and 21 May stand for Ascension Thursday and Whit Monday in the code; that they do
    # not move with Easter is the separate obligation France/Settlement:moveable-feasts
    s = base | F(5, 10) | F(5, 21)
    return {None: s, "Settlement": s, "Exchange": x}


def france_movable():
    return WEEKEND | fixed((1, 1), (5, 1), (5, 8), (7, 14), (8, 15), (11, 1), (11, 11), (12, 25)) | E(0) | E(38) | E(49)


def germany():
    f = WEEKEND | fixed((1, 1), (5, 1), (12, 24), (12, 25), (12, 26)) | E(-3) | E(0)
    s = f | F(10, 3) | E(38) | E(49) | E(59)
    return {None: f, "Settlement": s, "FrankfurtStockExchange": f, "Xetra": f, "Eurex": f | F(12, 31), "Euwax": f | E(49)}


def hungary():
    return WEEKEND | E(-3, yrs(2017)) | E(0) | E(49) | fixed((1, 1), (3, 15), (5, 1), (8, 20), (10, 23), (11, 1), (12, 25), (12, 26))


def iceland():
    return (WEEKEND | fixed((1, 1), (5, 1), (6, 17), (12, 25), (12, 26)) | E(-4) | E(-3) | E(0) | WIN(4, 19, 25, THU) | E(38) | E(49)
            | nth(8, 1, MON))


def italy():
    s = (WEEKEND | fixed((1, 1), (1, 6), (4, 25), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)) | E(0) | F(6, 2, yrs(2000))
         | on((1999, 12, 31)))
    x = WEEKEND | fixed((1, 1), (5, 1), (8, 15), (12, 24), (12, 25), (12, 26), (12, 31)) | E(-3) | E(0)
    return {None: s, "Settlement": s, "Exchange": x}


def japan():
    ve, ae = equinox("20.8431", 3), equinox("23.2488", 9)
    bridge = days.shift(ae, 1) & W(TUE) & M(9) & D(16, 22) & yrs(2003)
    return (WEEKEND | F(1, 1) | F(1, 2) | F(1, 3) | nth(1, 2, MON, yrs(2000)) | R(1, 15, 1, yrs(None, 1999))
            | R(2, 11, 1) | R(2, 23, 1, yrs(2020)) | R(12, 23, 1, yrs(1989, 2018))
            | ve | (days.shift(ve, -1) & W(MON)) | R(4, 29, 1) | F(5, 3) | F(5, 4) | F(5, 5) | (F(5, 6) & W(MON, TUE, WED))
            | nth(7, 3, MON, yrs(2003, 2019) | yrs(2022)) | R(7, 20, 1, yrs(1996, 2002))
            | R(8, 11, 1, yrs(2016, 2019) | yrs(2022))
            | nth(9, 3, MON, yrs(2003)) | R(9, 15, 1, yrs(None, 2002)) | bridge | ae | (days.shift(ae, -1) & W(MON))
            | nth(10, 2, MON, yrs(2000, 2019) | yrs(2022)) | R(10, 10, 1, yrs(None, 1999))
            | R(11, 3, 1) | R(11, 23, 1) | F(12, 31)
            | on((2020, 7, 23), (2020, 7, 24), (2020, 8, 10), (2021, 7, 22), (2021, 7, 23), (2021, 8, 9),
                 (1959, 4, 10), (1989, 2, 24), (1990, 11, 12), (1993, 6, 9), (2019, 4, 30), (2019, 5, 1), (2019, 5, 2), (2019, 10, 22)))


def mexico():
    a, b = yrs(None, 2005), yrs(2006)
    return (WEEKEND | F(1, 1) | F(2, 5, a) | nth(2, 1, MON, b) | F(3, 21, a) | nth(3, 3, MON, b) | E(-4) | E(-3) | F(5, 1) | F(9, 16)
            | F(10, 1, Y(*range(2024, 2200, 6))) | F(11, 2) | F(11, 20, a) | nth(11, 3, MON, b) | F(12, 12) | F(12, 25))


def newzealand():
    mondayise = yrs(2014)
    c = (WEEKEND | F(1, 1) | (F(1, 3) & W(MON, TUE)) | F(1, 2) | (F(1, 4) & W(MON, TUE)) | F(2, 6) | (M(2) & D(7, 8) & W(MON) & mondayise)
         | E(-3) | E(0) | F(4, 25) | (M(4) & D(26, 27) & W(MON) & mondayise) | nth(6, 1, MON) | nth(10, 4, MON) | XMAS() | on((2022, 9, 26)))
    w = c | WIN(1, 19, 25, MON)
    # the Monday closest to 29 January
    ak = c | WIN(1, 26, 31, MON) | WIN(2, 1, 1, MON)
    return {None: w, "Wellington": w, "Auckland": ak}      # Matariki days are residual dates


def norway():
    return WEEKEND | E(-4) | E(-3) | E(0) | E(38) | E(49) | fixed((1, 1), (5, 1), (5, 17), (12, 25), (12, 26)) | F(12, 24, yrs(2002))


def poland():
    s = WEEKEND | E(0) | E(59) | fixed((1, 1), (5, 1), (5, 3), (8, 15), (11, 1), (11, 11), (12, 25), (12, 26)) | F(1, 6, yrs(2011))
    return {None: s, "Settlement": s, "WSE": s | F(12, 24) | F(12, 31)}


def romania():
    return (WEEKEND | fixed((1, 1), (1, 2), (1, 24), (5, 1), (8, 15), (11, 30), (12, 1), (12, 25), (12, 26)) | O(0) | O(49) | F(6, 1, yrs(2017)))


def russia():
    s = (WEEKEND | (M(1) & D(1, 2) & yrs(None, 2005)) | (M(1) & D(1, 5) & yrs(2005)) | R(1, 7) | R(2, 23) | R(3, 8) | R(5, 1) | R(5, 9)
         | R(6, 12) | R(11, 4))
    x = WEEKEND | F(2, 23) | R(3, 8) | F(5, 1) | R(5, 9) | F(6, 12) | R(11, 4) | F(12, 31)
    return {None: s, "Settlement": s, "Exchange": x}       # government transfers are residual dates


def slovakia():
    return (WEEKEND | fixed((1, 1), (1, 6), (5, 1), (5, 8), (7, 5), (8, 29), (9, 1), (9, 15), (11, 1), (11, 17), (12, 24), (12, 25), (12, 26))
            | E(-3) | E(0) | span(2004, 12, 24, 12, 31) | span(2005, 12, 24, 12, 31))


def southafrica():
    return (WEEKEND | R(1, 1, 1) | E(-3) | E(0) | R(3, 21, 1) | R(4, 27, 1) | R(5, 1, 1) | R(6, 16, 1) | R(8, 9, 1) | R(9, 24, 1) | R(12, 16, 1)
            | F(12, 25) | R(12, 26, 1)
            | on((2004, 4, 14), (2009, 4, 22), (2016, 8, 3), (2021, 11, 1), (2022, 12, 27), (2023, 12, 15), (2024, 5, 29)))


def sweden():
    return (WEEKEND | E(-3) | E(0) | E(38) | E(49, yrs(None, 2004)) | fixed((1, 1), (1, 6), (5, 1), (12, 24), (12, 25), (12, 26), (12, 31))
            | F(6, 6, yrs(2005)) | WIN(6, 19, 25, FRI))


def switzerland():
    return WEEKEND | fixed((1, 1), (1, 2), (5, 1), (8, 1), (12, 25), (12, 26)) | E(-3) | E(0) | E(38) | E(49)


def target():
    e = yrs(2000)
    return WEEKEND | F(1, 1) | E(-3, e) | E(0, e) | F(5, 1, e) | F(12, 25) | F(12, 26, e) | F(12, 31, Y(1998, 1999, 2001))


def ukraine():
    return (WEEKEND | R(1, 1) | R(1, 7) | R(3, 8) | O(0) | O(49) | F(5, 1) | F(5, 2) | (F(5, 3) & W(MON)) | R(5, 9) | F(6, 28) | F(8, 24)
            | F(10, 14, yrs(2015)))


def china():
    return WEEKEND | F(1, 1)


def hongkong():
    return WEEKEND | R(1, 1, 1) | R(5, 1, 1) | R(7, 1, 1) | R(10, 1, 1) | F(12, 25) | F(12, 26) | E(-3) | E(0)


def india():
    return WEEKEND | fixed((1, 26), (4, 14), (5, 1), (8, 15), (10, 2), (12, 25)) | E(-3)


def indonesia():
    return WEEKEND | fixed((1, 1), (8, 17), (12, 25)) | E(-3) | E(38)


def israel():
    shir = WEEKEND | F(1, 1) | E(-3) | last(5, MON, ALL & ~Y(2022)) | F(12, 25) | F(12, 26)
    return {None: shir, "Shir": shir, "TelAviv": WEEKEND}


def singapore():
    return WEEKEND | R(1, 1, 1) | E(-3) | F(5, 1) | R(8, 9, 1) | F(12, 25)


def southkorea():
    return (WEEKEND | fixed((1, 1), (3, 1), (5, 1), (5, 5), (6, 6), (8, 15), (10, 3), (12, 25)) | R(3, 1, 2, yrs(2022)) | F(4, 5, yrs(None, 2005))
            | R(5, 5, 2, yrs(2014)) | F(7, 17, yrs(None, 2007)) | R(8, 15, 2, yrs(2021)) | R(10, 3, 2, yrs(2021)) | R(12, 25, 2, yrs(2023)))


def taiwan():
    return WEEKEND | fixed((1, 1), (2, 28), (5, 1), (10, 10)) | F(4, 5, ALL & ~Y(2008, 2009, 2012, 2017))


def thailand():
    n20 = ALL & ~Y(2020)
    return (WEEKEND | F(1, 1) | (F(1, 3) & W(MON)) | R(4, 6) | (M(4) & D(13, 15) & n20) | (F(4, 16, n20) & W(MON, TUE)) | R(5, 1)
            | R(5, 4, 2, yrs(2019)) | R(6, 3, 2, yrs(2019)) | R(7, 28, 2, yrs(2017)) | R(8, 12) | R(10, 13, 2, yrs(2017))
            | R(10, 23, 2, ALL & ~Y(2021)) | R(12, 5) | R(12, 10) | F(12, 31) | (F(1, 2, ALL & ~Y(2024)) & W(MON)))


def turkey():
    return WEEKEND | fixed((1, 1), (4, 23), (5, 1), (5, 19), (8, 30), (10, 29)) | F(7, 15, yrs(2017))


def weekendsonly():
    return WEEKEND


# calendars whose remaining closures are announced year by year
RESIDUAL = {"China", "HongKong", "India", "Indonesia", "Israel", "Singapore", "SouthKorea", "Taiwan", "Thailand", "Turkey", "Russia", "Chile", "NewZealand"}
CALENDARS = ["Argentina", "Australia", "Austria", "Botswana", "Brazil", "Canada", "Chile", "China", "CzechRepublic", "Denmark", "Finland", "France",
             "Germany", "HongKong", "Hungary", "Iceland", "India", "Indonesia", "Israel", "Italy", "Japan", "Mexico", "NewZealand", "Norway", "Poland",
             "Romania", "Russia", "Singapore", "Slovakia", "SouthAfrica", "SouthKorea", "Sweden", "Switzerland", "Taiwan", "Target", "Thailand",
             "Turkey", "Ukraine", "UnitedKingdom", "UnitedStates", "WeekendsOnly"]


def rules(cal):
    """{market or None: closed set} before residual dates"""
    r = globals()[cal.lower()]()
    r = r if isinstance(r, dict) else {None: r}
    return {k: v & ALL for k, v in r.items()}


_hol = None


def residual(cal, market):
    """(extra closed, extra open)"""
    global _hol
    if _hol is None:
        p = os.path.join(os.path.dirname(HERE), "spec", "holidays.json")
        _hol = json.load(open(p)) if os.path.exists(p) else {}
    d = _hol.get(cal, {}).get(market or "-", {})
    f = lambda k: on(*[tuple(int(x) for x in s.split("-")) for s in d.get(k, [])])
    return f("closed"), f("open")


def closed(cal):
    out = {}
    for m, s in rules(cal).items():
        if cal in RESIDUAL:
            a, b = residual(cal, m)
            s = (s | a) & ~b
        out[m] = s & ALL
    return out
