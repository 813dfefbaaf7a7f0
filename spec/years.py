"""Contracts of the holidays that depend on the year.

HEBREW: the day of a holiday of a Gregorian year.  The Hebrew year is the one of
1 January of the year + `ahead`; in it the holiday is on `day` of `month` (Nisan
is 1); then it moves by table[weekday] (Monday 0).  Written from the
documentation of the functions.

HOLIDAYS: (module, name, kind, expected) where kind is 'object' (a holiday) or
'maker' (a function without required arguments that returns a holiday) or
'index' and expected(year) is the date in that year or None.  Used only by the
bounded run, over every year from 1900 to 2100.

The calendars below are computed here, without pyluach or dateutil.
"""
import datetime

MON, TUE, WED, THU, FRI, SAT, SUN = range(7)

HEBREW = {
    #               ahead month day moves
    'purim':         (0, 'adar', 14, {}),
    'passover':      (0, 1, 15, {}),
    'memorial_day':  (0, 2, 4, {THU: -1, FRI: -2, SAT: 1}),
    'pentecost':     (0, 3, 6, {}),
    'fast_day':      (0, 5, 9, {SAT: 1}),
    'new_year':      (1, 7, 1, {}),
    'yom_kippur':    (1, 7, 10, {}),
    'sukkoth':       (1, 7, 15, {}),
    'simchat_torah': (1, 7, 22, {}),
}


# -- the Hebrew calendar (molad arithmetic) ----------------------------------------


def leap(y):
    return (7 * y + 1) % 19 < 7


def elapsed(y):
    """days from the epoch to the new year of y, before the last two corrections"""
    months = (235 * y - 234) // 19
    parts = 12084 + 13753 * months
    day = 29 * months + parts // 25920
    if (3 * (day + 1)) % 7 < 3:
        day += 1
    return day


def new_year_ordinal(y):
    a, b, c = elapsed(y - 1), elapsed(y), elapsed(y + 1)
    fix = 2 if c - b == 356 else 1 if b - a == 382 else 0
    return -1373427 + b + fix       # proleptic Gregorian ordinal (1-1-1 is 1)


def month_length(y, m):
    n = new_year_ordinal(y + 1) - new_year_ordinal(y)
    if m in (2, 4, 6, 10, 13):
        return 29
    if m == 12:
        return 30 if leap(y) else 29
    if m == 8:
        return 30 if n % 10 == 5 else 29
    if m == 9:
        return 29 if n % 10 == 3 else 30
    return 30


def hebrew(y, m, d):
    """the date of the day d of month m of the Hebrew year y"""
    n = new_year_ordinal(y)
    order = [7, 8, 9, 10, 11, 12] + ([13] if leap(y) else []) + [1, 2, 3, 4, 5, 6]
    for k in order:
        if k == m:
            break
        n += month_length(y, k)
    return datetime.date.fromordinal(n + d - 1)


def hebrew_year(year):
    """the Hebrew year of 1 January (its new year is in the autumn before)"""
    return year + 3760


def hebrew_holiday(name, year):
    ahead, m, d, moves = HEBREW[name]
    h = hebrew_year(year + ahead)
    if m == 'adar':
        m = 13 if leap(h) else 12
    x = hebrew(h, m, d)
    return x + datetime.timedelta(moves.get(x.weekday(), 0))


# -- Easter ---------------------------------------------------------------------------


def easter(y):
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    m = (32 + 2 * e + 2 * i - h - k) % 7
    n = (a + 11 * h + 22 * m) // 451
    q = h + m - 7 * n + 114
    return datetime.date(y, q // 31, q % 31 + 1)


def orthodox(y):
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    q = d + e + 114
    return datetime.date(y, q // 31, q % 31 + 1) + datetime.timedelta(y // 100 - y // 400 - 2)


# -- the holidays ------------------------------------------------------------------


def fixed(m, d):
    return lambda y: datetime.date(y, m, d)


def after_easter(k):
    return lambda y: easter(y) + datetime.timedelta(k)


def on_weekday(m, d, *ws):
    return lambda y: datetime.date(y, m, d) if datetime.date(y, m, d).weekday() in ws else None


def first_weekday(m, d, w):
    """the first such weekday on or after the day"""
    def f(y):
        x = datetime.date(y, m, d)
        return x + datetime.timedelta((w - x.weekday()) % 7)
    return f


def tase(name, k=0):
    return lambda y: hebrew_holiday(name, y) + datetime.timedelta(k)


def cboe_good_friday(y):
    """none in a year whose (observed) Christmas or New Year's Day is a Friday"""
    christmas, new_year = datetime.date(y, 12, 25).weekday(), datetime.date(y, 1, 1).weekday()
    # Christmas moves to the nearest workday, New Year's Day from Sunday to Monday
    return None if christmas in (FRI, SAT) or new_year == FRI else easter(y) - datetime.timedelta(2)


C, T = 'common_holidays', 'tase_holidays'
HOLIDAYS = [(C, n, 'maker', f) for n, f in [
    ('new_years_day', fixed(1, 1)), ('new_years_eve', fixed(12, 31)), ('epiphany', fixed(1, 6)),
    ('anzac_day', fixed(4, 25)), ('european_labour_day', fixed(5, 1)),
    ('holy_wednesday', after_easter(-4)), ('maundy_thursday', after_easter(-3)),
    ('ascension_day', after_easter(39)), ('whit_monday', after_easter(50)),
    ('corpus_christi', after_easter(60)), ('midsummer_eve', first_weekday(6, 19, FRI)),
    ('saint_peter_and_saint_paul_day', fixed(6, 29)), ('assumption_day', fixed(8, 15)),
    ('all_saints_day', fixed(11, 1)), ('immaculate_conception', fixed(12, 8)),
    ('christmas_eve', fixed(12, 24)), ('christmas', fixed(12, 25)), ('boxing_day', fixed(12, 26)),
    ('weekend_christmas', on_weekday(12, 27, MON, TUE)),
    ('weekend_boxing_day', on_weekday(12, 28, MON, TUE))]]
HOLIDAYS += [(T, n, 'object', tase(h, k)) for n, h, k in [
    ('Purim', 'purim', 0), ('PassoverEve', 'passover', -1), ('Passover', 'passover', 0),
    ('Passover2Eve', 'passover', 5), ('Passover2', 'passover', 6),
    ('PentecostEve', 'pentecost', -1), ('Pentecost', 'pentecost', 0), ('FastDay', 'fast_day', 0),
    ('MemorialDay', 'memorial_day', 0), ('IndependenceDay', 'memorial_day', 1),
    ('NewYearsEve', 'new_year', -1), ('NewYear', 'new_year', 0), ('NewYear2', 'new_year', 1),
    ('YomKippurEve', 'yom_kippur', -1), ('YomKippur', 'yom_kippur', 0),
    ('SukkothEve', 'sukkoth', -1), ('Sukkoth', 'sukkoth', 0),
    ('SimchatTorahEve', 'simchat_torah', -1), ('SimchatTorah', 'simchat_torah', 0)]]
HOLIDAYS += [
    ('exchange_calendar_xcbf', 'GoodFridayUnlessChristmasNYEFriday', 'object', cboe_good_friday),
    ('exchange_calendar_asex', 'orthodox_easter', 'easter', orthodox)]
