"""Contracts of the holiday observance rules.

A rule maps a date, or a list of dates, to dates.  Its contract is a list of
clauses (condition, shift): the result holds exactly, for each given date d and
each clause whose condition holds, the date d + shift days.  Conditions see the
weekday w (Monday 0) and the year y of d, and the year yo of the date d + shift.
Written from the documentation of each rule.
"""
MON, TUE, WED, THU, FRI, SAT, SUN = range(7)


class Rule(object):
    def __init__(self, module, name, kind, clauses, note=''):
        self.module, self.name, self.kind = module, name, kind
        self.clauses = clauses
        self.note = note

    @property
    def key(self):
        return '%s.%s' % (self.module, self.name)


def moved(table, keep=None):
    """clauses: every date (that is kept) moves by table[weekday], else stays"""
    def f(L, w, y, yo):
        k = keep(L, w, y) if keep else True
        out = []
        for wd in range(7):
            out.append((L.And(k, w == wd), table.get(wd, 0)))
        return out
    return f


def not_in(*years):
    return lambda L, w, y: L.And(*[y != v for v in years])


def only(keep):
    return lambda L, w, y, yo: [(keep(L, w, y), 0)]


def xbud(L, w, y, yo):
    return [(True, 0), (w == TUE, -1), (w == THU, 1)]


def taiwan(L, w, y, yo):
    # the extra day counts only after 2013
    return [(True, 0), (L.And(w == TUE, yo(-1) > 2013), -1), (L.And(w == THU, yo(1) > 2013), 1),
            (L.And(w == SUN, yo(1) > 2013), 1), (L.And(w == SAT, yo(-1) > 2013), -1)]


def taiwan_extra(L, w, y, yo):
    return [(L.And(w == THU, y > 2006), 1), (L.And(w == TUE, y > 2006), -1)]


def after_2013(L, w, y, yo):
    t = {SAT: -1, SUN: 1}
    return [(L.And(y > 2013, w == wd), t.get(wd, 0)) for wd in range(7)] + [(y <= 2013, 0)]


WEEKEND_TO_MONDAY = {SAT: 2, SUN: 1}
NEXT_MONDAY_OR_TUESDAY = {SAT: 2, SUN: 2, MON: 1}
NEAREST_MONDAY = {TUE: -1, WED: -2, THU: 4, FRI: 3, SAT: 2, SUN: 1}
X = 'exchange_calendar_'

RULES = [
    Rule(X + 'xbue', 'nearest_monday', 'date', moved(NEAREST_MONDAY)),
    Rule(X + 'xsgo', 'nearest_monday', 'date', moved({TUE: -1, WED: -2, THU: -3, FRI: 3})),
    Rule(X + 'xsgo', 'tuesday_and_wednesday_to_friday', 'date', moved({TUE: -4, WED: 2})),
    Rule('xbkk_holidays', 'songkran_festival_last_day_observance', 'date', moved({SUN: 1, MON: 1})),
    Rule('xtks_holidays', 'sunday_to_tuesday', 'date', moved({SUN: 2})),
    Rule('xtks_holidays', 'sunday_to_wednesday', 'date', moved({SUN: 3})),
    Rule(X + 'xtai', 'nearest_workday_after_2013', 'date', after_2013),
    Rule(X + 'xbud', 'four_day_weekend', 'list', xbud),
    Rule(X + 'xbue', 'cultural_diversity_observance', 'list',
         lambda L, w, y, yo: [(L.And(w == wd, yo(NEAREST_MONDAY.get(wd, 0)) != 2012),
                               NEAREST_MONDAY.get(wd, 0)) for wd in range(7)]),
    Rule(X + 'xbue', 'not_2018', 'list', only(not_in(2018))),
    Rule(X + 'xsgo', 'not_2010', 'list', only(not_in(2010))),
    Rule(X + 'xwar', 'not_2004', 'list', only(not_in(2004))),
    Rule('xbkk_holidays', 'new_years_eve_observance', 'list', moved(WEEKEND_TO_MONDAY, not_in(2003))),
    Rule('xbkk_holidays', 'new_years_day_observance', 'list', moved(NEXT_MONDAY_OR_TUESDAY, not_in(2006))),
    Rule(X + 'xmos', 'new_years_eve_observance', 'list', moved(WEEKEND_TO_MONDAY, not_in(2008, 2009))),
    Rule(X + 'xmos', 'new_years_holiday_observance', 'list', moved(WEEKEND_TO_MONDAY, not_in(2016))),
    Rule(X + 'xmos', 'orthodox_christmas_observance', 'list', moved(WEEKEND_TO_MONDAY, not_in(2012, 2017))),
    Rule(X + 'xmos', 'defender_of_fatherland_observance', 'list',
         moved(WEEKEND_TO_MONDAY, not_in(2013, 2014, 2019))),
    Rule(X + 'xphs', 'only_friday', 'list', only(lambda L, w, y: w == FRI)),
    Rule(X + 'xtai', 'before_chinese_new_year_offset', 'list', moved({SAT: -1, SUN: -2})),
    Rule(X + 'xtai', 'chinese_new_year_offset', 'list', moved({SAT: 2, SUN: 1})),
    Rule(X + 'xtai', 'manual_nearest_workday', 'list', after_2013),
    Rule(X + 'xtai', 'manual_extra_days', 'list', taiwan_extra),
    Rule(X + 'xtai', 'taiwan_makeup_rule', 'list', taiwan),
    Rule('utils.pandas_utils', 'vectorized_sunday_to_monday', 'list', moved({SUN: 1})),
    Rule('us_holidays', 'following_tuesday_every_four_years_observance', 'election', None),
]
