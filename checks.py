"""The checks, one per property."""
from spec import api, rules, years
from vc import construct, driver, lazy, recorded, registry, text, times, verify

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


WF_ASSUMPTION = (
    'calendar is well formed (WF): at least one session, labels are increasing midnights, '
    'open < close, close before the next open, whole minutes from open to close, breaks '
    'inside the session (decided for the shipped calendars by C25)')
ARGS_ASSUMPTION = 'arguments are UTC timestamps within +-2^61 ns (or nanosecond integers where accepted)'


def tasks_for(prop):
    out = []
    for ct in api.CONTRACTS:
        if prop in ct.props:
            out += [(ct.name, v) for v in verify.variants(ct)]
    return out


def query_check(prop):
    def run():
        ck = driver.Check(prop)
        ck.assumptions += [WF_ASSUMPTION, ARGS_ASSUMPTION]
        cts = [c for c in api.CONTRACTS if prop in c.props]
        if any(c.needs_minutes for c in cts):
            ck.lemmas()
            ck.assumptions.append('law of concatenation (vc/lemmas.py)')
        ck.queries(tasks_for(prop), sorted(set(c.name for c in cts)))
        return ck
    CHECKS[prop] = run


for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C10', 'C11', 'C21'):
    query_check(_p)


@check('C06')
def c06():
    ck = driver.Check('C06')
    ck.assumptions += [WF_ASSUMPTION, ARGS_ASSUMPTION]
    ck.lemmas()
    tasks = [(ct.name, v) for ct in api.CONTRACTS if not ct.exec_only for v in verify.variants(ct)]
    ck.queries(tasks, None, mode='history')
    return ck


@check('C14')
def c14():
    ck = driver.Check('C14')
    ck.assumptions += [
        'dates are midnights (any list, also empty or unsorted); the time of day has whole seconds; '
        'day offset within +-1000',
        'every local time exists and is unambiguous in its zone (otherwise the conversion raises)']
    ck.functions_check(
        [('vc.times', 'task', (k,)) for k in times.DAYS], 'times',
        lambda r: 'days_at_time(%s, %s, %s, %s) returned %s instead of %s' % (
            driver.days(r['dates']), r['time'], r['tz'], r['offset'], r['got'], r['want']),
        'real time zones, dates around changes of the clocks, compared with pytz; '
        'distinct = distinct (zone, form of the dates, offset, number of dates)', samples=['America/New_York'])
    return ck


NAMES_ASSUMPTION = ('names, calendars and types are arbitrary values with an equality; building a '
                    'calendar does not itself change the registry')


def registry_check(prop):
    def run():
        ck = driver.Check(prop)
        ck.assumptions += [
            NAMES_ASSUMPTION,
            'the registry satisfies its invariant before the call: no alias loops and no alias is also a '
            'calendar or type (kept by every operation: C16; holds for the defaults: C17)']
        ck.functions_check(
            [('vc.registry', 'task', (op,)) for op, (_, ps) in registry.OPS.items() if prop in ps],
            'registry', lambda r: '%s after %s on aliases %s: %s' % (
                r['when'] or 'answer', r['operations'], r['aliases'], r['got']),
            'every state over three names x every operation, then random histories, all answers compared '
            'with a reference; distinct = distinct (last operation, types, aliases)',
            samples=['register_calendar_alias(a, b) on {b: alias of c}'], params=dict(prop=prop))
        return ck
    CHECKS[prop] = run


registry_check('C15')
registry_check('C16')


@check('C17')
def c17():
    ck = driver.Check('C17')
    ck.assumptions += [NAMES_ASSUMPTION,
                       'whether a calendar works is decided by building it over one quarter (C25 has the rest)']
    ck.functions_check(
        [('vc.registry', 'task', (op,)) for op, (_, ps) in registry.OPS.items() if 'C17' in ps],
        'defaults', lambda r: r['got'],
        'complete: every default name and alias is resolved, every default calendar built, every kind of '
        'change made to one of two registries; distinct = names + calendars built',
        samples=['NYSE -> XNYS'])
    return ck


@check('C18')
def c18():
    ck = driver.Check('C18')
    ck.assumptions += ['objects are compared by identity (as calendars and errors are) and can be referenced weakly',
                       'WeakKeyDictionary by contract: entries of living objects stay, a new object has none']
    ck.functions_check(
        [('vc.lazy', 'task', (op,)) for op in lazy.OPS], 'lazy',
        lambda r: 'after %s (values %s): %s' % (r['plan'], r['values'], r['got']),
        'every history of up to four operations over two objects and two attributes, random longer ones; '
        'distinct = distinct (length, last operation, how often it occurred)',
        samples=['read a of object 1, read a of object 2, read a of object 1'])
    return ck


@check('C19')
def c19():
    ck = driver.Check('C19')
    ck.assumptions += ['the table has at least one date; the range holds at least one session',
                       'years of dates are uninterpreted: the proof holds for any calendar arithmetic']
    ck.functions_check(
        [('vc.recorded', 'task', (op,)) for op in recorded.OPS], 'recorded',
        lambda r: '%s from %s to %s: %s' % (r['calendar'], r['start'], r['end'], r['got']),
        'ranges around the first and last recorded year, made-up tables and every shipped calendar with '
        'recorded holidays; distinct = distinct (calendar, years outside, weekday of start and end)',
        samples=['XKRX from a Saturday 31 December before the first recorded year'])
    return ck


@check('C20')
def c20():
    ck = driver.Check('C20')
    ck.assumptions += ['the calendar answers is_session for each day (any answers); a month has at least one day',
                       'the calendar arithmetic of pandas (days of a month) by contract; month names and parsing of '
                       'the command line are only checked by the bounded run',
                       'months side by side: lines as the contract of a month gives them (4 to 6 weeks, all but the '
                       'last full); blanks at the end of a line are left open']
    ck.functions_check(
        [('vc.text', 'task', (op,)) for op in text.OPS], 'text',
        lambda r: 'text calendar of %s: %s' % (
            r['year'] if r['month'] is None else '%s-%s' % (r['year'], r['month']), r['got']),
        'every shape of year (first weekday, leap) and all months with several sets of sessions, printed and '
        'read back, also real calendars; distinct = distinct (view, shape, kind of sessions)',
        samples=['2015-02 (starts on Sunday, 28 days)'])
    return ck


@check('C22')
def c22():
    ck = driver.Check('C22')
    ck.assumptions += ['dates are midnights of a day between the years 1700 and 2240 without time zone',
                       'following Tuesday every four years: 29 February is left open']
    ck.functions_check(
        [('vc.rules', 'task', (r.key,)) for r in rules.RULES]
        + [('vc.rules', 'hebrew_task', (n,)) for n in sorted(years.HEBREW)], 'rules',
        lambda r: '%s(%s) returned %s' % (r['rule'], driver.days(r['dates']), r['got']),
        'every rule called with single dates / one date per year and random lists, '
        'result compared with its contract; the holidays of a year (Hebrew calendar, Easter, fixed days) for '
        'every year from 1900 to 2100; distinct = distinct (rule, size, result)',
        samples=[r.key for r in rules.RULES[:3]])
    return ck


BUILD_ASSUMPTIONS = [
    'two rules that name the same date name the same time (checked for the shipped calendars by the bounded run)',
    'the regular part of the session list (working week, holidays) is pandas\' CustomBusinessDay by contract; '
    'the bounded run compares it with an enumeration of the days',
    'tables of local times have increasing start dates; special dates: proofs cover up to two rule calendars and '
    'two lists of one-off dates, each of any size (no shipped calendar has more); more are only covered by the '
    'bounded run',
    'law of concatenation: parts that list consecutive sessions list all sessions in order',
    'spec/recorded.json records what the fixed tree gives; it was not compared with exchange publications',
    'late opens / early closes: the resulting open and close times are in order (C25)',
    'the minute list may be anything (its contract is C01)']


def build_check(prop, job, rule, samples, level='proof'):
    def run():
        ck = driver.Check(prop, level)
        ck.assumptions += BUILD_ASSUMPTIONS
        ck.functions_check(
            [('vc.construct', 'task', (op,)) for op, (_, ps) in construct.OPS.items() if prop in ps],
            job, lambda r: '%s over %s: %s %s: %s, expected %s' % (
                r['calendar'], r.get('range', 'its range'), r['key'], r['date'], r['got'], r['want']),
            rule, samples=samples, params=dict(prop=prop))
        return ck
    CHECKS[prop] = run


MADE = ('made-up calendars (zones, tables of times, offsets, weekmasks, holidays, special times near the range '
        'ends; some with thousands of sessions and hundreds of special dates) and every shipped calendar over '
        '1990-2030 and two short ranges, each row compared with a reference computed day by day with pytz, each '
        'shipped year also with its recorded digest; distinct = distinct (calendar, range)')
build_check('C12', 'construct', MADE, ['a time table that changes on the first date of the range'])
build_check('C23', 'construct', MADE, ['XNYS from 1969-12-01 to 1970-01-31'])
build_check('C24', 'construct', MADE, ['XSTO early closes 1990-2030'])
build_check('C13', 'ranges', 'sub-ranges (starting or ending at and around special dates) of made-up and shipped '
            'calendars compared row by row with the full range; distinct = distinct (calendar, range)',
            ['XNYS ending on 2018-12-24'])
build_check('C25', 'shipped', 'complete: every shipped calendar built over all supported years (1960-2060, or the '
            'years of its recorded holidays) and some short sub-ranges, every row checked; distinct = rows',
            ['XKLS 1960-2060'], level='exploration')


NOT_APPLICABLE = {}
INFO = {
    'C12': ('contracts on the real source, symbolic execution + SMT (z3, cvc5)', 'proof',
            'time tables (any length), special dates, replacement and the constructor proved for every list '
            'of sessions, zone, offset and set of special dates; bounded run of made-up and shipped calendars'),
    'C13': ('contracts on the real source, symbolic execution + SMT (z3, cvc5)', 'proof',
            'every time is proved to be a function of its date alone (range ends with a special instant outside '
            'the range are known finding D4); bounded comparison of sub-ranges'),
    'C23': ('contract on the real constructor, symbolic execution + SMT (z3, cvc5)', 'proof',
            'the session list is proved to come from the working week and both kinds of holidays over exactly the '
            'requested range; pandas\' business day arithmetic by contract, compared with day enumeration'),
    'C24': ('contract on the real constructor, symbolic execution + SMT (z3, cvc5)', 'proof',
            'the two lists proved to hold exactly the replaced sessions, once and in order, for every set of '
            'special dates; bounded run of made-up and shipped calendars'),
    'C25': ('contracts on the real constructor (SMT) + complete evaluation of the shipped tables', 'exploration',
            'the refusals of the constructor are proved; the shipped tables are data and are evaluated completely '
            'over their years, which C13 extends to every sub-range'),
    'C14': ('contract on the real source, symbolic execution + SMT (z3, cvc5)', 'proof',
            'proved for every list of dates, time of day, day offset and time zone; the zone conversion '
            'itself (pandas/pytz) enters by contract and is cross-checked on real zones'),
    'C15': ('contracts on the real source, symbolic execution with loop invariant + SMT (z3, cvc5)', 'proof',
            'every operation proved against its contract for registries of any size; exhaustive small-scope '
            'run of the real class against a reference'),
    'C16': ('contracts on the real source, symbolic execution with loop invariant + SMT (z3, cvc5)', 'proof',
            'every operation proved against its contract for registries of any size; exhaustive small-scope '
            'run of the real class against a reference'),
    'C17': ('contracts on the real source (SMT) + complete evaluation of the finite default tables', 'proof',
            'construction copies the tables and alias resolution ends at the canonical name for every '
            'registry (proved); the default tables themselves are finite and evaluated completely'),
    'C18': ('contract on the real source, symbolic execution + SMT (z3, cvc5)', 'proof',
            'every operation proved for every state of the memory and every computation; the weak '
            'dictionary enters by contract; exhaustive short histories of the real class'),
    'C19': ('contracts on the real source, symbolic execution + SMT (z3, cvc5)', 'proof',
            'constructors proved for every table of holidays, range and list of sessions; bounded run of '
            'made-up tables and the shipped calendars with recorded holidays'),
    'C20': ('contract on the real source, generic loop iteration + induction, SMT (z3, cvc5)', 'proof',
            'the month view is proved for every year, month and set of sessions, and so is the placing of months side '
            'by side in the year view; every shape of year is also printed and read back (bounded)'),
    'C22': ('contracts on the real source, symbolic execution + SMT (z3, cvc5)', 'proof',
            'each of 26 observance rules proved against its documented mapping for every date (lists of any length) and '
            'nine holidays of the Hebrew calendar for every year (date conversion of pyluach by contract); the dates of '
            '41 holidays are compared with independent calendar arithmetic for 1900-2100 (bounded)'),
}
