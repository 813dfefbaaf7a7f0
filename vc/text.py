"""Contract of the text calendar of a month: for every year, every month and
every set of sessions.

The days of the month are a sequence of symbolic length; the loop over them is
run for a generic day.  What it prints for that day, and the two lines and the
indentation before the first day, are the obligations; that this puts each day
in the column of its weekday is an induction over the days (last obligation).
"""
import re
import time

import z3

from . import core, generic, loader, seqs
from .core import Formatted, Repeat, SInt, Unsupported, mkbool, mkint, zi
from .seqs import DAY
from .verify import call

MOD = 'trading_calendars.tcal'
HEADER = ' Su  Mo  Tu  We  Th  Fr  Sa\n'
I, B = z3.IntSort(), z3.BoolSort()


class Out(seqs.FlatList):
    """io.StringIO: the pieces of text written to it."""
    _vc_text = True

    def write(self, s):
        if not isinstance(s, str):
            raise Unsupported('write(%s)' % type(s).__name__)
        self.append(s)

    def getvalue(self):
        return Text(self)


class Text(object):
    def __init__(self, pieces):
        self.pieces = list(pieces)


class IO(object):
    StringIO = Out

    def __getattr__(self, n):
        raise Unsupported('io.%s' % n)


class MonthDay(seqs.Timestamp):
    """The k-th day from the first of a month (k less than its length)."""
    k = None

    @property
    def day(self):
        return mkint(self.k + 1)


def month_day(k, first):
    d = seqs.mkts(mkint((first + k) * DAY), None)
    d.__class__ = MonthDay
    d.k, d.number = k, first + k
    return d


class Days(object):
    """date_range over the days of [first, last)"""
    _vc_seq = True

    def __init__(self, first, n):
        self.first, self.n = first, n

    def _slen(self):
        return self.n

    def _elem(self, k):
        return month_day(k, self.first)

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported('day %r of the month' % (k,))
        return self._elem(z3.IntVal(0))

    def __iter__(self):
        raise Unsupported('iteration over symbolic days')


def wd(day):
    """weekday, Monday is 0"""
    return (day + 3) % 7


class AnyCalendar(object):
    def __init__(self, first):
        self.session = z3.Function('is_a_session', I, B)
        self.first = first

    def is_session(self, d):
        if not isinstance(d, MonthDay):
            raise Unsupported('is_session(%s)' % type(d).__name__)
        return mkbool(self.session(d.k))


def parts(c, s):
    """Text with placeholders -> [str | Repeat | Formatted | symbolic int]"""
    out = []
    for p in re.split(u'(⟦\\d+⟧)', s):
        if p.startswith(u'⟦'):
            out.append(c.tokens[int(p[1:-1])])
        elif p:
            out.append(p)
    return out


def op_month(month):
    def run(c, w):
        c.abstract_civil = True
        mod = w.load(MOD)
        y = z3.Int('year')
        c.inputs['year'] = y
        dfc = seqs.days_from_civil
        first = zi(dfc(SInt(y), month, 1))
        end = zi(dfc(SInt(y + 1), 1, 1) if month == 12 else dfc(SInt(y), month + 1, 1))
        c.assume(end > first)           # a month has days
        asked = []

        def date_range(start, stop, periods, freq, tz, closed):
            if tz is not None or closed not in ('left', None) or freq not in (None, 'D') or periods is not None:
                raise Unsupported('date_range call')
            a, b = (seqs.Timestamp(x).value for x in (start, stop))
            if not c.must(zi(a) == first * DAY):
                raise Unsupported('the days do not start with the month')
            b = zi(b) if closed == 'left' else zi(b) + DAY
            n = c.int('days')
            c.assume(z3.Implies(b >= first * DAY, z3.And(
                n >= 0, (n - 1) * DAY < b - first * DAY, b - first * DAY <= n * DAY)))
            asked.append(n)
            return Days(first, SInt(n))
        w.extra['io'] = IO()
        loader.DATE_RANGE = date_range
        cal = AnyCalendar(first)
        print_year = mkbool(z3.Bool('print_year'))
        try:
            out = call(lambda: mod._render_month(cal, SInt(y), month, print_year))
        finally:
            loader.DATE_RANGE = None
            del w.extra['io']
        if out[0] != 'ret' or not isinstance(out[1], Text):
            if out[0] == 'raise':
                return out, [('no error', z3.BoolVal(False))]
            raise Unsupported('the text is built in another way')
        # group the pieces: text, the days, text
        before, flat, after = '', None, ''
        for p in out[1].pieces:
            if isinstance(p, seqs.FlatMap):
                if flat is not None:
                    raise Unsupported('several loops over the days')
                flat = p
            elif flat is None:
                before += p
            else:
                after += p
        if flat is None:
            raise Unsupported('no loop over the days')
        goals = [('every day of the month', z3.And(zi(flat.count) == asked[0], asked[0] == end - first)),
                 ('nothing after the last day', z3.BoolVal(after == '\n'))]
        title, _, rest = before.partition('\n')
        goals.append(('one line of title without brackets', z3.BoolVal(
            '[' not in title and ']' not in title)))
        goals.append(('line of weekdays', z3.BoolVal(rest.startswith(HEADER))))
        width = z3.IntVal(0)
        for p in parts(c, rest[len(HEADER):]):
            if isinstance(p, str) and not p.strip(' '):
                width = width + len(p)
            elif isinstance(p, Repeat) and p.text == ' ':
                width = width + z3.If(zi(p.count) > 0, zi(p.count), z3.IntVal(0))
            else:
                raise Unsupported('text before the first day')
        goals.append(('indentation of the first day', width == 4 * ((wd(first) + 1) % 7)))
        k = flat.i
        for facts, chunks, obs in flat.cases:
            ps = parts(c, ''.join(chunks))
            nl = bool(ps) and isinstance(ps[0], str) and ps[0].startswith('\n')
            if nl:
                ps[0] = ps[0][1:]
                ps = [p for p in ps if p != '']
            if len(ps) != 3 or not isinstance(ps[1], Formatted) or ps[1].spec not in ('>2', '2', '2d', '>2d'):
                raise Unsupported('text of a day')
            mark = (ps[0], ps[2])
            sun = wd(first + k) == 6
            ok = z3.And(
                # a new line before each Sunday (may be left out for the first day)
                sun if nl else z3.Or(z3.Not(sun), k == 0),
                zi(ps[1].value) == k + 1,
                z3.If(cal.session(k), z3.BoolVal(mark == (' ', ' ')), z3.BoolVal(mark == ('[', ']'))))
            goals.append(('text of a day', z3.Implies(z3.And(facts), ok)))
        col = z3.Int('column')
        goals.append(('induction: columns are weekdays', z3.Implies(
            z3.And(0 <= k, col == (wd(first + k) + 1) % 7),
            z3.If(wd(first + k + 1) == 6, z3.IntVal(0), col + 1) == (wd(first + k + 1) + 1) % 7)))
        return out, goals
    return run


# -- months side by side


class Line(str):
    """One line of a month: unknown text, the str itself is its placeholder."""

    @staticmethod
    def make(c, month, row, count, width):
        """Title, weekdays, weeks; all weeks but the last are full (contract of a month)."""
        ln = Line(c.token(('line', month, row)))
        n = z3.Function('line_length', I, I, I)(month, row)
        if row == 0:
            c.assume(z3.And(0 <= n, n < width))
        elif row == 1:
            c.assume(n == len(HEADER) - 1)
        elif row < count - 1:
            c.assume(n == width)
        else:
            c.assume(z3.And(0 < n, n <= width))
        ln.n = SInt(n)
        return ln

    def _slen(self):
        return self.n

    def __len__(self):
        return core.ctx().concretize(self.n)

    def _pad(self, width):
        return str.__str__(self) + ' ' * (width - self.n)

    def ljust(self, width, fill=' '):
        if fill != ' ':
            raise Unsupported('ljust')
        return self._pad(width)

    def __format__(self, spec):
        m = re.match(r'<?(\d+)s?$', spec)
        if m:
            return self._pad(int(m.group(1)))
        if spec:
            raise Unsupported('format %r of a line' % spec)
        return str.__str__(self)

    def _no(self, *a, **k):
        raise Unsupported('text operation on a line')
    center = rjust = rstrip = lstrip = strip = replace = split = __getitem__ = __iter__ = \
        __contains__ = __mod__ = __mul__ = expandtabs = zfill = partition = __eq__ = _no
    __hash__ = str.__hash__


class MonthText(object):
    def __init__(self, lines):
        self.lines = lines

    def splitlines(self):
        return list(self.lines)

    def split(self, sep=None):
        if sep != '\n':
            raise Unsupported('split')
        return list(self.lines) + ['']

    def __getattr__(self, n):
        raise Unsupported('text of a month .%s' % n)


def pieces(c, s):
    """[(month, row) | width of blanks | other text]"""
    out = []
    for p in parts(c, s):
        if isinstance(p, tuple) and p[0] == 'line':
            out.append(p[1:])
            continue
        if isinstance(p, Repeat) and p.text == ' ':
            w = z3.If(zi(p.count) > 0, zi(p.count), z3.IntVal(0))
        elif isinstance(p, str) and not p.strip(' '):
            w = z3.IntVal(len(p))
        else:
            out.append(p)
            continue
        if out and z3.is_expr(out[-1]):
            out[-1] = out[-1] + w
        else:
            out.append(w)
    return out


def op_concat(counts, width=28, gap=3):
    """Every line of every month stands at the column of its month, nothing else is
    printed (blanks at the end of a line are left open)."""
    def run(c, w):
        mod = w.load(MOD)
        length = z3.Function('line_length', I, I, I)
        months = [MonthText([Line.make(c, m, r, n, width) for r in range(n)]) for m, n in enumerate(counts)]
        out = call(lambda: mod._concat_lines(months, width))
        if out[0] == 'raise':
            return out, [('no error', z3.BoolVal(False))]
        if not isinstance(out[1], str):
            raise Unsupported('result of joining months')
        rows = out[1].split('\n')
        goals = [('number of rows', z3.BoolVal(len(rows) == max(counts)))]
        for r, row in enumerate(rows):
            pos = z3.IntVal(0)
            seen = []
            for p in pieces(c, row):
                if isinstance(p, tuple):
                    goals.append(('row %d: column of month %d' % (r, p[0]), z3.And(
                        z3.BoolVal(p[1] == r), pos == p[0] * (width + gap))))
                    pos = pos + length(p[0], p[1])
                    seen.append(p[0])
                elif z3.is_expr(p):
                    pos = pos + p
                else:
                    goals.append(('row %d: nothing but the lines' % r, z3.BoolVal(False)))
            goals.append(('row %d: every month that has this row' % r, z3.BoolVal(
                seen == [m for m, n in enumerate(counts) if r < n])))
        return out, goals
    return run


def op_year(c, w):
    """The year view: the twelve months, three in a row, in order, for the year asked."""
    mod = w.load(MOD)
    y, cal = SInt(z3.Int('year')), object()
    printed, asked = [], []

    def render(calendar, year, month, print_year):
        asked.append((calendar is cal and year is y, month, print_year))
        return ('month', month)

    def concat(strings, width):
        s = list(strings)
        if width < 28 or not all(isinstance(x, tuple) for x in s):
            raise Unsupported('months side by side')
        return c.token(('row', [m for _, m in s]))
    saved = {n: mod.__dict__[n] for n in ('_render_month', '_concat_lines', 'parse_args')}
    mod.__dict__.update(_render_month=render, _concat_lines=concat, parse_args=lambda argv: (cal, y, None),
                        print=lambda *a, **k: printed.append(' '.join(map(str, a))))
    try:
        out = call(lambda: mod.main(['tcal', 'any', 'any']))
    finally:
        mod.__dict__.update(saved)
        del mod.__dict__['print']
    if out[0] == 'raise':
        return out, [('no error', z3.BoolVal(False))]
    rows = [p for p in parts(c, '\n'.join(printed)) if not (isinstance(p, str) and not p.strip())]
    years = [p for p in rows if not (isinstance(p, tuple) and p[0] == 'row')]
    got = [p[1] for p in rows if isinstance(p, tuple) and p[0] == 'row']
    return out, [
        ('twelve months, three in a row', z3.BoolVal(got == [[3 * r + k for k in (1, 2, 3)] for r in range(4)])),
        ('the year asked, year not repeated', z3.BoolVal(
            sorted(asked) == [(True, m, False) for m in range(1, 13)])),
        ('the year is the title', z3.And(z3.BoolVal(len(years) == 1 and rows[0] is years[0]), zi(y) == zi(
            years[0].value if isinstance(years[0], Formatted) else years[0])) if len(years) == 1
            and isinstance(years[0], (Formatted, SInt)) else z3.BoolVal(False))]


OPS = {'tcal._render_month(month %d)' % m: op_month(m) for m in range(1, 13)}
# a month has 28 to 31 days: 4 to 6 weeks, and two lines of title
for _a in (6, 7, 8):
    for _b in (6, 7, 8):
        for _c in (6, 7, 8):
            OPS['tcal._concat_lines(%d, %d, %d lines)' % (_a, _b, _c)] = op_concat((_a, _b, _c))
OPS['tcal.main(year)'] = op_year


def task(op):
    from . import driver
    w = driver._world()
    rep = generic.verify(op, lambda c: OPS[op](c, w), deadline=time.time() + 60)
    d = driver.report_dict(rep)
    d['stats'] = core.take_stats()
    return d
