"""C27: time deltas within the length, never overstated."""
import itertools
import math

from .. import sut

ID = 'C27'
TECHNIQUE = ('exhaustive enumeration of deltas x lengths x formatters; the result is compared with one composed from integer '
             'division of the delta by own table of units')
LEVEL_NOTE = ('every second up to 2 days (thorough: 12 days), +-1 s, +-0.5 s and floating point neighbours around every minute up to 3 h, '
              'hour up to 40 days, day up to 1100 days, 30-day month up to 40 years, 360-day year up to 1010 years; 26 fractions below '
              '3 s; both signs; lengths 3..14 and default; 5 custom formatters')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'units and counts shown; transitions are deltas'
ASSUMPTIONS = ['a month is 30 days, a year is 12 months', 'a thousandth of a second is nothing',
               'infinities are not time deltas']

# name, size in seconds, short name, collapsible below, overflow after; separator, sign, plural suffix, overflow message
D = 86400
F3 = ([('s', 1, 's', None, None), ('m', 60, 'm', None, None), ('h', 3600, 'h', None, None), ('d', D, 'd', None, 99)], '', False, '', 'ERR')
F4 = ([('s', 1, 's', None, None), ('m', 60, 'm', None, None), ('h', 3600, 'h', None, None), ('d', D, 'd', None, None),
       ('M', 30 * D, 'M', None, None), ('y', 360 * D, 'y', None, 99)], ' ', False, '', 'ERRO')
F6 = ([('sec', 1, 's', None, None), ('min', 60, 'm', None, None), ('hr', 3600, 'h', 10, None), ('day', D, 'd', 10, None),
       ('mon', 30 * D, 'm', None, None), ('yr', 360 * D, 'y', None, 99)], ' ', False, '', 'OVERFL')
F10 = ([('sec', 1, 's', None, None), ('min', 60, 'min', None, None), ('hour', 3600, 'h', 24, None), ('day', D, 'd', 10, None),
        ('month', 30 * D, 'm', None, None), ('year', 360 * D, 'y', None, 999)], ' ', True, 's', 'OVERFLOW')
# in_next of the units of custom formatters
CUSTOM = {
    'two': ([('tick', 1, 't', None, None), ('beat', 10, 'b', 5, 20)], '_', True, 's', 'TOO LONG'),
    'open': ([('sec', 1, 's', None, None), ('min', 60, 'm', 60, None), ('hour', 3600, 'h', None, None)], ' ', False, 's', 'X'),
    'one': ([('sec', 1, 's', None, 500)], '', True, '', 'BIG'),
    'week': ([('sec', 1, 's', None, None), ('min', 60, 'm', 30, None), ('hour', 3600, 'h', 12, None), ('day', D, 'd', 7, None),
              ('week', 7 * D, 'w', None, 52)], ' ', True, 's', 'NEVER'),
    'half': ([('min', 1, 'm', None, None), ('hour', 60, 'HH', 2, None), ('half', 720, 'x', 3, 9)], '', False, '', '+'),
}


def formatter(n):
    return F10 if n is None or n >= 10 else F6 if n >= 6 else F4 if n >= 4 else F3


def expected(F, v):
    """None for an overflow"""
    units, sep, signed, plural, _ = F
    neg = signed and v < 0
    a = abs(v)
    total = math.floor(a)
    if total < 1:
        name = units[0][0]
        if neg:
            return f'~0{sep}{name}{plural}'
        return f'0{sep}{name}{plural}' if a <= 1e-3 else f'<1{sep}{name}'
    for k in range(len(units) - 1, -1, -1):
        name, size, short, collapsible, limit = units[k]
        n = total // size
        if n:
            break
    if limit and (n > limit or n == limit and k == 0 and a > limit):
        return None
    sign = '-' if neg else ''
    if collapsible and n < collapsible and k:
        _, size1, short1, _, _ = units[k - 1]
        return f'{sign}{n}{short}{sep}{total % size // size1}{short1}'
    return f'{sign}{n}{sep}{name}{plural if n != 1 else ""}'


def build(name):
    from pytermor.util import TimeDeltaFormatter, TimeUnit
    units, sep, signed, plural, over = CUSTOM[name]
    out = []
    for i, (n, size, short, coll, limit) in enumerate(units):
        nxt = units[i + 1][1] // size if i + 1 < len(units) else None
        out.append(TimeUnit(n, nxt, custom_short=short if short != n[0] else None, collapsible_after=coll, overflow_afer=limit))
    return TimeDeltaFormatter(out, allow_negative=signed, unit_separator=sep or None, plural_suffix=plural or None, overflow_msg=over)


_built = {}


def holds(v, n, acc=None):
    from pytermor.util import time_delta
    if isinstance(n, str):
        if n not in _built:
            _built[n] = build(n)
        f, F = _built[n], CUSTOM[n]
        what, got, room = f'custom formatter {n!r} of {v!r}', f.format(v), None
    else:
        F = formatter(n)
        what, got, room = f'format_time_delta({v!r}, {n})', time_delta.format_time_delta(v, n), 10 if n is None else n
    want = expected(F, v)
    if isinstance(n, str):
        raw, padded = f.format_raw(v), f.format(v, True)
        if raw != want:
            return f'{what} is {raw!r} raw, has to be {want!r}'
        if padded != got.rjust(f.max_len):
            return f'{what} is {got!r}, padded to {f.max_len}: {padded!r}'
        if want is None:
            want = F[4][:f.max_len]
    elif want is None:
        want = F[4]
    if acc is not None:
        acc.state((n, got))
        acc.outcome((n, got[:1].isdigit(), len(got)))
        acc.transition(v, got)
    if got != want:
        return f'{what} is {got!r}, has to be {want!r}'
    if room is not None and len(got) > room:
        return f'{what} is {got!r}: longer than {room}'
    return None


def fixed():
    from pytermor.util import time_delta
    for n in (2, 1, 0, -1, -10):
        try:
            return f'length {n} gives {time_delta.format_time_delta(5, n)!r}'
        except ValueError:
            pass
    reg = getattr(time_delta, 'registry', None)
    if reg is not None:
        for n, F in ((3, F3), (4, F4), (6, F6), (10, F10)):
            f = reg.find_matching(n)
            if f.max_len != n:
                return f'formatter for {n} has got maximum length {f.max_len}'
            for v in (0, 1, -1, 59, 3600, 86399, -86399, 10 ** 6, -10 ** 6, 10 ** 8, 10 ** 12):
                want = expected(F, v)
                if f.format_raw(v) != want or f.format(v, True) != (F[4] if want is None else want).rjust(n):
                    return f'formatter for {n} of {v}: {f.format_raw(v)!r}, padded {f.format(v, True)!r}, has to be {want!r}'
    return None


def around(v):
    return [v - 1, v, v + 1, v - .5, v + .5, float(v), math.nextafter(v, 0), math.nextafter(v, math.inf)]


def values(kind, a, b):
    if kind == 'seconds':
        return list(range(a, b))
    if kind == 'fractions':
        fr = [0, 1e-9, 1e-5, 9e-4, 9.99e-4, 1.01e-3, 2e-3, .01, .1, .25, .5, .75, .9, .99, .999, .9999, .99999, 1 - 1e-9]
        return [k + f for k in (0, 1, 2, 59, 60, 119) for f in fr] + [0.0, -0.0, math.nextafter(1, 0)]
    size = {'minute': 60, 'hour': 3600, 'day': D, 'month': 30 * D, 'year': 360 * D}[kind]
    return [x for k in range(a, b) for x in around(k * size)]


LENS = [None, *range(3, 15)]


def jobs(tier):
    q = tier == 'quick'
    out = [('fixed', 0, 0), ('fractions', 0, 0)]
    step = 4320
    out += [('seconds', a, a + step) for a in range(0, (2 if q else 12) * D + 1, step)]
    out += [('minute', a, a + 30) for a in range(0, 180, 30)] + [('hour', a, a + 96) for a in range(0, 960, 96)]
    out += [('day', a, a + 100) for a in range(0, 1100, 100)] + [('month', a, a + 60) for a in range(0, 481, 60)]
    out += [('year', a, a + 101) for a in range(0, 1010, 101)] + [('year', 2000, 2010), ('year', 10 ** 6, 10 ** 6 + 5)]
    return out


def run(job, acc):
    if job[0] == 'fixed':
        acc.traces += 60
        with sut.guard():
            m = fixed()
        if m:
            acc.fail({'fixed': True}, m)
        return
    lens = [None, 3, 4, 6, *CUSTOM] if job[0] == 'seconds' else [*LENS, *CUSTOM]
    with sut.guard():
        for v, sign, n in itertools.product(values(*job), (1, -1), lens):
            acc.traces += 1
            m = holds(v * sign, n, acc)
            if m:
                acc.fail({'delta': repr(v * sign), 'len': n}, m)
                if acc.full:
                    return
    acc.sample({'delta': repr(v), 'len': n})


def check(case):
    with sut.guard():
        if 'fixed' in case:
            return fixed()
        s = case['delta']
        return holds(float(s) if any(c in s for c in '.en') else int(s), case['len'])
