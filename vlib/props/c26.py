"""C26: values with unit prefixes read back as the value and keep the length."""
import itertools
import math
import re
from fractions import Fraction

from .. import numeral, sut

ID = 'C26'
TECHNIQUE = ('exhaustive enumeration of digit patterns x magnitudes x signs x units x formatters; the result is read back and '
             'compared with the value in exact rational arithmetic')
LEVEL_NOTE = ('64 digit patterns x decimal exponents -32..32, multiples and floating point neighbours of all powers of 1000 and 1024, '
              'all integers up to 5000, both signs; both predefined formatters x 4 units, 11 custom formatters '
              '(thorough: 200 patterns, all integers up to 100000)')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'prefix and number of decimals; transitions are values'
ASSUMPTIONS = ['values beyond the last prefix may be refused or shown with question marks, as the documentation has it',
               'the length given to a custom formatter holds the greatest mantissa with its sign',
               'floating point scaling may be off by 1e-12']
EPS = Fraction(1, 10 ** 12)
SI = ['y', 'z', 'a', 'f', 'p', 'n', 'μ', 'm', None, 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']
NUM = re.compile(r'(-?)(\d+(?:\.\d+)?)(.*)', re.S)

# length, truncating, unit, separator, coefficient, prefixes, index of no prefix
METRIC = (4, False, '', ' ', 1000.0, SI, 8)
BINARY = (5, True, 'b', ' ', 1024.0, SI, 8)
CUSTOM = [
    (4, False, 'm', ' ', 1000.0, SI, 8), (7, False, 'V', None, 1000.0, SI, 8), (10, False, 's', ' ', 1000.0, SI, 8),
    (5, False, 'b', ' ', 1024.0, SI, 8), (8, True, 'b', '', 1024.0, SI, 8), (4, False, None, None, 1000.0, [None, 'k', 'M'], 0),
    (5, True, 'B', ' ', 1024.0, [None, 'Ki', 'Mi', 'Gi', 'Ti'], 0), (6, True, 'x', '_', 1000.0, ['m', None, 'k', 'M'], 1),
    (4, False, 'l', ' ', 1000.0, ['n', 'µ', 'm', None], 3), (5, False, 'b', ' ', 1024.0, [None], 0),
    (9, False, 'J', ' ', 1000.0, ['m', None, 'k'], 1),
]


def make(spec):
    from pytermor.util import prefixed_unit as pu
    if spec == 'metric':
        return METRIC, pu.format_si_metric
    if spec == 'binary':
        return BINARY, pu.format_si_binary
    s = CUSTOM[spec]
    n, tr, unit, sep, mcoef, prefixes, zero = s
    kw = {'truncate_frac': tr, 'unit': unit, 'unit_separator': sep, 'mcoef': mcoef, 'prefix_zero_idx': zero}
    for k, default in (('truncate_frac', False), ('unit', None), ('unit_separator', None), ('mcoef', 1000.0), ('prefix_zero_idx', 0)):
        if kw[k] == default:
            del kw[k]
    f = pu.PrefixedUnitFormatter(n, prefixes=list(prefixes), **kw)
    want = n + len(sep or '') + len(unit or '') + max([len(p) for p in prefixes if p] or [0])
    if any(prefixes) and f.max_len != want:
        raise AssertionError(f'max_len of {s} is {f.max_len}, not {want}')
    return s, f.format


def holds(spec, f, v, unit, acc=None, name=''):
    n, tr, own, sep, mcoef, prefixes, zero = spec
    sep = sep or ''
    what = f'{name} of {v!r}' + (f', {unit!r}' if unit is not None else '')
    x = abs(Fraction(v))
    top = Fraction(mcoef) ** (len(prefixes) - zero)
    beyond = x >= top * (1 - EPS)
    if beyond and not any(prefixes):
        return None
    try:
        out = f(v, unit) if unit is not None else f(v)
    except ValueError as e:
        return None if beyond else f'{what} raises {e!r}'
    u = unit or own or ''
    if name == 'metric' and unit is None:
        u = 'm'                   # default of the function
    if name == 'binary' and unit is None:
        u = 'b'
    m = NUM.fullmatch(out)
    if not m:
        return f'{what} is {out!r}: not a number with a unit'
    sign, num, rest = m.groups()
    if beyond and ('?' in rest or tr):
        return None
    if x >= top * (1 + EPS):
        return f'{what} is {out!r}: beyond the last prefix'
    idx = [i for i, p in enumerate(prefixes) if rest == sep + ((p or '') + u).strip()]
    if not idx:
        return f'{what} is {out!r}: unit has to be {u!r} with one of the prefixes, separated by {sep!r}'
    if len(out) > n + len(sep) + len(u) + max([len(p) for p in prefixes if p] or [0]):
        return f'{what} is {out!r}: too long'
    bad = None
    for i in idx:
        y = x / Fraction(mcoef) ** (i - zero)
        if acc is not None:
            acc.state((name, i, num.partition('.')[2] and len(num.partition('.')[2]), len(num)))
            acc.transition(name, v, unit)
            acc.outcome((rest, len(num)))
        bad = None
        if not (y < mcoef * (1 + EPS)):
            bad = f'mantissa has to be less than {mcoef:g}, prefix is too small'
        elif i > 0 and x and y < 1 - EPS and not (tr and i == zero):
            bad = 'mantissa is less than 1, prefix is too big'
        elif not x and i != zero:
            bad = 'zero has got a prefix'
        elif tr and i == zero:
            if Fraction(num) not in (y // 1, (y * (1 + EPS)) // 1, (y * (1 - EPS)) // 1):
                bad = f'has to be {float(y)!r} truncated'
            elif (sign == '-') != (v < 0 and Fraction(num) != 0):
                bad = 'wrong sign'
        else:
            if (sign == '-') != (v < 0):
                bad = 'wrong sign'
            elif not x:
                bad = None if num == '0' else 'is not zero'
            else:
                bad = numeral.rounds(num, y, n - (v < 0), EPS)
        if not bad:
            return None
    return f'{what} is {out!r}: {bad}'


from .c25 import MORE, PATTERNS          # noqa


def numbers(pattern):
    for e in range(-32, 33):
        v = float(f'{pattern}e{e}')
        yield v
        if e % 3 == 0:
            yield math.nextafter(v, 0)
            yield math.nextafter(v, math.inf)
        if abs(v) < 2 ** 53 and v == int(v):
            yield int(v)


def powers():
    for b in (1000, 1024):
        for k in range(-9, 10):
            p = Fraction(b) ** k
            for m in ('1', '0.999', '0.9994', '0.9995', '0.9999', '0.99999', '0.999999', '1.0001', '1.0005', '1.001', '0.5', '0.9', '512',
                      '9.994', '9.995', '9.996', '99.94', '99.95', '99.96', '999', '999.4', '999.49', '999.5', '999.51', '999.9',
                      '999.95', '999.999', '1023', '1023.4', '1023.5', '1023.9', '1023.99'):
                v = float(p * Fraction(m))
                yield v
                yield math.nextafter(v, 0)
                yield math.nextafter(v, math.inf)


SPECS = ['metric', 'binary', *range(len(CUSTOM))]


def jobs(tier):
    q = tier == 'quick'
    out = [('patterns', p) for p in (PATTERNS if q else PATTERNS + MORE)]
    out += [('powers', s) for s in SPECS]
    out += [('dense', a, a + 500) for a in range(0, 5000 if q else 100000, 500)]
    return out


def run(job, acc):
    specs = SPECS
    if job[0] == 'patterns':
        vals = list(numbers(job[1]))
    elif job[0] == 'powers':
        vals, specs = [0, 0.0, -0.0, *powers()], [job[1]]
    else:
        vals = [k for k in range(*job[1:])] + [k + .5 for k in range(*job[1:])]
    with sut.guard():
        for s in specs:
            spec, f = make(s)
            units = (None, 'm', 'bps', '') if isinstance(s, str) else (None, 'q')
            for v, sign, unit in itertools.product(vals, (1, -1), units):
                acc.traces += 1
                m = holds(spec, f, v * sign, unit, acc, str(s))
                if m:
                    acc.fail({'spec': s, 'value': repr(v * sign), 'unit': unit}, m)
                    if acc.full:
                        return
        acc.sample({'spec': s, 'value': repr(v), 'unit': None})


def check(case):
    v = float(case['value']) if any(c in case['value'] for c in '.en') else int(case['value'])
    with sut.guard():
        spec, f = make(case['spec'])
        return holds(spec, f, v, case['unit'], name=str(case['spec']))
