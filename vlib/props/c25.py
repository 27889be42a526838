"""C25: numbers fitted into a length: exact length, right rounding, all the room used."""
import itertools
import math
from fractions import Fraction

from .. import numeral, sut

ID = 'C25'
TECHNIQUE = ('exhaustive enumeration of digit patterns x exponents x signs x lengths; structural oracle in exact '
             'rational arithmetic')
LEVEL_NOTE = ('64 leading/rounding digit patterns and their floating point neighbours x exponents -14..14 and extremes x both '
              'signs x lengths 0..9 (thorough: 0..16, 200 patterns) x exponents allowed or not; all integers and halves up to 2000')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'shape of the result (form, exponent, decimals, sign); transitions are (number, length)'
ASSUMPTIONS = ['a half may be rounded either way', 'a number within 1e-14 of a power of ten may count as that power',
               'infinities are not numbers']
EPS = Fraction(1, 10 ** 14)


def fmt(v, n, allow):
    from pytermor.util import auto_float
    if allow == 'default':
        return auto_float.format_auto_float(v, n)
    return auto_float.format_auto_float(v, n, allow)


def shape(out):
    return ('!' in out, 'e' in out, out.count(' '), len(out.partition('.')[2]))


def holds(v, n, allow, acc=None):
    what = f'format_auto_float({v!r}, {n}, {allow})'
    neg = v < 0
    x = Fraction(abs(v))
    room = n - neg
    near = set()
    if x:
        # a float stands for what was meant: known up to half of its last bit
        eps = max(EPS, Fraction(math.ulp(v)) / 2 / x)
        near = {numeral.exponent(x), numeral.exponent(x * (1 - eps)), numeral.exponent(x * (1 + eps))}
    fits = lambda e: e <= room - 1
    try:
        out = fmt(v, n, allow)
    except ValueError as e:
        if acc is not None:
            acc.outcome(('refused', n))
        if room < 0 or (not allow and room > 0 and not all(map(fits, near)) and not (x < 1 and room == 1)):
            return None
        return f'{what} raises {e!r}'
    if acc is not None:
        acc.state((shape(out), n))
        acc.transition(v, n, allow)
        acc.outcome(shape(out))
    if type(out) is not str or len(out) != n:
        return f'{what} is {out!r}, {len(out)} characters'
    if room < 0:
        return None
    if '!' in out:
        if set(out) != {'!'}:
            return f'{what} is {out!r}'
        if room == 0 and neg:
            return None
        if allow and x and any((e < -2 or not fits(e)) and len(f'e{e}') > room for e in near) and not (x < 1 and room == 1):
            return None
        return f'{what} is {out!r}, there is room'
    if n == 0:
        return None
    core = out.lstrip(' ')
    if core.startswith('-') != neg:
        return f'{what} is {out!r}: wrong sign'
    core = core[neg:]
    if x < 1 and room == 1:
        return None if core == '0' else f'{what} is {out!r} instead of 0'
    if not x:
        return None if core == '0' else f'{what} is {out!r} instead of 0'
    if 'e' in core:
        m, _, e = core.partition('e')
        try:
            e = int(e)
        except ValueError:
            return f'{what} is {out!r}'
        if not allow or e not in near or not any(k < -2 or not fits(k) for k in near):
            return f'{what} is {out!r}: exponent {sorted(near)}, exponents are {"" if allow else "not "}allowed'
        left = room - len(f'e{e}')
        if not m:
            return None if left == 0 else f'{what} is {out!r}: there is room for a digit'
        bad = numeral.rounds(m, x / Fraction(10) ** e, left, eps)
        return bad and f'{what} is {out!r}: {bad}'
    if not any(fits(k) and (k >= -2 or not allow) for k in near):
        return f'{what} is {out!r}: has to be in exponential form'
    bad = numeral.rounds(core, x, room)
    return bad and f'{what} is {out!r}: {bad}'


PATTERNS = ['1', '1.0000001', '1.04', '1.05', '1.06', '1.25', '1.35', '1.45', '1.5', '1.50001', '1.95', '1.96', '1.99', '1.995',
            '1.2345678901234567', '2', '2.5', '3.5', '4.4', '4.49', '4.5', '4.9999999', '5', '5.0000001', '5.5', '6.5', '7.77',
            '8.999', '8.9999999', '9', '9.04', '9.4', '9.49', '9.5', '9.51', '9.9', '9.94', '9.95', '9.96', '9.99', '9.994',
            '9.995', '9.996', '9.999', '9.9994', '9.9995', '9.9996', '9.9999', '9.99995', '9.99996', '9.99999', '9.999995',
            '9.999999', '9.9999995', '9.9999999', '9.99999995', '9.99999999', '9.999999999', '9.9999999999', '1.1', '1.01',
            '1.001', '1.005', '1.0005']
MORE = sorted({f'{a}.{b}{c}' for a in (1, 4, 9) for b in ('0', '4', '9', '49', '94', '99') for c in ('0', '4', '49', '5', '50001', '9', '95')})
EXTREMES = [5e-324, 1e-323, 9.88e-324, 2.3e-308, 1e-308, 1e-300, 1e-100, 9.99e-100, 9.9e99, 9.96e99, 1e100, 1e300, 9.99e307,
            1.7976931348623157e308]


def numbers(pattern):
    out = []
    for e in range(-14, 15):
        v = float(f'{pattern}e{e}')
        out += [v, math.nextafter(v, 0), math.nextafter(v, math.inf)]
        if v == int(v) and v < 2 ** 53:
            out.append(int(v))
    return out


def jobs(tier):
    q = tier == 'quick'
    ns = list(range(10 if q else 17))
    out = [('patterns', p, ns) for p in (PATTERNS if q else PATTERNS + MORE)]
    out += [('extremes', ns)] + [('dense', a, ns) for a in range(0, 2000, 250)]
    return out


def run(job, acc):
    if job[0] == 'patterns':
        vals = numbers(job[1])
    elif job[0] == 'extremes':
        vals = EXTREMES + [0, 0.0, -0.0, 10 ** 20, 10 ** 15 - 1, 2 ** 70, True]
    else:
        vals = [k / 2 for k in range(job[1] * 2, (job[1] + 250) * 2)] + list(range(job[1], job[1] + 250))
    with sut.guard():
        for v, n, allow, sign in itertools.product(vals, job[-1], (True, False) if job[0] == 'patterns' else ('default', False), (1, -1)):
            acc.traces += 1
            m = holds(v * sign, n, allow, acc)
            if m:
                acc.fail({'value': repr(v * sign), 'len': n, 'allow': allow}, m)
                if acc.full:
                    return
        acc.sample({'value': repr(v), 'len': n, 'allow': allow})
        if job[0] == 'extremes':
            for n in (-2, -3, -100):
                try:
                    r = fmt(1.5, n, True)
                except ValueError:
                    continue
                acc.fail({'value': '1.5', 'len': n, 'allow': True}, f'length {n} is accepted: {r!r}')


def check(case):
    v = float(case['value']) if any(c in case['value'] for c in '.en') else int(case['value'].replace('True', '1'))
    if case['len'] < -1:
        try:
            return f'length is accepted: {fmt(v, case["len"], True)!r}'
        except ValueError:
            return None
    with sut.guard():
        return holds(v, case['len'], case['allow'])
