"""Structural oracle for numbers shown in a limited number of characters (exact arithmetic)."""
import re
from decimal import Decimal, localcontext, ROUND_HALF_DOWN, ROUND_HALF_UP, ROUND_FLOOR
from fractions import Fraction

NUM = re.compile(r'\d+(?:\.(\d+))?')


def fixed_len(x: Fraction, d, up):
    """length of a nonnegative number with d decimals, halves rounded up or down"""
    y = x * 10 ** d
    n = (2 * y.numerator + y.denominator) // (2 * y.denominator) if up else \
        -((-2 * y.numerator + y.denominator) // (2 * y.denominator))
    return max(len(str(n)), d + 1) + (1 if d else 0)


def rounds(text, x: Fraction, n, eps=Fraction(0)):
    """whether the numeral is the nonnegative number x, known up to a relative error, with as many decimals as
    there is room for in n characters; what is wrong otherwise"""
    m = NUM.fullmatch(text)
    if not m:
        return f'{text!r} is not a number'
    d = len(m.group(1) or '')
    s = Fraction(text)
    if len(text) > n:
        return f'{text!r} is longer than {n}'
    lo, hi = x * (1 - eps), x * (1 + eps)
    half = Fraction(1, 2 * 10 ** d)
    if d == 0 and fixed_len(hi, 0, True) > n and s in (lo // 1, hi // 1):
        return None         # no room for the rounded number
    if not lo - half <= s <= hi + half:
        return f'{text!r} is not {float(x)!r} rounded to {d} decimals'
    if fixed_len(lo, d + 1, True) <= n and fixed_len(hi, d + 1, True) <= n and \
       fixed_len(lo, d + 1, False) <= n and fixed_len(hi, d + 1, False) <= n:
        return f'{text!r}: there is room for one more decimal of {float(x)!r} in {n}'
    return None


def exponent(x: Fraction):
    """floor of the decimal logarithm"""
    if x >= 1:
        return len(str(x.numerator // x.denominator)) - 1
    y = x.denominator // x.numerator       # >= 1
    e = len(str(y)) - 1
    return -e if x * 10 ** e >= 1 else -e - 1
