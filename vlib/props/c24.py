"""C24: conversions between integer, RGB and HSV agree and can be inverted."""
import colorsys

from .. import palette, sut
from . import c23

ID = 'C24'
TECHNIQUE = ('exhaustive enumeration of colors; oracle: inverse conversions by the standard library, exact to a channel step')
LEVEL_NOTE = 'all 2^24 colors'
BOUNDS = 'all 2^24 colors (every sixteenth is counted as a state)'
STATE = 'color; transitions are conversions'
ASSUMPTIONS = ['hue of a shade of gray is 0 by convention', 'HSV is compared after rounding back to 8 bits per channel']


def C():
    from pytermor import color
    return color


def holds(v, to_rgb, to_hex, to_hsv):
    want = palette.rgb(v)
    ch = to_rgb(v)
    if tuple(ch) != want:
        return f'{v:06x} consists of {ch}, not {want}'
    back = to_hex(*ch)
    if back != v:
        return f'{v:06x} -> {ch} -> {back:06x}'
    h, s, l = to_hsv(v)
    if not (0 <= h < 360 and 0 <= s <= 1 and 0 <= l <= 1):
        return f'HSV of {v:06x} is out of range: {h, s, l}'
    r = colorsys.hsv_to_rgb(h / 360, s, l)
    near = tuple(round(x * 255) for x in r)
    if near != want:
        return f'HSV of {v:06x} is {h, s, l}, which is {near}, not {want}'
    if max(abs(x * 255 - w) for x, w in zip(r, want)) > 1e-6:
        return f'HSV of {v:06x} is {h, s, l}: off by more than rounding'
    if want[0] == want[1] == want[2] and (h, s) != (0, 0):
        return f'gray {v:06x} has hue {h}, saturation {s}'
    return None


def fixed():
    c = C()
    with sut.guard():
        for f in (c.Color.hex_value_to_rgb_channels, c.Color.hex_value_to_hsv_channels):
            for x in (None, 'ff0000', 1.0, b'\0', (1, 2, 3)):
                try:
                    r = f(x)
                except TypeError:
                    continue
                return f'{f.__name__}({x!r}) returns {r!r}'
        for v in (0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x0a0b0c, 0xffffff):
            for kind in ('rgb', 'indexed'):
                if kind == 'rgb':
                    col = c.ColorRGB(v)
                else:
                    T = c23.isolated(c.ColorIndexed16)
                    if T is None:
                        continue
                    col = T(v, 30, 40)
                h = f'{v:06x}'
                got = (col.hex_value, col.format_value(), col.format_value('#'), col.format_value(None), col.format_value('', 'no'))
                if got != (v, '0x' + h, '#' + h, h, h):
                    return f'color {h} is shown as {got}'
        n = c.NOOP_COLOR
        if (n.hex_value, n.format_value(), n.format_value('#', 'none')) != (None, '~', 'none'):
            return f'empty color is shown as {n.format_value()!r}'
        for v in (0x102030, 0x0000ff, 0):
            rgb = list(palette.rgb(v))
            got = list(c.ColorRGB(v).to_sgr().params), list(c.ColorRGB(v).to_sgr(bg=True).params)
            if got != ([38, 2, *rgb], [48, 2, *rgb]):
                return f'sequence of {v:06x} is {got}'
    return None


def jobs(tier):
    return [('fixed',)] + [('grid', r, 1) for r in range(256)]


def run(job, acc):
    if job[0] == 'fixed':
        acc.traces += 20
        m = fixed()
        if m:
            acc.fail({'fixed': True}, m)
        return
    vals = [job[1] << 16 | g << 8 | b for g in range(0, 256, job[2]) for b in range(0, 256, job[2])]
    c = C().Color
    fs = c.hex_value_to_rgb_channels, c.rgb_channels_to_hex_value, c.hex_value_to_hsv_channels
    sectors = set()
    for v in vals:
        m = holds(v, *fs)
        if m:
            acc.fail({'color': v}, m)
            if acc.full:
                return
        r, g, b = palette.rgb(v)
        sectors.add((r > g, g > b, b > r, r == g, g == b, r == b))
    acc.traces += len(vals)
    for v in vals[::16]:
        acc.state(v)
    for s in sectors:
        acc.outcome(s)
        acc.transition(s)
    acc.sample({'color': vals[-1]})


def check(case):
    if 'fixed' in case:
        return fixed()
    c = C().Color
    return holds(case['color'], c.hex_value_to_rgb_channels, c.rgb_channels_to_hex_value, c.hex_value_to_hsv_channels)
