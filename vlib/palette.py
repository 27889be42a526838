"""Own tables of terminal colors: xterm's 16 and 256 color palettes."""

ANSI16 = {0x000000: 30, 0x800000: 31, 0x008000: 32, 0x808000: 33, 0x000080: 34, 0x800080: 35, 0x008080: 36, 0xc0c0c0: 37,
          0x808080: 90, 0xff0000: 91, 0x00ff00: 92, 0xffff00: 93, 0x0000ff: 94, 0xff00ff: 95, 0x00ffff: 96, 0xffffff: 97}
_L = [0, 0x5f, 0x87, 0xaf, 0xd7, 0xff]
XTERM = {}           # code -> rgb, without the first 16
for _r in range(6):
    for _g in range(6):
        for _b in range(6):
            XTERM[16 + 36 * _r + 6 * _g + _b] = _L[_r] << 16 | _L[_g] << 8 | _L[_b]
for _i in range(24):
    XTERM[232 + _i] = (8 + 10 * _i) * 0x10101


def rgb(v):
    return v >> 16, v >> 8 & 255, v & 255


def dist(a, b):
    return sum((x - y) ** 2 for x, y in zip(rgb(a), rgb(b)))


_C16 = [(*rgb(v), c) for v, c in ANSI16.items()]
_C256 = [(*rgb(v), c) for c, v in XTERM.items()]


def nearest(table, v):
    r, g, b = rgb(v)
    best, out = 1 << 30, []
    for cr, cg, cb, c in table:
        d = (cr - r) ** 2 + (cg - g) ** 2 + (cb - b) ** 2
        if d < best:
            best, out = d, [c]
        elif d == best:
            out.append(c)
    return out


def nearest16(v):
    """codes of all foreground colors at the least distance"""
    return nearest(_C16, v)


def nearest256(v):
    return nearest(_C256, v)
