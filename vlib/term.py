"""A small terminal model: text with SGR sequences -> rows of (char, attributes).

Written from ECMA-48 / xterm docs, independent of pytermor. An attribute state is a
tuple (fg, bg, bold, dim, italic, underline, blink, inverse, hidden, crossed, overlined).
"""
from __future__ import annotations

import re

DEFAULT = ('', '', 0, 0, 0, 0, 0, 0, 0, 0, 0)
FG, BG, BOLD, DIM, ITALIC, UL, BLINK, INV, HIDDEN, CROSS, OVER = range(11)
NAMES = ['fg', 'bg', 'bold', 'dim', 'italic', 'underline', 'blink', 'inverse', 'hidden',
         'crossed', 'overline']

_SIMPLE = {
    1: (BOLD, 1), 2: (DIM, 1), 3: (ITALIC, 1), 4: (UL, 1), 5: (BLINK, 1), 6: (BLINK, 2),
    7: (INV, 1), 8: (HIDDEN, 1), 9: (CROSS, 1), 21: (UL, 2), 53: (OVER, 1),
    23: (ITALIC, 0), 24: (UL, 0), 25: (BLINK, 0), 27: (INV, 0), 28: (HIDDEN, 0),
    29: (CROSS, 0), 55: (OVER, 0), 39: (FG, ''), 49: (BG, ''),
}
for _i in range(8):
    _SIMPLE[30 + _i] = (FG, str(30 + _i))
    _SIMPLE[90 + _i] = (FG, str(90 + _i))
    _SIMPLE[40 + _i] = (BG, str(30 + _i))
    _SIMPLE[100 + _i] = (BG, str(90 + _i))


def apply_params(state, params):
    """state after SGR with the given integer params (empty list = reset)."""
    if not params:
        return DEFAULT
    st = list(state)
    i = 0
    while i < len(params):
        p = params[i]
        i += 1
        if p == 0:
            st = list(DEFAULT)
        elif p == 22:
            st[BOLD] = st[DIM] = 0
        elif p in (38, 48):
            k = FG if p == 38 else BG
            if len(params) - i >= 2 and params[i] == 5:
                st[k] = f'5;{params[i + 1]}'
                i += 2
            elif len(params) - i >= 4 and params[i] == 2:
                st[k] = '2;' + ';'.join(map(str, params[i + 1:i + 4]))
                i += 4
            # incomplete: ignored
        elif p in _SIMPLE:
            k, v = _SIMPLE[p]
            st[k] = v
    return tuple(st)


_cache = {}


def apply_sgr(state, param_str):
    key = (state, param_str)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 200000:
            _cache.clear()
        r = _cache[key] = apply_params(
            state, [int(p) if p else 0 for p in param_str.split(';')] if param_str else [])
    return r


SGR_RE = re.compile('\x1b\\[([0-9;]*)m')
UNSAFE_RE = re.compile('[\x00-\x08\x0b-\x1f\x7f-\x9f]')   # what a terminal may act upon; not TAB, LF


class Row:
    __slots__ = ('cells', 'end', 'eol')

    def __init__(self):
        self.cells = []       # [(char, attrs)]
        self.end = DEFAULT    # state at the moment of the line break (or end of output)
        self.eol = False      # terminated by \n

    @property
    def text(self):
        return ''.join(c for c, _ in self.cells)


class Screen:
    __slots__ = ('rows', 'unsafe', 'final')

    def __init__(self, rows, unsafe, final):
        self.rows, self.unsafe, self.final = rows, unsafe, final


def parse(out: str) -> Screen:
    """Output -> Screen. `rows` has one entry per line break plus a last one, if anything
    printable follows the last line break."""
    rows = []
    unsafe = []
    state = DEFAULT
    row = Row()
    parts = SGR_RE.split(out)
    for i, part in enumerate(parts):
        if i & 1:
            state = apply_sgr(state, part)
            continue
        if not part:
            continue
        bad = UNSAFE_RE.search(part)
        if bad:
            unsafe.append(bad.group())
        if '\n' not in part:
            row.cells.extend([(c, state) for c in part])
            continue
        lines = part.split('\n')
        for j, ln in enumerate(lines):
            if ln:
                row.cells.extend([(c, state) for c in ln])
            if j < len(lines) - 1:
                row.end = state
                row.eol = True
                rows.append(row)
                row = Row()
    if row.cells:
        row.end = state
        rows.append(row)
    return Screen(rows, unsafe, state)


def show(attrs):
    return ' '.join(f'{n}={v}' for n, v, d in zip(NAMES, attrs, DEFAULT) if v != d) or 'default'
