"""Reference model of the dump: input bytes + options -> tokens -> cells.

Written from the documentation (README, --help, --legend) and ECMA-48/ECMA-35 syntax as
byte-by-byte automata; shares no code with kolombos or pytermor.
"""
from __future__ import annotations

from .term import DEFAULT, apply_params

# character classes, as in the option names
CONTROL, ESC, SPACE, UTF8, BINARY, PRINTABLE = 'control', 'esc', 'space', 'utf8', 'binary', 'printable'
CLASSES = (SPACE, CONTROL, PRINTABLE, ESC, UTF8, BINARY)
FOCUS_FLAG = {SPACE: '-s', CONTROL: '-c', PRINTABLE: '-p', ESC: '-e', UTF8: '-u', BINARY: '-i'}
IGNORE_FLAG = {k: v.upper() for k, v in FOCUS_FLAG.items()}


# ------------------------------------------------------------------ tokenizer

class Tok:
    __slots__ = ('cls', 'kind', 'raw', 'pos')

    def __init__(self, cls, kind, raw, pos):
        self.cls, self.kind, self.raw, self.pos = cls, kind, raw, pos

    def __repr__(self):
        return f'{self.kind}@{self.pos}:{self.raw!r}'


def _utf8_len(d, i):
    """length of the valid UTF-8 sequence at d[i] (0 if none); decided by the codec"""
    for n in (2, 3, 4):
        piece = d[i:i + n]
        if len(piece) < n:
            return 0
        try:
            if len(piece.decode('utf-8', 'strict')) == 1:
                return n
        except UnicodeDecodeError:
            pass
    return 0


def _esc(d, i):
    """(kind, length) of the escape sequence at d[i] == ESC"""
    n = len(d)
    j = i + 1
    if j >= n:
        return 'esc', 1
    b = d[j]
    if b == 0x5b:                      # CSI: parameters, intermediates, final
        k = j + 1
        while k < n and 0x30 <= d[k] <= 0x3f:
            k += 1
        pe = k
        while k < n and 0x20 <= d[k] <= 0x2f:
            k += 1
        if k < n and 0x40 <= d[k] <= 0x7e:
            if d[k] != 0x6d:
                return 'csi', k + 1 - i
            p = d[j + 1:pe]
            if p in (b'', b'0'):
                return 'sgr0', k + 1 - i
            # private parameters: not an SGR (the standard reserves them at the first place and
            # leaves them undefined elsewhere; contents of subparameters are not examined)
            if any(c > 0x3b for q in p.split(b';') for c in q.split(b':')[0]):
                return 'csi', k + 1 - i
            return 'sgr', k + 1 - i
        return 'fe', 2                  # unfinished CSI: only its introducer is a sequence
    if 0x20 <= b <= 0x2f:
        k = j
        while k < n and 0x20 <= d[k] <= 0x2f:
            k += 1
        if k < n and 0x30 <= d[k] <= 0x7e:
            return 'nf', k + 1 - i
        return 'esc', 1
    if 0x30 <= b <= 0x3f:
        return 'fp', 2
    if 0x40 <= b <= 0x5f:
        return 'fe', 2
    if 0x60 <= b <= 0x7e:
        return 'fs', 2
    return 'esc', 1


_ONE = {0x00: (CONTROL, 'nul'), 0x08: (CONTROL, 'bs'), 0x7f: (CONTROL, 'del'),
        0x09: (SPACE, 'tab'), 0x0a: (SPACE, 'lf'), 0x0b: (SPACE, 'vt'), 0x0c: (SPACE, 'ff'),
        0x0d: (SPACE, 'cr'), 0x20: (SPACE, 'sp')}


def tokenize(d: bytes):
    out = []
    i = 0
    n = len(d)
    while i < n:
        b = d[i]
        if b == 0x1b:
            kind, ln = _esc(d, i)
            out.append(Tok(CONTROL if kind == 'esc' else ESC, kind, d[i:i + ln], i))
            i += ln
        elif b >= 0x80:
            ln = _utf8_len(d, i)
            if ln:
                out.append(Tok(UTF8, 'utf8', d[i:i + ln], i))
                i += ln
            else:
                out.append(Tok(BINARY, 'bin', d[i:i + 1], i))
                i += 1
        else:
            if b in _ONE:
                cls, kind = _ONE[b]
            elif b < 0x20:
                cls, kind = CONTROL, 'ctl'
            else:
                cls, kind = PRINTABLE, 'chr'
            out.append(Tok(cls, kind, d[i:i + 1], i))
            i += 1
    return out


# ------------------------------------------------------------------ styles and markers

def st(*p):
    return apply_params(DEFAULT, list(p))


BASE = {'ctl': [31], 'nul': [91], 'bs': [31], 'del': [31], 'esc': [93],
        'tab': [96], 'lf': [96], 'vt': [96], 'ff': [96], 'cr': [96], 'sp': [96],
        'sgr0': [38, 5, 255, 48, 5, 16], 'sgr': [38, 5, 210, 48, 5, 16], 'csi': [92],
        'nf': [32], 'fp': [33], 'fe': [33], 'fs': [33],
        'utf8': [94], 'bin': [35], 'chr': [38, 5, 102]}
LABEL = {'ctl': 'Ɐ', 'nul': 'Ø', 'bs': '←', 'del': '→', 'esc': '∌',
         'tab': '⇥', 'lf': '↵', 'vt': '⤓', 'ff': '↡', 'cr': '⇤', 'sp': '␣',
         'sgr0': 'θ', 'sgr': 'ǝ', 'csi': 'Ͻ', 'nf': 'ꟻ', 'fp': 'ꟼ', 'fe': 'Ǝ', 'fs': 'Ꙅ'}
DETAILS = [48, 5, 16, 4]
IGNORED = st(90, 2)
SEP_STYLE = st(38, 5, 255)
LINE_NUM = st(32)
TOTAL = st(36)
BAR = st(36)
SEP_L, SEP_R = '⢸', '⡇'
M1_SEP = '･'
BRIEF = {0x1c: '\\', 0x1d: ']', 0x1e: '^', 0x1f: '_', **{i: chr(64 + i) for i in range(1, 27)}}

ALLOWED_COLOR_MARKERS = {2, 3, 53, 9, *range(30, 38), *range(40, 48), *range(90, 98), *range(100, 108)}


class Opts:
    """Options as the documentation describes them; argv() renders them for the CLI."""
    FIELDS = dict(binary=False, marker=None, focus=frozenset(), ignore=frozenset(),
                  no_separators=False, no_line_numbers=False, columns=None, decode=False,
                  decimal=False, no_offsets=False, color_markers=False, debug=0, buffer=None,
                  max_lines=None, max_bytes=None)

    def __init__(self, **kw):
        for k, v in self.FIELDS.items():
            setattr(self, k, kw.pop(k, v))
        assert not kw, kw
        self.focus = frozenset(self.focus)
        self.ignore = frozenset(self.ignore)

    def replace(self, **kw):
        d = {k: getattr(self, k) for k in self.FIELDS}
        d.update(kw)
        return Opts(**d)

    def argv(self):
        a = ['-b'] if self.binary else []
        if self.marker is not None:
            a.append(f'-m{self.marker}')
        a += [FOCUS_FLAG[c] for c in CLASSES if c in self.focus]
        a += [IGNORE_FLAG[c] for c in CLASSES if c in self.ignore]
        if self.no_separators:
            a.append('--no-separators')
        if self.no_line_numbers:
            a.append('--no-line-numbers')
        if self.columns is not None:
            a.append(f'-w{self.columns}')
        if self.decode:
            a.append('-d')
        if self.decimal:
            a.append('--decimal-offsets')
        if self.no_offsets:
            a.append('--no-offsets')
        if self.color_markers:
            a.append('--color-markers')
        if self.debug:
            a.append('-' + 'D' * self.debug)
        if self.buffer is not None:
            a += ['-f', str(self.buffer)]
        if self.max_lines is not None:
            a += ['-L', str(self.max_lines)]
        if self.max_bytes is not None:
            a += ['-B', str(self.max_bytes)]
        return a


def sgr_params(raw: bytes):
    """[int] of an SGR sequence: empty params are skipped, subparams cut"""
    body = raw[2:raw.index(b'm')] if b'm' in raw else raw[2:]
    body = bytes(c for c in body if 0x30 <= c <= 0x3f).decode()
    return [int(p.split(':')[0] or 0) for p in body.split(';') if p]


def sgr_allowed_and_brief(raw: bytes):
    ps = sgr_params(raw)
    allowed, brief = [], []
    i = 0
    while i < len(ps):
        p = ps[i]
        if p in (38, 48):
            t = 'F' if p == 38 else 'B'
            if len(ps) - i >= 3 and ps[i + 1] == 5:
                allowed += ps[i:i + 3]
                brief.append(f'{t}{ps[i + 2]}')
                i += 3
                continue
            if len(ps) - i >= 5 and ps[i + 1] == 2:
                allowed += ps[i:i + 5]
                r, g, b = ps[i + 2:i + 5]
                brief.append(f'{t}{(r << 16) + (g << 8) + b:06X}')
                i += 5
                continue
        elif p in ALLOWED_COLOR_MARKERS:
            allowed.append(p)
        brief.append(str(p))
        i += 1
    return allowed, brief


def details_level(o: Opts):
    m = o.marker
    return 0 if m is None or m <= 0 else 1 if m == 1 else 2


def own_style(tok: Tok, o: Opts):
    """style of the (primary) cells of a token"""
    if tok.cls in o.ignore:
        return IGNORED
    base = BASE[tok.kind]
    if tok.kind == 'sgr' and o.color_markers:
        return st(*sgr_allowed_and_brief(tok.raw)[0]) if sgr_allowed_and_brief(tok.raw)[0] else DEFAULT
    if tok.cls in o.focus:
        if tok.cls == SPACE:
            return st(46, 30)
        if tok.cls == PRINTABLE:
            return st(47, 30)
        return st(*base, 7)
    return st(*base)


def details_style(tok: Tok, o: Opts):
    if tok.kind == 'sgr':
        al = sgr_allowed_and_brief(tok.raw)[0] if o.color_markers else []
        return st(*DETAILS, *al)
    return st(*BASE[tok.kind], *DETAILS)


def glyph(tok: Tok, o: Opts):
    """marker of one byte of a single-byte kind"""
    if tok.cls in o.ignore:
        return '×'
    k = tok.kind
    if k == 'chr':
        return tok.raw.decode('ascii')
    if k == 'bin':
        return '▯' if o.binary else 'Ḇ'
    if k == 'sp' and tok.cls in o.focus:
        return '·'
    return LABEL[k]


def _u8(raw):
    c = raw.decode('utf-8')
    return '▯' if '\x80' <= c <= '\x9f' else c


def bin_cells(tok: Tok, o: Opts):
    """[(char, style)], exactly one per byte"""
    s = own_style(tok, o)
    n = len(tok.raw)
    if tok.cls in o.ignore:
        return [('×', s)] * n
    if tok.kind == 'utf8':
        return [(c, s) for c in (_u8(tok.raw).rjust(n, '_') if o.decode else '▯' * n)]
    if tok.cls == ESC:
        ds = details_style(tok, o)
        return [(LABEL[tok.kind], s)] + [(chr(b), ds) for b in tok.raw[1:]]
    return [(glyph(tok, o), s)]


def text_cells(tok: Tok, o: Opts):
    """[(char, style)]; line break itself is not included"""
    s = own_style(tok, o)
    if tok.cls in o.ignore:
        return [('×', s)] * len(tok.raw)
    if tok.kind == 'utf8':
        return [(_u8(tok.raw), s)]
    lv = details_level(o)
    if tok.cls == ESC:
        if lv == 0:
            return [(LABEL[tok.kind], s)]
        ds = details_style(tok, o)
        cells = [(LABEL[tok.kind], s)]
        if lv == 2:
            cells += [(chr(b), ds) for b in tok.raw[1:]]
        elif tok.kind == 'sgr':
            brief = sgr_allowed_and_brief(tok.raw)[1]
            nul = apply_params(ds, [24])
            for i, b in enumerate(brief):
                if i:
                    cells.append((M1_SEP, nul))
                # the separator turns underline off and on again
                cells += [(c, ds) for c in b]
        if not o.no_separators:
            cells = [(SEP_L, SEP_STYLE)] + cells + [(SEP_R, SEP_STYLE)]
        return cells
    if tok.kind == 'tab':
        return [('⇥', s), ('\t', s)]
    if tok.kind == 'ctl' and lv:
        b = tok.raw[0]
        ds = details_style(tok, o)
        return [('Ɐ', s)] + [(c, ds) for c in (BRIEF[b] if lv == 1 else f'{b:02x}')]
    return [(glyph(tok, o), s)]


# ------------------------------------------------------------------ whole output

def limited(data: bytes, o: Opts) -> bytes:
    """what -B / -L let through (both positive or absent)"""
    if o.max_lines:
        pos = -1
        for _ in range(o.max_lines):
            pos = data.find(b'\n', pos + 1)
            if pos < 0:
                break
        if pos >= 0:
            data = data[:pos]
    if o.max_bytes:
        data = data[:o.max_bytes]
    return data


def offset_text(off: int, decimal: bool):
    """visible offset column and the cells of it"""
    if decimal:
        return f'{off:d}'.rjust(8)
    h = f'{off:x}'
    h = h.rjust(max(4, (len(h) + 1) // 2 * 2), '0')
    return ('0x' + h).rjust(8)


def offset_cells(off, o: Opts, style):
    t = offset_text(off, o.decimal)
    out = []
    i = t.find('0x') if not o.decimal else -1
    for j, c in enumerate(t):
        out.append((c, apply_params(style, [2]) if i >= 0 and i <= j < i + 2 else style))
    return out + [('│', BAR)]


class BinRow:
    __slots__ = ('offset', 'data', 'cells', 'hexes')

    def __init__(self, offset):
        self.offset, self.data, self.cells, self.hexes = offset, b'', [], []


def bin_rows(data: bytes, o: Opts, columns: int):
    """rows of the binary dump: BinRow with data bytes, char cells and per-byte hex style"""
    rows = []
    row = None
    for t in tokenize(data):
        cells = bin_cells(t, o)
        for i, b in enumerate(t.raw):
            if row is None or len(row.data) == columns:
                row = BinRow(t.pos + i)
                rows.append(row)
            row.data += bytes([b])
            row.cells.append(cells[i])
    return rows


def bin_expected(data, o: Opts, columns: int):
    """list of rows of cells of the complete output"""
    data = limited(data, o)
    out = []
    D = DEFAULT
    for r in bin_rows(data, o, columns):
        cells = [] if o.no_offsets else offset_cells(r.offset, o, LINE_NUM)
        for b, (_, s) in zip(r.data, r.cells):
            cells += [(c, s) for c in f' {b:02x}']
        cells += [(' ', D)] * (3 * (columns - len(r.data)) + 1)
        cells.append((' ', D) if o.no_offsets else ('│', BAR))
        cells += r.cells
        out.append(cells)
    if not o.no_offsets:
        out.append(offset_cells(len(data), o, TOTAL))
    return out


class TextRow:
    __slots__ = ('cells', 'terminated', 'toks')

    def __init__(self):
        self.cells, self.terminated, self.toks = [], False, []


def text_rows(data: bytes, o: Opts):
    rows = []
    row = None
    for t in tokenize(data):
        if row is None:
            row = TextRow()
            rows.append(row)
        row.toks.append(t)
        row.cells += text_cells(t, o)
        if t.kind == 'lf':
            row.terminated = True
            row = None
    return rows


def line_prefix(n, o: Opts):
    if o.no_line_numbers:
        return []
    return [(c, LINE_NUM) for c in f'{n:2d}'] + [('│', BAR)]


def text_expected(data, o: Opts):
    data = limited(data, o)
    return [line_prefix(i + 1, o) + r.cells for i, r in enumerate(text_rows(data, o))]
