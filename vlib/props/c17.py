"""C17: debugging output only adds to the dump."""
import itertools
import re

from .. import corpus, dump, plans, ref, sut, term
from ..dump import Bad
from ..ref import Opts, CLASSES

ID = 'C17'
TECHNIQUE = ('exhaustive enumeration of inputs x debug levels x options on the real dumper: differential against the run '
             'without debugging plus accounting of every byte in the debug rows')
LEVEL_NOTE = ('all words of <= 2 bytes and <= 2 lexical units, all small documents and their pairs, long runs, levels '
              '1..5, read sizes 1..7, 16 and default, both modes, detail levels 0..2')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all words of 3 units and 3 bytes at every level, read sizes 1..17'}
STATE = '(mode, debug level, read size, kind of last token); a transition consumes one token'
ASSUMPTIONS = ['debug rows are recognised by the black background of their prefix, data rows by the green prefix']

OFF_RE = re.compile(r' *(?:0x([0-9a-f]+)|([0-9]+))│')
MARK_RE = re.compile(r'\[ǝ[0-9;]*\]')
SEG_RE = re.compile(r'Match group #\d+: Seg <.?>: len (\d+)(?: \[([0-9a-f ]*)\])?')
BAR, GRAY_BAR = ('│', ref.st(36)), ('│', ref.st(90))      # column separators are gray when debugging
READ_RE = re.compile(r'Read chunk #(\d+): len (\d+)')


def safe(data):
    return ''.join('·' if b in b'\t\n\v\f\r ' else chr(b) if 0x21 <= b <= 0x7e else '▯' for b in data)


class DRow:
    __slots__ = ('kind', 'label', 'off', 'text', 'cells')


def rows_of(run):
    """rows of the debug output with their kind: data, total, hex (of a formatter), parser, reader, other"""
    out = []
    for row in run.rows:
        r = DRow()
        t = row.text
        p = t.find('│')
        r.label = t[:p].strip() if p > 0 else ''
        r.cells = row.cells[p + 1:]
        r.text = t[p + 1:]
        m = OFF_RE.match(t) if p > 0 else None
        r.off = None if not m else int(m.group(1), 16) if m.group(1) is not None else int(m.group(2))
        first = next((a for c, a in row.cells[:max(p, 0)] if c != ' '), None)
        r.kind = 'other'
        if first is not None and m:
            fg, bg = first[term.FG], first[term.BG]
            if bg == '':
                r.kind = {'32': 'data', '36': 'total'}.get(fg, 'other')
            elif bg == '30':
                r.kind = {'33': 'hex', '36': 'parser', '35': 'reader'}.get(fg, 'other')
        out.append(r)
    return out


def content(run):
    """data rows of a run without debugging: (offset or line number, cells)"""
    out = []
    for row in run.rows:
        t = row.text
        m = OFF_RE.match(t)
        p = t.find('│')
        out.append((int(m.group(1), 16) if m.group(1) is not None else int(m.group(2)), row.cells[p + 1:]))
    return out


_plain = {}


def plain(o, data):
    """content of the dump of the same without debugging"""
    key = (o.binary, tuple(o.argv()), data)
    if key not in _plain:
        if len(_plain) > 500:
            _plain.clear()
        _plain[key] = content(dump.Run(o, data))
    return _plain[key]


def holds(run):
    o = run.o
    base = plain(o.replace(debug=0, no_offsets=False, no_line_numbers=False), run.full_data)
    rows = rows_of(run)
    data = [r for r in rows if r.kind in ('data', 'total')]
    if len(base) != len(data):
        raise Bad(f'{len(data)} rows of data instead of {len(base)}')
    for i, ((n, cells), r) in enumerate(zip(base, data)):
        r.cells = [BAR if c == GRAY_BAR else c for c in r.cells]
        if n != r.off:
            raise Bad(f'row {i} has number {r.off} instead of {n}')
        m = dump.diff_cells(cells, r.cells)
        if m:
            raise Bad(f'row {i}: {m}')
    full = run.data

    # dump rows of the formatter stand right before the data rows, tell the same offset and bytes
    pos = 0
    pend = []
    per = (1 if o.binary else 0) + (1 if o.binary else 1)
    for r in rows:
        if r.kind == 'hex':
            pend.append(r)
        elif r.kind == 'data':
            if not pend:
                raise Bad(f'no debug rows before data row {r.off}')
            ln = None
            for k, h in enumerate(pend):
                if h.off != pos:
                    raise Bad(f'debug row {h.text!r} has offset {h.off} instead of {pos}')
                t, hexes, chars = h.text, None, None
                if o.binary and k == len(pend) - 1:
                    m = re.match(r'((?: [0-9a-f]{2})*) +│(.*)$', t, re.S)
                    if not m:
                        raise Bad(f'no hex dump in the debug row {t!r}')
                    hexes, chars = m.groups()
                elif not o.binary and len(pend) > 1 and k == len(pend) - 2:
                    hexes = t
                else:
                    chars = MARK_RE.sub('', t)
                if hexes is not None:
                    got = bytes.fromhex(hexes)
                    if ln is not None and len(got) != ln:
                        raise Bad(f'debug rows of one piece show {ln} and {len(got)} bytes')
                    ln = len(got)
                    if full[pos:pos + ln] != got:
                        raise Bad(f'debug row at {pos} shows {got!r} instead of {full[pos:pos + ln]!r}')
                if chars is not None:
                    if ln is not None and len(chars) != ln:
                        raise Bad(f'debug rows of one piece show {ln} and {len(chars)} bytes')
                    ln = len(chars)
                    if safe(full[pos:pos + ln]) != chars:
                        raise Bad(f'debug row at {pos} shows {chars!r} instead of {safe(full[pos:pos + ln])!r}')
            if o.binary and r.off != pos:
                raise Bad(f'row at {pos} has offset {r.off}')
            pos += ln
            pend = []
    if pos != len(full):
        raise Bad(f'debug rows account for {pos} bytes of {len(full)}')

    # what the parser found
    if o.debug >= 2:
        pos = 0
        for r in rows:
            if r.kind != 'parser':
                continue
            m = SEG_RE.match(r.text)
            if not m:
                continue
            if r.off != pos:
                raise Bad(f'match {r.text[:60]!r} has offset {r.off} instead of {pos}')
            n = int(m.group(1))
            if o.debug >= 4:
                if m.group(2) is None or bytes.fromhex(m.group(2)) != full[pos:pos + n]:
                    raise Bad(f'match {r.text[:60]!r} at {pos} is not {full[pos:pos + n]!r}')
            pos += n
        if pos != len(full):
            raise Bad(f'matches account for {pos} bytes of {len(full)}')

    # what the reader got
    pos = num = 0
    for r in rows:
        m = READ_RE.match(r.text) if r.kind == 'reader' else None
        if m:
            if int(m.group(1)) != num or r.off != pos:
                raise Bad(f'{r.text[:40]!r} at {r.off}, expected chunk {num} at {pos}')
            num += 1
            pos += int(m.group(2))
        elif r.kind == 'reader' and r.text.startswith('Encountered EOF') and not o.max_bytes and not o.max_lines:
            if r.off != pos:
                raise Bad(f'EOF is at {r.off} instead of {pos}')
    if not o.max_bytes and not o.max_lines and pos != len(full):
        raise Bad(f'chunks read account for {pos} bytes of {len(full)}')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for lv in (1, 2, 3, 4, 5):
        for b in (False, True):
            o = Opts(binary=b, debug=lv, columns=3 if b else None, decode=b)
            out += [(o, s) for s in plans.upto('BYTES', 2)]
            out += [(o, s) for s in plans.upto('UNITS', 1)]
            out += [(o, s) for s in plans.cut('UNITS', 2, 4) if not q or lv in (1, 2, 4)]
            for f in (1, 2, 3, 5, 7) if q else range(1, 18):
                out += [(o.replace(buffer=f, columns=4 if b else None, marker=f % 3), ('docs', 0, 16))]
                out += [(o.replace(buffer=f), s) for s in plans.cut('UNITS_SMALL', 2, 1)]
            for m, kw in itertools.product((0, 1, 2), ({}, {'no_separators': True}, {'decimal': True},
                                                       {'no_offsets': True, 'no_line_numbers': True},
                                                       {'color_markers': True}, {'focus': CLASSES},
                                                       {'ignore': CLASSES}, {'max_bytes': 9}, {'max_lines': 2},
                                                       {'ignore': ('esc', 'utf8')})):
                out += [(o.replace(marker=m, columns=7 if b else None, **kw), ('docs', 0, 15))]
            out += [(o.replace(columns=None), ('docs', 0, len(plans.DOCS)))]
            if lv in (1, 4):
                for a in range(0, len(corpus.UNITS), 6):
                    out += [(o.replace(columns=16 if b else None), ('runs', a, a + 6, (5, 129) if q else (5, 64, 127, 128, 129, 200)))]
                out += [(o.replace(buffer=20, columns=9 if b else None), ('docjoin', a, a + 1))
                        for a in range(0, len(plans.DOCS), 1 if not q else 3)]
            if not q:
                out += [(o, s) for s in plans.cut('BYTES', 3, 24)]
                out += [(o, s) for s in plans.cut('UNITS', 3, 96)]
    return out


def run(job, acc):
    o, spec = job
    acc.state((o.debug, o.binary, o.buffer))
    dump.explore(acc, holds, o, plans.generate(spec))


def check(case):
    return dump.decide(holds, case)
