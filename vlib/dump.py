"""Executions of the dumper and what can be read off its output."""
from __future__ import annotations

import re
import time

from . import ref, sut, term


class Bad(Exception):
    """The output violates the property being checked."""


def case_of(o, data, script=None, columns=None, **kw):
    c = {'opts': {k: (sorted(v) if isinstance(v, frozenset) else v)
                  for k, v in ((k, getattr(o, k)) for k in o.FIELDS)
                  if v != ref.Opts.FIELDS[k]},
         'data': data.hex()}
    if script:
        c['script'] = list(script)
    if columns is not None:
        c['columns'] = columns
    c.update(kw)
    return c


def opts_of(case):
    return ref.Opts(**case['opts'])


def describe_case(case):
    data = bytes.fromhex(case['data'])
    shown = repr(data) if len(data) < 120 else f'{data[:60]!r}..({len(data)} bytes)'
    s = f"kolombos {' '.join(opts_of(case).argv())} <<< {shown}"
    if case.get('script'):
        sc = case['script']
        s += f' read as {sc if len(sc) < 20 else str(sc[:20]) + "..."}'
    if case.get('columns') is not None:
        s += f' COLUMNS={case["columns"]}'
    return s


class Run:
    """One execution; everything else is computed when asked for."""

    def __init__(self, o, data, script=None, columns=None):
        self.o, self.full_data, self.script, self.columns = o, data, script, columns
        self.res = sut.run(o.argv(), data, script, columns)
        if self.res.error:
            raise Bad(self.res.error)
        self._data = self._toks = self._screen = None

    @property
    def data(self):
        if self._data is None:
            self._data = ref.limited(self.full_data, self.o)
        return self._data

    @property
    def toks(self):
        if self._toks is None:
            self._toks = ref.tokenize(self.data)
        return self._toks

    @property
    def screen(self):
        if self._screen is None:
            self._screen = term.parse(self.res.out)
        return self._screen

    @property
    def rows(self):
        return self.screen.rows


HEX_RE = re.compile(r'(?: [0-9a-f]{2})*')


class Line:
    """A row of the binary dump."""
    __slots__ = ('prefix', 'hexes', 'hex_cells', 'gap', 'sep', 'chars', 'row')


def bin_lines(run, cols=None, prefix=None):
    """[Line], total row; the geometry is taken from the output itself"""
    rows = run.rows
    offs = not run.o.no_offsets
    total = None
    if offs:
        if not rows:
            raise Bad('no total size row')
        total = rows[-1]
        rows = rows[:-1]
    out = []
    for n, row in enumerate(rows):
        t = row.text
        ln = Line()
        ln.row = row
        p = 0
        if offs:
            p = t.find('│') + 1
            if p == 0:
                raise Bad(f'row {n} has no offset separator: {t!r}')
        ln.prefix = row.cells[:p]
        m = HEX_RE.match(t, p)
        ln.hexes = t[p:m.end()].split()
        ln.hex_cells = row.cells[p:m.end()]
        q = m.end()
        c = cols
        if c is None:
            if offs:
                k = t.find('│', q)
                c = (k - p - 1) // 3
            else:
                c = (len(t) - 2 - len(ln.hexes)) // 3
            if n == 0:
                cols = c
        sp = p + 3 * cols + 1
        ln.gap = row.cells[q:sp]
        ln.sep = row.cells[sp:sp + 1]
        ln.chars = row.cells[sp + 1:]
        if len(ln.hexes) > cols or len(t) <= sp:
            raise Bad(f'row {n} does not fit the layout of {cols} columns: {t!r}')
        out.append(ln)
    return out, total, cols


def text_prefix(row):
    """(prefix cells, content cells) of a text mode row"""
    t = row.text
    p = t.find('│') + 1
    return row.cells[:p], row.cells[p:]


# ------------------------------------------------------------------ exploring

def note_model(acc, o, toks, width):
    """account the model states and transitions a trace goes through"""
    key = (o.binary, width)
    prev = 'start'
    fill = 0
    states, trans = acc.states, acc.transitions
    s = hash((key, prev, 0))
    states.add(s)
    for t in toks:
        ln = len(t.raw)
        if o.binary:
            fill = (fill + ln) % width if width else 0
        else:
            fill = 0 if t.kind == 'lf' else min(fill + 1, 4)
        n = hash((key, t.kind, fill, ln if ln < 20 else 20))
        states.add(n)
        trans.add((s * 31 + n) & 0x7fffffffffffffff)
        s = n


def decide(fn, case):
    """run one case and check it with fn(run); None or the message"""
    try:
        run = Run(opts_of(case), bytes.fromhex(case['data']), case.get('script'), case.get('columns'))
        fn(run)
    except Bad as e:
        return f'{describe_case(case)}: {e}'
    return None


def shrink(decide_case, case, budget=20.0):
    """a smaller failing case: fewer data bytes, no script"""
    end = time.time() + budget
    if case.get('script'):
        c = {k: v for k, v in case.items() if k != 'script'}
        if decide_case(c):
            case = c
    if case.get('script'):
        return case
    data = bytes.fromhex(case['data'])
    n = 2
    while len(data) > 1 and time.time() < end:
        size = max(1, len(data) // n)
        for a in range(0, len(data), size):
            d = data[:a] + data[a + size:]
            c = dict(case, data=d.hex())
            if time.time() > end:
                break
            if decide_case(c):
                data, case = d, c
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(data), n * 2)
    return case


def explore(acc, fn, o, inputs, script=None, columns=None, width=None, model=True, **kw):
    """check fn on every input; returns False when there are enough failures"""
    if width is None:
        width = o.columns or 0
    for data in inputs:
        try:
            run = Run(o, data, script, columns)
            acc.traces += 1
            if model:
                note_model(acc, o, run.toks, width)
            fn(run)
            acc.outcomes.add(hash(run.res.out))
        except Bad as e:
            case = shrink(lambda c: decide(fn, c), case_of(o, data, script, columns, **kw))
            acc.fail(case, decide(fn, case) or f'{describe_case(case)}: {e}')
            if acc.full:
                return False
    if inputs:
        try:
            acc.sample(describe_case(case_of(o, data, script, columns)))
        except NameError:
            pass
    return True


def diff_cells(exp, got):
    """what differs between two rows of cells"""
    te, tg = ''.join(c for c, _ in exp), ''.join(c for c, _ in got)
    if te != tg:
        return f'expected {te!r}, got {tg!r}'
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            return (f'cell {i} {a[0]!r} of {te!r}: expected style {term.show(a[1])}, '
                    f'got {term.show(b[1])}')
    return None
