"""C23: the color found in a palette is one of the nearest, whatever has been asked or added before."""
import functools
import itertools
import logging

from .. import corpus, palette, sut

ID = 'C23'
TECHNIQUE = ('exhaustive enumeration of a grid of colors and of all histories of additions and queries on fresh palettes; '
             'oracle: squared distances over own tables')
LEVEL_NOTE = ('RGB grid with step 5 (thorough: 2) and all palette members +-3 per channel, the middles between near members +-1; all histories of length <= 5 '
              '(thorough: 6) of 4 additions and 4 queries, and of queries of the real palettes; two palette types')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'palette with its cache; transitions are additions of colors and queries'
ASSUMPTIONS = ['distance is Euclidean in RGB; any of the colors at the least distance is right',
               'the palettes are those of xterm (the 256-color one without the first 16)']
logging.getLogger().addHandler(logging.NullHandler())


def P():
    from pytermor import color
    return color


def finders(t):
    """names of the attributes of a palette class that hold its lookup tables"""
    return [n for k in t.__mro__ for n, v in vars(k).items() if isinstance(v, P().Approximator)]


def isolated(base):
    """a palette of the same kind with nothing in it, or None"""
    C = P()
    names = finders(base)
    if not names:
        return None
    return type('T', (base,), {**{n: C.Approximator() for n in names},
                               **{n: {} for n, v in vars(base).items() if isinstance(v, dict)}})


def code(c):
    """what a terminal is told for the color: (fg number, bg number) or index"""
    fg, bg = list(c.to_sgr(False).params), list(c.to_sgr(True).params)
    if len(fg) == 1 and len(bg) == 1:
        return fg[0] if bg[0] == fg[0] + 10 else None
    if fg[:2] == [38, 5] and bg == [48, *fg[1:]]:
        return fg[2]
    return None


def nearest(v):
    C = P()
    with sut.guard():
        a, b = C.ColorIndexed16.find_closest(v), C.ColorIndexed256.find_closest(v)
    for what, c, t, good in (('16', a, C.ColorIndexed16, palette.nearest16(v)), ('256', b, C.ColorIndexed256, palette.nearest256(v))):
        if type(c) is not t or code(c) not in good:
            return f'nearest to {v:06x} of {what} is {c!r} (code {code(c)}), has to be one of {good}'
        own = {k: h for h, k in palette.ANSI16.items()} if what == '16' else palette.XTERM
        if c.hex_value != own[code(c)]:
            return f'color {c!r} with code {code(c)} is {own[code(c)]:06x}'
    return None


def registered():
    C = P()
    seen = {'16': {}, '256': {}}
    with sut.guard():
        for n in dir(C.Colors):
            c = getattr(C.Colors, n)
            if isinstance(c, C.ColorIndexed16):
                if palette.ANSI16.get(c.hex_value) != code(c):
                    return f'color {n} is {c!r}, terminal code {code(c)}'
                seen['16'][code(c)] = n
            elif isinstance(c, C.ColorIndexed256):
                if palette.XTERM.get(code(c)) != c.hex_value:
                    return f'color {n} is {c!r}, terminal code {code(c)}'
                seen['256'][code(c)] = n
            elif isinstance(c, C.ColorRGB):
                if list(c.to_sgr().params) != [38, 2, *palette.rgb(c.hex_value)]:
                    return f'color {n} is {c!r}, sequence {c.to_sgr()!r}'
            else:
                continue
            if C.Colors.resolve(n.lower()) is not c:
                return f'color {n} is resolved to {C.Colors.resolve(n.lower())!r}'
    missing = set(palette.ANSI16.values()) - set(seen['16']), set(palette.XTERM) - set(seen['256'])
    if any(missing):
        return f'colors without a name: {missing}'
    return None


def approximate(v, n, pal):
    C = P()
    T = getattr(C, pal)
    table = list(palette.ANSI16) if pal.endswith('16') else list(set(palette.XTERM.values()))
    with sut.guard():
        names = finders(T)
        if not names:
            return None
        got = getattr(T, names[0]).approximate(v, n)
    d = [palette.dist(v, c.hex_value) for c in got]
    want = sorted(palette.dist(v, h) for h in table)[:n]
    if d != want:
        return f'{n} nearest to {v:06x} in {pal} are at distances {d}, not {want}'
    if len({c.hex_value for c in got}) != len(got):
        return f'{n} nearest to {v:06x} in {pal} repeat: {got}'
    return None


# additions: (hex, code); two of them of the same color, queries around them
ADD = [(0x000000, 1), (0x0000ff, 2), (0x0000ff, 3), (0x100010, 4)]
ASK = [0x000000, 0x080008, 0x0000f0, 0x600060]
OPS = [('add', i) for i in range(4)] + [('ask', i) for i in range(4)]


def history(ops, pal, acc=None):
    C = P()
    T = isolated(C.ColorIndexed16 if pal == '16' else C.ColorIndexed256)
    if T is None:
        return None
    make = (lambda h, k: T(h, 30 + k, 40 + k)) if pal == '16' else (lambda h, k: T(h, 100 + k))
    table = {}
    asked = ()
    logging.disable(logging.CRITICAL)
    try:
        with sut.guard():
            for n, (op, i) in enumerate(ops):
                before = tuple(table), asked
                if op == 'add':
                    h, k = ADD[i]
                    made = make(h, k)
                    if made.hex_value != h:
                        return f'{ops[:n + 1]}: color made is {made!r}'
                    if h not in table:
                        table[h] = made
                        asked = ()
                else:
                    v = ASK[i]
                    got = T.find_closest(v)
                    if not table:
                        if got.hex_value is not None or str(got.to_sgr()):
                            return f'{ops[:n + 1]}: nearest in an empty palette is {got!r}'
                    else:
                        best = min(palette.dist(v, h) for h in table)
                        good = [c for h, c in table.items() if palette.dist(v, h) == best]
                        if not any(got is c for c in good):
                            return f'{ops[:n + 1]}: nearest to {v:06x} is {got!r}, has to be one of {good}'
                        asked += (v,)
                if acc is not None:
                    acc.state((pal, tuple(table), asked))
                    acc.transition(pal, before, op, i)
                    acc.outcome((tuple(table), op, i))
    finally:
        logging.disable(logging.NOTSET)
    return None


QUERIES = [0x000000, 0x800000, 0xff0000, 0x5f0000, 0x7f0001, 0xc00001, 0x0000af, 0xfffffe]


def queries(order):
    """orders of queries of the real palettes, from an empty cache"""
    C = P()
    for t in (C.ColorIndexed16, C.ColorIndexed256):
        for n in finders(t):
            cache = getattr(getattr(t, n), '_approximation_cache', None)
            if isinstance(cache, dict):
                cache.clear()
    for i in order:
        w = nearest(QUERIES[i])
        if w:
            return f'after queries {[f"{QUERIES[k]:06x}" for k in order]}: {w}'
    return None


@functools.lru_cache(None)
def members():
    out = set()
    table = sorted({*palette.ANSI16, *palette.XTERM.values()})

    def around(center, near):
        for d in itertools.product(near, repeat=3):
            ch = [c + x for c, x in zip(center, d)]
            if all(0 <= c <= 255 for c in ch):
                out.add(ch[0] << 16 | ch[1] << 8 | ch[2])
    for h in table:
        around(palette.rgb(h), range(-3, 4))
    for g, h in itertools.combinations(table, 2):          # where the nearest one changes
        if palette.dist(g, h) <= 100 ** 2:
            around([(a + b) // 2 for a, b in zip(palette.rgb(g), palette.rgb(h))], (-1, 0, 1))
    return sorted(out)


def jobs(tier):
    q = tier == 'quick'
    step = 5 if q else 2
    out = [('registered',), ('approximate', q)]
    rs = sorted({*range(0, 256, step), 255})
    out += [('grid', r, step) for r in rs]
    out += [('members', a, b) for a, b in corpus.slices(len(members()), 64)]
    for k in range(1, 6 if q else 7):
        out += [('hist', k, a, b) for a, b in corpus.slices(8 ** k, 16 if k > 4 else 1)]
    out += [('orders', k, 3 if q else 4) for k in range(8)]
    return out


def run(job, acc):
    def bad(case, m):
        if m:
            acc.fail(case, m)
        return acc.full

    kind = job[0]
    if kind == 'registered':
        acc.traces += 1
        bad({'registered': True}, registered())
    elif kind == 'approximate':
        ch = (0, 0x47, 0x80, 0xc0, 0xff)
        for r, g, b in itertools.product(ch, ch, ch):
            for n in (1, 2, 3, 16, 300):
                for pal in ('ColorIndexed16', 'ColorIndexed256'):
                    acc.traces += 1
                    case = [r << 16 | g << 8 | b, n, pal]
                    if bad({'approximate': case}, approximate(*case)):
                        return
    elif kind in ('grid', 'members'):
        if kind == 'grid':
            s = sorted({*range(0, 256, job[2]), 255})
            vals = [job[1] << 16 | g << 8 | b for g in s for b in s]
        else:
            vals = members()[job[1]:job[2]]
        for v in vals:
            acc.traces += 1
            acc.state(v)
            if bad({'nearest': v}, nearest(v)):
                return
        acc.outcome((kind, job[1]))
        acc.sample({'nearest': v})
    elif kind == 'orders':
        for rest in itertools.product(range(8), repeat=job[2] - 1):
            acc.traces += 1
            o = [job[1], *rest]
            acc.state(tuple(o))
            acc.transition(tuple(o))
            if bad({'orders': o}, queries(o)):
                return
    else:
        for i in range(job[2], job[3]):
            w = []
            for _ in range(job[1]):
                i, r = divmod(i, 8)
                w.append(OPS[r])
            for pal in ('16', '256'):
                acc.traces += 1
                if bad({'history': w, 'palette': pal}, history(w, pal, acc)):
                    return
        acc.sample({'history': w, 'palette': '16'})


def check(case):
    if 'registered' in case:
        return registered()
    if 'approximate' in case:
        return approximate(*case['approximate'])
    if 'nearest' in case:
        return nearest(case['nearest'])
    if 'orders' in case:
        return queries(case['orders'])
    return history([tuple(o) for o in case['history']], case['palette'])
