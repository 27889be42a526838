"""C21: sequences are built, added, compared and printed by their parameters."""
import itertools

from .. import corpus, sut

ID = 'C21'
TECHNIQUE = ('exhaustive enumeration of argument lists and of operation histories over a pool of live sequences, '
             'compared with a model of parameter lists')
LEVEL_NOTE = ('constructor argument lists of <= 3 (thorough: 4) out of 34 arguments (names in any case, numbers, sequences, '
              'invalid ones); all operation histories of length <= 4 (thorough: 5; the longest over fewer operations) over a pool of sequences; all triples for '
              'associativity; all names of the registries; all boundaries of extended colors; argument lists of up to 1000; sequences of up to 2000 parameters; numbers -500..3000')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'contents of a pool of sequences (lists of parameters); transitions are operations'
ASSUMPTIONS = ['code numbers of attributes are those of ECMA-48 / xterm',
               'parameters obtained through .params are not modified by the caller']

# own table (ECMA-48 8.3.117 and aixterm bright colors)
EFFECTS = {'BOLD': 1, 'DIM': 2, 'ITALIC': 3, 'UNDERLINED': 4, 'BLINK_SLOW': 5, 'BLINK_FAST': 6, 'INVERSED': 7, 'HIDDEN': 8,
           'CROSSLINED': 9, 'DOUBLE_UNDERLINED': 21, 'OVERLINED': 53}
OFF = {'BOLD_DIM_OFF': 22, 'ITALIC_OFF': 23, 'UNDERLINED_OFF': 24, 'BLINK_OFF': 25, 'INVERSED_OFF': 27, 'HIDDEN_OFF': 28,
       'CROSSLINED_OFF': 29, 'COLOR_OFF': 39, 'BG_COLOR_OFF': 49, 'OVERLINED_OFF': 55}
COLORS = {}
for i, n in enumerate(['BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'WHITE']):
    COLORS[n] = 30 + i
    COLORS['BG_' + n] = 40 + i
    COLORS['GRAY' if n == 'BLACK' else 'HI_' + n] = 90 + i
    COLORS['BG_GRAY' if n == 'BLACK' else 'BG_HI_' + n] = 100 + i
TABLE = {'RESET': 0, **EFFECTS, **OFF, **COLORS}
PAIR = {'BOLD': 22, 'DIM': 22, 'ITALIC': 23, 'UNDERLINED': 24, 'DOUBLE_UNDERLINED': 24, 'BLINK_SLOW': 25, 'BLINK_FAST': 25,
        'INVERSED': 27, 'HIDDEN': 28, 'CROSSLINED': 29, 'OVERLINED': 55}


def P():
    import pytermor
    return pytermor


# arguments: (how, value) -> parameters or the exceptions that may refuse them
REFUSED = (TypeError, ValueError, KeyError, AttributeError)
ARGS = [('s', 'red'), ('s', 'RED'), ('s', 'Bold'), ('s', 'bg_hi_yellow'), ('s', 'reset'), ('s', 'Color_Extended'),
        ('s', 'bold_dim_off'), ('s', 'double_underlined'),
        ('i', 0), ('i', 1), ('i', 31), ('i', 38), ('i', 5), ('i', 255), ('i', 256), ('i', -1), ('i', 10 ** 6), ('i', 2 ** 40),
        ('q', ()), ('q', (0,)), ('q', (1, 31)), ('q', (38, 5, 1)), ('q', (0, 0)),
        ('x', 'no such color'), ('x', ''), ('x', 'LIST_COLORS'), ('x', 'list_all_colors'), ('x', None), ('x', 1.5),
        ('x', b'red'), ('x', (1,)), ('x', [31]), ('x', {}), ('x', 'span')]


def arg(a):
    how, v = a
    if how == 'q':
        return P().SequenceSGR(*v)
    if v == 'span':
        return P().Span(31)
    return v


def params(a):
    how, v = a
    if how == 's':
        return [TABLE.get(v.upper(), 38)]
    if how == 'i':
        return [max(0, v)]
    if how == 'q':
        return list(v)
    return None


def form(p):
    """standard form of a sequence; a sole zero may be left out"""
    if not p:
        return ['']
    out = ['\x1b[' + ';'.join(map(str, p)) + 'm']
    if p == [0]:
        out.append('\x1b[m')
    return out


def wrong(seq, p, what):
    if type(seq) is not P().SequenceSGR:
        return f'{what} is {type(seq).__name__}'
    if list(seq.params) != p:
        return f'{what}: parameters {seq.params}, not {p}'
    a = seq.assemble()
    if a not in form(p):
        return f'{what}: assembled to {a!r}, parameters are {p}'
    if str(seq) != a or f'{seq}' != a or len(seq) != 0 or bool(seq):
        return f'{what}: str {str(seq)!r}, length {len(seq)}; assembled to {a!r}'
    if seq.is_color_extended != (len(p) >= 3 and p[0] in (38, 48)):
        return f'{what}: extended color: {seq.is_color_extended}'
    if repr(seq) != 'SGR[' + (';'.join(map(str, p)) or '~') + ']':
        return f'{what}: shown as {seq!r}'
    return None


def constructed(args):
    ps = [params(a) for a in args]
    real = [arg(a) for a in args]
    with sut.guard():
        try:
            seq = P().SequenceSGR(*real)
        except REFUSED as e:
            if None in ps:
                return None
            return f'SequenceSGR({args}) raises {e!r}'
        if None in ps:
            return f'SequenceSGR({args}) accepted: {seq!r}'
        want = [x for p in ps for x in p]
        w = wrong(seq, want, f'SequenceSGR({args})')
        if w:
            return w
        twin = P().SequenceSGR(*want)
        if not seq == twin or seq != twin or hash(seq) != hash(twin) or {seq: 1}.get(twin) != 1:
            return f'SequenceSGR({args}) and SequenceSGR({want}) differ by equality or hash'
        for a, p in zip(real, ps):     # arguments were not changed
            if not isinstance(a, (str, int)):
                w = wrong(a, p, f'argument {p} after SequenceSGR({args})')
                if w:
                    return w
    return None


POOL = [(), (0,), (1,), (31,), (1, 31), (31, 1), (38, 5, 1), (0, 0), (22, 39), (4,)]
NOT_SEQ = [None, 1, 'red', '\x1b[31m', [31], 1.0]


def algebra(x, y, z):
    S = P().SequenceSGR
    with sut.guard():
        a, b, c = S(*x), S(*y), S(*z)
        for what, r in (('(a + b) + c', (a + b) + c), ('a + (b + c)', a + (b + c)), ('SGR(a, b, c)', S(a, b, c))):
            w = wrong(r, [*x, *y, *z], f'{what} of {x}, {y}, {z}')
            if w:
                return w
        for s, p in ((a, x), (b, y), (c, z)):
            w = wrong(s, list(p), f'operand {p} after additions of {x}, {y}, {z}')
            if w:
                return w
        for u, v in ((x, y), (y, z)):
            eq = S(*u) == S(*v), S(*u) != S(*v), hash(S(*u)) == hash(S(*v))
            same = u == v
            if eq[0] != same or eq[1] == same or (same and not eq[2]):
                return f'SGR{u} and SGR{v}: equal, unequal, same hash: {eq}'
        for n in NOT_SEQ:
            if a == n or not a != n:
                return f'SGR{x} is equal to {n!r}'
            for f in (lambda: a + n, lambda: n + a):
                try:
                    r = f()
                except (TypeError, AttributeError):
                    continue
                return f'sum of SGR{x} and {n!r} is {r!r}'
    return None


# operation histories over a pool of 3 variables holding sequences (two are registry constants)
OPS = [('add', i, j, k) for i in range(3) for j in range(3) for k in (0, 1, 2)] + \
      [('iadd', i, j) for i in range(3) for j in range(3)] + \
      [('ctor', i, j) for i in range(2) for j in range(2)] + [('span', i) for i in range(3)]


def history(ops, acc=None):
    Q = P()
    S = Q.SequenceSGR
    pristine = {n: getattr(Q.Seqs, n) for n in ('RED', 'BOLD', 'RESET')}
    model = [[31], [1], []]
    with sut.guard():
        real = [pristine['RED'], pristine['BOLD'], Q.NOOP_SEQ]
        spans = []
        try:
            for op in ops:
                before = tuple(map(tuple, model))
                if op[0] == 'add':
                    _, i, j, k = op
                    real[k] = real[i] + real[j]
                    model[k] = model[i] + model[j]
                elif op[0] == 'iadd':
                    _, i, j = op
                    real[i] += real[j]
                    model[i] = model[i] + model[j]
                elif op[0] == 'ctor':
                    _, i, j = op
                    real[2] = S(real[i], 4, real[j])
                    model[2] = model[i] + [4] + model[j]
                else:
                    s = Q.Span(real[op[1]])
                    spans.append((s, list(model[op[1]]), s.closing_str))
                if acc is not None:
                    acc.state(tuple(map(tuple, model)))
                    acc.transition(before, op, tuple(map(tuple, model)))
                for n, (r, m) in enumerate(zip(real, model)):
                    w = wrong(r, m, f'after {ops}: variable {n}')
                    if w:
                        return w
                for s, m, closing in spans:
                    if s.opening_str not in form(m) or s.closing_str != closing:
                        return f'after {ops}: span of {m} has become {s!r}'
            for n, s in pristine.items():
                if list(s.params) != [TABLE[n]] or getattr(Q.Seqs, n) is not s:
                    return f'after {ops}: constant {n} is {getattr(Q.Seqs, n)!r}'
            if list(Q.NOOP_SEQ.params):
                return f'after {ops}: NOOP_SEQ is {Q.NOOP_SEQ!r}'
        finally:
            for n, s in pristine.items():       # for the histories that follow
                s.params[:] = [TABLE[n]]
            Q.NOOP_SEQ.params[:] = []
    return None


VALID = [a for a in ARGS if a[0] != 'x']
LENGTHS = [*range(4, 34), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000]


def long_lists(k):
    turned = VALID[k:] + VALID[:k]
    for n in LENGTHS:
        yield [turned[0]] * n
        yield [turned[0]] * n + [turned[1]]
        yield (turned * (n // len(turned) + 1))[:n]


def doubled(p, n):
    """sums and additions of long sequences"""
    S = P().SequenceSGR
    with sut.guard():
        a, b, c, model = S(*p), S(*p), S(), list(p)
        for i in range(n):
            a, b = a + a, S(b, b)
            c += S(*p)
            model += model
            w = wrong(a, model, f'SGR{p} added to itself {i + 1} times') or wrong(b, model, f'SGR of two SGR{p}.. {i + 1} times') or \
                wrong(c, list(p) * (i + 1), f'+= of SGR{p} {i + 1} times')
            if w:
                return w[:400]
            if not a == b or hash(a) != hash(b) or (model and a == S(*model[:-1])) or a == S(*model[:-1], 77):
                return f'equality of sequences of {len(model)} parameters'
    return None


def numbers(a, b):
    """every number is itself"""
    S = P().SequenceSGR
    with sut.guard():
        for n in range(a, b):
            one, two = S(n), S(n, n + 1)
            w = wrong(one, [max(n, 0)], f'SGR({n})') or wrong(two, [max(n, 0), max(n + 1, 0)], f'SGR({n}, {n + 1})') or \
                wrong(one + two, [max(n, 0), max(n, 0), max(n + 1, 0)], f'sum of SGR({n}) and SGR({n}, {n + 1})')
            if w:
                return w
    return None


def registries():
    Q = P()
    with sut.guard():
        if Q.NOOP_SEQ.params or str(Q.NOOP_SEQ):
            return f'NOOP_SEQ is {Q.NOOP_SEQ!r}'
        for n, v in TABLE.items():
            for name in (n, n.lower(), n.title()):
                got = Q.IntCodes.resolve(name), Q.Seqs.resolve(name)
                if got[0] != v:
                    return f'code of {name} is {got[0]}'
                w = wrong(got[1], [v], f'sequence {name}')
                if w:
                    return w
                w = constructed([('s', name)])
                if w:
                    return w
            if n in OFF or n == 'RESET':
                continue
            s = Q.Spans.resolve(n.lower())
            close = PAIR.get(n) or (49 if n.startswith('BG_') else 39)
            w = wrong(s.opening_seq, [v], f'opening of {n}') or wrong(s.closing_seq, [close], f'closing of {n}')
            if w:
                return w
        for reg in (Q.IntCodes, Q.Seqs, Q.Spans):
            for bad in ('', 'nothing', 'red ', 'bg', '31'):
                try:
                    r = reg.resolve(bad)
                except KeyError:
                    continue
                return f'{reg.__name__} resolves {bad!r} to {r!r}'
    return None


CH = [-256, -2, -1, 0, 1, 2, 127, 128, 254, 255, 256, 257, 1000]


def extended(vals, bg):
    S = P().SequenceSGR
    lead = [48 if bg else 38]
    make = (lambda: S.init_color_indexed(*vals, bg)) if len(vals) == 1 else (lambda: S.init_color_rgb(*vals, bg))
    ok = all(0 <= v <= 255 for v in vals)
    with sut.guard():
        try:
            r = make()
        except ValueError as e:
            return None if not ok else f'extended color {vals} is refused: {e}'
        if not ok:
            return f'extended color {vals} is accepted: {r!r}'
        return wrong(r, lead + ([5] if len(vals) == 1 else [2]) + list(vals), f'extended color {vals}')


def jobs(tier):
    q = tier == 'quick'
    out = [('fixed',)] + [('long', k) for k in range(len(VALID))] + [('doubled', x) for x in POOL]
    out += [('numbers', a, a + 500) for a in (*range(-500, 3000, 500), 2 ** 15 - 250, 2 ** 16 - 250, 2 ** 31 - 250, 2 ** 32 - 250, 2 ** 63 - 250, 10 ** 30)]
    for k in range(4 if q else 5):
        for a, b in corpus.slices(len(ARGS) ** k, 8 if k > 2 else 1):
            out.append(('args', k, a, b))
    for x in POOL:
        out.append(('algebra', x))
    for k in range(1, 5 if q else 6):
        for a, b in corpus.slices(len(OPS) ** k, 1 if k < 3 else 16 if k < 5 else 64):
            out.append(('hist', k, a, b, 'five' if k == 5 else 'four' if k == 4 and q else 'all'))
    return out


ALPHABETS = {'all': OPS, 'four': [o for o in OPS if o[0] != 'add' or o[3] == 2 or o[1] == o[3]],
             'five': [o for o in OPS if o[0] != 'add']}


def run(job, acc):
    def bad(case, m):
        if m:
            acc.fail(case, m)
        return acc.full

    kind = job[0]
    if kind == 'fixed':
        acc.traces += len(TABLE) * 3
        bad({'registries': True}, registries())
        for vals in [(v,) for v in range(-3, 300)] + list(itertools.product(CH, repeat=3)):
            for bg in (False, True):
                acc.traces += 1
                if bad({'extended': list(vals), 'bg': bg}, extended(vals, bg)):
                    return
    elif kind == 'long':
        for w in long_lists(job[1]):
            acc.traces += 1
            if bad({'args': [ARGS.index(a) for a in w]}, constructed(w)):
                return
    elif kind == 'doubled':
        acc.traces += 10
        bad({'doubled': job[1]}, doubled(job[1], 10))
    elif kind == 'numbers':
        acc.traces += job[2] - job[1]
        bad({'numbers': job[1:]}, numbers(*job[1:]))
    elif kind == 'args':
        for i in range(job[2], job[3]):
            w = []
            for _ in range(job[1]):
                i, r = divmod(i, len(ARGS))
                w.append(ARGS[r])
            if sum(a[0] == 'x' for a in w) > 1:
                continue
            acc.traces += 1
            acc.outcome(tuple(tuple(params(a) or 'x') for a in w))
            if bad({'args': [ARGS.index(a) for a in w]}, constructed(w)):
                return
    elif kind == 'algebra':
        for y, z in itertools.product(POOL, POOL):
            acc.traces += 1
            if bad({'algebra': [job[1], y, z]}, algebra(job[1], y, z)):
                return
    else:
        _, k, a, b, name = job
        alphabet = ALPHABETS[name]
        a, b = (x * len(alphabet) ** k // len(OPS) ** k for x in (a, b))
        for i in range(a, b):
            w = []
            for _ in range(k):
                i, r = divmod(i, len(alphabet))
                w.append(alphabet[r])
            acc.traces += 1
            if bad({'history': w}, history(w, acc)):
                return
        acc.sample({'history': w})


def check(case):
    if 'registries' in case:
        return registries()
    if 'extended' in case:
        return extended(tuple(case['extended']), case['bg'])
    if 'doubled' in case:
        return doubled(tuple(case['doubled']), 10)
    if 'numbers' in case:
        return numbers(*case['numbers'])
    if 'args' in case:
        return constructed([ARGS[i] for i in case['args']])
    if 'algebra' in case:
        return algebra(*map(tuple, case['algebra']))
    return history([tuple(o) for o in case['history']])
