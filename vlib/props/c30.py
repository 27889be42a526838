"""C30: styled text composes like text; styles inherit field by field."""
import functools
import itertools
import types

from .. import corpus, sut, term

ID = 'C30'
TECHNIQUE = ('exhaustive enumeration of operation histories over two live texts against a model of lists of (string, style), checked after '
             'each operation; exhaustive enumeration of fields of parent and child styles')
LEVEL_NOTE = ('all histories of <= 3 (thorough: 4) of 26 operations on two texts from 4 starts; all pairs of values of every field and pair of '
              'fields of parent and child, all chains of three styles per field; all fragments x 9 format specifications; every operation '
              'up to 257 times; fragments of all lengths and characters')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'contents of two texts; transitions are operations'
ASSUMPTIONS = ['append(), prepend() and += modify the text, + does not']


@functools.lru_cache()
def P():
    import pytermor
    from pytermor import color, render
    return types.SimpleNamespace(**{n: getattr(m, n) for m in (pytermor, color, render) for n in dir(m) if n[0] != '_'})


# styles: attribute states on a terminal
STYLES = {None: term.DEFAULT, 'none': term.DEFAULT}
STYLES['red'] = term.apply_params(term.DEFAULT, [31])
STYLES['name'] = term.apply_params(term.DEFAULT, [32])
STYLES['mix'] = term.apply_params(term.DEFAULT, [1, 4, 48, 2, 1, 2, 3])


def style(key):
    Q = P()
    return {None: None, 'none': Q.NOOP_STYLE, 'red': Q.Style(fg=Q.Colors.RED), 'name': 'green',
            'mix': Q.Style(bold=True, underlined=True, bg=0x010203)}[key]


FRAGMENTS = [[('a', 'red')], [('bc', None)], [('', 'mix')], [('d\ne', 'mix')], [('f', 'name')], [('g', 'none')],
             [('h', 'red'), ('', None), ('i', None), ('j', 'mix')]]


def text(model):
    Q = P()
    t = Q.Text(model[0][0], style(model[0][1]))
    for s, k in model[1:]:
        t.append(Q.Text(s, style(k)))
    return t


def cells(model):
    return [(c, STYLES[k]) for s, k in model for c in s if c != '\n']


def wrong(t, model, what):
    Q = P()
    plain = ''.join(s for s, _ in model)
    if t.raw() != plain or len(t) != len(plain):
        return f'{what}: text is {t.raw()!r} of {len(t)}, has to be {plain!r}'
    Q.SgrRenderer.set_up(force_styles=True)
    try:
        out = t.render()
        if str(t) != out:
            return f'{what}: str() is {str(t)!r}, rendered as {out!r}'
        if term.SGR_RE.sub('', out) != plain:
            return f'{what}: {plain!r} is rendered as {out!r}'
        scr = term.parse(out)
        got = [c for r in scr.rows for c in r.cells]
        if got != cells(model) or scr.final != term.DEFAULT:
            return f'{what}: {model} is rendered as {out!r}'
        Q.SgrRenderer.set_up(force_styles=None)
        if t.render() != plain:
            return f'{what}: {plain!r} is rendered as {t.render()!r} without styles'
        Q.RendererManager.set_up(Q.NoOpRenderer)
        if t.render() != plain:
            return f'{what}: {plain!r} is rendered as {t.render()!r} by the renderer of no styles'
        Q.RendererManager.set_up(Q.DebugRenderer)
        back = t.render().replace('|ǝ', '\x1b[')
        for m in ('39', '49', '22', '24', '31', '32', '48;2;1;2;3'):
            back = back.replace(m + '|', m + 'm')
        if term.SGR_RE.sub('', back) != plain:
            return f'{what}: {plain!r} is rendered as {t.render()!r} by the default renderer that was set'
    finally:
        Q.RendererManager.set_up()
        Q.SgrRenderer.set_up()
    return None


OPS = [(o, i, x) for o in ('append', 'prepend', 'iadd', 'add', 'radd') for i in (0, 1) for x in ('other', 'str')] + \
      [('append', 0, 'self'), ('prepend', 0, 'self'), ('iadd', 0, 'self'), ('add', 0, 'self'), ('sum', 0, 'other'), ('sum', 1, 'other')]
STARTS = [(0, 1), (2, 3), (6, 4), (1, 5)]


def history(start, ops, acc=None):
    Q = P()
    model = [list(FRAGMENTS[k]) for k in start]
    with sut.guard():
        real = [text(m) for m in model]
        for n, (op, i, x) in enumerate(ops):
            what = f'texts {[FRAGMENTS[k] for k in start]}, operations {ops[:n + 1]}'
            before = tuple(map(tuple, model))
            j = i if x == 'self' else 1 - i
            arg, marg = ('s\n', [('s\n', None)]) if x == 'str' else (real[j], list(model[j]))
            if op == 'append':
                r = real[i].append(arg)
                model[i] = model[i] + marg
            elif op == 'prepend':
                r = real[i].prepend(arg)
                model[i] = marg + model[i]
            elif op == 'iadd':
                keep = real[i]
                real[i] += arg
                model[i] = model[i] + marg
                if real[i] is not keep:
                    return f'{what}: += makes another object'
            elif op == 'add':
                real[i] = real[i] + arg
                model[i] = model[i] + marg
            elif op == 'radd':
                real[i] = arg + real[i]
                model[i] = marg + model[i]
            else:                       # both operands stay as they were
                s = real[i] + real[j] + 'end'
                w = wrong(s, model[i] + model[j] + [('end', None)], what + ', sum')
                if w:
                    return w
                s.append('more')
            for t, m in zip(real, model):
                w = wrong(t, m, what)
                if w:
                    return w
            if acc is not None:
                after = tuple(map(tuple, model))
                acc.state(after)
                acc.transition(before, op, i, x)
    return None


LENGTHS = [*range(5, 34), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]


def many(start, op, n):
    """one operation many times: checked at the end"""
    Q = P()
    op, i, x = op
    model = [list(FRAGMENTS[k]) for k in start]
    with sut.guard():
        real = [text(m) for m in model]
        marg = [('s', None)] if x == 'str' else list(model[1 - i])
        for _ in range(n):
            arg = 's' if x == 'str' else real[1 - i]
            if op == 'append':
                real[i].append(arg)
            elif op == 'prepend':
                real[i].prepend(arg)
            elif op == 'iadd':
                real[i] += arg
            elif op == 'add':
                real[i] = real[i] + arg
            else:
                real[i] = arg + real[i]
        model[i] = model[i] + marg * n if op in ('append', 'iadd', 'add') else marg * n + model[i]
        for t, m in zip(real, model):
            w = wrong(t, m, f'texts {[FRAGMENTS[k] for k in start]}, {op} {x} {n} times')
            if w:
                return w[:500]
    return None


CHARS = [[('x' * n, k)] for n in (*range(1, 34), 64, 65, 80, 100, 128, 255, 256, 257, 1000, 1025, 4097) for k in ('red', 'mix', None)] + \
        [[(chr(c), 'red')] for c in range(256) if c not in (10, 27)] + [[(c, 'mix')] for c in ('ж', '漢', '\U0001f600', '%s', '{}', '{0}', '\\1', ' ', '  ')]


def contents(a, b):
    with sut.guard():
        for m in CHARS[a:b]:
            w = wrong(text(m), m, f'text of {m!r:.60}')
            if w:
                return w[:500]
    return None


def refused():
    Q = P()
    with sut.guard():
        for bad in (None, 5, b'x', ['x']):
            for what, f in (('append', lambda t: t.append(bad)), ('prepend', lambda t: t.prepend(bad)), ('+', lambda t: t + bad),
                            ('right +', lambda t: bad + t)):
                t = text(FRAGMENTS[6])
                try:
                    r = f(t)
                except TypeError:
                    w = wrong(t, FRAGMENTS[6], f'{what} of {bad!r} that was refused')
                    if w:
                        return w
                    continue
                return f'{what} of {bad!r} is accepted: {r!r}'
        for v, s in ((None, ''), (0, '0'), (1.5, '1.5'), ('', ''), (False, 'False')):
            for k in STYLES:
                w = wrong(Q.Text(v, style(k)), [(s, k)], f'text of {v!r}')
                if w:
                    return w
    return None


SPECS = ['', 's', '3', '>4', '<4s', '^5', '*^7', '.1', '.1s']


def formatted(k, spec):
    Q = P()
    f = FRAGMENTS[k]
    with sut.guard():
        t = text(f)
        Q.SgrRenderer.set_up(force_styles=True)
        try:
            try:
                out = format(t, spec)
            except RuntimeError as e:
                return None if len(f) > 1 else f'format of {f} with {spec!r} raises {e!r}'
            if len(f) > 1:
                return f'format of a text of many fragments gives {out!r}'
            want = format(f[0][0], spec)
            scr = term.parse(out)
            if term.SGR_RE.sub('', out) != want or [c for r in scr.rows for c in r.cells] != cells([(want, f[0][1])]):
                return f'format of {f} with {spec!r} is {out!r}'
        finally:
            Q.SgrRenderer.set_up()
        return wrong(t, f, f'{f} after formatting with {spec!r}')


FIELDS = ['blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined', 'fg', 'bg', 'class_name']


def menu(field):
    """values given -> value that the style has; the first is 'not set'"""
    if field in ('fg', 'bg'):
        return ['unset', 'noop', 'red', 'zero', 'number']
    if field == 'class_name':
        return ['unset', 'one', 'two']
    return ['unset', False, True]


def given(field, v):
    Q = P()
    if v == 'unset':
        return None
    if field in ('fg', 'bg'):
        return {'noop': Q.NOOP_COLOR, 'red': 'red', 'zero': 0, 'number': 0x102030}[v]
    return v


def got(st, field):
    v = getattr(st, field)
    if field in ('fg', 'bg'):
        Q = P()
        if v is Q.NOOP_COLOR:
            return 'noop'
        return 'red' if v is Q.Colors.RED else {0: 'zero', 0x102030: 'number'}.get(v.hex_value, v)
    return 'unset' if v is None else v


def inherited(chain):
    """chain: dicts of given fields, from the ancestor on"""
    Q = P()
    styles, want = [], {}
    with sut.guard():
        for n, c in enumerate(chain):
            kw = {f: given(f, v) for f, v in c.items()}
            styles.append(Q.Style(styles[-1], **kw) if n else Q.Style(**kw))
            want = {f: (c.get(f, 'unset') if c.get(f, 'unset') != 'unset' else want.get(f, 'unset')) for f in FIELDS}
            want = {f: 'noop' if f in ('fg', 'bg') and v == 'unset' else v for f, v in want.items()}
            if n == 0:
                first = want
            have = {f: got(styles[-1], f) for f in FIELDS}
            if have != want:
                d = {f: (have[f], want[f]) for f in FIELDS if have[f] != want[f]}
                return f'styles {chain[:n + 1]}: the last has (got, wanted) {d}'
        have = {f: got(styles[0], f) for f in FIELDS}
        if have != first:
            return f'styles {chain}: the first has become {have}'
        # later changes of either do not show in the other
        for a, b in ((0, -1), (-1, 0)):
            if len(styles) < 2:
                break
            keep = {f: got(styles[b], f) for f in FIELDS}
            for f in FIELDS:
                setattr(styles[a], f, 'yellow' if f in ('fg', 'bg') else 'changed' if f == 'class_name' else not getattr(styles[a], f))
            if {f: got(styles[b], f) for f in FIELDS} != keep:
                return f'styles {chain}: a change of one shows in another'
            if styles[a].fg is not Q.Colors.YELLOW or styles[a].bg is not Q.Colors.YELLOW:
                return f'color that was set is {styles[a].fg!r}, {styles[a].bg!r}'
    return None


def jobs(tier):
    q = tier == 'quick'
    out = [('refused',), ('format',)] + [('contents', a, a + 50) for a in range(0, len(CHARS), 50)]
    out += [('many', s, o) for s in STARTS for o in OPS if o[2] != 'self' and o[0] != 'sum']
    for s in STARTS:
        for k in range(1, 4 if q else 5):
            out += [('hist', s, k, a, b) for a, b in corpus.slices(len(OPS) ** k, {3: 16, 4: 128}.get(k, 1))]
    out += [('fields', f) for f in FIELDS] + [('chains', f) for f in FIELDS]
    return out


def run(job, acc):
    def bad(case, m):
        acc.traces += 1
        if m:
            acc.fail(case, m)
        return acc.full

    kind = job[0]
    if kind == 'refused':
        bad({'refused': True}, refused())
    elif kind == 'contents':
        acc.traces += 49
        bad({'contents': job[1:]}, contents(*job[1:]))
    elif kind == 'many':
        for n in LENGTHS:
            if bad({'start': job[1], 'op': job[2], 'times': n}, many(*job[1:], n)):
                return
    elif kind == 'format':
        for k, spec in itertools.product(range(len(FRAGMENTS)), SPECS):
            if bad({'format': [k, spec]}, formatted(k, spec)):
                return
    elif kind == 'hist':
        for i in range(job[3], job[4]):
            w = []
            for _ in range(job[2]):
                i, r = divmod(i, len(OPS))
                w.append(OPS[r])
            if bad({'start': job[1], 'ops': w}, history(job[1], w, acc)):
                return
        acc.outcome(tuple(w))
        acc.sample({'start': job[1], 'ops': w})
    elif kind == 'fields':
        f = job[1]
        for g in FIELDS:
            for pf, pg, cf, cg in itertools.product(menu(f), menu(g), menu(f), menu(g)):
                case = [{f: pf, g: pg}, {f: cf, g: cg}]
                acc.state((f, g, pf, pg, cf, cg))
                acc.transition(f, g, pf, pg, cf, cg)
                if bad({'styles': case}, inherited(case)):
                    return
    else:
        f = job[1]
        g = FIELDS[FIELDS.index(f) - 1]
        for a, b, c, d in itertools.product(menu(f), menu(f), menu(f), menu(g)):
            case = [{f: a, g: d}, {f: b}, {f: c}]
            acc.outcome((f, a, b, c))
            if bad({'styles': case}, inherited(case)):
                return


def check(case):
    if 'refused' in case:
        return refused()
    if 'format' in case:
        return formatted(*case['format'])
    if 'contents' in case:
        return contents(*case['contents'])
    if 'times' in case:
        return many(tuple(case['start']), tuple(case['op']), case['times'])
    if 'styles' in case:
        return inherited(case['styles'])
    return history(tuple(case['start']), [tuple(o) for o in case['ops']])
