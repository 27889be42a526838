"""C22: renderers keep the text and express exactly the style, each in its own notation."""
import functools
import itertools
import re
import sys

from .. import corpus, palette, sut, term

ID = 'C22'
TECHNIQUE = ('exhaustive enumeration of styles x renderers x output modes x texts; the output of every renderer is interpreted '
             'by a model of its target (terminal, tmux style, HTML span) and compared with the style')
LEVEL_NOTE = ('all 2^9 combinations of effects x a menu of foregrounds x a menu of backgrounds (quick: 8 x 8, thorough: 20 x 20) x '
              'all renderers and color modes; all colors of the palettes; 10 texts with line breaks; '
              'all settings of forced styles with and without a terminal; flips and automatic foregrounds')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'attribute state of the output device; transitions are opening and closing parts of the rendered text'
ASSUMPTIONS = ['the palette of the terminal is that of xterm; tmux styles as in its manual',
               'any of the colors at the least distance is right; both underlines at once show as either',
               'text is not expected to be escaped for the target']

EFFECTS = ['blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined']
INDEX = {'blink': term.BLINK, 'bold': term.BOLD, 'crosslined': term.CROSS, 'dim': term.DIM, 'inversed': term.INV,
         'italic': term.ITALIC, 'overlined': term.OVER}
C16 = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white', 'grey', 'hi_red', 'hi_green', 'hi_yellow',
       'hi_blue', 'hi_magenta', 'hi_cyan', 'hi_white']
C256 = {'grey_0': 16, 'navy_blue': 17, 'blue_1': 21, 'red_1': 196, 'grey_100': 231, 'grey_3': 232, 'grey_50': 244,
        'grey_93': 255, 'orange_4': 58}
TEXTS = ['x', '', 'ab\ncd', 'a\n', '\n\nb\n', 'ж世\u0301', 'a\r\nb', 'p\x0bq\x0cr\u2028s\x85t\rz', ' ', '<a&"b">']
LONG = [*range(17), 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 256, 257]
NAMES_TMUX = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']


def P():
    import types
    import pytermor
    from pytermor import color, render
    return types.SimpleNamespace(**{n: getattr(m, n) for m in (pytermor, color, render) for n in dir(m) if n[0] != '_'})


P = functools.lru_cache()(P)


# a color of the menu: None, 'noop', ('16', n), ('256', code), ('rgb', v); how it is given to the style: object or name or number
def given(c):
    Q = P()
    if c is None:
        return None
    if c == 'noop':
        return Q.NOOP_COLOR
    kind, v = c
    if kind == '16':
        return C16[v] if v & 1 else getattr(Q.Colors, C16[v].upper())
    if kind == '256':
        names = [n for n, k in C256.items() if k == v]
        return names[0] if names else Q.ColorIndexed256.find_closest(palette.XTERM[v])
    return v if v & 1 else Q.ColorRGB(v)


def value(c):
    if c in (None, 'noop'):
        return None
    kind, v = c
    if kind == '16':
        return [x for x, k in palette.ANSI16.items() if k == code16(v)][0]
    return palette.XTERM[v] if kind == '256' else v


def code16(n):
    return 30 + n if n < 8 else 82 + n


def expected(c, mode):
    """possible states of the color attribute of a terminal"""
    if c in (None, 'noop'):
        return ['']
    kind, v = c
    if kind == '16':
        return [str(code16(v))]
    if mode == '16':
        return [str(k) for k in palette.nearest16(value(c))]
    if kind == '256':
        return [f'5;{v}']
    if mode == '256':
        return [f'5;{k}' for k in palette.nearest256(v)]
    return ['2;%d;%d;%d' % palette.rgb(v)]


class Out:
    def __init__(self, tty):
        self.tty = tty

    def isatty(self):
        return self.tty

    def write(self, s):
        pass

    def flush(self):
        pass


def fits(state, fg, bg, effects, mode):
    if state[term.FG] not in expected(fg, mode) or state[term.BG] not in expected(bg, mode) or state[term.HIDDEN]:
        return False
    for e, k in INDEX.items():
        if state[k] != (e in effects):
            return False
    ul = {('underlined' in effects and 1), ('double_underlined' in effects and 2)} - {False}
    return state[term.UL] in ul if ul else not state[term.UL]


def wanted(fg, bg, effects, mode):
    return f'fg {expected(fg, mode)} bg {expected(bg, mode)} {sorted(effects)}'


def terminal(out, text, fg, bg, effects, mode):
    plain = term.SGR_RE.sub('', out)
    if plain != text:
        return f'text {text!r} has become {plain!r}'
    scr = term.parse(out)
    for st in {st for row in scr.rows for _, st in row.cells}:
        if not fits(st, fg, bg, effects, mode):
            return f'rendered as {term.show(st)}, style is {wanted(fg, bg, effects, mode)}'
    if scr.final != term.DEFAULT:
        return f'left in {term.show(scr.final)} after {text!r}'
    return None


def debug(out, text, fg, bg, effects, mode):
    back = re.sub(r'\|ǝ([0-9;]*)\|', '\x1b[\\1m', out)
    return terminal(back, text, fg, bg, effects, mode)


TMUX_ATTR = {'bold': 'bold', 'bright': 'bold', 'dim': 'dim', 'italics': 'italic', 'underscore': 'underlined',
             'double-underscore': 'double_underlined', 'blink': 'blink', 'reverse': 'inversed',
             'strikethrough': 'crosslined', 'overline': 'overlined', 'hidden': 'hidden'}


def tmux_color(v):
    m = re.fullmatch(r'colou?r(\d+)', v)
    if m:
        return '5;' + m.group(1)
    m = re.fullmatch('#([0-9a-f]{6})', v)
    if m:
        return '2;%d;%d;%d' % palette.rgb(int(m.group(1), 16))
    if v == 'default':
        return ''
    if v in NAMES_TMUX:
        return str(30 + NAMES_TMUX.index(v))
    if v.startswith('bright') and v[6:] in NAMES_TMUX:
        return str(90 + NAMES_TMUX.index(v[6:]))
    raise ValueError(v)


def tmux(out, text, fg, bg, effects, mode):
    parts = re.split(r'#\[([^\]]*)\]', out)
    if ''.join(parts[::2]) != text:
        return f'text {text!r} has become {"".join(parts[::2])!r}'
    f = b = ''
    attrs = set()
    for i, p in enumerate(parts):
        if i & 1:
            for w in re.split('[ ,]+', p.strip()):
                try:
                    if w == 'default':
                        f = b = ''
                        attrs = set()
                    elif w.startswith('fg='):
                        f = tmux_color(w[3:])
                    elif w.startswith('bg='):
                        b = tmux_color(w[3:])
                    elif w.startswith('no') and w[2:] in TMUX_ATTR:
                        attrs.discard(TMUX_ATTR[w[2:]])
                    else:
                        attrs.add(TMUX_ATTR[w])
                except (KeyError, ValueError):
                    return f'tmux does not know {w!r} of {out!r}'
        elif p and (f not in expected(fg, mode) or b not in expected(bg, mode) or attrs != set(effects)):
            return f'tmux shows fg {f!r} bg {b!r} {sorted(attrs)}; style is {wanted(fg, bg, effects, mode)}'
    if f or b or attrs:
        return f'tmux is left in fg {f!r} bg {b!r} {sorted(attrs)} after {out!r}'
    return None


def html(out, text, fg, bg, effects, cls):
    m = re.fullmatch(r'<span(?: class="([^"]*)")? style="([^"]*)">(.*)</span>', out, re.S)
    if not m:
        return f'not a span: {out!r}'
    if m.group(3) != text:
        return f'text {text!r} has become {m.group(3)!r}'
    if m.group(1) != cls:
        return f'class is {m.group(1)!r}, not {cls!r}'
    got = {}
    for d in m.group(2).split(';'):
        if d.strip():
            k, _, v = d.partition(':')
            if k.strip() in got:
                return f'{k!r} appears twice in {out!r}'
            got[k.strip()] = set(v.split())
    want = {}
    f, b = (None if value(c) is None else {f'#{value(c):06x}'} for c in (fg, bg))
    if 'inversed' in effects:
        f, b = b, f
    deco = set()
    for e, words in (('crosslined', {'line-through'}), ('overlined', {'overline'}), ('underlined', {'underline'}),
                     ('double_underlined', {'underline', 'double'})):
        if e in effects:
            deco |= words
    for k, v in (('color', f), ('background-color', b), ('font-weight', 'bold' in effects and {'700'}),
                 ('font-style', 'italic' in effects and {'italic'}), ('text-decoration', deco),
                 ('border', 'blink' in effects and {'1px', 'dotted'}),
                 ('filter', 'dim' in effects and {'saturate(0.5)', 'brightness(0.75)'})):
        if v:
            want[k] = v
    if got.get('font-weight') == {'bold'}:
        got['font-weight'] = {'700'}
    if got != want:
        return f'CSS is {got}, has to be {want}'
    return None


MODES = {'rgb': (False, False), '256': (True, False), '16': (False, True), '16b': (True, True)}


def set_up(force, mode):
    c256, c16 = MODES[mode]
    for r in (P().SgrRenderer, P().TmuxRenderer, P().DebugRenderer):
        r.set_up(force_styles=force, compatibility_256_colors=c256, compatibility_16_colors=c16)


def restore():
    set_up(False, 'rgb')


def style(fg, bg, effects, cls=None):
    return P().Style(fg=given(fg), bg=given(bg), class_name=cls, **{e: True for e in effects})


def holds(fg, bg, effects, text, modes=('rgb', '256', '16'), acc=None, cls=None, st=None, arg=None):
    Q = P()
    arg = text if arg is None else arg
    with sut.guard():
        st = st or style(fg, bg, effects, cls)
        try:
            for mode in modes:
                set_up(True, mode)
                key = mode.rstrip('b')
                out = Q.SgrRenderer.render(arg, st)
                for what, w in (('SgrRenderer', terminal(out, text, fg, bg, effects, key)),
                                ('DebugRenderer', debug(Q.DebugRenderer.render(arg, st), text, fg, bg, effects, key)),
                                ('TmuxRenderer', tmux(Q.TmuxRenderer.render(arg, st), text, fg, bg, effects, key))):
                    if w:
                        return f'{what}, {mode} colors: {w}'
                if Q.Text(arg, st).render() != out or st.render(arg) != out or str(st.text(arg)) != out:
                    return f'text {arg!r} is rendered by itself as {Q.Text(arg, st).render()!r}, by the renderer as {out!r}'
                if acc is not None:
                    acc.traces += 3
                    acc.state((mode, out[:out.find('m') + 1] if len(out) < 8 else hash(out)))
                    acc.transition(mode, out)
            w = html(Q.HtmlRenderer.render(arg, st), text, fg, bg, effects, cls)
            if w:
                return 'HtmlRenderer: ' + w
            if Q.NoOpRenderer.render(arg, st) != text:
                return f'NoOpRenderer: {Q.NoOpRenderer.render(arg, st)!r} instead of {text!r}'
        finally:
            restore()
    return None


def settings(fg, bg, effects, text):
    """whether styles are applied at all"""
    Q = P()
    with sut.guard():
        st = style(fg, bg, effects)
        for force, tty, mode in itertools.product((None, False, True), (False, True), MODES):
            old = sys.stdout
            try:
                sys.stdout = Out(tty)
                set_up(force, mode)
                on = force is True or (force is False and tty)
                key = mode.rstrip('b')
                o1, o2, o3 = (r.render(text, st) for r in (Q.SgrRenderer, Q.TmuxRenderer, Q.DebugRenderer))
                if Q.SgrRenderer.is_sgr_usage_allowed() != on:
                    return f'forced {force}, terminal {tty}: allowed {not on}'
                if not on:
                    if (o1, o2) != (text, text):
                        return f'forced {force}, terminal {tty}: rendered as {o1!r} {o2!r}'
                else:
                    w = terminal(o1, text, fg, bg, effects, key) or tmux(o2, text, fg, bg, effects, key)
                    if w:
                        return f'forced {force}, terminal {tty}, {mode} colors: {w}'
                w = debug(o3, text, fg, bg, effects, key)
                if w:
                    return f'DebugRenderer, forced {force}, terminal {tty}, {mode} colors: {w}'
            finally:
                sys.stdout = old
                restore()
    return None


def changed(fg, bg, effects):
    """flipping the colors, picking of the foreground"""
    Q = P()
    with sut.guard():
        st = style(fg, bg, effects)
        r = st.flip()
        if r is not st:
            return 'flip() returns another object'
    w = holds(bg, fg, effects, 'ab', st=st)
    if w:
        return 'after flip(): ' + w
    with sut.guard():
        st = style(fg, bg, effects)
        back = st.bg
        if st.autopick_fg() is not st or st.bg is not back:
            return 'autopick_fg() changes the background or returns another object'
        v = value(bg)
        if v is None:
            nfg = fg
        else:
            nfg = ('rgb', st.fg.hex_value)
            bright = max(palette.rgb(v)) / 255
            if bright > .5 and st.fg.hex_value != 0x0a0a0a or bright < .4 and st.fg.hex_value != 0xcccccc:
                return f'foreground for background {v:06x} is {st.fg!r}'
    w = holds(nfg, bg, effects, 'ab', st=st)
    return w and 'after autopick_fg(): ' + w


ALL_COLORS = [None, 'noop'] + [('16', n) for n in range(16)] + [('256', c) for c in range(16, 256)] + \
             [('rgb', v) for v in (0, 1, 0xff, 0x100, 0x8000, 0x10000, 0xffffff, 0x123456, 0xfedcba, 0x7f7f7f, 0x80, 0xc0c0c1,
                                   0x5f5f60, 0x080809, 0xeeeeed, 0xf7f7f7)]
MENU_Q = [None, ('16', 0), ('16', 9), ('256', 17), ('256', 244), ('rgb', 0), ('rgb', 0x123457), ('rgb', 0x30c0f0)]
MENU_T = MENU_Q + ['noop', ('16', 7), ('16', 8), ('16', 15), ('256', 16), ('256', 255), ('256', 38 + 10), ('256', 196),
                   ('rgb', 0xffffff), ('rgb', 0xff), ('rgb', 0x260530), ('rgb', 0x020202)]


def subset(n):
    return [e for i, e in enumerate(EFFECTS) if n >> i & 1]


def jobs(tier):
    menu = MENU_Q if tier == 'quick' else MENU_T
    out = [('settings',), ('texts',), ('changed',)]
    out += [('colors', a, b) for a, b in corpus.slices(len(ALL_COLORS), 16)]
    for a, b in corpus.slices(512, 64):
        out.append(('effects', tier, a, b))
    return out


def run(job, acc):
    def bad(case, m):
        if m:
            acc.fail(case, m)
        return acc.full

    kind = job[0]
    if kind == 'settings':
        for fg, bg, n, text in itertools.product((None, ('16', 1), ('256', 44), ('rgb', 0x010203)), (None, ('rgb', 0xabcdef)),
                                                 (0, 2, 511), ('a', '', 'a\nb')):
            acc.traces += 24
            if bad({'settings': [fg, bg, subset(n), text]}, settings(fg, bg, subset(n), text)):
                return
    elif kind == 'texts':
        for text, n, fg, bg in itertools.product(TEXTS, range(0, 512, 7), (None, ('16', 3)), (None, ('256', 100))):
            case = [fg, bg, subset(n), text]
            if bad({'style': case}, holds(*case, acc=acc, cls='k' if n % 3 else None)):
                return
        for lines, e, fg in itertools.product(LONG, (['bold'], ['underlined', 'dim']), (None, ('rgb', 0x30))):
            for text in ('x\n' * lines, 'ab' * lines, '\n' * lines + 'y'):
                if bad({'style': [fg, None, e, text]}, holds(fg, None, e, text, acc=acc)):
                    return
        for arg in (0, 7, -1.5, True, ['a'], ()):
            if bad({'arg': repr(arg)}, holds(('16', 3), None, ['bold'], str(arg), acc=acc, arg=arg)):
                return
    elif kind == 'changed':
        for fg, bg, n in itertools.product(MENU_T, MENU_T, (0, 32, 2)):
            acc.traces += 2
            if bad({'changed': [fg, bg, subset(n)]}, changed(fg, bg, subset(n))):
                return
    elif kind == 'colors':
        for c in ALL_COLORS[job[1]:job[2]]:
            for fg, bg in ((c, None), (None, c), (c, c), (c, ('16', 1)), (('rgb', 0x30), c)):
                for e in ([], ['bold'], ['inversed', 'underlined']):
                    if bad({'style': [fg, bg, e, 'ab\nc']}, holds(fg, bg, e, 'ab\nc', tuple(MODES), acc)):
                        return
                    acc.outcome((fg, bg))
    else:
        menu = MENU_Q if job[1] == 'quick' else MENU_T
        for n in range(job[2], job[3]):
            for i, (fg, bg) in enumerate(itertools.product(menu, menu)):
                case = [fg, bg, subset(n), 'a']
                if bad({'style': case}, holds(*case, acc=acc)):
                    return
        acc.sample({'style': case})


def tup(c):
    return tuple(c) if isinstance(c, list) else c


def check(case):
    if 'settings' in case:
        fg, bg, e, t = case['settings']
        return settings(tup(fg), tup(bg), e, t)
    if 'changed' in case:
        fg, bg, e = case['changed']
        return changed(tup(fg), tup(bg), e)
    if 'arg' in case:
        arg = eval(case['arg'], {'__builtins__': {}}, {})
        return holds(('16', 3), None, ['bold'], str(arg), arg=arg)
    fg, bg, e, t = case['style']
    return holds(tup(fg), tup(bg), e, t, tuple(MODES)) or holds(tup(fg), tup(bg), e, t, cls='k')
