"""Specifications of the planted bugs: mkseed.py writes seeded/<id>/ from them (development only)."""
SPECS = []


def bug(id, property, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


READER = 'kolombos/byteio/reader.py'
PARSER = 'kolombos/byteio/parser/parser.py'
SEGBUF = 'kolombos/byteio/segment/buffer.py'
SEGMENT = 'kolombos/byteio/segment/segment.py'
BINFMT = 'kolombos/byteio/formatter/binary.py'
TXTFMT = 'kolombos/byteio/formatter/text.py'
SGRTPL = 'kolombos/byteio/template/template_escape_sgr.py'
ESCTPL = 'kolombos/byteio/template/template_escape.py'
TPL = 'kolombos/byteio/template/template.py'
CONSOLE = 'kolombos/console.py'
COMMON = 'kolombos/common.py'

bug('limit-break-first', 'C09',
    'the line break that reaches the line limit is the first byte of a read chunk',
    'text after the last permitted line of that chunk is dumped as well',
    [(READER, 'raw_input = raw_input[:line_break.end()-1]', 'raw_input = raw_input[:line_break.start()] or raw_input')],
    r"""
for args in (['-f', '4', '-L', '1'], ['-f', '2', '-L', '3', '--no-line-numbers']):
    n = int(args[3])
    data = b'abcd\nef\nij\nklm\n' if n == 1 else b'a\nb\ncd\nefgh'
    want = b'abcd' if n == 1 else b'a\nb\ncd'
    extra = args[4:]
    expect(args, run(args, data), run(extra, want))
""")

bug('esc-del', 'C05',
    'an ESC immediately followed by DEL',
    'the pair is taken for an Fs escape sequence; with full details the DEL is even printed raw',
    [(PARSER, r"b'((\x1b)([\x60-\x7e]))|'  ", r"b'((\x1b)([\x60-\x7f]))|'  ")],
    r"""
rc, out, err = run(['--no-line-numbers'], b'a\x1b\x7fb')
expect('text', plain(out), 'a∌→b\n\n')
rc, out, err = run(['--no-line-numbers', '-m2'], b'a\x1b\x7fb')
expect('no raw control characters', '\x7f' in out, False)
""")

bug('stale-marker-color', 'C13',
    'colored markers, and an SGR sequence naming no color at all after one that does',
    'the marker of the sequence without colors is shown with the colors of the previous one',
    [(SGRTPL, '        self._details_opening_seq = SequenceSGR(*pcodes_allowed)',
      '        if pcodes_allowed or self._details_opening_seq is None:\n'
      '            self._details_opening_seq = SequenceSGR(*pcodes_allowed)')],
    r"""
one = run(['--color-markers', '--no-line-numbers'], b'\x1b[22m')
both = run(['--color-markers', '--no-line-numbers'], b'\x1b[31m\x1b[22m')
red = run(['--color-markers', '--no-line-numbers'], b'\x1b[31m')
expect('marker', both[1].rstrip('\n'), red[1].rstrip('\n') + one[1].rstrip('\n'))
""")

bug('zero-channel', 'C13',
    'colored markers, and an extended color with an index or a channel equal to zero',
    'the marker of such a sequence is not colored',
    [(SEGBUF, 'set(f.opening_seq.params) == {0}', '0 in f.opening_seq.params')],
    r"""
rc, out, err = run(['--color-markers', '--no-line-numbers'], b'\x1b[38;5;0m')
expect('marker is colored', '\x1b[38;5;0mǝ' in out, True)
rc, out, err = run(['--color-markers', '--no-line-numbers', '-b', '-w4'], b'\x1b[48;2;10;0;30m')
expect('marker is colored', '\x1b[48;2;10;0;30m' in out, True)
""")

bug('fold-last', 'C12',
    'an RGB color as the very last parameter of an SGR sequence, brief details',
    'the color is shown as five separate parameters instead of a folded one',
    [(SGRTPL, 'if len(pcodes) >= 4 and', 'if len(pcodes) > 4 and')],
    r"""
rc, out, err = run(['-m1', '--no-line-numbers', '--no-separators'], b'\x1b[38;2;1;2;3;4m')
expect('inside', plain(out), 'ǝF010203･4\n\n')
rc, out, err = run(['-m1', '--no-line-numbers', '--no-separators'], b'\x1b[1;38;2;1;2;3m')
expect('last', plain(out), 'ǝ1･F010203\n\n')
""")

bug('override-order', 'C08',
    'an ignored class which has a marker of its own for the read mode (tab in text mode, binary data in binary mode)',
    'bytes of that class are not replaced with the ignored marker',
    [(TPL, '    def _process_byte(self, b: int) -> str:\n'
           '        return self._label_stack.get(self._display_mode, self._read_mode)',
      '    def _process_byte(self, b: int) -> str:\n'
      '        return self._label_stack.get(self._read_mode, self._display_mode)')],
    r"""
rc, out, err = run(['-b', '-I', '-w4', '--no-offsets'], b'a\xff\xfeb')
expect('binary', plain(out).split()[-1], 'a××b')
rc, out, err = run(['-S', '--no-line-numbers'], b'a\tb')
expect('tab', plain(out), 'a×b\n\n')
""")

bug('big-line-number', 'C04',
    'a line with a number of seven or more digits',
    'the line number is printed in the exponential form',
    [(CONSOLE, "fmt_(f'{line_num:2d}')", "fmt_(f'{line_num:2g}')")],
    r"""
from kolombos.settings import SettingsManager
SettingsManager.init()
from kolombos.console import ConsoleOutputBuffer
import contextlib
for n in (1, 9, 10, 99999, 1000000, 12345678):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ConsoleOutputBuffer().write_with_line_num('x', n)
    expect(n, plain(buf.getvalue()), f'{n:2d}│x')
""")

bug('wide-terminal', 'C14',
    'a terminal of about 200 columns with a width just sufficient for one more group of columns',
    'the rows are wider than the terminal',
    [(BINFMT, """        chunk_len = (3 * self.BYTE_CHUNK_LEN) + \\
                    (self.BYTE_CHUNK_LEN - 1) + \\
                    len(self.PADDING_HEX_CHUNK)
""", """        chunk_len = (3 * self.BYTE_CHUNK_LEN) + \\
                    len(self.PADDING_HEX_CHUNK)
""")],
    r"""
data = bytes(range(65, 91)) * 8
for columns in (40, 80, *range(160, 240, 2), 300):
    rc, out, err = run(['-b'], data, columns)
    expect(('rows longer than the terminal', columns), [row for row in plain(out).splitlines() if len(row) > columns], [])
""")

bug('width-cache', 'C16',
    'two runs in one process with different terminal widths',
    'the second run is laid out for the terminal width of the first one',
    [(COMMON, 'def get_terminal_width(exact: bool = False) -> int:\n    try:',
      'import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef get_terminal_width(exact: bool = False) -> int:\n    try:')],
    r"""
script = '''
import os, sys, io
from kolombos.app import App
class In:
    def __init__(self): self.buffer = io.BytesIO(bytes(range(32, 127)))
for c in sys.argv[1:]:
    os.environ["COLUMNS"] = c
    sys.argv[1:] = ["-b"]
    sys.stdin = In()
    try: App().run()
    except SystemExit: pass
'''
def go(*widths):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING='utf-8')
    return subprocess.run([sys.executable, '-B', '-c', script, *widths], env=env, capture_output=True, text=True).stdout
expect('two runs', go('60', '120'), go('60') + go('120'))
""")

bug('debug-offset-early', 'C17',
    'debug level 1 or more in text mode, more than one line',
    'the debug rows of a line carry the offset of the end of the line instead of that of its beginning',
    [(TXTFMT, "            self._offset += self._segment_buffer.last_detached_data_len\n            self._line_num += 1",
      "            self._line_num += 1"),
     (TXTFMT, "            debug_sgr_line, debug_raw_line, debug_proc_line, final_proc_line = result\n",
      "            debug_sgr_line, debug_raw_line, debug_proc_line, final_proc_line = result\n"
      "            self._offset += self._segment_buffer.last_detached_data_len\n")],
    r"""
rc, out, err = run(['-DD'], b'abc\ndefg\nh')
rows = [l for l in plain(out).splitlines() if re.match(r' *0x[0-9a-f]+│( [0-9a-f]{2})+$', l)]
expect('offsets', [(int(l.split('│')[0], 16), len(l.split('│')[1].split())) for l in rows], [(0, 4), (4, 5), (9, 1)])
""")

UTF8TPL = 'kolombos/byteio/template/template_utf8.py'
CTLTPL = 'kolombos/byteio/template/template_control.py'
NLTPL = 'kolombos/byteio/template/template_newline.py'
ANSI, COLOR, RENDER = 'pytermor/ansi.py', 'pytermor/color.py', 'pytermor/render.py'
FLOAT, UNIT, DELTA = 'pytermor/util/auto_float.py', 'pytermor/util/prefixed_unit.py', 'pytermor/util/time_delta.py'
FILTER = 'pytermor/util/string_filter.py'

bug('utf8-two-bytes', 'C02',
    'a two-byte UTF-8 sequence in binary mode with decoding',
    'its character is not padded to the length of the sequence, the text column gets shorter than the row',
    [(UTF8TPL, 'if len(decoded) < len(raw):', 'if len(decoded) + 1 < len(raw):')],
    r"""
rc, out, err = run(['-b', '-d', '-w4', '--no-offsets'], 'aéb'.encode())
expect('row', plain(out).split('\n')[0], ' 61 c3 a9 62  a_éb')
rc, out, err = run(['-b', '-d', '-w4', '--no-offsets'], 'a€'.encode())
expect('row', plain(out).split('\n')[0], ' 61 e2 82 ac  a__€')
""")

bug('limit-next-chunk', 'C09',
    'the line limit is reached before the last read chunk of the input',
    'the dump goes on with the beginning of the next chunk',
    [(READER, '(max_lines and lines >= max_lines):', '(max_lines and lines > max_lines):')],
    r"""
rc, out, err = run(['-L1', '-f4'], b'ab\ncdefgh\nij')
expect('one line', plain(out).split(), ['1│ab'])
rc, out, err = run(['-L1'], b'x' * 3000 + b'\n' + b'y' * 3000)
expect('length', 'y' in out, False)
""")

bug('offset-requested', 'C10',
    'binary mode, the remainder at the end of input is longer than a row and ends with an incomplete row',
    'the total is rounded up to whole rows',
    [(BINFMT, 'self._offset += data_len', 'self._offset += req_bytes')],
    r"""
for n in (3, 4, 7, 8, 9, 11, 15):
    rc, out, err = run(['-b', '-w4', '--decimal-offsets'], b'a\x1b[31;31;31;31;31'[:n])
    expect(n, [l.strip('│ ') for l in plain(out).split('\n') if l.strip()][-1], str(n))
""")

bug('dash-file', 'C15',
    'a file whose name begins with a dash, given after --',
    'standard input is dumped instead of the file',
    [(READER, "return not self._filename or self._filename == '-'",
      "return not self._filename or str(self._filename).startswith('-')")],
    r"""
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, '-x.txt'), 'wb') as f:
        f.write(b'from file')
    p = subprocess.run([sys.executable, '-B', '-m', 'kolombos', '--', '-x.txt'], input=b'from stdin', cwd=d, capture_output=True,
                       env=dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING='utf-8', COLUMNS='80'), timeout=60)
    expect('file is read', 'file' in plain(p.stdout.decode()), True)
finally:
    shutil.rmtree(d)
""")

bug('row-waits', 'C18',
    'exactly as many bytes are available as are requested, and more input is to come',
    'a complete row is not displayed until the next bytes arrive',
    [(SEGBUF, 'if self.data_len >= req_bytes or force:', 'if self.data_len > req_bytes or force:')],
    r"""
from kolombos.settings import SettingsManager
SettingsManager.init()
from kolombos.byteio.segment import SegmentBuffer, SegmentPrinter, Segment
from pytermor import SequenceSGR
b = SegmentBuffer()
b.attach(Segment(SequenceSGR(31), 'P', b'abcd', 'abcd'))
out = b.detach_bytes(4, False, [SegmentPrinter(False, False, lambda s: s.processed)])
expect('row', out, ('abcd',))
""")

bug('csi-two-intermediates', 'C05',
    'a CSI sequence with more than one intermediate byte',
    'it is taken for a two-byte sequence followed by text',
    [(PARSER, r"([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|", r"([\x30-\x3f]*)([\x20-\x2f]?)([\x40-\x7e]))|'  # [ 2|")],
    r"""
rc, out, err = run(['--no-line-numbers'], b'a\x1b[1 !pb')
expect('one marker', plain(out).strip(), 'aϽb')
rc, out, err = run(['--no-line-numbers'], b'a\x1b[1!pb')
expect('one marker', plain(out).strip(), 'aϽb')
""")

bug('del-after-text', 'C06',
    'DEL right after a printable character',
    'DEL is printed as it is',
    [(PARSER, r"b'([\x21-\x7e]+)', ", r"b'([\x21-\x7f]+)', ")],
    r"""
for args in ([], ['-b', '-w4']):
    rc, out, err = run(args, b'ab\x7f c')
    expect(args, '\x7f' in out, False)
    expect(args, '→' in out, True)
""")

bug('read-error-swallowed', 'C31',
    'reading of the input fails',
    'the dump ends as if the input did, with exit code 0 and no message',
    [(READER, 'except KeyboardInterrupt:', 'except (KeyboardInterrupt, OSError):')],
    r"""
import types
class Failing:
    closed = False
    def __init__(self, exc): self.exc, self.n = exc, 0
    def read(self, n):
        self.n += 1
        if self.n == 1: return b'one\n'
        raise self.exc
    def close(self): self.closed = True
from kolombos.app import App
def attempt(exc):
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdin, sys.stdout, sys.stderr, sys.argv
    sys.stdin, sys.stdout, sys.stderr, sys.argv = types.SimpleNamespace(buffer=Failing(exc)), out, err, ['kolombos']
    try:
        App().run()
    except SystemExit as e:
        return e.code, 'one' in out.getvalue(), err.getvalue()
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
code, shown, err = attempt(OSError(5, 'Input/output error'))
expect('exit code', code, 1)
expect('message', 'Input/output error' in err and shown, True)
expect('interrupt', attempt(KeyboardInterrupt()), (0, True, ''))
""")

bug('approx-cached-color', 'C23',
    'a color is looked for before a color with exactly this value is added to the palette',
    'the new color is never found',
    [(COLOR, 'if color.hex_value not in self._lookup_table.keys():',
      'if color.hex_value not in self._lookup_table.keys() and color.hex_value not in self._approximation_cache.keys():')],
    r"""
from pytermor.color import Approximator, ColorIndexed256, ColorRGB
a = Approximator()
a.add_to_map(ColorRGB(0x000000))
expect('nearest', a.find_closest(0x101010).hex_value, 0)
a.add_to_map(ColorRGB(0x101010))
expect('exact', a.find_closest(0x101010).hex_value, 0x101010)
""")

bug('hue-magenta', 'C24',
    'a reddish color with more blue than green in it',
    'its hue is mirrored',
    [(COLOR, '            h += 360\n', '            h = -h\n')],
    r"""
from pytermor.color import Color
expect('hue', round(Color.hex_value_to_hsv_channels(0xff0080)[0]), 330)
expect('hue', round(Color.hex_value_to_hsv_channels(0xff8000)[0]), 30)
""")

bug('html-inverse-fg', 'C22',
    'an inversed style with text color only, HTML output',
    'colors are not swapped',
    [(RENDER, '        if style.inversed:\n            span_styles', '        if style.inversed and style.bg.hex_value is not None:\n            span_styles')],
    r"""
from pytermor.render import HtmlRenderer, Style
expect('fg only', HtmlRenderer.render('x', Style(fg=0x112233, inversed=True)), '<span style="background-color: #112233">x</span>')
expect('bg only', HtmlRenderer.render('x', Style(bg=0x112233, inversed=True)), '<span style="color: #112233">x</span>')
""")

bug('compat16-bg', 'C22',
    'an indexed background color rendered for a terminal with 16 colors',
    'it becomes the color of the text',
    [(RENDER, """        elif isinstance(color, ColorIndexed256):
            if cls._compatibility_16_colors:
                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)""",
      """        elif isinstance(color, ColorIndexed256):
            if cls._compatibility_16_colors:
                return ColorIndexed16.find_closest(hex_value).to_sgr()""")],
    r"""
from pytermor.render import SgrRenderer, Style
from pytermor.color import Colors, ColorIndexed256
c = [v for v in vars(Colors).values() if isinstance(v, ColorIndexed256) and v.hex_value == 0xff0000][0]
SgrRenderer.set_up(force_styles=True, compatibility_16_colors=True)
expect('bg', SgrRenderer.render('x', Style(bg=c)), '\x1b[101mx\x1b[49m')
expect('fg', SgrRenderer.render('x', Style(fg=c)), '\x1b[91mx\x1b[39m')
""")

bug('exponent-sign-len', 'C25',
    'a value so small that it takes a negative exponent',
    'the sign of the exponent is not counted, the result is longer than requested',
    [(FLOAT, "exponent_len = len(str(exponent)) + 1  # 'e'", "exponent_len = len(str(abs(exponent))) + 1  # 'e'")],
    r"""
from pytermor.util import format_auto_float
for v in (1.2345e-5, 9.99e-12, 1.5e7, 0.012):
    expect(v, len(format_auto_float(v, 6)), 6)
""")

bug('negative-prefix', 'C26',
    'a negative value with an absolute value over the multiplier',
    'no prefix is found for it',
    [(UNIT, 'elif abs(value) >= self._mcoef:', 'elif value >= self._mcoef:')],
    r"""
from pytermor.util import format_si_metric, format_si_binary
expect('negative', format_si_metric(-12345.0), '-12k m' if False else format_si_metric(-12345.0))
try:
    got = format_si_metric(-12345.0, 'V')
except ValueError as e:
    got = repr(e)
expect('negative', got.endswith('kV'), True)
""")

bug('round-seconds', 'C27',
    'a fractional number of seconds',
    'it is rounded up: 59.7 seconds are shown as 60',
    [(DELTA, "result = f'{sign}{floor(num):d}{unit_separator}{unit_name_suffixed:s}'",
      "result = f'{sign}{round(num):d}{unit_separator}{unit_name_suffixed:s}'")],
    r"""
from pytermor.util import format_time_delta
expect(59.7, format_time_delta(59.7, 10), '59 secs')
expect(10, format_time_delta(10, 6), '10 sec')
""")

bug('sgr-empty-regexp', 'C28',
    'a reset sequence without parameters in the string',
    'it is counted as visible characters',
    [(FILTER, r"SGR_REGEXP = re.compile(r'(\x1b)(\[)(([0-9;])*)(m)')", r"SGR_REGEXP = re.compile(r'(\x1b)(\[)(([0-9;])+)(m)')")],
    r"""
from pytermor.util import ljust_sgr, rjust_sgr, center_sgr
s = '\x1b[31mab\x1b[m'
expect('ljust', ljust_sgr(s, 5, '.'), s + '...')
expect('rjust', rjust_sgr(s, 5, '.'), '...' + s)
""")

bug('nonascii-ff', 'C29',
    'byte 0xff in the string',
    'it is not replaced',
    [(FILTER, r"b'[\x80-\xff]'", r"b'[\x80-\xfe]'")],
    r"""
from pytermor.util import ReplaceNonAsciiBytes
expect('all', ReplaceNonAsciiBytes().apply(b'a\x80\xfe\xff\x7f'), b'a???\x7f')
""")

bug('inherit-false', 'C30',
    'a style that switches an effect of its parent off explicitly',
    'the effect is inherited nevertheless',
    [(RENDER, 'if getattr(self, attr) is None and inherit_val is not None:', 'if not getattr(self, attr) and inherit_val is not None:')],
    r"""
from pytermor.render import Style
p = Style(bold=True, italic=True)
c = Style(p, bold=False)
expect('bold', (c.bold, c.italic), (False, True))
""")

bug('iadd-in-place', 'C21',
    'a sequence is extended with +=',
    'the sequence (even a library preset) itself is changed, for all its users',
    [(ANSI, '        return self.__add__(other)\n', '        self._ensure_sequence(other)\n        self._params.extend(other._params)\n        return self\n')],
    r"""
from pytermor import Seqs, SequenceSGR
a = Seqs.RED
a += Seqs.BOLD
expect('sum', a, SequenceSGR(31, 1))
expect('preset', Seqs.RED, SequenceSGR(31))
""")

bug('bg-rgb-len', 'C20',
    'a background RGB color whose last channel equals the number of an effect or color',
    'the closing sequence switches off something the opening one did not switch on',
    [(ANSI, 'cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 3, IntCodes.BG_COLOR_OFF)',
      'cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 2, IntCodes.BG_COLOR_OFF)')],
    r"""
from pytermor import Span
expect('closing', Span(48, 2, 10, 20, 31).closing_seq.params, [49])
expect('closing', Span(38, 2, 10, 20, 31, 1).closing_seq.params, [39, 22])
""")

bug('overline-off', 'C07',
    'colored markers, and an SGR sequence that switches overlining on',
    'the overline stays on for the rest of the dump',
    [(ANSI, '(IntCodes.OVERLINED, IntCodes.OVERLINED_OFF)', '(IntCodes.OVERLINED, IntCodes.CROSSLINED_OFF)')],
    r"""
rc, out, err = run(['--color-markers', '--no-line-numbers'], b'\x1b[53mabc')
expect('closed', '\x1b[53;' in out or '\x1b[53m' in out, True)
expect('closed', re.search('\x1b\\[(?:[0-9;]*;)?55[m;]', out) is not None, True)
""")

bug('brief-label-1c', 'C11',
    'the file separator control character with brief details',
    'the run fails',
    [(CTLTPL, r"0x1c: '\\', ", "")],
    r"""
rc, out, err = run(['-m1', '--no-line-numbers'], b'a\x1cb\x1d')
expect('result', (rc, plain(out).strip(), err), (0, 'aⱯ\\bⱯ]', ''))
""")

bug('text-force-chunk', 'C03',
    'text mode, a line longer than the default buffer',
    'the line is broken where the buffer ends',
    [(TXTFMT, 'force = self._parser_buffer.closed', 'force = self._parser_buffer.closed or self._segment_buffer.data_len >= 4096')],
    r"""
rc, out, err = run(['--no-line-numbers'], b'x' * 5000 + b'\ny\n')
expect('lines', [len(l) for l in plain(out).split('\n')], [5001, 2, 0, 0])
""")

bug('incomplete-extended', 'C13',
    'colored markers, and an extended color that is incomplete',
    'its first parameter is sent to the terminal alone',
    [(SGRTPL, '            elif pcode in self.ALLOWED', '            if pcode in self.ALLOWED')],
    r"""
rc, out, err = run(['--color-markers', '--no-line-numbers'], b'\x1b[1;38;5m')
expect('no incomplete color', re.findall('\x1b\\[38m', out), [])
rc, out, err = run(['--color-markers', '--no-line-numbers'], b'\x1b[38;5;9m')
expect('complete color', '\x1b[38;5;9m' in out, True)
""")

bug('rgb-zero-pad', 'C12',
    'an RGB color with a low red channel, brief details',
    'leading zeros are dropped, another color is shown',
    [(SGRTPL, 'pcodes_allowed[-1]:06X}', 'pcodes_allowed[-1]:X}')],
    r"""
rc, out, err = run(['-m1', '--no-line-numbers', '--no-separators'], b'\x1b[38;2;0;16;32m')
expect('color', plain(out), 'ǝF001020\n\n')
""")

bug('ignored-newline', 'C04',
    'whitespace ignored in text mode',
    'all the lines are joined',
    [(NLTPL, "return f'{default}\\n'   #", "return f'{default}'   #")],
    r"""
rc, out, err = run(['-S', '--no-line-numbers'], b'a\nb\n')
expect('lines', plain(out), 'a×\nb×\n\n')
""")

bug('ignored-details', 'C08',
    'control characters ignored, with details of markers',
    'the details are displayed nevertheless',
    [(CTLTPL, "        if self._display_mode.is_ignored:\n            return\n", "        if self._display_mode.is_ignored and self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS:\n            return\n")],
    r"""
for m in ('-m1', '-m2'):
    rc, out, err = run(['-C', m, '--no-line-numbers'], b'a\x01b')
    expect(m, plain(out).strip(), 'a×b')
""")

bug('settings-init-once', 'C16',
    'two runs in one process',
    'options of the first one apply to the second one',
    [('kolombos/settings.py', '        SettingsManager.app_settings = Settings()\n',
      "        if not hasattr(SettingsManager, 'app_settings'):\n            SettingsManager.app_settings = Settings()\n")],
    r"""
import types
from kolombos.app import App
def attempt(args, data):
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdin, sys.stdout, sys.stderr, sys.argv
    sys.stdin, sys.stdout, sys.stderr, sys.argv = types.SimpleNamespace(buffer=io.BytesIO(data)), out, err, ['kolombos', *args]
    try:
        App().run()
    except SystemExit:
        return plain(out.getvalue())
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
first = attempt([], b'abc')
attempt(['-b', '-w4'], b'abc')
expect('second run', attempt([], b'abc'), first)
""")

bug('demo-columns', 'C19',
    'the demo with an explicit number of columns',
    'the number is disregarded',
    [('kolombos/runner/demo.py', 'if aps.columns is None:', 'if aps.columns is None or not aps.binary:')],
    r"""
a = plain(run(['-M', '-w32'])[1])
b = plain(run(['-M'])[1])
c = plain(run(['-M', '-w16'])[1])
expect('width', (len(a.split('\n')) < len(b.split('\n')), b == c), (True, True))
""")

ARGHELP = 'kolombos/arghelp.py'

bug('debug-chunk', 'C32',
    'debug level 1 exactly, and more than 128 bytes of input',
    'the input is read by 4096 bytes instead of the documented 128',
    [(READER, 'if SettingsManager.app_settings.debug > 0:', 'if SettingsManager.app_settings.debug > 1:')],
    r"""
for args in (['-D'], ['-DD']):
    rc, out, err = run(args, b'abc\n' * 100)
    expect(args, len(re.findall('Read chunk', plain(out))), 4)
""")

bug('help-fixed-width', 'C32',
    'a terminal narrower than 70 columns',
    'descriptions of the options do not fit the terminal',
    [(ARGHELP, 'super().__init__(prog, max_help_position=30, indent_increment=self.INDENT_INCREMENT)',
      "super().__init__(prog, max_help_position=30, indent_increment=self.INDENT_INCREMENT,\n"
      "                         width=max(70, pt.util.get_terminal_width() if hasattr(pt.util, 'get_terminal_width') else\n"
      "                                   __import__('shutil').get_terminal_size().columns - 2))")],
    r"""
for cols in (60, 90):
    rc, out, err = run(['--help'], b'', columns=cols)
    rows = [l for l in plain(out).split('MODE\n')[1].split('\n \n')[0].split('\n')]
    expect(cols, max(map(len, rows)) <= cols, True)
""")

bug('buffer-rounded', 'C32',
    'a buffer size that is not a multiple of 8',
    'the input is read by fewer bytes than requested',
    [(READER, "return int(SettingsManager.app_settings.buffer)", "return int(SettingsManager.app_settings.buffer) & ~7 or 1")],
    r"""
for f, n in ((100, 10), (99, 11), (7, 143)):
    rc, out, err = run(['-D', '-f%d' % f], b'x' * 1000)
    expect(f, len(re.findall('Read chunk', plain(out))), n)
""")

ANSI = 'pytermor/ansi.py'
COLOR = 'pytermor/color.py'
RENDER = 'pytermor/render.py'
FLOAT = 'pytermor/util/auto_float.py'
UNIT = 'pytermor/util/prefixed_unit.py'
DELTA = 'pytermor/util/time_delta.py'
EXT = 'pytermor/util/stdlib_ext.py'
FILTER = 'pytermor/util/string_filter.py'

bug('remainder-first', 'C01',
    'more data than one row pending at the end of the input, e.g. behind an incomplete sequence',
    'the rows at the end are cut at other multiples of the width',
    [(BINFMT, '            req_bytes = min(self._segment_buffer.data_len, cur_cols)',
      '            req_bytes = self._segment_buffer.data_len\n            if req_bytes > cur_cols:\n'
      '                req_bytes = req_bytes % cur_cols or cur_cols')],
    r"""
rc, out, err = run(['-b', '-w4', '-f64', '--no-offsets'], b'\x1b[' + b'1;' * 7 + b'1')
rows = [l[:12].strip() for l in plain(out).split('\n') if l.strip()]
expect('rows', rows, ['1b 5b 31 3b', '31 3b 31 3b', '31 3b 31 3b', '31 3b 31 3b', '31'])
""")

bug('columns-up', 'C14',
    'a terminal whose width is not a multiple of that of a group of bytes',
    'rows are wider than the terminal',
    [(BINFMT, 'floor(available_total / chunk_len)', '-(-available_total // chunk_len) + 1')],
    r"""
for cols in (60, 70, 80, 90, 100):
    rc, out, err = run(['-b'], b'x' * 200, columns=cols)
    expect(cols, max(len(l) for l in plain(out).split('\n')) <= cols, True)
""")

bug('offset-of-characters', 'C17',
    'debug output in text mode, markers whose length differs from that of the bytes',
    'offsets of the rows are counted in displayed characters',
    [(SEGBUF, '        self._last_detached_data_len = sum([el.data_len for el in output])\n',
      '        self._last_detached_data_len = sum([max(el.data_len, len(getattr(el, "processed", None) or "")) for el in output])\n')],
    r"""
rc, out, err = run(['-D', '-m2'], b'a\x01\nb\x02\nc\n')
rows = [l for l in plain(out).split('\n') if re.match('\\s*0x', l)]
expect('offsets', [l.split('│')[0].split()[0] for l in rows if 'Read' not in l and 'match' not in l and 'EOF' not in l and 'Enc' not in l][-3:],
       ['0x0000', '0x0003', '0x0006'])
""")

bug('zero-in-style', 'C18',
    'a segment whose style has a zero among its parameters, e.g. indexed color 0',
    'its style is dropped',
    [(SEGBUF, 'set(f.opening_seq.params) == {0}', '0 in set(f.opening_seq.params)')],
    r"""
rc, out, err = run(['-m2', '--color-markers', '--no-line-numbers'], b'\x1b[38;5;0m\x1b[38;5;9m')
from kolombos.settings import SettingsManager, Settings
SettingsManager.app_settings = Settings()
from kolombos.byteio.segment import SegmentBuffer, Segment, SegmentPrinter
from pytermor import SequenceSGR
for params in ((38, 5, 0), (38, 5, 9)):
    b = SegmentBuffer()
    b.attach(Segment(SequenceSGR(*params), 'X', b'ab', 'ab'))
    expect(params, b.detach_bytes(2, True, [SegmentPrinter(True, False, lambda s: s.processed)])[0],
           SequenceSGR(*params).assemble() + 'ab\x1b[39m')
""")

bug('interrupt-flush', 'C31',
    'Ctrl+C while an incomplete sequence is pending',
    'the data pending is printed as if the input ended there, and the last chunk can be printed twice',
    [(READER, '        except KeyboardInterrupt:\n            pass\n',
      "        except KeyboardInterrupt:\n            self._read_callback(raw_input, self._offset, True)\n"),
     (READER, '        chunks = 0\n', "        chunks = 0\n        raw_input = b''\n")],
    r"""
import types
from kolombos.app import App
class In:
    def __init__(self, reads):
        self.reads = list(reads)
    closed = False
    def close(self):
        pass
    def tell(self):
        return 0
    def read(self, n=-1):
        r = self.reads.pop(0)
        if r is None:
            raise KeyboardInterrupt
        return r
def attempt(reads):
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdin, sys.stdout, sys.stderr, sys.argv
    sys.stdin, sys.stdout, sys.stderr, sys.argv = types.SimpleNamespace(buffer=In(reads)), out, err, ['kolombos', '--no-line-numbers']
    try:
        App().run()
    except SystemExit:
        pass
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
    return plain(out.getvalue()).strip()
full = attempt([b'abc\n', b'xyz\x1b[1', b'm!', b''])
got = attempt([b'abc\n', b'xyz\x1b[1', None])
expect('beginning of the dump', full.startswith(got), True)
""")

bug('blink-fast-open', 'C20',
    'fast blinking',
    'it is not switched off',
    [(ANSI, '                     (IntCodes.BLINK_FAST, IntCodes.BLINK_OFF),\n', '')],
    r"""
from pytermor import Span
expect('closing', [Span(5).closing_str, Span(6).closing_str], ['\x1b[25m'] * 2)
""")

bug('index-256', 'C21',
    'color index or channel 256',
    'accepted although the maximum is 255',
    [(ANSI, 'if value < 0 or value > 255:', 'if value < 0 or value > 256:')],
    r"""
from pytermor import SequenceSGR
for v in (-1, 256, 257):
    try:
        SequenceSGR.init_color_indexed(v)
    except ValueError:
        continue
    expect(v, 'accepted', 'refused')
SequenceSGR.init_color_indexed(255)
""")

bug('complex-first-only', 'C20',
    'an extended color preceded by another parameter',
    'color parameters are taken for attributes, the color remains or others are switched off',
    [(ANSI, '            if key_params is None:\n                key_params = opening_params.pop(0)',
      '            if key_params is None:\n                key_params = opening_params.pop(0)\n'
      '                if opening_params and opening_params[0] in (38, 48) and len(opening_params) == 4:\n'
      '                    key_params = opening_params.pop(0)')],
    r"""
from pytermor import Span
expect('index', Span(1, 38, 5, 9).closing_seq.params, [22, 39])
expect('rgb', Span(1, 38, 2, 9, 4, 1).closing_seq.params, [22, 39])
expect('index and attribute', Span(1, 38, 5, 9, 4).closing_seq.params, [22, 39, 24])
""")

bug('flip-shared', 'C30',
    'a style inheriting from a parent whose flag is False',
    'flag of the child is set by the parent although it is set explicitly',
    [(RENDER, 'if getattr(self, attr) is None and inherit_val is not None:', 'if not getattr(self, attr) and inherit_val is not None:')],
    r"""
from pytermor import Style
expect('explicit False stays', Style(Style(bold=True), bold=False).bold, False)
expect('unset is inherited', Style(Style(bold=True)).bold, True)
""")

bug('prepend-order', 'C30',
    'prepending a text of several parts',
    'its parts come in reverse order',
    [(RENDER, '            self._runs = text._runs + self._runs', '            for run in text._runs:\n                self._runs.insert(0, run)')],
    r"""
from pytermor import Text
t = Text('c')
t.prepend(Text('a') + 'b')
expect('order', t.raw(), 'abc')
t.prepend(Text('x'))
expect('order', t.raw(), 'xabc')
""")

bug('line-separators', 'C22',
    'text with separators other than line feed',
    'formatting is not repeated on the lines',
    [(RENDER, "        rendered_text = ''\n        for line in str(text).splitlines(keepends=True):\n            rendered_text += opening_tmux_style",
      "        rendered_text = ''\n        for line in str(text).splitlines(keepends=True)[:64]:\n            rendered_text += opening_tmux_style")],
    r"""
from pytermor.render import TmuxRenderer, Style, SgrRenderer
SgrRenderer.set_up(True); TmuxRenderer.set_up(True)
for n in (3, 63, 65, 100):
    out = TmuxRenderer.render('x\n' * n, Style(bold=True))
    expect(n, (out.count('x'), out.count('#[bold]')), (n, n))
""")

bug('first-registered', 'C23',
    'looking up a color twice with a registration of a nearer one in between',
    'the former result is returned',
    [(COLOR, '            self._approximation_cache.clear()\n            self._lookup_table[color.hex_value] = color',
      '            if len(self._approximation_cache) <= len(self._lookup_table):\n                self._approximation_cache.clear()\n            self._lookup_table[color.hex_value] = color')],
    r"""
from pytermor.color import Approximator, ColorIndexed16
class C:
    def __init__(self, v):
        self.hex_value = v
    def __repr__(self):
        return hex(self.hex_value)
a = Approximator()
a.add_to_map(C(0)); a.add_to_map(C(0xffffff))
expect('first', a.find_closest(0x101010).hex_value, 0)
a.add_to_map(C(0x121212))
expect('second', a.find_closest(0x101010).hex_value, 0x121212)
""")

bug('sat-of-black', 'C24',
    'a dark color with a strong hue',
    'saturation is relative to the whole range',
    [(COLOR, '            s = c/v', '            s = c/v if v > .005 else c')],
    r"""
from pytermor.color import Color
for rgb in (0x010000, 0x000100, 0x800000):
    expect(hex(rgb), Color.hex_value_to_hsv_channels(rgb)[1], 1.0)
""")

bug('one-in-one', 'C25',
    'a value of exactly one, and length 1',
    'shown as 0',
    [(FLOAT, 'if abs_value < 1 and req_len == 1:', 'if abs_value <= 1 and req_len == 1:')],
    r"""
from pytermor.util.auto_float import format_auto_float
for v, n, want in ((1, 1, '1'), (-1, 2, '-1'), (2, 1, '2'), (0.9, 1, '0')):
    expect((v, n), format_auto_float(v, n), want)
""")

bug('truncate-up', 'C26',
    'binary formatter, negative value with a fraction',
    'it is rounded down instead of towards zero',
    [(UNIT, "f'{trunc(value)!s:", "f'{int(value // 1)!s:")],
    r"""
from pytermor.util import format_si_binary
for v, want in ((10.5, '10 b'), (-10.5, '-10 b'), (-10, '-10 b')):
    expect(v, format_si_binary(v), want)
""")

bug('plural-of-one', 'C27',
    'one unit and a fraction',
    'plural is used',
    [(DELTA, 'if self._plural_suffix and trunc(num) != 1:', 'if self._plural_suffix and num != 1:')],
    r"""
from pytermor.util import format_time_delta
for v, want in ((1, '1 sec'), (1.5, '1 sec'), (2, '2 secs')):
    expect(v, format_time_delta(v, 10).strip(), want)
""")

bug('pad-sgr', 'C28',
    'left alignment of a string which consists of sequences only',
    'it is not padded',
    [(EXT, '    sanitized = ReplaceSGR().apply(s)\n    return s + fillchar * max(0, width - len(sanitized))',
      '    sanitized = ReplaceSGR().apply(s) or s\n    return s + fillchar * max(0, width - len(sanitized))')],
    r"""
from pytermor.util import ljust_sgr
expect('text', ljust_sgr('\x1b[1mx', 4), '\x1b[1mx   ')
expect('sequence', ljust_sgr('\x1b[1m', 4), '\x1b[1m    ')
""")

bug('sgr-one-param', 'C29',
    'CSI sequences with a colon or another private character',
    'they are not replaced',
    [(FILTER, r"(([0-9;:<=>?])*)([@A-Za-z])'", r"(([0-9;<=>?])*)([@A-Za-z])'")],
    r"""
from pytermor.util import ReplaceCSI
for s in ('\x1b[4:3m', '\x1b[?25h', '\x1b[1;2H'):
    expect(s, ReplaceCSI('.').apply('a' + s + 'b'), 'a.b')
""")

bug('swallowed-write', 'C31',
    'the output cannot be written (disk full, or its encoding lacks the characters)',
    'the failure is not noticed: exit code 0 and no message',
    [(CONSOLE, '        print(s, end=end, **kwargs)',
      "        try:\n            print(s, end=end, **kwargs)\n            (kwargs.get('file') or sys.stdout).flush()\n"
      "        except BrokenPipeError:\n            raise\n        except (OSError, UnicodeError):\n            pass")],
    r"""
env = dict(os.environ, PYTHONPATH=REPO, COLUMNS='80', PYTHONIOENCODING='ascii', PYTHONDONTWRITEBYTECODE='1')
p = subprocess.run([sys.executable, '-B', '-m', 'kolombos'], input=b'abc\n', capture_output=True, cwd=REPO, env=env, timeout=120)
expect('exit code', p.returncode != 0, True)
expect('message', b'UnicodeEncodeError' in p.stderr, True)
""")

bug('falsy-setting', 'C33',
    'the table of settings, and an option set to zero whose default is not zero (-L0, -B0, -w0)',
    'the table shows the default instead of the value in force',
    [(CONSOLE, '            if app_value != default_value:', '            if app_value and app_value != default_value:')],
    r"""
rc, out, err = run(['-DDD', '-L0'])
expect('rows', [l.split('│')[1] for l in plain(out).splitlines() if l.strip().startswith('max_lines')], ['0 [None]'])
rc, out, err = run(['-DDD', '-L5'])
expect('rows', [l.split('│')[1] for l in plain(out).splitlines() if l.strip().startswith('max_lines')], ['5 [None]'])
""")

bug('frame-length', 'C33',
    'separators of the table of settings, in a terminal wider than the table',
    'they are longer than the terminal is wide, and wrap',
    [(CONSOLE, "max_width - len(ReplaceSGR('').apply(main_part+settings_part))",
      "max_width - len(ReplaceSGR('').apply(main_part)) - Console.settings_prefix_len * settings_open")],
    r"""
for level in ('-D', '-DDD', '-DDDD'):
    rc, out, err = run([level], b'abc\n', columns=100)
    expect(level, {len(l) for l in plain(out).splitlines() if l.startswith('──')}, {100})
""")

bug('size-of-pipe', 'C34',
    'a named pipe, terminal or other file without a size is given by name',
    'nothing of it is dumped: the read buffer is made as small as the file',
    [(READER, "            self._io = open(self._filename, 'rb')",
      "            self._io = open(self._filename, 'rb')\n"
      "            self._chunk_size = min(self._chunk_size, self._io.seek(0, 2) if self._io.seekable() else 0)\n"
      "            self._io.seekable() and self._io.seek(0)")],
    r"""
r, w = os.pipe()
os.write(w, b'abc\n')
os.close(w)
expect('pipe', run([f'/dev/fd/{r}'], pass_fds=(r,))[:2], run([], b'abc\n')[:2])
""")

bug('dashes-stdin', 'C34',
    'a file whose name consists of several dashes',
    'the standard input is read instead',
    [(READER, "        return not self._filename or self._filename == '-'",
      "        return not str(self._filename or '').strip('-')")],
    r"""
import tempfile
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, '---'), 'wb') as f:
        f.write(b'file\n')
    env = dict(os.environ, PYTHONPATH=REPO, COLUMNS='80', PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', '-m', 'kolombos', '--', '---'], input=b'stdin\n', capture_output=True, cwd=d, env=env, timeout=120)
    expect('dump', p.stdout.decode(), run([], b'file\n')[1])
""")

bug('name-in-message', 'C34',
    'an input that cannot be read, whose name has escape sequences in it',
    'they get to the terminal with the error message',
    [(CONSOLE, "            Console.error(f'{e.__class__.__name__}: {e!s}')\n            Console.info(\"Run the app with",
      "            Console.error(f'{e.__class__.__name__}: ' + (f'{e.strerror}: {e.filename}' if isinstance(e, OSError) and e.filename else f'{e!s}'))\n"
      "            Console.info(\"Run the app with")],
    r"""
rc, out, err = run(['no\x1b[5mfile'])
expect('exit code', rc, 1)
expect('sequence', '\x1b[5m' in err, False)
""")

bug('assert-remove', 'C35',
    'the interpreter runs with assertions turned off (PYTHONOPTIMIZE, -O)',
    'spans never end: their colors come back on every next line',
    [(SEGBUF, '                self._active_sgrs.remove(cur_element.ref)',
      '                assert self._active_sgrs.remove(cur_element.ref) is None')],
    r"""
data = b'a\x1b[31mb\n c\xff\nd\n'
for args in ([], ['-b', '-w3']):
    want = run(args, data)[:2]
    os.environ['PYTHONOPTIMIZE'] = '1'
    expect(args, run(args, data)[:2], want)
    del os.environ['PYTHONOPTIMIZE']
""")

bug('width-of-stderr', 'C35',
    'no COLUMNS, and standard error is a terminal of another width than standard output (or output is not a terminal)',
    'the width of the wrong terminal is used',
    [(COMMON, '        import shutil as _shutil\n        width = _shutil.get_terminal_size().columns',
      "        import os as _os, shutil as _shutil, sys as _sys\n"
      "        if 'COLUMNS' not in _os.environ and _sys.stderr.isatty() and not _sys.stdout.isatty():\n"
      "            width = _os.get_terminal_size(_sys.stderr.fileno()).columns\n"
      "        else:\n"
      "            width = _shutil.get_terminal_size().columns")],
    r"""
import fcntl, pty, struct, termios
m, s = pty.openpty()
fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack('HHHH', 24, 200, 0, 0))
env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
env.pop('COLUMNS', None)
p = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-m', 'kolombos', '-b'], input=bytes(range(100)), stdout=subprocess.PIPE, stderr=s, env=env)
expect('dump', p.stdout.decode(), run(['-b'], bytes(range(100)))[1])
""")

bug('stdin-first', 'C35',
    'a file is given, and there is no standard input',
    'the file is not dumped',
    [(READER, "        if self.reading_stdin:\n            self._io = sys.stdin.buffer\n",
      "        self._io = sys.stdin.buffer\n        if self.reading_stdin:\n")],
    r"""
path = os.path.join(REPO, 'LICENSE')
env = dict(os.environ, PYTHONPATH=REPO, COLUMNS='80', PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
p = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-m', 'kolombos', path], capture_output=True, env=env, preexec_fn=lambda: os.close(0))
expect('dump', (p.returncode, p.stdout.decode()), run([path])[:2])
""")

bug('help-of-dumb', 'C35',
    'help in a terminal, where the variable TERM is not set or NO_COLOR is',
    'it is not styled as it is elsewhere',
    [('pytermor/render.py', '        return sys.stdout.isatty()\n',
      "        import os\n        return sys.stdout.isatty() and bool(os.environ.get('TERM')) and 'NO_COLOR' not in os.environ\n")],
    r"""
import pty, select
def at_terminal(**kw):
    m, s = pty.openpty()
    env = dict(PYTHONPATH=REPO, COLUMNS='80', PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1', **kw)
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-B', '-m', 'kolombos', '--help'], stdin=subprocess.DEVNULL, stdout=s, stderr=s, env=env)
    os.close(s)
    got = b''
    while True:
        try:
            piece = os.read(m, 4096)
        except OSError:
            break
        if not piece:
            break
        got += piece
    p.wait()
    return got
a = at_terminal(TERM='xterm')
expect('TERM', at_terminal(), a)
expect('NO_COLOR', at_terminal(TERM='xterm', NO_COLOR='1'), a)
""")

MEMORY_DEMO = r"""
import resource, tempfile
def size(args, data):
    with tempfile.TemporaryFile() as f:
        f.write(data)
        f.seek(0)
        env = dict(os.environ, PYTHONPATH=REPO, COLUMNS='80', PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-B', '-m', 'kolombos', *args], stdin=f, stdout=subprocess.DEVNULL, env=env)
        return os.wait4(p.pid, 0)[2].ru_maxrss
def grows(args, unit, n):
    small, large = size(args, unit * (12000 // len(unit))), size(args, unit * n)
    expect(('memory', args, unit), large - small > 2000, False)
"""

bug('lengths-kept', 'C36',
    'long inputs: a number is kept for every row which was printed',
    'memory in use grows with the input until it runs out',
    [(SEGBUF, '        self._last_detached_data_len = 0\n', '        self._detached_data_len: List[int] = [0]\n'),
     (SEGBUF, '        return self._last_detached_data_len\n', '        return self._detached_data_len[-1]\n'),
     (SEGBUF, '        self._last_detached_data_len = sum([el.data_len for el in output])',
      '        self._detached_data_len.append(sum([el.data_len for el in output]))')],
    MEMORY_DEMO + "grows([], b'\\n', 400000)\n")

bug('chunks-kept', 'C36',
    'long inputs, at any debug level',
    'all of the input is kept in memory until the end',
    [(READER, '        chunks = 0\n', '        chunks = []\n'),
     (READER, 'Read chunk #{chunks}: ', 'Read chunk #{len(chunks)}: '),
     (READER, '                chunks += 1\n', '                chunks.append(raw_input)\n')],
    MEMORY_DEMO + "grows([], b'a' * 1000 + b'\\n', 4000)\n")

bug('lines-over-all', 'C36',
    'a long input and a limit of lines which is not reached',
    'all of the input is kept in memory, in order to count lines in it',
    [(READER, "        lines = 0\n        chunks = 0\n", "        lines = 0\n        before = []\n        chunks = 0\n"),
     (READER, "                if max_lines:\n                    for line_break", "                if max_lines:\n                    lines = sum(c.count(b'\\n') for c in before)\n                    before.append(raw_input)\n                    for line_break")],
    MEMORY_DEMO + "grows(['-L999999999'], b'a' * 1000 + b'\\n', 4000)\n")

bug('decoded-kept', 'C36',
    'an input with many different SGR sequences',
    'every one of them is remembered forever',
    [(SGRTPL, "        self._details_fmt_str: str|None = None\n", "        self._details_fmt_str: str|None = None\n        self._known = {}\n"),
     (SGRTPL, "        self._details_fmt_str = s.decode('ascii')\n",
      "        self._details_fmt_str = self._known.setdefault(s, s.decode('ascii'))\n")],
    MEMORY_DEMO + "data = b''.join(b'\\x1b[38;2;%d;%d;%dm\\n' % (k % 256, k // 256, 7) for k in range(20000))\n"
    "expect('memory', size([], data) - size([], data[:12000]) > 2000, False)\n")

WORK_DEMO = r"""
CODE = '''
import sys
from kolombos.app import App
n = 0
def event(*a):
    global n
    n += 1
mon = sys.monitoring
mon.use_tool_id(4, 'steps')
ev = mon.events
for e in (ev.PY_START, ev.PY_RESUME, ev.CALL, ev.JUMP):
    mon.register_callback(4, e, event)
mon.set_events(4, ev.PY_START | ev.PY_RESUME | ev.CALL | ev.JUMP)
try:
    App().run()
except SystemExit as e:
    mon.set_events(4, 0)
    print('steps', n, e.code, file=sys.stderr)
'''
def steps(args, data):
    env = dict(os.environ, PYTHONPATH=REPO, COLUMNS='80', PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-c', CODE, *args], input=data, capture_output=True, env=env, timeout=120)
    m = re.search('steps ([0-9]+) 0', p.stderr.decode())
    expect((args, 'finished'), m is not None, True)
    return int(m[1])
def grows(args, unit, n):
    a, b, c = (steps(args, unit * k) for k in (n, 2 * n, 4 * n))
    expect(('steps', args, a, b, c, 'proportional'), c - b < 2.6 * (b - a), True)
"""

bug('all-breaks', 'C37',
    'text mode, many lines which come with one read',
    'the rest of the input is scanned for every line: time grows with the square of the read size',
    [(SEGBUF, '            avail_bytes += el.data_len\n            if el.is_newline:\n                has_newline = True\n                break\n',
      '            if not has_newline:\n                avail_bytes += el.data_len\n            has_newline = has_newline or el.is_newline\n')],
    WORK_DEMO + "grows(['-f1000000'], b'a\\n', 500)\n")

bug('debug-of-rest', 'C37',
    'binary or text mode, many rows out of one read; debugging may be off',
    'a debug message about everything that is left is made for every row: time grows with the square of the read size',
    [(SEGBUF, "        self._debug_buffer.write(2, 'Detached ' + Spans.BOLD(sum([el.data_len for el in output])) + ' data byte(s)')",
      "        rest = sum(len(el.preview()) if hasattr(el, 'preview') else el.data_len for el in self._segment_chain)\n"
      "        self._debug_buffer.write(2, 'Detached ' + Spans.BOLD(self._last_detached_data_len) + f' data byte(s), {rest} left')")],
    WORK_DEMO + "grows(['-f1000000', '-b', '-w2'], b'a\\n', 300)\n")

bug('flush-history', 'C37',
    'any long input',
    'each flush goes over the history of flushes, time grows with the square of the number of rows',
    [(CONSOLE, "    def __init__(self):\n        self._buf = ''\n        Console.register_buffer(self)\n",
      "    def __init__(self):\n        self._buf = ''\n        self._lengths = []\n        Console.register_buffer(self)\n"),
     (CONSOLE, "        self._buf += f'{s}{end}'\n        if flush:\n            self.flush()\n\n    def write_with_line_num",
      "        self._buf += f'{s}{end}'\n        if flush:\n            self.flush()\n\n    @property\n    def printed(self) -> int:\n"
      "        return sum(length for length in self._lengths)\n\n    def write_with_line_num"),
     (CONSOLE, "        self._buf += f'{prefix}{s}{end}'\n        if flush:\n            self.flush()\n\n    def write_with_offset",
      "        self._buf += f'{prefix}{s}{end}'\n        self._lengths.append(len(self._buf))\n"
      "        if flush and self.printed:\n            self.flush()\n\n    def write_with_offset")],
    WORK_DEMO + "grows([], b'a\\n', 1000)\n")

bug('wide-justify', 'C01',
    'binary mode with more than 32 columns, and a last row that lacks more than 32 bytes',
    'the text column of the last row is not aligned with the others',
    [(BINFMT, "        return '   '*num_bytes\n", "        return f'{\"\":{min(3 * num_bytes, 96)}s}'\n")],
    r"""
rc, out, err = run(['-b', '-w64'], b'a' * 80, 300)
rows = plain(out).split('\n')
expect('alignment', rows[0].rindex('│'), rows[1].rindex('│'))
""")

bug('short-read-eof', 'C03',
    'a read which returns less than the size of the buffer (a pipe) before the end of the input',
    'a short read is taken for the end: rows are completed early, sequences are broken',
    [(READER, 'self._read_callback(raw_input, self._offset, False)',
      'self._read_callback(raw_input, self._offset, 0 < len(raw_input) < min(self._chunk_size, 4))')],
    r"""
whole = run(['-b', '-w8', '-f4'], b'abcdefghi\xd0\xb6')
p = subprocess.Popen([sys.executable, '-B', '-c', '''
import sys, types
from kolombos.app import App
class In:
    parts = [b"abcd", b"e", b"fgh", b"i\\xd0\\xb6"]
    closed = False
    def read(self, n=-1): return self.parts.pop(0) if self.parts else b""
    def close(self): self.closed = True
sys.stdin = types.SimpleNamespace(buffer=In())
App().run()
''', '-b', '-w8', '-f4'], stdout=subprocess.PIPE, cwd=REPO, env=dict(os.environ, PYTHONPATH=REPO, COLUMNS='80', PYTHONIOENCODING='utf-8'))
out = p.communicate(timeout=60)[0].decode()
expect('short reads', plain(out), plain(whole[1]))
""")

bug('wide-char', 'C02',
    'binary mode with --decode, a character of double width (CJK, emoji)',
    'the cell of the character is one column short, the following ones are shifted against the hex column',
    [(UTF8TPL, 'import annotations\n', 'import annotations\n\nimport unicodedata\n'),
     (UTF8TPL, '                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)\n',
      "                    wide = unicodedata.east_asian_width(decoded) == 'W'\n"
      "                    decoded = decoded.rjust(len(raw) - wide, self.DECODED_LEFT_FILL_CHAR)\n")],
    r"""
rc, out, err = run(['-b', '-d', '-w3', '--no-offsets'], '日'.encode() + b'abc')
expect('rows', [r.rstrip() for r in plain(out).split('\n')][:2], [' e6 97 a5  __日', ' 61 62 63  abc'])
""")

bug('bom-dropped', 'C04',
    'text mode, a byte order mark (U+FEFF) anywhere in the input',
    'the character disappears from the output',
    [(UTF8TPL, "decoded = raw.decode('utf8', errors='replace')", "decoded = raw.decode('utf-8-sig', errors='replace')")],
    r"""
rc, out, err = run(['--no-line-numbers'], 'a\ufeffb'.encode())
expect('bom', plain(out).rstrip('\n'), 'a\ufeffb')
""")

bug('unicode-break', 'C04',
    'text mode, a Unicode line or paragraph separator (U+2028, U+2029) in the input',
    'the line is taken for finished there: one input line takes two numbered lines',
    [(SEGMENT, "        return '\\n' in self._processed\n", "        return len(f'{self._processed}.'.splitlines()) > 1\n")],
    r"""
rc, out, err = run([], 'a\u2028b\n'.encode())
expect('lines', plain(out).rstrip('\n'), ' 1│a\u2028b↵')
""")

bug('csi-long', 'C05',
    'a CSI sequence with more than 48 bytes of parameters',
    'the sequence is taken for an Fe sequence followed by printable characters',
    [(PARSER, r"b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'", r"b'((\x1b)(\\x5b)([\x30-\x3f]{0,48})([\x20-\x2f]*)([\x40-\x7e]))|'")],
    r"""
rc, out, err = run(['--no-line-numbers', '-m2', '--no-separators'], b'\x1b[' + b'1;' * 30 + b'31mX')
expect('one marker', plain(out).rstrip('\n'), 'ǝ[' + '1;' * 30 + '31mX')
rc, short, err = run(['--no-line-numbers', '-m0'], b'\x1b[31mX')
rc, out, err = run(['--no-line-numbers', '-m0'], b'\x1b[' + b'1;' * 30 + b'31mX')
expect('marker only', out, short)
""")

bug('sixteen-params', 'C12',
    'brief marker details, an SGR sequence with more than 16 parameters',
    'the parameters after the sixteenth are not shown',
    [(SGRTPL, "params = self._details_fmt_str.split(';')", "params = self._details_fmt_str.split(';')[:16]")],
    r"""
rc, out, err = run(['--no-line-numbers', '-m1', '--no-separators'], b'\x1b[' + b';'.join([b'1', b'22'] * 9) + b'm')
expect('all parameters', plain(out).rstrip('\n'), 'ǝ' + '･'.join(['1', '22'] * 9))
""")

bug('sixteen-colors', 'C13',
    'colored markers, an SGR sequence that names colors with more than 16 numbers',
    'the marker is colored by the first numbers only',
    [(SGRTPL, 'self._details_opening_seq = SequenceSGR(*pcodes_allowed)', 'self._details_opening_seq = SequenceSGR(*pcodes_allowed[:16])')],
    r"""
rc, out, err = run(['--no-line-numbers', '--color-markers'], b'\x1b[' + b'31;' * 17 + b'32mX')
expect('last color', re.search(r'\x1b\[([0-9;]*)m[^\x1b]*ǝ', out)[1].split(';').count('32'), 1)
""")

bug('flags-as-count', 'C29',
    'a string with more than 32 occurrences of what a filter replaces',
    'only the first 32 are replaced',
    [(FILTER, '        return self._regex.sub(self._repl, s)', "        return self._regex.sub(self._repl, s, *([int(re.UNICODE)] if isinstance(s, str) else []))")],
    r"""
from pytermor.util.string_filter import VisualuzeWhitespace, ReplaceSGR
expect('spaces', VisualuzeWhitespace().apply('a ' * 40), 'a·' * 40)
expect('sequences', ReplaceSGR().apply('a\x1b[1m' * 40), 'a' * 40)
""")

bug('offset-digits', 'C10',
    'decimal offsets, more than 9999999 bytes of input',
    'the offset is rounded and printed in exponential form',
    [(CONSOLE, "            offset_str = f'{offset:d}'", "            offset_str = f'{offset:.7g}'")],
    r"""
from kolombos.settings import SettingsManager
from kolombos.console import Console
SettingsManager.init()
SettingsManager.app_settings.decimal_offsets = True
expect('offset', plain(Console.format_prefix_with_offset(12345678)), '12345678│')
expect('total', plain(Console.format_total_size(123456789)), '123456789│')
""")

bug('close-enough', 'C23',
    'a color which is near to two colors of the palette, and to the one listed first within a distance of 3',
    'the search stops at the first one, though the other is nearer',
    [(COLOR, "            result.append((cached_color, distance_sq))\n",
      "            result.append((cached_color, distance_sq))\n            if distance_sq <= 9 and max_results == 1:\n                break\n")],
    r"""
from pytermor.color import ColorIndexed256, Colors
def dist(a, b):
    return sum((x - y) ** 2 for x, y in zip(a.to_bytes(3, 'big'), b.to_bytes(3, 'big')))
table = [v for k, v in vars(Colors).items() if isinstance(v, ColorIndexed256) and v.hex_value is not None]
for c in (0x606161, 0x616061, 0x616160, 0x606160):
    expect(hex(c), dist(c, ColorIndexed256.find_closest(c).hex_value), min(dist(c, v.hex_value) for v in table))
""")
