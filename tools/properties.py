"""Writes properties.jsonl (edit the texts here)."""
import json
import os

P = []


def prop(id, title, statement, over, text, cant, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': cant, 'anchors': a})


SEGBUF, PARSER, READER = 'kolombos/byteio/segment/buffer.py', 'kolombos/byteio/parser/', 'kolombos/byteio/reader.py'
BINFMT, TXTFMT, CONSOLE = ('kolombos/byteio/formatter/binary.py', 'kolombos/byteio/formatter/text.py',
                           'kolombos/console.py')
TPL = 'kolombos/byteio/template/'
TESTS = 'The unit tests feed a handful of fixed byte strings to the parser with one setting each; '

prop('C01', 'Binary dump is lossless and in order',
     'In binary mode the hex column, read row by row, is exactly the sequence of input bytes: nothing is lost, '
     'added, repeated or reordered. Every row except the last holds exactly the configured number of bytes, and '
     'rows of every length are aligned.',
     ['inputs', 'configurations'],
     'every byte string; every column count, offset, decoding, focus/ignore and color-marker setting',
     TESTS + 'the table itself (rows cutting sequences, runs longer than the read buffer) is not tested at all.',
     [SEGBUF, BINFMT, PARSER, READER],
     [('segment chain cut by the requested number of bytes', SEGBUF), ('row layout', BINFMT),
      ('segmentation of the stream', 'kolombos/byteio/parser/parser.py')],
     ['standard output of the binary mode'],
     [('segment chain', 'parsed bytes that were not printed yet', SEGBUF)])

prop('C02', 'Binary dump shows one glyph of the right kind per byte',
     'In binary mode the text column of a row has exactly one character per byte of its hex column, at the same '
     'position, and that character is the documented marker of the class the byte belongs to (or the byte itself, '
     'or the decoded character right-aligned over the bytes of its sequence). '
     'This holds as well for sequences cut by the end of a row.',
     ['inputs', 'configurations'],
     'every byte string; every column count, with and without decoding, with every class ignored or focused',
     TESTS + 'no test looks at the text column of a row, or cuts a multibyte sequence by a row end.',
     [SEGBUF, TPL, BINFMT, 'kolombos/byteio/segment/segment.py'],
     [('splitting segments', 'kolombos/byteio/segment/segment.py'), ('markers', TPL),
      ('decoding of UTF-8 in binary mode', TPL + 'template_utf8.py')],
     ['standard output of the binary mode'])

prop('C03', 'Output does not depend on how the input arrives',
     'The same bytes produce the same output however they are split into reads: with any read buffer size, and '
     'with any short reads of a pipe. In particular, a multibyte sequence split between two reads is shown as if it '
     'was not.',
     ['schedules', 'inputs'],
     'every way of cutting every byte string into non-empty reads; every read buffer size',
     TESTS + 'no test delivers the input in more than one piece.',
     [READER, 'kolombos/byteio/parser/parser.py', SEGBUF],
     [('hold-back of unfinished sequences at the chunk end', PARSER), ('line/row completion waiting', SEGBUF)],
     ['standard output of both modes'],
     [('unparsed tail', 'bytes held back until the next read', PARSER)])

prop('C04', 'Text mode keeps every line, numbers them and shows every byte',
     'In text mode there is exactly one output line per input line (the last one may lack a line break), in order, '
     'numbered consecutively from 1, and every input byte is represented on its line by the marker or the character '
     'documented for it, in order; nothing else is printed.',
     ['inputs', 'configurations'],
     'every byte string; every marker detail level, separator, numbering, focus/ignore and color-marker setting',
     TESTS + 'line structure, numbering and the last unterminated line are not tested.',
     [SEGBUF, TXTFMT, TPL, CONSOLE],
     [('line detaching', SEGBUF), ('line numbers', CONSOLE), ('markers', TPL)],
     ['standard output of the text mode'])

prop('C05', 'Every byte is classified by the documented syntax',
     'Each byte belongs to exactly one class - control character, whitespace, printable, escape sequence (and which '
     'kind), valid UTF-8 sequence, or binary data - determined by ASCII, the ECMA-35/ECMA-48 escape sequence syntax '
     'and the definition of UTF-8, the longest valid sequence at each position winning; the marker and the color of '
     'its class are what is shown in both modes.',
     ['inputs'],
     'every byte string, including truncated, malformed, overlong and interleaved sequences',
     'The unit tests check some sequences of every class in isolation; malformed and adjacent sequences are an '
     'unbounded family which they only touch.',
     [PARSER, TPL, 'kolombos/byteio/const.py', 'kolombos/byteio/common.py'],
     [('sequence patterns', 'kolombos/byteio/parser/parser.py'), ('template of a class', TPL + 'registry.py')],
     ['characters and colors of both modes'])

prop('C06', 'Nothing in the input can act on the terminal',
     'Whatever the input is, the output contains no control character except line breaks, tabs and the well-formed '
     'color sequences (SGR) that the application itself emits: no other escape sequence, no C0 or C1 control, raw or '
     'decoded.',
     ['inputs', 'configurations'],
     'every byte string; all modes, options and debug levels',
     TESTS + 'no test looks for what must not be in the output.',
     [TPL, CONSOLE, SEGBUF, 'kolombos/byteio/formatter/_abstract.py'],
     [('markers replacing control bytes', TPL), ('debug previews', CONSOLE)],
     ['standard output and standard error'])

prop('C07', 'Styles never leak between fields, rows and bytes',
     'Prefixes, separators and padding always have their own style, independent of the data around; a byte has the '
     'same style in the hex and the text columns, whatever the row width, buffer size or neighbours are; no '
     'background, underline or inversion survives a row, and the output ends with the default style.',
     ['inputs', 'configurations'],
     'every byte string; every width, focus/ignore and color-marker setting',
     'Styles of rows with several segments, cut by row ends or reordered closings, are not looked at by any test.',
     [SEGBUF, BINFMT, TXTFMT, TPL],
     [('reopening and closing of active styles at row ends', SEGBUF), ('closing sequences', 'pytermor/ansi.py')],
     ['standard output seen as a terminal shows it'],
     [('active styles', 'opened and not closed yet', SEGBUF)])

prop('C08', 'Focusing or ignoring a class affects this class only',
     'Focusing a class changes only the style (and, for spaces, the marker) of the bytes of this class; ignoring a '
     'class replaces each of its bytes with the ignored marker, one for one. Bytes of all other classes, hex values, '
     'offsets, line numbers, and line and row structure stay exactly the same, in every combination of focused and '
     'ignored classes.',
     ['configurations', 'inputs'],
     'all 729 combinations of focused / ignored / normal classes, over every byte string',
     'The tests check single classes in single settings; the combinations and their independence are not covered.',
     [TPL, 'kolombos/settings.py', 'kolombos/byteio/partial_override.py', 'kolombos/arghelp.py'],
     [('display mode of a class', 'kolombos/settings.py'), ('overrides per display mode', TPL)],
     ['standard output of both modes'])

prop('C09', 'Byte and line limits stop the dump exactly there',
     'With a byte limit N the output is that for the first N bytes of the input, with a line limit N that for its '
     'first N lines (without the last line break), with both that for whichever ends first, in both modes and with any buffer size. '
     'The application stops reading once a limit is reached, so it terminates on endless input.',
     ['inputs', 'configurations', 'schedules'],
     'every limit, byte string and way of delivery',
     'No test runs the reader with a limit.',
     [READER], [('limit bookkeeping of the read loop', READER)],
     ['standard output; number of bytes requested from the input'],
     [('offset / line counters', 'what was read so far', READER)])

prop('C10', 'Offsets and the total are exact at any magnitude',
     'The offset printed on every row of a binary dump is the number of bytes printed on the rows before it, and the '
     'total is the number of all bytes, in hexadecimal or decimal as requested, complete and readable for every '
     'size of the input.',
     ['inputs', 'configurations'],
     'every input length and width; hexadecimal and decimal formats',
     'No test prints an offset; wrong ones would show only at particular magnitudes.',
     [BINFMT, CONSOLE], [('offset accumulation', BINFMT), ('offset formatting', CONSOLE)],
     ['prefix column of the binary mode'])

prop('C11', 'Every input and option value is processed to the end',
     'For every input and every syntactically valid combination of options the application terminates normally: exit '
     'code 0, nothing on standard error, no traceback, no endless loop, and, in dump modes, all the data printed.',
     ['inputs', 'configurations'],
     'every byte string; every accepted option value including zero, negative and huge ones; every terminal width',
     'The tests never run the application with unusual option values, or inputs chosen to break it.',
     ['kolombos/app.py', 'kolombos/arghelp.py', 'kolombos/settings.py', PARSER, SEGBUF, TPL, BINFMT],
     [('error handling', 'kolombos/app.py'), ('parsing loop', PARSER)],
     ['exit code, standard error'])

prop('C12', 'Marker details in text mode show exactly the bytes they stand for',
     'At detail level 0 a sequence is its marker only; at level 2 the marker is followed by the rest of the bytes of '
     'the sequence, verbatim; at level 1 by a brief form: the letter of a control character, and all the '
     'parameters of an SGR with extended colors folded. Separators surround every escape sequence unless disabled, '
     'and the order, number and values of the parameters are always kept.',
     ['inputs', 'configurations'],
     'every control character and escape sequence, every list of SGR parameters; all detail levels',
     'The tests check a few sequences per level; combinations of extended colors with ordinary parameters are '
     'unbounded.',
     [TPL], [('SGR template', TPL), ('details enumeration', 'kolombos/byteio/const.py')],
     ['standard output of the text mode'])

prop('C13', 'Colored markers show the colors of the sequence and nothing else',
     'With color markers enabled, the marker of an SGR sequence is shown with exactly the colors and effects '
     'named in that sequence, except those making it unreadable (inversion, blinking, hiding and so on) and those '
     'turning something off; all other bytes look the same as without the option, as do all the characters.',
     ['inputs', 'configurations'],
     'every list of SGR parameters, including extended, incomplete and unknown ones; both modes',
     'The option is checked by no test over more than one sequence.',
     [TPL, SEGBUF], [('allowed SGR filter', TPL), ('opening sequence of a segment', TPL)],
     ['standard output seen as a terminal shows it'])

prop('C14', 'Automatic width fits the terminal and loses nothing',
     'Without an explicit width the binary table has a multiple of four columns, at least four, all rows fit the '
     'terminal whenever four columns do, and a wider terminal never gives fewer columns; the content is the same as '
     'with that width requested explicitly.',
     ['configurations', 'inputs'],
     'every terminal width, offset format and magnitude, byte string',
     'Widths other than that of the test terminal are never tried by tests.',
     [BINFMT, 'kolombos/common.py'], [('columns computation', BINFMT)],
     ['standard output of the binary mode'])

prop('C15', 'The command line selects one mode and one source',
     'Exactly one action is performed: the one selected on the command line, whatever the order of the options; '
     'conflicting options are refused with a usage error before anything is read; a file and the standard input with '
     'the same bytes give the same output; errors end with a non-zero exit code and a message on standard error.',
     ['configurations', 'histories'],
     'every combination and order of the options up to a depth, every kind of source',
     'The command line is not tested at all.',
     ['kolombos/arghelp.py', 'kolombos/app.py', 'kolombos/runner/factory.py', 'kolombos/settings.py', READER],
     [('exclusive groups', 'kolombos/arghelp.py'), ('runner selection', 'kolombos/runner/factory.py')],
     ['exit code, standard output, standard error'])

prop('C16', 'Runs do not influence each other',
     'The output of a run depends on its own options and input only: any sequence of runs in one process, whatever '
     'their modes, options and failures, produces the same outputs as each of them alone.',
     ['histories'],
     'all histories of runs over a menu of options and inputs up to a depth',
     'Tests run in a fixed order with a fresh setup; state kept in shared templates, sequences and caches shows up '
     'only after particular histories.',
     [TPL, CONSOLE, 'kolombos/settings.py', 'pytermor/ansi.py', 'pytermor/color.py'],
     [('settings reset', 'kolombos/settings.py'), ('templates created per run', TPL + 'registry.py')],
     ['standard output of every run'],
     [('templates', 'carry overrides between segments', TPL), ('registered buffers', 'global list', CONSOLE)])

prop('C17', 'Debugging output only adds to the dump',
     'At every debug level the rows of the dump itself are all there, unchanged in content; the debug rows carry '
     'offsets and hex dumps that account for every input byte once, in order.',
     ['inputs', 'configurations'],
     'every byte string; debug levels 1 to 4, both modes, all detail levels',
     'Debug output is not tested.',
     [BINFMT, TXTFMT, CONSOLE, SEGBUF], [('debug buffers', CONSOLE), ('debug printers', 'kolombos/byteio/formatter/')],
     ['standard output with debugging on'])

prop('C18', 'The segment queue gives out what was put in, whatever the order of requests',
     'For every interleaving of appending segments and taking bytes or lines, what was taken plus what is left is '
     'what was put in, in order, with the same bytes, markers and styles; a request that cannot be served changes '
     'nothing; each piece taken is styled completely and leaves no style open.',
     ['histories'],
     'all histories of attach and detach operations over a menu of segments and sizes up to a depth',
     'Only single fixed sequences of operations are reached through the existing tests.',
     [SEGBUF, 'kolombos/byteio/segment/segment.py', 'kolombos/byteio/segment/sequence_ref.py'],
     [('detaching', SEGBUF), ('splitting', 'kolombos/byteio/segment/segment.py')],
     ['strings returned by the queue'],
     [('chain', 'segments and style references', SEGBUF), ('active styles', 'opened, not closed', SEGBUF)])

prop('C19', 'Demo, legend and version show what they promise',
     'The demo is the dump of the bundled file with the documented defaults, each of which an explicit '
     'option overrides; the legend shows each documented marker with the style the dump really uses for it; the '
     'version output names the version; none of them reads the input.',
     ['configurations'],
     'all combinations of dump options with the demo; all markers of the legend',
     'None of these is run by tests; the legend is a static file that nothing ties to the code.',
     ['kolombos/runner/', 'kolombos/demo.bin', 'kolombos/legend.ansi', 'kolombos/version.py'],
     [('demo runner', 'kolombos/runner/demo.py'), ('legend runner', 'kolombos/runner/legend.py')],
     ['standard output'])

ANSI, COLOR, RENDER, UTIL = 'pytermor/ansi.py', 'pytermor/color.py', 'pytermor/render.py', 'pytermor/util/'

prop('C20', 'A closed span leaves the terminal as it was',
     'For every list of color and effect sequences, printing the opening part of a span built of them and then '
     'its automatically generated closing part restores the default attributes, touching no attribute that the '
     'opening part did not set, so that text of an outer span keeps all its other attributes.',
     ['inputs'],
     'all combinations of SGR parameters up to a length, on every surrounding style of a menu',
     'The tests list some pairs of opening and closing sequences.',
     [ANSI], [('closing sequence assembly', ANSI)], ['strings produced by spans'])

prop('C21', 'Sequence algebra: building, adding and comparing SGR sequences',
     'A sequence built from names, numbers or other sequences carries exactly those parameters in order and '
     'assembles to the standard form; addition concatenates parameters, is associative and never changes the '
     'operands; equality and hash agree with the parameters; invalid arguments are refused.',
     ['inputs', 'histories'],
     'all lists of constructor arguments and all sums of them up to a length',
     'Tests check single examples of each constructor and sums of two.',
     [ANSI], [('constructors and operators', ANSI)], ['parameters and assembled strings'])

prop('C22', 'Renderers express the style and preserve the text',
     'Every renderer keeps the text unchanged and expresses exactly the attributes of the style in its own notation: '
     'colors, degraded to the nearest available ones where the output mode has fewer, and all effects; disabled '
     'output or an empty style yields the plain text.',
     ['inputs', 'configurations'],
     'all combinations of foreground, background and effects over a menu; all output modes and renderers',
     'Tests cover one renderer with separate attributes.',
     [RENDER, COLOR, ANSI], [('renderers', RENDER), ('color to sequence', COLOR)], ['rendered strings'])

prop('C23', 'Color approximation finds a nearest color, whatever was asked before',
     'The color of a palette found for an RGB value is one at the smallest distance from it, an exact member of a '
     'palette is found as itself, and the answer does not depend on the history of earlier queries or on the '
     'cache.',
     ['inputs', 'histories'],
     'a grid of RGB values including all palette members and midpoints; all orders of queries of a menu',
     'Tests check a table of values for a fresh cache.',
     [COLOR], [('approximation cache', COLOR), ('distance', COLOR)], ['colors returned'],
     [('caches', 'lookup results kept between queries', COLOR)])

prop('C24', 'Color conversions are consistent and invertible',
     'Converting a color between integer, RGB channels and HSV and back gives the same color; channels come out in '
     'their documented ranges and order.',
     ['inputs'],
     'a grid of all channel extremes and steps over the whole 24-bit space',
     'Tests check a table of colors.',
     [COLOR], [('conversions', COLOR)], ['returned numbers'])

prop('C25', 'Auto-precision floats always have the requested length',
     'Formatting a number with a requested length gives a string of exactly that length whenever the number '
     'fits, being the value correctly rounded to the precision shown, with its sign; a number which does not fit '
     'is shown in exponential form or refused as documented.',
     ['inputs'],
     'every sign, exponent and leading/rounding digit pattern, every length',
     'Tests list some values around powers of ten.',
     [UTIL + 'auto_float.py'], [('exponent and precision selection', UTIL + 'auto_float.py')], ['returned strings'])

prop('C26', 'Prefixed unit values are the value, within the length',
     'A value formatted with a metric or binary unit prefix reads back as the value within the precision shown, with '
     'its sign, uses the prefix that keeps the mantissa in range, and is not longer than the promised length.',
     ['inputs', 'configurations'],
     'all digit patterns and magnitudes over the range of prefixes; all predefined and custom formatters',
     'Tests list some dozens of values.',
     [UTIL + 'prefixed_unit.py'], [('prefix selection', UTIL + 'prefixed_unit.py')], ['returned strings'])

prop('C27', 'Time deltas are rendered within the length, never overstated',
     'A time delta is formatted within the requested length in units that hold the delta, with its sign; the '
     'units shown add up to the delta rounded down to the smallest unit shown.',
     ['inputs', 'configurations'],
     'all deltas around each unit boundary, a dense grid between, all lengths',
     'Tests list some dozens of deltas.',
     [UTIL + 'time_delta.py'], [('unit selection', UTIL + 'time_delta.py')], ['returned strings'])

prop('C28', 'Alignment helpers ignore color sequences',
     'Aligning a string that contains color sequences gives the string a plain alignment gives, with the sequences '
     'kept in place; distributing values over a width fills exactly that width with all values in order and gaps '
     'that differ by no more than one where there is room.',
     ['inputs'],
     'all words over an alphabet of characters and sequences up to a length; all widths and fills',
     'Tests check single strings.',
     [UTIL + 'stdlib_ext.py', 'pytermor/common.py'], [('length without sequences', UTIL + 'stdlib_ext.py')],
     ['returned strings'])

prop('C29', 'String filters replace exactly what they name',
     'A filter replaces every occurrence of what it is made for and leaves all else as it is; filtering is '
     'idempotent where the replacement contains none of it; the filters are independent of the order of application '
     'where they concern different bytes.',
     ['inputs'],
     'all words over an alphabet of bytes, sequences and near-sequences up to a length; all filters and pairs',
     'Tests check one string per filter.',
     [UTIL + 'string_filter.py'], [('patterns', UTIL + 'string_filter.py')], ['returned strings'])

prop('C30', 'Styled text composes like text, styles inherit field by field',
     'Concatenating fragments of styled text keeps all the characters in order, each with its own style, whatever the '
     'order and grouping of the operations, and rendering it changes nothing; a style inherits from its parent '
     'exactly the attributes it does not set itself.',
     ['inputs', 'histories'],
     'all concatenations of a menu of fragments up to a length; all pairs of styles over a menu of fields',
     'Tests do not cover composition.',
     [RENDER], [('Text', RENDER), ('Style inheritance', RENDER)], ['rendered strings, attributes'])

prop('C31', 'An interrupted or failing run shows what it has got and stops cleanly',
     'Whenever the run is cut short - the input cannot be read any further, the user presses Ctrl+C, the reader of the '
     'output leaves - what was displayed by then is exactly the beginning of the undisturbed dump, with all styles '
     'closed, and includes every complete row of the input that was delivered. An interrupt ends the run quietly '
     'with exit code 0, a read error is named on standard error with a non-zero code and without a traceback '
     '(unless debugging), a closed output ends it without complaint, any other output that cannot be written (disk full, '
     'characters which the encoding of the output lacks) is named once on standard error with a non-zero code and without a '
     'traceback, and nothing more is read afterwards.',
     ['crash points', 'faults', 'inputs'],
     'every read of the input at which it may fail; every point of execution between reads at which an interrupt may '
     'arrive; every moment at which the output may be closed; every write that may fail; encodings of the output',
     TESTS + 'no test makes anything fail.',
     [READER, 'kolombos/app.py', CONSOLE, SEGBUF],
     [('KeyboardInterrupt handler and closing of the input', READER), ('reporting of errors, exit codes', 'kolombos/app.py'),
      ('output buffers', CONSOLE)],
     ['standard output, standard error, exit code, number of reads'])

prop('C32', 'The help is complete and readable in every terminal, and tells the truth',
     'The help shows, whatever the terminal width and with colors or without, the same text: every option exactly once, '
     'with all its spellings, its argument, its whole description and default, under its section; descriptions are '
     'aligned and fit the terminal wherever words do; sequences are not broken by wrapping and styles do not leak. '
     'A usage error names the offending argument and shows the usage. Defaults which the help states are those in '
     'effect: giving a default explicitly changes nothing, and the input is read by as many bytes as stated '
     '(4096; 128 when debugging; the given size otherwise).',
     ['configurations'],
     'every terminal width; with and without colors; every usage error; every option with a default',
     'No test prints the help; wrapping depends on the width of the terminal.',
     ['kolombos/arghelp.py', READER],
     [('help formatter', 'kolombos/arghelp.py'), ('option declarations', 'kolombos/arghelp.py'), ('chunk size', READER)],
     ['standard output and standard error of --help and of refused command lines'])

prop('C33', 'Debug mode tells the settings in force and how the input is read',
     'From the third debug level the output begins with a table in which every setting is listed exactly once with the value in '
     'force - the one given last on the command line, or the default -, with the default beside it and marked where they '
     'differ; the fourth level adds the derived ones (effective mode, marker details, offsets, display mode of every character '
     'class), consistent with the others. Lower levels have no table. Tables and separators are exactly as wide as the terminal, '
     'their columns aligned and their crosses in place; separators delimit the processing of every read, and the reads listed '
     '(number, offset, length, bytes at the fourth level) are those of the input cut by buffer size and limits.',
     ['configurations', 'inputs'],
     'all sequences of options up to a length x debug levels; all terminal widths; all lengths x buffer sizes x limits',
     'No test runs the application in debug mode.',
     [CONSOLE, 'kolombos/settings.py', READER, 'kolombos/runner/byteio.py'],
     [('table of settings, separators', CONSOLE), ('derived settings', 'kolombos/settings.py'), ('report of reads', READER)],
     ['standard output with -D and more'])

prop('C34', 'A file is dumped the same whatever it is called and whatever it is',
     'The dump of a file depends on its bytes only, at every debug level: not on its name (spaces, leading dashes, control '
     'characters, escape sequences, bytes that are not UTF-8, any length), nor on its kind (regular, link, named pipe, terminal, '
     '/dev/fd), nor on the pieces in which a pipe delivers; standard input is not touched then, and the file is neither changed nor '
     'left open. Names in debug output and in messages are shown, but unprintable characters of them never get to the terminal as '
     'they are. A file that cannot be read (missing, directory, no permission, too long a name, loop of links, socket) is named on '
     'standard error in one line with the reason, exit code 1, and without a traceback unless debugging.',
     ['inputs', 'configurations', 'faults'],
     'all names over an alphabet of special bytes up to a length; all kinds of files and failures; x debug levels x modes x documents',
     'Tests read no files.',
     [READER, 'kolombos/app.py', CONSOLE, 'kolombos/arghelp.py'],
     [('opening of the input', READER), ('error messages', CONSOLE), ('usage errors', 'kolombos/arghelp.py')],
     ['standard output, standard error, exit code, file system'])

prop('C35', 'Of everything around, the output depends on the width of the terminal only',
     'What is printed, and the exit code, depend on the input, the options and the width of the terminal: COLUMNS if it is a positive '
     'number, otherwise the width of the terminal which is standard output, otherwise 80. Nothing else matters: whether output and '
     'messages go to a terminal, a pipe or a file (colors are always there; the help is styled in terminals only), what standard '
     'input is while a file is read (even closed), other variables (TERM, NO_COLOR, locales, HOME, PATH, DEBUG...), the current '
     'directory, hash seeds and optimization of the interpreter. Malformed values of COLUMNS count as none.',
     ['configurations', 'inputs'],
     'all widths of a real terminal; all values and all pairs of values of the conditions around a run; x command lines',
     'Tests run in one environment, with no terminal.',
     ['kolombos/common.py', 'kolombos/app.py', CONSOLE, 'kolombos/arghelp.py', 'pytermor/render.py', READER],
     [('width of the terminal', 'kolombos/common.py'), ('when output is styled', 'pytermor/render.py'), ('opening of the input', READER)],
     ['standard output, standard error, exit code of real processes'])

prop('C36', 'Memory in use does not depend on the amount of input',
     'The dump works on streams of any length: after any amount of input (lines and escape sequences being of limited length), at every '
     'debug level and with limits given or not, the memory in use is the same as after a little of it - nothing is kept of what has been printed, however varied '
     'it was, and files are read in pieces just like streams.',
     ['inputs', 'histories', 'configurations'],
     'all periods up to a length over lexical units, families of ever changing content x modes; a few against many periods',
     'Tests use inputs of a few bytes.',
     [READER, PARSER, SEGBUF, CONSOLE, 'kolombos/byteio/template/template.py'],
     [('reading in pieces', READER), ('removal of what is parsed', PARSER), ('removal of what is printed', SEGBUF)],
     ['bytes allocated, resident size of the process'])

prop('C37', 'The work is proportional to the amount of input',
     'Twice as much input takes twice as many steps, in every mode, whatever the lexical units are, and whether they come with one read '
     'or with many (lines and escape sequences being of limited length, debugging off or at level 1): nothing is scanned again '
     'for every row, line, segment or read - neither what waits in buffers, nor what was printed before.',
     ['inputs', 'histories', 'configurations'],
     'all periods up to a length over lexical units, families of changing content x modes x read sizes; n, 2n and 4n periods',
     'Tests use inputs of a few bytes and do not look at the time.',
     [SEGBUF, PARSER, READER, CONSOLE, 'kolombos/byteio/formatter/'],
     [('queue of segments', SEGBUF), ('rows', 'kolombos/byteio/formatter/binary.py'), ('debug messages', CONSOLE)],
     ['number of executed calls and jumps'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
