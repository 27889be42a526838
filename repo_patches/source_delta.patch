From d49f4e9c2d67c486ad2c8c75435d0b28391a103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 01/29] fix: keep the actual byte in control char segments
 printed with details

bytes(n) makes n zero bytes, so the debug dumps and offsets of the text mode
were wrong for every input containing control characters with -m1/-m2.
---
 kolombos/byteio/template/template_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_control.py b/kolombos/byteio/template/template_control.py
index 93727ca..785b4b0 100644
--- a/kolombos/byteio/template/template_control.py
+++ b/kolombos/byteio/template/template_control.py
@@ -40,7 +40,7 @@ class ControlCharGenericTemplate(Template):
             label_processed = self._process_byte(label_raw)
             self._substituted.append(self._create_primary_segment(
                 self._opening_seq_stack.get(self._display_mode, self._read_mode),
-                bytes(label_raw),
+                bytes([label_raw]),
                 label_processed,
             ))
             self._fill_additional_segments(label_raw)
-- 
2.43.0


From 7b1247b0c1ce2719a0d31895fe4a88b5dcde8dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 02/29] fix: do not crash on CSI sequences ending with 'm' with
 non-numeric params

E.g. '\e[>4;1m' (XTMODKEYS) or '\e[?4m' raised ValueError and aborted the run.
These are not SGRs, so display them as regular CSI sequences; empty colon-separated
subparams default to zero.
---
 kolombos/byteio/parser/parser.py                | 5 ++++-
 kolombos/byteio/template/template_escape_sgr.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 098859f..4f6d228 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -131,7 +131,10 @@ class Parser:
             if sgr_params == b'' or sgr_params == b'0':         # allow passing in marker details format
                 return self._template_registry.ESCAPE_SEQ_SGR_0
             tpl = self._template_registry.ESCAPE_SEQ_SGR
-            tpl.set_details_fmt_str(sgr_params)  # @FIXME ugly state, eaugh
+            try:
+                tpl.set_details_fmt_str(sgr_params)  # @FIXME ugly state, eaugh
+            except ValueError:  # private or malformed params, e.g. XTMODKEYS '\e[>4;1m'
+                return self._template_registry.ESCAPE_SEQ_CSI
             return tpl
         return self._template_registry.ESCAPE_SEQ_CSI
 
diff --git a/kolombos/byteio/template/template_escape_sgr.py b/kolombos/byteio/template/template_escape_sgr.py
index dfcf912..065d6cb 100644
--- a/kolombos/byteio/template/template_escape_sgr.py
+++ b/kolombos/byteio/template/template_escape_sgr.py
@@ -36,7 +36,7 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._details_fmt_str = s.decode('ascii')
 
         params = self._details_fmt_str.split(';')
-        pcodes = [int(p.split(":")[0]) for p in params if p]
+        pcodes = [int(p.split(":")[0] or 0) for p in params if p]
         pcodes_allowed = []
         brief_names = []
         while len(pcodes):  # @TODO automatically set black/white text if only bg color is defined, and vice versa
-- 
2.43.0


From 8c1f8dd47ced0562e5f7edbe99a8bca3daf49871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 03/29] fix: do not treat valid UTF-8 sequences following a
 binary byte as binary data

Binary data group was greedy and consumed every non-ASCII byte up to the next ASCII
one, e.g. the last two bytes of 'ff c3 a9' were displayed as binary data.
---
 kolombos/byteio/parser/parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 4f6d228..cee2f9c 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -26,18 +26,19 @@ class Parser:
         self._segment_buffer: SegmentBuffer = segment_buffer
         self._template_registry: TemplateRegistry = template_registry
 
-        self.F_SEPARATOR = StringFilter[bytes](
-                b'('                                   # [0] UTF-8
+        utf8_seq = (
                 b'[\xc2-\xdf][\x80-\xbf]|'             # - non-overlong 2-byte
                 b'\xe0[\xa0-\xbf][\x80-\xbf]|'         # - excluding overlongs
                 b'[\xe1-\xec\xee\xef][\x80-\xbf]{2}|'  # - straight 3-byte
                 b'\xed[\x80-\x9f][\x80-\xbf]|'         # - excluding surrogates
                 b'\xf0[\x90-\xbf][\x80-\xbf]{2}|'      # - planes 1-3
-                b'[\xf1-\xf3][\x80-\xbf]{3}|'          # - planes 4-15        # # # # # # # # # # # # # # # # # # # # #
-                b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16           # double slash in grp 4 is essential or #
-                b')|'                                                         # regex goes batshit crazy: \x5b is '[' #
-                +                                                             # # # # # # # # # # # # # # # # # # # # #
-                b'([\x80-\xff]+)|'                     # [1] BINARY DATA                                              |
+                b'[\xf1-\xf3][\x80-\xbf]{3}|'          # - planes 4-15
+                b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16
+        )
+        self.F_SEPARATOR = StringFilter[bytes](                               # # # # # # # # # # # # # # # # # # # # #
+                b'(' + utf8_seq + b')|'                # [0] UTF-8            # double slash in grp 4 is essential or #
+                +                                                             # regex goes batshit crazy: \x5b is '[' #
+                b'((?:(?!' + utf8_seq + b')[\x80-\xff])+)|'  # [1] BINARY DATA  # # # # # # # # # # # # # # # # # # # #
                 +                                                             # ESCAPE SEQUENCES                      |
                 b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|  3-7] CSI/SGR sequences   <- - - +
                 b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'          # [ 8| 9-12] nF escape sequences
-- 
2.43.0


From 9a0690db166dec326513c314b8b834bb64179c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 04/29] fix: do not break UTF-8 and escape sequences on read
 buffer boundaries

A sequence split between two chunks was displayed as binary data, or as a lone
ESC and printable chars, so the output depended on the read buffer size. Keep the
incomplete sequence in the parser buffer until the rest of it (or EOF) arrives.
---
 kolombos/byteio/parser/buffer.py |  4 ++--
 kolombos/byteio/parser/parser.py | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/kolombos/byteio/parser/buffer.py b/kolombos/byteio/parser/buffer.py
index bc89d04..b1e5531 100644
--- a/kolombos/byteio/parser/buffer.py
+++ b/kolombos/byteio/parser/buffer.py
@@ -35,8 +35,8 @@ class ParserBuffer:
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
             return
 
-        offset_delta = self._raw_buffer.find(new_buffer)
-        if offset_delta == -1:
+        offset_delta = len(self._raw_buffer) - len(new_buffer)
+        if not self._raw_buffer.endswith(new_buffer):
             raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')
 
         self._raw_buffer = self._raw_buffer[offset_delta:]
diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index cee2f9c..7ea0ff4 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -60,6 +60,14 @@ class Parser:
                 b'([\x21-\x7e]+)',                     # [33] printable chars (letters, digits, punctuation)
             self._substitute)
 
+        # beginning of a UTF-8 or escape sequence at the very end of the available input
+        self.R_INCOMPLETE_SEQ = re.compile(
+            b'(?:[\xc2-\xf4]|'
+            b'\xe0[\xa0-\xbf]|[\xe1-\xec\xee\xef][\x80-\xbf]|\xed[\x80-\x9f]|'
+            b'\xf0[\x90-\xbf][\x80-\xbf]?|[\xf1-\xf3][\x80-\xbf]{1,2}|\xf4[\x80-\x8f][\x80-\xbf]?|'
+            b'\x1b(?:\\x5b[\x30-\x3f]*[\x20-\x2f]*|[\x20-\x2f]+)?)\\Z'
+        )
+
         self.MGROUP_TO_TPL_MAP: Dict[int, Template|MatchResolver] = {  # @FIXME map templates to regexps
             0: self._template_registry.UTF_8_SEQ,                      #        and build F_SEPARATOR automatically?
             1: self._template_registry.BINARY_DATA,
@@ -83,11 +91,18 @@ class Parser:
         }
 
         self._offset = 0
+        self._pending_len = 0
         self._debug_buffer = ConsoleDebugBuffer('parser', Seqs.CYAN)
 
     def parse(self, offset: int):
         raw = self._parser_buffer.get_raw()
-        self._offset = offset
+        incomplete = b''
+        if not self._parser_buffer.closed and (match := self.R_INCOMPLETE_SEQ.search(raw)):
+            incomplete = match.group()  # the rest of the sequence should come with the next chunk
+            raw = raw[:match.start()]
+
+        self._offset = offset - self._pending_len
+        self._pending_len = len(incomplete)
         self._debug_buffer.write(1, f'Parsing segment: {Console.printd(raw)}')
 
         unmatched = apply_filters(raw, self.F_SEPARATOR)
@@ -96,7 +111,7 @@ class Parser:
         except AssertionError as e:
             raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
 
-        self._parser_buffer.crop_raw(unmatched)
+        self._parser_buffer.crop_raw(incomplete)
 
     def _substitute(self, m: Match) -> bytes:
         mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
-- 
2.43.0


From f8c9185236e4db6fe37789e16e9acfc608f0cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 05/29] fix: print marker details and separators at the very
 end of the input

Details and separators are zero-length segments, and were left in the buffer if
there was no line break after them.
---
 kolombos/byteio/segment/buffer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b417ea0..b35d611 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -75,7 +75,9 @@ class SegmentBuffer:
             raise EOFError
 
         if has_newline or force:
-            detached = self._detach(avail_bytes)
+            # last line without line break is also the last chance to print zero-length
+            # segments at its end (i.e. marker details and separators)
+            detached = self._detach(avail_bytes, drain=not has_newline)
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
@@ -107,7 +109,7 @@ class SegmentBuffer:
 
         return result
 
-    def _detach(self, req_bytes: int) -> List[Chainable]:
+    def _detach(self, req_bytes: int, drain: bool = False) -> List[Chainable]:
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
 
         if len(self._segment_chain) == 0:
@@ -119,7 +121,7 @@ class SegmentBuffer:
             cur_element = self._segment_chain[0]
 
             if isinstance(cur_element, Segment):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
 
                 if cur_element.data_len <= req_bytes:
@@ -134,7 +136,7 @@ class SegmentBuffer:
                     break
 
             elif isinstance(cur_element, StartSequenceRef):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
                 output.append(cur_element)
                 self._active_sgrs.append(cur_element.ref)
-- 
2.43.0


From 3099a8b9b79d48d2b8fd16d51339b97702cee38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 06/29] fix: do not lose the data or hang in binary mode with
 less than one column

-w0 and narrow terminals resulted in empty output, while negative -w and even more
narrow terminals caused an infinite loop. Treat -w0 and less as 'auto', which now is
always at least one 4-byte chunk.
---
 kolombos/byteio/formatter/binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index a10486c..7d36f10 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -33,7 +33,7 @@ class BinaryFormatter(AbstractFormatter):
 
     def format(self):
         cur_cols = self._cols
-        if cur_cols is None:
+        if cur_cols is None or cur_cols <= 0:  # auto
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
 
@@ -106,6 +106,6 @@ class BinaryFormatter(AbstractFormatter):
                     len(self.PADDING_HEX_CHUNK)
         chunk_fit = floor(available_total / chunk_len)
 
-        result = chunk_fit * self.BYTE_CHUNK_LEN
+        result = max(1, chunk_fit) * self.BYTE_CHUNK_LEN  # at least one chunk, even if it does not fit
         self._debug_buffer.write(2, f'Columns amount set to: {Spans.BOLD(result)}')
         return result
-- 
2.43.0


From f4ed45b3013594f4c3ea9f7610fd630a1ec98af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 07/29] fix: do not truncate big offsets

Hex offsets from 1000000 were printed without two last digits, as the width was
computed for decimal representation, and the result was cut to 8 chars. Same for
decimal offsets from 100000000 and for line numbers.
---
 kolombos/console.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kolombos/console.py b/kolombos/console.py
index 244237d..4cbf366 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -252,7 +252,7 @@ class Console:
 
     @staticmethod
     def format_prefix(label: str, f: Span) -> str:
-        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
+        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
         prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
         return prefix
 
@@ -261,7 +261,7 @@ class Console:
         if SettingsManager.app_settings.decimal_offsets:
             offset_str = f'{offset:d}'
         else:
-            offset_str = f'0x{offset:0{max(4,ceil(len(str(offset))/2)*2)}x}'
+            offset_str = f'0x{offset:0{max(4, ceil(offset.bit_length()/8)*2)}x}'
         return Console.format_prefix(offset_str, f)
 
     @staticmethod
-- 
2.43.0


From 9078d91e6de0d486784226f84660459f65080352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 08/29] fix: do not switch demo to text mode when debug level
 is 4

read_mode property remembered the default value in the settings, so just printing
it with the debug settings prevented the demo runner from changing the default.
---
 kolombos/settings.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/kolombos/settings.py b/kolombos/settings.py
index 811f107..c2353ea 100644
--- a/kolombos/settings.py
+++ b/kolombos/settings.py
@@ -57,9 +57,6 @@ class Settings(Namespace):
         elif self.text:
             return ReadMode.TEXT
         # auto
-
-        self.text = self._default_read_mode.is_text
-        self.binary = self._default_read_mode.is_binary
         return self._default_read_mode
 
     def set_default_read_mode(self, val: ReadMode):
@@ -81,7 +78,7 @@ class Settings(Namespace):
 
     @property
     def effective_marker_details(self) -> MarkerDetailsEnum:
-        if self.binary:
+        if self.read_mode.is_binary:
             return MarkerDetailsEnum.BINARY_STRICT
 
         if self.marker <= 0:
-- 
2.43.0


From 660cdba66caf0f5b2899d70e1570ac9875a3d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 09/29] fix: count escape sequence params in text mode offsets
 without details

Params were not a part of any segment with -m0, so debug offsets and hex dumps of
the text mode skipped them.
---
 kolombos/byteio/template/template_escape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_escape.py b/kolombos/byteio/template/template_escape.py
index 0c86af0..a8d82ce 100644
--- a/kolombos/byteio/template/template_escape.py
+++ b/kolombos/byteio/template/template_escape.py
@@ -31,7 +31,7 @@ class EscapeSequenceTemplate(Template):
 
         primary_seg = self._create_primary_segment(
             self._get_label_opening_seq(),
-            label_raw,
+            raw if self._marker_details is MarkerDetailsEnum.NO_DETAILS else label_raw,
             self._process(label_raw)
         )
         self._substituted.insert(0, primary_seg)
-- 
2.43.0


From c19be49b39c90369d2c57b2a68ff389c731d9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 10/29] fix: keep the length of formatted floats when rounding
 adds a digit

E.g. 9.999 with required length of 4 was formatted as '10.00'.
---
 pytermor/util/auto_float.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 11c994f..21ad7e8 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -155,4 +155,9 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     # this by itself: f'{12.3:.0f}' => '12'
     dot_str = f'.{decimals_len!s}'
 
-    return f'{sign}{abs_value:{req_len}{dot_str}f}'
+    result = f'{abs_value:{req_len}{dot_str}f}'
+    if len(result) > req_len and decimals_len > 0:
+        # rounding added one more integer digit, e.g. 9.999 -> 10.00
+        result = f'{abs_value:{req_len}.{decimals_len - 1}f}'
+
+    return f'{sign}{result}'
-- 
2.43.0


From 7c34996e5a6c9246b573cacf0b323c7d8c3b0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 11/29] fix: use smaller unit prefixes for values between
 1/1000 and 1

Values were multiplied too few times, so e.g. 0.002 and 1.26e-9 were formatted as
'0.00 m' and '0.00 um' with all significant digits lost (contrary to the documented
examples). Also do not run out of prefixes on the way down.
---
 pytermor/util/prefixed_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 553e688..a49be3d 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -114,11 +114,11 @@ class PrefixedUnitFormatter:
         unit_idx = self._prefix_zero_idx
 
         while 0 <= unit_idx < len(self._prefixes):
-            if 0.0 < abs(value) <= 1 / self._mcoef:
+            if 0.0 < abs(value) < 1 and unit_idx > 0 and not \
+               (self._truncate_frac and unit_idx == self._prefix_zero_idx):
                 value *= self._mcoef
                 unit_idx -= 1
-                if abs(value) <= 1:
-                    continue
+                continue
             elif abs(value) >= self._mcoef:
                 value /= self._mcoef
                 unit_idx += 1
-- 
2.43.0


From 942cb4ada897d6e7402135b79b09472ad5293960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 12/29] fix: do not put spaces between the sign and the digits
 of formatted floats

E.g. -1234.567 with required length of 6 was formatted as '- 1235'.
---
 pytermor/util/auto_float.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 21ad7e8..15a42ee 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -130,9 +130,9 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             significand_str = format_auto_float(significand, max_significand_len, allow_exponent_notation=False)
 
         except ValueError:
-            return f'{sign}e{exponent}'.rjust(req_len)
+            return f'{sign}e{exponent}'.rjust(len(sign) + req_len)
 
-        return f'{sign}{significand_str}e{exponent}'
+        return f'{sign}{significand_str.lstrip()}e{exponent}'.rjust(len(sign) + req_len)
 
     integer_len = max(1, exponent + 1)
     if integer_len == req_len:
@@ -160,4 +160,4 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         # rounding added one more integer digit, e.g. 9.999 -> 10.00
         result = f'{abs_value:{req_len}.{decimals_len - 1}f}'
 
-    return f'{sign}{result}'
+    return f'{sign}{result.lstrip()}'.rjust(len(sign) + req_len)
-- 
2.43.0


From 65f48e5a0efbf521a17fc111ea30f8ebf1dca7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 13/29] fix: do not discard falsy values in Text, do not change
 Text by formatting it

---
 pytermor/render.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d514dd0..bf50c77 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -162,7 +162,7 @@ class Text(Renderable):
 
     class _TextRun(Renderable):
         def __init__(self, string: Any = None, style: Style|str = None):
-            self._string: str = str(string) if string else ''
+            self._string: str = str(string) if string is not None else ''
             if isinstance(style, str):
                 style = Style(fg=style)
             self._style: Style|None = style
@@ -179,8 +179,8 @@ class Text(Renderable):
             return len(self._string)
 
         def __format__(self, *args, **kwargs) -> str:
-            self._string = self._string.__format__(*args, **kwargs)
-            return self.render()
+            formatted = self._string.__format__(*args, **kwargs)
+            return type(self)(formatted, self._style).render()
 
 
 @dataclass
-- 
2.43.0


From 11ddf29318412b25121dd63249df95d7bd1a4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 14/29] fix: do not print C1 control characters from the input
 to the terminal as is

Decoded U+0080-U+009F (including U+009B, which is a CSI introducer) were printed raw,
so the terminal could interpret the input instead of displaying it.
---
 kolombos/byteio/template/template_utf8.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kolombos/byteio/template/template_utf8.py b/kolombos/byteio/template/template_utf8.py
index d5ba2fc..853db8f 100644
--- a/kolombos/byteio/template/template_utf8.py
+++ b/kolombos/byteio/template/template_utf8.py
@@ -12,6 +12,7 @@ from .. import CharClass, OpeningSeqPOV, LabelPOV
 
 class Utf8SequenceTemplate(Template):
     DECODED_LEFT_FILL_CHAR = '_'
+    C1_CONTROL_CHAR_LABEL = '▯'
 
     def __init__(self, opening_seq: SequenceSGR | OpeningSeqPOV, label: str | LabelPOV = ''):
         super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)
@@ -24,6 +25,8 @@ class Utf8SequenceTemplate(Template):
 
         if self._read_mode.is_text or self._decode:
             decoded = raw.decode('utf8', errors='replace')
+            if '\x80' <= decoded <= '\x9f':  # never print C1 controls (e.g. U+009B is CSI) as is
+                decoded = self.C1_CONTROL_CHAR_LABEL
             if self._read_mode.is_binary:
                 if len(decoded) < len(raw):
                     decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
-- 
2.43.0


From 1b3bfcc6426b05f4e5a8b22a5cf94092b5ac28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 15/29] fix: do not discard explicitly specified sequences in
 Span.init_explicit()

---
 pytermor/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/ansi.py b/pytermor/ansi.py
index 416e543..2b2cbac 100644
--- a/pytermor/ansi.py
+++ b/pytermor/ansi.py
@@ -348,7 +348,7 @@ class Span:
 
     @classmethod
     def _opt_arg(self, arg: SequenceSGR | None) -> SequenceSGR:
-        if not arg:
+        if arg is None:  # any sequence is falsy, as its length is always zero
             return NOOP_SEQ
         return arg
 
-- 
2.43.0


From 25bb950c5745f83d8271ae926402b34ce16aff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 16/29] fix: render empty indexed color into empty sequence

---
 pytermor/color.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytermor/color.py b/pytermor/color.py
index 1f919b8..bf87219 100644
--- a/pytermor/color.py
+++ b/pytermor/color.py
@@ -147,6 +147,8 @@ class ColorIndexed16(_ColorIndexed):
         super().__init__(hex_value)
         
     def to_sgr(self, bg: bool = False) -> SequenceSGR:
+        if self._hex_value is None:
+            return NOOP_SEQ
         if bg:
             return SequenceSGR(self._code_bg)
         return SequenceSGR(self._code_fg)
-- 
2.43.0


From 3b74473bf09cd329dc35f3a088e93546bbd87892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:58 +0000
Subject: [PATCH 17/29] fix: close double underline in tmux renderer

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index bf50c77..21d4e98 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -550,7 +550,7 @@ class TmuxRenderer(SgrRenderer):
 
         Seqs.BOLD_DIM_OFF:   'nobold nodim',
         Seqs.ITALIC_OFF:     'noitalics',
-        Seqs.UNDERLINED_OFF: 'nounderscore',
+        Seqs.UNDERLINED_OFF: 'nounderscore nodouble-underscore',
         Seqs.BLINK_OFF:      'noblink',
         Seqs.INVERSED_OFF:   'noreverse',
         Seqs.HIDDEN_OFF:     'nohidden',
-- 
2.43.0


From 529411286df285f2f1b1176333c053431c2c702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 18/29] fix: pad centered strings on the same side as
 str.center()

---
 pytermor/util/stdlib_ext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytermor/util/stdlib_ext.py b/pytermor/util/stdlib_ext.py
index 2e1f743..7ef332b 100644
--- a/pytermor/util/stdlib_ext.py
+++ b/pytermor/util/stdlib_ext.py
@@ -48,6 +48,6 @@ def center_sgr(s: str, width: int, fillchar: str = ' ') -> str:
     if fill_len == 0:
         return s
 
-    right_fill_len = fill_len // 2
-    left_fill_len = fill_len - right_fill_len
+    left_fill_len = fill_len // 2 + (fill_len & width & 1)  # as str.center does
+    right_fill_len = fill_len - left_fill_len
     return (fillchar * left_fill_len) + s + (fillchar * right_fill_len)
-- 
2.43.0


From da231a6c8139f573d1bb32fb9625481b2e527a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 19/29] fix: do not modify the caller's list in
 distribute_padded()

---
 pytermor/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index 21d4e98..8193ece 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -756,9 +756,9 @@ class Styles(Registry[Style]):
 def distribute_padded(values: List, max_len: int, pad_before: bool = False,
                       pad_after: bool = False, ) -> str:
     if pad_before:
-        values.insert(0, '')
+        values = ['', *values]
     if pad_after:
-        values.append('')
+        values = [*values, '']
 
     values_amount = len(values)
     gapes_amount = values_amount - 1
-- 
2.43.0


From dec775b0727b5cb7eb63e70d6680c06bf8a0137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 20/29] fix: do not modify the operands in Text addition

---
 pytermor/render.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index 8193ece..f4bd3d9 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -149,16 +149,23 @@ class Text(Renderable):
         return self._runs[0].__format__(*args, **kwargs)
 
     def __add__(self, other: str|Text) -> Text:
-        self.append(other)
-        return self
+        result = self._copy()
+        result.append(other)
+        return result
 
     def __iadd__(self, other: str|Text) -> Text:
         self.append(other)
         return self
 
     def __radd__(self, other: str|Text) -> Text:
-        self.prepend(other)
-        return self
+        result = self._copy()
+        result.prepend(other)
+        return result
+
+    def _copy(self) -> Text:
+        result = Text()
+        result._runs = self._runs.copy()
+        return result
 
     class _TextRun(Renderable):
         def __init__(self, string: Any = None, style: Style|str = None):
-- 
2.43.0


From cc06c7672406c35ff1ecb88dda59115717294f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 21/29] fix: determine exponents of formatted floats exactly

---
 pytermor/util/auto_float.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 15a42ee..7fae5f9 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -8,7 +8,8 @@
     from pytermor.util.auto_float import format_auto_float
 
 """
-from math import trunc, log10, floor
+from decimal import Decimal
+from math import trunc
 
 
 _OVERFLOW_CHAR = '!'
@@ -74,7 +75,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     if value == 0.0:
         return f'{sign}{0:{req_len}.0f}'
 
-    exponent = floor(log10(abs_value))
+    exponent = Decimal(str(abs_value)).adjusted()  # log10() is inexact near powers of ten
     exp_threshold_left = -2
     exp_threshold_right = req_len - 1
 
@@ -121,7 +122,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             # there is no place even for exponent
             return _OVERFLOW_CHAR * (len(sign) + req_len)
 
-        significand = abs_value/pow(10, exponent)
+        significand = Decimal(str(abs_value)).scaleb(-exponent)
         max_significand_len = req_len - exponent_len
         try:
             # max_significand_len can be 0, in that case significand_str will be empty; that
-- 
2.43.0


From 7c5274714d8b180f0a379f41edd163a5784d5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:08 +0000
Subject: [PATCH 22/29] fix: do not fail with a traceback when the reader of
 the output has left (kolombos | head)

---
 kolombos/app.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/kolombos/app.py b/kolombos/app.py
index 8b40860..035cfe4 100644
--- a/kolombos/app.py
+++ b/kolombos/app.py
@@ -4,6 +4,9 @@
 # -----------------------------------------------------------------------------
 from __future__ import annotations
 
+import os
+import sys
+
 from . import AppArgumentParser
 from .console import Console
 from .runner import RunnerFactory
@@ -13,9 +16,18 @@ from .settings import SettingsManager
 # noinspection PyMethodMayBeStatic
 class App:
     def run(self):
+        try:
+            self._run()
+        except BrokenPipeError:  # the reader of our output has left, nothing to say and nobody to say it to
+            self._discard_output()
+            exit(1)
+
+    def _run(self):
         try:
             self._parse_args()  # help processing is handled by argparse
             (RunnerFactory.create()).run()
+        except BrokenPipeError:
+            raise
         except Exception as e:
             Console.on_exception(e)
             self._exit(1)
@@ -27,5 +39,9 @@ class App:
         Console.debug_settings()
 
     def _exit(self, code: int):
-        print()
+        print(flush=True)
         exit(code)
+
+    def _discard_output(self):
+        # prevents interpreter from failing once more while flushing the remains at shutdown
+        os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())
-- 
2.43.0


From 251853e42b65fca6aea0d0038071364eb730f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:09 +0000
Subject: [PATCH 23/29] fix: colons at the ends of wrapped lines of the help
 text were dropped

---
 kolombos/arghelp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index e9984fe..8c45c0a 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -92,7 +92,7 @@ class CustomArgumentParser(ArgumentParser):
 
         result = super().format_help() + ending_formatted
         # remove ':' from headers ('<_b>header:<_f>'):
-        result = re.sub(r'(\033\[[0-9;]*m)?\s*:\s*(\n|\033|$)', r'\1\2', result)
+        result = re.sub(r'^(\033\[[0-9;]*m.*\033\[[0-9;]*m):$', r'\1', result, flags=re.MULTILINE)
         return result
 
 
-- 
2.43.0


From 07e1ee78640a1f60606aed7dc994475da9ca2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 24/29] fix: color sequences in the help text were broken by
 wrapping in narrow terminals

---
 kolombos/arghelp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index 8c45c0a..43daf77 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -63,6 +63,11 @@ class CustomHelpFormatter(HelpFormatter):
 
             return ', '.join(parts)
 
+    def _split_lines(self, text: str, width: int) -> List[str]:
+        # same as in superclass, but without breaking the words, as it can break SGRs inside them
+        text = self._whitespace_matcher.sub(' ', text).strip()
+        return textwrap.wrap(text, width, break_long_words=False)
+
     def _format_text(self, text: str) -> str:
         return super()._format_text(text).rstrip('\n') + '\n'
 
-- 
2.43.0


From e8008f2e4e3e86d9f78116bee1e62e64885f59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:12 +0000
Subject: [PATCH 25/29] fix: report output that cannot be written once and
 without a traceback

---
 kolombos/app.py     | 6 +++---
 kolombos/console.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/kolombos/app.py b/kolombos/app.py
index 035cfe4..e4bb963 100644
--- a/kolombos/app.py
+++ b/kolombos/app.py
@@ -18,7 +18,7 @@ class App:
     def run(self):
         try:
             self._run()
-        except BrokenPipeError:  # the reader of our output has left, nothing to say and nobody to say it to
+        except OSError:  # output does not work (its reader has left, disk is full); reported already, if necessary
             self._discard_output()
             exit(1)
 
@@ -26,12 +26,12 @@ class App:
         try:
             self._parse_args()  # help processing is handled by argparse
             (RunnerFactory.create()).run()
-        except BrokenPipeError:
+            self._exit(0)
+        except BrokenPipeError:  # nothing to say and nobody to say it to
             raise
         except Exception as e:
             Console.on_exception(e)
             self._exit(1)
-        self._exit(0)
 
     def _parse_args(self):
         SettingsManager.init()
diff --git a/kolombos/console.py b/kolombos/console.py
index 4cbf366..cc67b19 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -63,8 +63,8 @@ class ConsoleOutputBuffer(AbstractConsoleBuffer):
         if not self._buf:
             return
 
-        Console.print(self._buf, end='')
-        self._buf = ''
+        buf, self._buf = self._buf, ''  # do not try again if it fails
+        Console.print(buf, end='')
 
 
 class ConsoleDebugBuffer(AbstractConsoleBuffer):
@@ -95,8 +95,8 @@ class ConsoleDebugBuffer(AbstractConsoleBuffer):
         if not self._buf:
             return
 
-        Console.debug(self._buf, end='')
-        self._buf = ''
+        buf, self._buf = self._buf, ''  # do not try again if it fails
+        Console.debug(buf, end='')
 
 
 class Console:
-- 
2.43.0


From 03239c9ab75cbc5490f745560832a23d5798783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:12 +0000
Subject: [PATCH 26/29] fix: read from pipes and other files without position
 given by name

---
 kolombos/byteio/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index d6367cf..1d2ad6c 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -42,7 +42,7 @@ class Reader(metaclass=abc.ABCMeta):
         try:
             while raw_input := self._io.read(self._chunk_size):
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
-                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin else "n/a")}', offset=self._offset)
+                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
                 if max_lines:
                     for line_break in re.finditer(b'\x0a', raw_input):
-- 
2.43.0


From 2a2c7728b17aacc733366d51d74efeb0ca335200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:12 +0000
Subject: [PATCH 27/29] fix: do not list a method among the settings in debug
 mode

---
 kolombos/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/console.py b/kolombos/console.py
index cc67b19..4703335 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -225,7 +225,7 @@ class Console:
         attrs = [attr for attr in sorted(
             app_settings.__dir__(),
             key=lambda attr: attr if is_derived(attr, app_settings) else '_'+attr
-        ) if not attr.startswith(('_', 'init', 'get')) and (not is_derived(attr, app_settings) or derived)]
+        ) if not attr.startswith('_') and not callable(getattr(app_settings, attr)) and (not is_derived(attr, app_settings) or derived)]
 
         max_attr_len = max([len(attr) for attr in attrs]) + 3
         Console.settings_prefix_len = max_attr_len
-- 
2.43.0


From c148ec1065437911a7d639b4c7fb8e970c9d0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 28/29] fix: escape unprintable characters of file names in
 debug output and usage errors

---
 kolombos/__init__.py      | 2 +-
 kolombos/arghelp.py       | 4 ++++
 kolombos/byteio/reader.py | 3 ++-
 kolombos/common.py        | 4 ++++
 kolombos/console.py       | 4 ++--
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/kolombos/__init__.py b/kolombos/__init__.py
index 9d8c25d..ac220d7 100644
--- a/kolombos/__init__.py
+++ b/kolombos/__init__.py
@@ -2,7 +2,7 @@
 # es7s/kolombos [Escape sequences and control characters visualiser]
 # (C) 2022 A. Shavykin <0.delameter@gmail.com>
 # -----------------------------------------------------------------------------
-from .common import ArgumentError, get_terminal_width
+from .common import ArgumentError, escape_unprintable, get_terminal_width
 
 from .arghelp import AppArgumentParser
 from .app import App
diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index 43daf77..eed8693 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -12,6 +12,7 @@ import pytermor.common
 import pytermor as pt
 from pytermor import Spans, Style, Text, render
 
+from .common import escape_unprintable
 from .byteio import Reader
 from .byteio.template import Template
 
@@ -84,6 +85,9 @@ class CustomArgumentParser(ArgumentParser):
         })
         super(CustomArgumentParser, self).__init__(**kwargs)
 
+    def error(self, message: str):
+        super().error(escape_unprintable(message))
+
     def format_help(self) -> str:
         formatter = self._get_formatter()
         if self.epilog:
diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index 1d2ad6c..cf8b082 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -11,6 +11,7 @@ from typing import Callable, IO
 
 from pytermor import Spans, Seqs
 
+from ..common import escape_unprintable
 from ..console import ConsoleDebugBuffer, Console
 from ..settings import SettingsManager
 
@@ -81,7 +82,7 @@ class Reader(metaclass=abc.ABCMeta):
             self._debug_buffer.write(1, f'Reading from stdin')
         else:
             self._io = open(self._filename, 'rb')
-            self._debug_buffer.write(1, f'Opened file: {Spans.BOLD(self._filename)}')
+            self._debug_buffer.write(1, f'Opened file: {Spans.BOLD(escape_unprintable(str(self._filename)))}')
 
     def _get_chunk_size(self) -> int:
         if SettingsManager.app_settings.buffer:
diff --git a/kolombos/common.py b/kolombos/common.py
index a35de56..eaa0d2c 100644
--- a/kolombos/common.py
+++ b/kolombos/common.py
@@ -9,6 +9,10 @@ class ArgumentError(Exception):
     USAGE_MSG = "Run the app with '" + Spans.BOLD('--help') + "' argument to see the usage"
 
 
+def escape_unprintable(s: str) -> str:
+    return ''.join(c if c.isprintable() else repr(c)[1:-1] for c in s)
+
+
 def get_terminal_width(exact: bool = False) -> int:
     try:
         import shutil as _shutil
diff --git a/kolombos/console.py b/kolombos/console.py
index 4703335..a90899b 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -14,7 +14,7 @@ from typing import List, Any
 from pytermor import Spans, SequenceSGR, Seqs, Span
 from pytermor.util import ReplaceSGR
 
-from . import ArgumentError, get_terminal_width
+from . import ArgumentError, escape_unprintable, get_terminal_width
 from .byteio import CharClass
 from .settings import SettingsManager, Settings
 
@@ -207,7 +207,7 @@ class Console:
         def debug_print(attr, app_value, default_value):
             if app_value != default_value:
                 fmt_attr_seq = fmt_header.opening_seq
-                values = Spans.GREEN(f'{app_value!s}') + ' ' + Spans.GRAY(f'[{default_value!s}]')
+                values = Spans.GREEN(escape_unprintable(f'{app_value!s}')) + ' ' + Spans.GRAY(f'[{default_value!s}]')
             else:
                 fmt_attr_seq = Seqs.BG_BLACK
                 values = Spans.YELLOW(f'{default_value!s}')
-- 
2.43.0


From 9411d3561bfc4baf56bd8da63f475d105d7ae35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 29/29] fix: do not scan the whole segment buffer for every row
 and every debug message

State of the buffer was rendered several times per row, with debugging off as well,
so that a dump took time proportional to the square of the read size: minutes for a
file with 20 KB of blank lines.
---
 kolombos/byteio/segment/buffer.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b35d611..b3e26c1 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -21,12 +21,13 @@ class SegmentBuffer:
         self._segment_chain: Deque[Chainable] = Deque[Chainable]()
         self._active_sgrs: List[SequenceSGR] = []
         self._last_detached_data_len = 0
+        self._data_len = 0
 
         self._debug_buffer = ConsoleDebugBuffer('chainbuf')
 
     @property
     def data_len(self) -> int:
-        return sum([el.data_len for el in self._segment_chain])
+        return self._data_len
 
     @property
     def last_detached_data_len(self) -> int:
@@ -34,6 +35,7 @@ class SegmentBuffer:
 
     def attach(self, *segments: Segment):
         for segment in segments:
+            self._data_len += segment.data_len
             f = Span(segment.opening_seq)
             if len(f.opening_seq.params) == 0 or set(f.opening_seq.params) == {0}:
                 self._segment_chain.append(segment)
@@ -51,13 +53,13 @@ class SegmentBuffer:
             detached = self._detach(req_bytes)
             if len(detached) == 0:
                 self._debug_buffer.write(1, 'Responsing with EOF')
-                self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+                self._debug_print_state()
                 raise EOFError
 
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
         raise WaitRequest
 
     def detach_line(self, force: bool, printers: List[SegmentPrinter, ...]) -> Tuple[str, ...]:
@@ -71,7 +73,7 @@ class SegmentBuffer:
 
         if avail_bytes == 0:
             self._debug_buffer.write(1, 'Responsing with EOF')
-            self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+            self._debug_print_state()
             raise EOFError
 
         if has_newline or force:
@@ -81,7 +83,7 @@ class SegmentBuffer:
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
         raise WaitRequest
 
     def preview(self, max_input_len: int = 5) -> str:
@@ -110,7 +112,7 @@ class SegmentBuffer:
         return result
 
     def _detach(self, req_bytes: int, drain: bool = False) -> List[Chainable]:
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
 
         if len(self._segment_chain) == 0:
             return []
@@ -127,12 +129,14 @@ class SegmentBuffer:
                 if cur_element.data_len <= req_bytes:
                     output.append(cur_element)
                     req_bytes -= cur_element.data_len
+                    self._data_len -= cur_element.data_len
                     self._segment_chain.popleft()
                     continue
 
                 else:
                     cur_element_left = cur_element.split(req_bytes)
                     output.append(cur_element_left)
+                    self._data_len -= cur_element_left.data_len
                     break
 
             elif isinstance(cur_element, StartSequenceRef):
@@ -153,9 +157,13 @@ class SegmentBuffer:
         self._last_detached_data_len = sum([el.data_len for el in output])
 
         self._debug_buffer.write(2, 'Detached ' + Spans.BOLD(sum([el.data_len for el in output])) + ' data byte(s)')
-        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+        self._debug_print_state()
         return output
 
+    def _debug_print_state(self):
+        if SettingsManager.app_settings.debug >= 2:  # preview takes as long as the whole buffer is
+            self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
+
     def _format_multiple(self, detached: List[Chainable], printers: List[SegmentPrinter, ...]) -> Tuple[str, ...]:
         return tuple(self._format(detached, printer) for printer in printers)
 
-- 
2.43.0

