From 057d4fe112c74a9b4800a88d46179239bb1de3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 01/54] fix: vertical tab and form feed are whitespace, so they
 terminate text values

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..541d9d4 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -96,7 +96,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r\v\f/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From bb7958be0766ca7348ced843afc498dce569a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/54] fix: reject the binary encoding of negative int zero

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..0e58c3a 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -643,6 +643,8 @@ def _int_factory(sign, data):
         if length == 1:
             value <<= 8
             value |= six.indexbytes(data, -length)
+        if sign < 0 and value == 0:
+            raise IonException('Int zero may not be encoded as a negative int.')
         return sign * value
     return parse_int
 
-- 
2.43.0


From 07368189e3ec80dfb204d190e6872af9f4e4440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/54] fix: accept NOP pads under any field name and reject
 annotated NOP pads

---
 amazon/ion/reader_binary.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 0e58c3a..9ef16a4 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -439,9 +439,8 @@ def _ivm_handler(ctx):
 def _nop_pad_handler(ion_type, length, ctx):
     yield
 
-    if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
-        raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
+    if ctx.annotations is not None:
+        raise IonException('NOP pads may not be annotated.')
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From 514c05d403241da5791e4fc99a303345969e0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 04/54] fix: reject a binary version marker inside an
 annotation wrapper

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 9ef16a4..eb41f18 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -427,6 +427,8 @@ def _ivm_handler(ctx):
 
     if ctx.depth != 0:
         raise IonException('IVM encountered below top-level')
+    if ctx.annotations is not None:
+        raise IonException('IVM may not be annotated.')
 
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
     ivm_tail = ctx.queue.read(_IVM_TAIL_LEN)
-- 
2.43.0


From 3fef388afcf6b6b0df38a6536857bc24b77d4a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 05/54] fix: skipping out of a container whose last child
 overran it is an error

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index eb41f18..6a97a30 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -581,6 +581,8 @@ def _container_handler(ion_type, ctx):
     at_top = ctx.depth == 0
     while True:
         data_event, self = (yield transition)
+        if not at_top and ctx.remaining < 0:
+            raise IonException('Container overrun by %d bytes' % -ctx.remaining)
         if data_event is not None and data_event.type is ReadEventType.SKIP:
             yield ctx.read_data_transition(ctx.remaining, self, skip=True)
 
-- 
2.43.0


From a912326a72c804ffbea4b438e399e59a10d20933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 06/54] fix: raise instead of writing invalid Ion text for
 non-finite decimals

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..73a6571 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -116,6 +116,8 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
+    if not val.is_finite():
+        raise ValueError('Ion decimals cannot represent %s.' % (val,))
     text = str(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
-- 
2.43.0


From befa3c23d2e08c22956a59e047b126fcaaa1666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 07/54] fix: write a Timestamp without explicit precision as
 Ion text

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 73a6571..b8fb511 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -145,6 +145,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:  # As in the binary writer.
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From f58caa70e79456e29338daf78e1dc0a5c67df284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 08/54] fix: quote symbol text that looks like a symbol
 identifier when writing Ion text

---
 amazon/ion/writer_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index b8fb511..4d89672 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -250,7 +250,8 @@ def _bytes_text(code_point_iter, quote, prefix=b'', suffix=b''):
 _SINGLE_QUOTE = b"'"
 _DOUBLE_QUOTE = b'"'
 # all typed nulls (such as null.int) and the +inf, and -inf keywords are covered by this regex
-_UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
+# Text that looks like a symbol identifier (e.g. $10) must be quoted, or it would be read as a symbol ID.
+_UNQUOTED_SYMBOL_REGEX = re.compile(r'\A(?!\$[0-9]+\Z)[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
 
 def _symbol_needs_quotes(text):
-- 
2.43.0


From 8d6e2dadecf8deec80556b9efa43b40642096c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 09/54] fix: intern the empty field name in the binary writer

---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From 0db0a99a8d5c3a03bf1645f84cbfa032c1c3ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 10/54] fix: only a complete date may precede the time of a
 text timestamp

---
 amazon/ion/reader_text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 541d9d4..6fae567 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -953,7 +953,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -974,7 +974,9 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                nxt = _VALUE_TERMINATORS
+                if state == _TimestampState.DAY:
+                    nxt += _DIGITS
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From df6586dabacd74d1c7d4bb524a82b0d6eaf04dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 11/54] fix: fractional seconds of more than 28 digits are not
 rounded

---
 amazon/ion/core.py              | 3 ++-
 amazon/ion/reader_text.py       | 2 +-
 amazon/ion/writer_binary_raw.py | 5 ++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..53dbfa2 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -497,7 +497,8 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
             # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            args = replace_microsecond(int(fractional_seconds.scaleb(
+                MICROSECOND_PRECISION, context=Context(rounding=ROUND_FLOOR))))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 6fae567..4a3fbac 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -925,7 +925,7 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                fraction = Decimal('0.' + _decode(fraction))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..262108c 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -172,7 +172,10 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
 
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    with localcontext() as context:
+        # Adjusting precision for taking into account arbitrarily many digits.
+        context.prec = len(digits)
+        coefficient = int(value.scaleb(-exponent).to_integral_value())
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
-- 
2.43.0


From 93fc80ba2fd4462b81d2e121eb81a18e733aa14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 12/54] fix: ion_equals pairs up the values of a repeated field
 one to one

---
 amazon/ion/equivalence.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ac733dd..0aafa50 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -148,8 +148,13 @@ def _structs_eq(a, b, comparison_func):
                 values_b = b.get_all_values(key)
                 if len(values_a) != len(values_b):
                     return False
+                unmatched = list(values_b)
                 for value_a in values_a:
-                    if not any(comparison_func(value_a, value_b) for value_b in values_b):
+                    for i, value_b in enumerate(unmatched):
+                        if comparison_func(value_a, value_b):
+                            del unmatched[i]
+                            break
+                    else:
                         return False
             else:
                 if not comparison_func(a[key], b[key]):
-- 
2.43.0


From 289726504d273c80df16bc730e2bacb1fd6bc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 13/54] fix: ion_equals distinguishes equal numbers of
 different Ion types

---
 amazon/ion/equivalence.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 0aafa50..41b3808 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -91,7 +91,7 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
                 elif isinstance(a, IonPyFloat):
                     return _floats_eq(a, b)
                 else:
-                    return a == b
+                    return _others_eq(a, b)
             return False
     # Reaching this point means that neither operand has _IonNature.
     for a, b in ((a, b), (b, a)):  # Ensures that operand order does not matter.
@@ -107,7 +107,9 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
-    return a == b
+        elif isinstance(a, tuple):
+            return _sequences_eq(a, b, recursive_comparison_func)
+    return _others_eq(a, b)
 
 
 def _annotations_eq(a, b):
@@ -248,6 +250,15 @@ def _is_float_negative_zero(x):
     return struct.pack('>d', x) == b'\x80\x00\x00\x00\x00\x00\x00\x00'
 
 
+def _is_bool(x):
+    return isinstance(x, bool) or getattr(x, 'ion_type', None) is IonType.BOOL
+
+
+def _others_eq(a, b):
+    # In Python, False == 0 == 0.0 and True == 1 == 1.0, but these all have different Ion types.
+    return a == b and _is_bool(a) == _is_bool(b) and isinstance(a, float) == isinstance(b, float)
+
+
 def _floats_eq(a, b):
     assert isinstance(a, float)
     if not isinstance(b, float):
-- 
2.43.0


From 54f4cf1709cf7e8174f5bb49bbaee1ea73dc71b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 14/54] fix: ion_equals compares all the digits of fractional
 seconds

---
 amazon/ion/equivalence.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 41b3808..2d2c786 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -26,7 +26,8 @@ from math import isnan
 
 import six
 
-from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap
+from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap, \
+    TIMESTAMP_FRACTIONAL_SECONDS_FIELD
 from amazon.ion.simple_types import _IonNature, IonPyList, IonPyDict, IonPyTimestamp, IonPyNull, IonPySymbol, \
     IonPyText, IonPyDecimal, IonPyFloat
 from amazon.ion.symbols import SymbolToken
@@ -107,8 +108,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
-        elif isinstance(a, tuple):
-            return _sequences_eq(a, b, recursive_comparison_func)
+    if isinstance(a, tuple):
+        return _sequences_eq(a, b, recursive_comparison_func)
     return _others_eq(a, b)
 
 
@@ -180,7 +181,7 @@ def _timestamps_eq(a, b):
             if isinstance(b, Timestamp):
                 # Both operands declare their precisions. They are only equivalent if their precisions are the same.
                 if a.precision is b.precision and a.fractional_precision is b.fractional_precision \
-                        and a.fractional_seconds == b.fractional_seconds:
+                        and a.fractional_seconds.as_tuple() == b.fractional_seconds.as_tuple():
                     break
                 return False
             elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
@@ -195,6 +196,11 @@ def _timestamp_instants_eq(a, b):
     assert isinstance(a, datetime)
     if not isinstance(b, datetime):
         return False
+    # datetime's __eq__ ignores any digits beyond microseconds.
+    fraction_a, fraction_b = (
+        getattr(x, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, Decimal(x.microsecond).scaleb(-MICROSECOND_PRECISION))
+        for x in (a, b)
+    )
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
     # offset (unknown local offset) is treated equivalently to a +00:00.
     if a.tzinfo is None:
@@ -202,7 +208,7 @@ def _timestamp_instants_eq(a, b):
     if b.tzinfo is None:
         b = b.replace(tzinfo=OffsetTZInfo())
     # datetime's __eq__ implementation compares instants; offsets and precision need not be equal.
-    return a == b
+    return a == b and fraction_a == fraction_b
 
 
 def _symbols_eq(a, b):
-- 
2.43.0


From 41f0a419e473fee806702ddcd00e39349253e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 15/54] fix: decode UTF-8 in quoted text when reading Ion text
 from bytes

---
 amazon/ion/reader_text.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 4a3fbac..0983230 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -31,7 +31,7 @@ from amazon.ion.exceptions import IonException
 from amazon.ion.reader import BufferQueue, reader_trampoline, ReadEventType, safe_unichr, CodePointArray, CodePoint, \
     _NARROW_BUILD
 from amazon.ion.symbols import SymbolToken, TEXT_ION_1_0
-from amazon.ion.util import record, coroutine, Enum, _next_code_point, CodePoint
+from amazon.ion.util import record, coroutine, Enum, _next_code_point, CodePoint, unicode_iter
 
 _ord = six.byte2int
 _chr = safe_unichr
@@ -2167,6 +2167,20 @@ def _skip_trampoline(handler):
         data_event, _ = yield Transition(event, self)
 
 
+_MAX_ASCII = 0x7f
+
+
+def _utf8_continuation_length(first_byte, ctx):
+    """Returns the number of bytes that follow the given first byte of a multi-byte UTF-8 code point."""
+    if 0xc2 <= first_byte <= 0xdf:
+        return 1
+    if 0xe0 <= first_byte <= 0xef:
+        return 2
+    if 0xf0 <= first_byte <= 0xf4:
+        return 3
+    _illegal_character(first_byte, ctx, 'Invalid UTF-8.')
+
+
 _next_code_point_iter = partial(_next_code_point, yield_char=_NARROW_BUILD)
 
 
@@ -2238,6 +2252,14 @@ def _next_code_point_handler(whence, ctx):
                 yield Transition(None, whence)
         elif low_surrogate_required:
             _illegal_character(code_point, ctx, 'Unpaired high surrogate escape sequence %s.' % (escape_sequence,))
+        elif not queue.is_unicode and unicode_escapes_allowed and code_point > _MAX_ASCII:
+            # The data is UTF-8, and this is the first byte of a multi-byte code point.
+            utf8 = bytearray((code_point,))
+            for _ in range(_utf8_continuation_length(code_point, ctx)):
+                if len(queue) == 0:
+                    yield ctx.read_data_event(self)
+                utf8.append(next(queue_iter))
+            code_point = next(unicode_iter(_decode(utf8)))
         if code_point == _CARRIAGE_RETURN:
             # Normalize all newlines (\r, \n, and \r\n) to \n .
             if len(queue) == 0:
-- 
2.43.0


From c21e8d60f1620ea09a2544b8d1023d4dac3ef538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 16/54] fix: non-string elements of a local symbol table's
 symbols list occupy a symbol ID

---
 amazon/ion/reader_managed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..b90a421 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -141,6 +141,9 @@ def _symbols_handler(symbols, whence):
         if ion_type is IonType.STRING:
             # Add the potentially null text.
             symbols.append(ion_event.value)
+        else:
+            # Any element that is not a string occupies a slot with unknown text.
+            symbols.append(None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From e5cf6a7c83b5b5253dc1bbef31f89986c32f2241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 17/54] fix: ignore or default the invalid fields of a symbol
 table import

---
 amazon/ion/reader_managed.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index b90a421..855e9cf 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -170,7 +170,8 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
+            # Imports without a name, or of the system symbol table, are ignored.
+            if desc.name and desc.name != TEXT_ION:
                 table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
                 imports.append(table)
 
@@ -184,9 +185,13 @@ def _import_desc_handler(ctx, imports, whence):
             if field_name == TEXT_NAME and ion_type is IonType.STRING:
                 desc.name = ion_event.value
             elif field_name == TEXT_VERSION and ion_type is IonType.INT:
-                desc.version = ion_event.value
+                version = ion_event.value
+                # A version that is null or less than one is treated as one.
+                desc.version = 1 if version is None or version < 1 else version
             elif field_name == TEXT_MAX_ID and ion_type is IonType.INT:
-                desc.max_id = ion_event.value
+                max_id = ion_event.value
+                # A maximum ID that is null or negative is treated as undefined.
+                desc.max_id = None if max_id is None or max_id < 0 else max_id
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 765859824e2bc91be7c925702680c0026ca54cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 18/54] fix: ignore a null symbol as the imports of a local
 symbol table

---
 amazon/ion/reader_managed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 855e9cf..a3a1746 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -250,6 +250,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From f9be1e4df7015d1f21e4b3360bfe13b738275a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 19/54] fix: reject a local symbol table with repeated symbols
 or imports fields

---
 amazon/ion/reader_managed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a3a1746..b17d381 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -221,6 +221,7 @@ def _imports_handler(ctx, imports, whence):
 def _local_symbol_table_handler(ctx):
     symbols = []
     imports = None
+    field_names = set()
 
     ion_event, self = yield
     while True:
@@ -234,6 +235,11 @@ def _local_symbol_table_handler(ctx):
         else:
             field_name = ctx.resolve(ion_event.field_name).text
 
+        if field_name in (TEXT_SYMBOLS, TEXT_IMPORTS):
+            if field_name in field_names:
+                raise IonException('Repeated %s field in local symbol table' % (field_name,))
+            field_names.add(field_name)
+
         trans = Transition(NEXT_EVENT, self)
         if event_type is IonEventType.CONTAINER_START:
             if field_name == TEXT_SYMBOLS and ion_type is IonType.LIST:
-- 
2.43.0


From 024950e1d9e5d08f4d66ba1b4491d1766acefa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 20/54] fix: SymbolTable.get returns the given default for
 unknown text

---
 amazon/ion/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 252852d..5b3a3e5 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -282,7 +282,7 @@ class SymbolTable(object):
             SymbolToken: The token associated with the key or the default if it doesn't exist.
         """
         if isinstance(key, six.text_type):
-            return self.__mapping.get(key, None)
+            return self.__mapping.get(key, default)
         if not isinstance(key, int):
             raise TypeError('Key must be int or Unicode sequence.')
 
-- 
2.43.0


From 707a660af346a1da46a5a668c5f2284be00dcfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 21/54] fix: data that equals the end of file marker is not
 taken for it

---
 amazon/ion/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..7728848 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,11 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EndOfFile(bytes):
+    """The type of the EOF marker: not ``bytes``, single elements of which compare identical when they are equal."""
+
+
+_EOF = _EndOfFile(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
-- 
2.43.0


From 5c4940909d77584b344eabbd975af47aa8b8395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 22/54] fix: a comment before the value of a field or
 annotation does not end that value early

---
 amazon/ion/reader_text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 0983230..9705d2a 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2045,6 +2045,9 @@ def _container_handler(c, ctx):
                 if not is_value_decorated():
                     # This is the start of a new child value.
                     child_context = ctx.derive_child_context(self)
+                else:
+                    # A comment may have preceded the value; the value itself might not be self-delimiting.
+                    child_context.set_self_delimiting(False)
                 if is_field_name:
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
-- 
2.43.0


From d489b2bd40e0f089eafc56451765acd1de920ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 23/54] fix: the end of the data inside a container is an error
 after a single-character token too

---
 amazon/ion/reader_text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 9705d2a..27e40bc 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1915,7 +1915,7 @@ _IMMEDIATE_FLUSH_TABLE = _defaultdict(
         (_LETTERS, True),
         {_DOLLAR_SIGN: True},
     ),
-    fallback=lambda: False
+    fallback=False
 )
 
 
@@ -2052,7 +2052,7 @@ def _container_handler(c, ctx):
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
                     handler = _VALUE_START_TABLE[c](c, child_context)  # Initialize the new handler
-                    can_flush = _IMMEDIATE_FLUSH_TABLE[c]
+                    can_flush = ctx.depth == 0 and _IMMEDIATE_FLUSH_TABLE[c]
             container_start = c == _OPEN_BRACKET or \
                               c == _OPEN_PAREN  # _OPEN_BRACE might start a lob; that is handled elsewhere.
             quoted_start = c == _DOUBLE_QUOTE or c == _SINGLE_QUOTE
-- 
2.43.0


From 102ec8ea3037dd531dc625697ca510b72fc27647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 24/54] fix: reject a lone single-character symbol in place of
 a struct's field

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 27e40bc..4c34676 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1287,6 +1287,8 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
             elif _ends_value(c) or (in_sexp and c in _OPERATORS):
+                if is_field_name:
+                    _illegal_character(c, ctx, 'Illegal character after field name.')
                 trans = ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, val.as_symbol())
             else:
                 trans = ctx.immediate_transition(_unquoted_symbol_handler(c, ctx, is_field_name=is_field_name))
-- 
2.43.0


From 247895f26db66bc33da8f5fb695ac3605256f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 25/54] fix: an empty symbol after a long string is not lost
 and may be an annotation

---
 amazon/ion/reader_text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 4c34676..1d682ce 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2080,7 +2080,8 @@ def _container_handler(c, ctx):
                         # This is a composite transition, i.e. it is an event transition followed by an immediate
                         # transition to the handler coroutine for the next token.
                         next_transition = trans.next_transition
-                        child_context = trans.next_context
+                        # The next token may share its context with this one.
+                        child_context = trans.next_context.set_composite(False)
                         assert next_transition is None or next_transition.event is None
                     else:
                         next_transition = None
@@ -2099,8 +2100,9 @@ def _container_handler(c, ctx):
                             None,
                             _container_handler(c, ctx.derive_container_context(trans.event.ion_type, self))
                         )
-                    complete = ctx.depth == 0
-                    can_flush = False
+                    # In the case of a composite transition, the next token may already be complete.
+                    can_flush = ctx.depth == 0 and bool(has_pending_symbol())
+                    complete = ctx.depth == 0 and not can_flush
                     if is_container or is_self_delimiting:
                         # The end of the value has been reached, and c needs to be updated
                         assert not ctx.quoted_text
-- 
2.43.0


From e2aa11049c9679079699df3e20f70de254907fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 26/54] fix: SKIP after a nested container ends goes to the end
 of the enclosing container

---
 amazon/ion/reader_text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 1d682ce..e6ef9e5 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2168,9 +2168,12 @@ def _skip_trampoline(handler):
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
+        if event is not None:
+            # Track the depth of the event that ends the current container.
+            if event.event_type is IonEventType.CONTAINER_START:
                 depth = event.depth
+            elif event.event_type is IonEventType.CONTAINER_END:
+                depth = event.depth - 1
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From 250bfa4fba7e20e161cd86a00ac64a68f4f186f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 27/54] fix: the symbol _ at the end of the data is not an
 error

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index e6ef9e5..46de534 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1914,7 +1914,7 @@ _VALUE_START_TABLE = _defaultdict(
 _IMMEDIATE_FLUSH_TABLE = _defaultdict(
     _merge_mappings(
         (_DIGITS, True),
-        (_LETTERS, True),
+        (_IDENTIFIER_STARTS, True),
         {_DOLLAR_SIGN: True},
     ),
     fallback=False
-- 
2.43.0


From df1209c6026b5a14004e32fb10de04ba9a7003a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 28/54] fix: $ion__0 is an ordinary symbol

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 46de534..001fbd2 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1474,7 +1474,7 @@ def _symbol_identifier_or_unquoted_symbol_handler(c, ctx, is_field_name=False):
                     if c in _DIGITS:
                         if ivm_post_underscore:
                             complete_ivm = True
-                    elif c == _UNDERSCORE and not ivm_post_underscore:
+                    elif c == _UNDERSCORE and not ivm_post_underscore and len(val) > match_index:
                         ivm_post_underscore = True
                     else:
                         maybe_ivm = False
-- 
2.43.0


From 9c7dec832a98a95fab99a04a7105d51b5cf6486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 29/54] fix: a comment after an empty quoted symbol is not read
 as quoted text

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 001fbd2..56bd80f 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1631,7 +1631,8 @@ _two_single_quotes_handler = _single_quote_handler_factory(
         _long_string_handler(c, ctx, is_field_name)
     ),
     lambda c, ctx, is_field_name:
-        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)  # Empty symbol.
+        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().set_quoted_text(False)
+        .immediate_transition(ctx.whence)  # Empty symbol.
 )
 _long_string_or_symbol_handler = _single_quote_handler_factory(
     lambda c, ctx, is_field_name:
-- 
2.43.0


From d9b6530838b015ba735f544f7c38c3ab070cd198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 30/54] fix: an annotated symbol before a line comment that
 ends with the data is not an error

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 56bd80f..ddf1331 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1965,7 +1965,7 @@ def _container_handler(c, ctx):
                    ) or
                    (
                        child_context.line_comment and
-                       not is_value_decorated()
+                       (not is_value_decorated() or has_pending_symbol())
                    )
                )
 
-- 
2.43.0


From eb8cf2f458fa85c5654b7afec2519ada6a14e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 31/54] fix: reject blob text after padding that whitespace
 follows

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index ddf1331..aa2a720 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1747,7 +1747,7 @@ def _blob_end_handler_factory():
     def action(c, ctx, prev, res, is_first):
         num_digits, num_pads = expand_res(res)
         if c in _BASE64_DIGITS:
-            if prev == _CLOSE_BRACE or prev == _BASE64_PAD:
+            if prev == _CLOSE_BRACE or num_pads > 0:
                 _illegal_character(c, ctx.set_ion_type(IonType.BLOB))
             num_digits += 1
         elif c == _BASE64_PAD:
-- 
2.43.0


From 47e04fa753557883b8c1ffb02dfb9545ef6e0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 32/54] fix: decimals with large exponents are read from binary
 unchanged

---
 amazon/ion/reader_binary.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 6a97a30..7b83629 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -20,7 +20,7 @@ from __future__ import print_function
 import six
 
 from datetime import timedelta
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 from io import BytesIO
 from struct import unpack
@@ -186,22 +186,11 @@ def _parse_signed_int_components(buf):
 
 def _parse_decimal(buf):
     """Parses the remainder of a file-like object as a decimal."""
-    from decimal import localcontext
     exponent = _parse_var_int(buf, signed=True)
     sign_bit, coefficient = _parse_signed_int_components(buf)
 
-    if coefficient == 0:
-        # Handle the zero cases--especially negative zero
-        value = Decimal((sign_bit, (0,), exponent))
-    else:
-        coefficient *= sign_bit and -1 or 1
-        with localcontext() as context:
-            # Adjusting precision for taking into account arbitrarily
-            # large/small numbers
-            context.prec = len(str(coefficient))
-            value = Decimal(coefficient).scaleb(exponent)
-
-    return value
+    # Built from its parts, because arithmetic on Decimals is subject to the exponent limits of the context.
+    return Decimal((sign_bit, tuple(map(int, str(coefficient))), exponent))
 
 
 def _parse_sid_iter(data):
-- 
2.43.0


From 25bea15a5a3e58304779330e75688072f817f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 33/54] fix: reject data of the wrong type while skipping in
 binary

---
 amazon/ion/reader_binary.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 7b83629..edb95dd 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -365,15 +365,10 @@ def _read_data_handler(length, whence, ctx, skip=False, stream_event=ION_STREAM_
                 # We got something so we can only be incomplete.
                 stream_event = ION_STREAM_INCOMPLETE_EVENT
             length -= data_len
-            if not skip:
-                queue.extend(data)
-            else:
-                pos_adjustment = data_len
-                if length < 0:
-                    pos_adjustment += length
-                    # More data than we need to skip, so make sure to accumulate that remnant.
-                    queue.extend(data[length:])
-                queue.position += pos_adjustment
+            queue.extend(data)
+            if skip:
+                # Consume what is to be skipped; any more data than that remains in the queue.
+                queue.skip(data_len if length >= 0 else data_len + length)
         if length <= 0:
             # We got all the data we need, go back immediately
             yield Transition(None, whence)
-- 
2.43.0


From 5f2a4996753ca3833a3c13165682d6bbb55d6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 34/54] fix: dump does not take a symbol for a sequence of
 values

---
 amazon/ion/simpleion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 6aab1ca..0c550ca 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -149,7 +149,7 @@ def dump(obj, fp, imports=None, binary=True, sequence_as_stream=False, skipkeys=
     from_type = _FROM_TYPE_TUPLE_AS_SEXP if tuple_as_sexp else _FROM_TYPE
     if binary or not omit_version_marker:
         writer.send(ION_VERSION_MARKER_EVENT)  # The IVM is emitted automatically in binary; it's optional in text.
-    if sequence_as_stream and isinstance(obj, (list, tuple)):
+    if sequence_as_stream and isinstance(obj, (list, tuple)) and not isinstance(obj, SymbolToken):
         # Treat this top-level sequence as a stream; serialize its elements as top-level values, but don't serialize the
         # sequence itself.
         for top_level in obj:
-- 
2.43.0


From 6fd366528b1afc50457389895ca2304075e439ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 35/54] fix: the binary writer does not take a number in place
 of symbol text for a symbol ID

---
 amazon/ion/writer_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 0e8a450..f3d8af1 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -114,6 +114,9 @@ def _symbol_table_coroutine(writer_buffer, imports):
             assert isinstance(symbol, six.text_type)
             key = symbol
             symbol_text = symbol
+        if symbol_text is not None and not isinstance(symbol_text, six.text_type):
+            # A number would be taken for a symbol ID.
+            raise TypeError('Cannot intern non-Unicode sequence into symbol table: %r' % (symbol_text,))
         token = local_symbols.get(key)
         if token is None:
             assert symbol_text is not None
-- 
2.43.0


From 78a6c224cc6cd0f4e973d5417fea65343b0df261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 36/54] fix: numbers of types that override __str__ are written
 to Ion text by value

---
 amazon/ion/writer_text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 4d89672..690d109 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -87,7 +87,8 @@ def _serialize_scalar_from_string_representation_factory(type_name, types, str_f
 
 
 _serialize_int = _serialize_scalar_from_string_representation_factory(
-    'int', six.integer_types
+    'int', six.integer_types,
+    str_func=lambda val: '%d' % val  # Subclasses (bool, IntEnum) may have another __str__.
 )
 
 
@@ -103,7 +104,7 @@ def _float_str(val):
             return '+inf'
         else:
             return '-inf'
-    text = repr(val)
+    text = float.__repr__(val)  # Subclasses may have another __repr__.
     if _EXPONENT_PAT.search(text) is None:
         text += 'e0'
     return text
@@ -118,7 +119,7 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 def _decimal_str(val):
     if not val.is_finite():
         raise ValueError('Ion decimals cannot represent %s.' % (val,))
-    text = str(val)
+    text = Decimal.__str__(val)  # Subclasses may have another __str__.
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
         new_text += 'd0'
-- 
2.43.0


From ea5b4d53717cd48e057922263eb314eca2eeabb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 37/54] fix: decimals are written in binary whatever their
 exponent and the decimal context

---
 amazon/ion/writer_binary_raw.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 262108c..f7ec2ed 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 
 import six
@@ -170,12 +170,15 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
     return length
 
 
+def _coefficient(sign, digits):
+    # Arithmetic on Decimals would be subject to the limits of the decimal context.
+    coefficient = int(''.join(map(str, digits)))
+    return -coefficient if sign else coefficient
+
+
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    with localcontext() as context:
-        # Adjusting precision for taking into account arbitrarily many digits.
-        context.prec = len(digits)
-        coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _coefficient(sign, digits)
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
@@ -188,11 +191,7 @@ def _serialize_decimal(ion_event):
     value = ion_event.value
     validate_scalar_value(value, Decimal)
     sign, digits, exponent = value.as_tuple()
-    with localcontext() as context:
-        # Adjusting precision for taking into account arbitrarily large/small
-        # numbers
-        context.prec = len(digits)
-        coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _coefficient(sign, digits)
     if not sign and not exponent and not coefficient:
         # The value is 0d0; other forms of zero will fall through.
         buf.append(_Zeros.DECIMAL)
-- 
2.43.0


From d5116d18f6b0c9c9fe778ace050f34472f6cf92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 38/54] fix: microseconds are not rounded to the precision of
 the decimal context

---
 amazon/ion/core.py        | 3 ++-
 amazon/ion/equivalence.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 53dbfa2..da1d119 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -507,7 +507,8 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             else:
                 try:
-                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION)\
+                    fractional_seconds = Decimal(datetime_microseconds)\
+                        .scaleb(-MICROSECOND_PRECISION, context=Context())\
                         .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=Context(traps=[Inexact]))
                 except Inexact:
                     raise ValueError('microsecond value %d cannot be expressed exactly in %d digits.'
diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 2d2c786..b5b393e 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 import struct
 from datetime import datetime
-from decimal import Decimal
+from decimal import Context, Decimal
 from math import isnan
 
 import six
@@ -198,7 +198,8 @@ def _timestamp_instants_eq(a, b):
         return False
     # datetime's __eq__ ignores any digits beyond microseconds.
     fraction_a, fraction_b = (
-        getattr(x, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, Decimal(x.microsecond).scaleb(-MICROSECOND_PRECISION))
+        getattr(x, TIMESTAMP_FRACTIONAL_SECONDS_FIELD,
+                Decimal(x.microsecond).scaleb(-MICROSECOND_PRECISION, context=Context()))
         for x in (a, b)
     )
     # datetime's __eq__ can't compare a None offset and a non-None offset. For these equivalence semantics, a None
-- 
2.43.0


From 03d4f5b7b33df56f78c812a2bf8bc6bce3112023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 39/54] fix: ion_equals compares the digits beyond microseconds
 of a Timestamp with a datetime

---
 amazon/ion/equivalence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index b5b393e..9055bc3 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -184,9 +184,10 @@ def _timestamps_eq(a, b):
                         and a.fractional_seconds.as_tuple() == b.fractional_seconds.as_tuple():
                     break
                 return False
-            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
+            elif a.precision is not TimestampPrecision.SECOND \
+                    or a.fractional_seconds.as_tuple().exponent != -MICROSECOND_PRECISION:
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
-                # if it has full microseconds precision.
+                # if it has full microseconds precision, and no more than that.
                 return False
     return a == b
 
-- 
2.43.0


From 3b01cb63089d3df67e1f36a0ab4ca888d92715a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 40/54] fix: a copied or unpickled enumeration member is the
 member itself

---
 amazon/ion/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amazon/ion/util.py b/amazon/ion/util.py
index 475a5d7..cd625f6 100644
--- a/amazon/ion/util.py
+++ b/amazon/ion/util.py
@@ -55,6 +55,10 @@ class _EnumMetaClass(type):
         return six.itervalues(self._enum_members)
 
 
+def _enum_member(cls, value):
+    return cls[value]
+
+
 @six.add_metaclass(_EnumMetaClass)
 class Enum(int):
     """Simple integer based enumeration type.
@@ -94,6 +98,10 @@ class Enum(int):
     def __getnewargs__(self):
         return (self.name, self.value)
 
+    def __reduce_ex__(self, protocol):
+        # Members are compared by identity, so a copy must be the member itself.
+        return _enum_member, (type(self), self.value)
+
     def __str__(self):
         return '<%s.%s: %s>' % (type(self).__name__, self.name, self.value)
     __repr__ = __str__
-- 
2.43.0


From a1bfe452a6facad5fd4f3d4e2dbd1d3a5e5f4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 41/54] fix: copying or pickling a Timestamp keeps its
 precision and fraction

---
 amazon/ion/core.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index da1d119..6bd2b67 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -527,6 +527,15 @@ class Timestamp(datetime):
 
         return instance
 
+    def __reduce_ex__(self, protocol):
+        # The inherited reduction leaves out the fields that this class adds.
+        fields = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
+        return (_restore_timestamp, (type(self), fields, self.precision, self.fractional_seconds),
+                getattr(self, '__dict__', None) or None)
+
+    def __reduce__(self):
+        return self.__reduce_ex__(2)
+
     def __repr__(self):
         return 'Timestamp(%04d-%02d-%02dT%02d:%02d:%02d.%06d, %r, %r, %s=%s)' % \
                (self.year, self.month, self.day,
@@ -563,6 +572,10 @@ class Timestamp(datetime):
         )
 
 
+def _restore_timestamp(cls, fields, precision, fractional_seconds):
+    return cls(*fields, precision=precision, fractional_seconds=fractional_seconds)
+
+
 def timestamp(year, month=1, day=1,
               hour=0, minute=0, second=0, microsecond=None,
               off_hours=None, off_minutes=None,
-- 
2.43.0


From 777f87bf8cc3dd4570debeee9bd11b4d853d5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 42/54] fix: Timestamp.replace returns a complete Timestamp

---
 amazon/ion/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 6bd2b67..2684886 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -527,6 +527,15 @@ class Timestamp(datetime):
 
         return instance
 
+    def replace(self, *args, **kwargs):
+        """As :meth:`datetime.replace`; the precision is kept, and so is the fraction unless ``microsecond`` changes."""
+        replaced = super(Timestamp, self).replace(*args, **kwargs)
+        fields = (replaced.year, replaced.month, replaced.day, replaced.hour, replaced.minute, replaced.second)
+        if replaced.microsecond == self.microsecond:
+            return type(self)(*(fields + (None, replaced.tzinfo)),
+                              precision=self.precision, fractional_seconds=self.fractional_seconds)
+        return type(self)(*(fields + (replaced.microsecond, replaced.tzinfo)), precision=self.precision)
+
     def __reduce_ex__(self, protocol):
         # The inherited reduction leaves out the fields that this class adds.
         fields = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
-- 
2.43.0


From 5a902b06f87f2ddd7104f1b19a0b3f6956d070fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 43/54] fix: the fraction of the result of Timestamp arithmetic
 agrees with its microseconds

---
 amazon/ion/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 2684886..a9580d6 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -521,6 +521,10 @@ class Timestamp(datetime):
             fractional_seconds = DECIMAL_ZERO
 
         instance = super(Timestamp, cls).__new__(cls, *args, **kwargs)
+        if datetime_microseconds is None and not fractional_seconds and instance.microsecond:
+            # Operations of datetime may construct their results from other arguments than the fields.
+            fractional_precision = MICROSECOND_PRECISION
+            fractional_seconds = Decimal(instance.microsecond).scaleb(-MICROSECOND_PRECISION, context=Context())
         setattr(instance, TIMESTAMP_PRECISION_FIELD, precision)
         setattr(instance, TIMESTAMP_FRACTION_PRECISION_FIELD, fractional_precision)
         setattr(instance, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, fractional_seconds)
-- 
2.43.0


From 996734be8788b2f2c49a007e59ab98014d8e8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 44/54] fix: a Multimap constructed from a Multimap has all of
 its values

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index a9580d6..a370fb9 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -640,7 +640,7 @@ class Multimap(MutableMapping):
         self.__store = OrderedDict()
         if args is not None and len(args) > 0:
             for key, value in six.iteritems(args[0]):
-                self.__store[key] = MultimapValue(value)
+                self.add_item(key, value)
 
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
-- 
2.43.0


From e0b217a5977252f2d0a48a5d3d2d46cb88e0d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 45/54] fix: a shallow copy of a Multimap is independent of it

---
 amazon/ion/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index a370fb9..e3e15e8 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -658,6 +658,12 @@ class Multimap(MutableMapping):
         for key in six.iterkeys(self.__store):
             yield key
 
+    def __copy__(self):
+        copied = type(self)()
+        copied.__dict__.update(self.__dict__)
+        copied.__store = OrderedDict((key, MultimapValue(*values)) for key, values in six.iteritems(self.__store))
+        return copied
+
     def add_item(self, key, value):
         if key in self.__store:
             self.__store[key].append(value)
-- 
2.43.0


From 9a14a60d3ffdc88681c457d0231a7900771e76f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 46/54] fix: copying or pickling an IonPyDecimal keeps its type
 and annotations

---
 amazon/ion/simple_types.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index 9db902d..327a822 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -151,11 +151,25 @@ else:
 
 IonPyBool = IonPyInt
 IonPyFloat = _ion_type_for('IonPyFloat', float)
-IonPyDecimal = _ion_type_for('IonPyDecimal', Decimal)
 IonPyText = _ion_type_for('IonPyText', six.text_type)
 IonPyBytes = _ion_type_for('IonPyBytes', six.binary_type)
 
 
+class IonPyDecimal(Decimal, _IonNature):
+    def __init__(self, *args, **kwargs):
+        super(IonPyDecimal, self).__init__(*args, **kwargs)
+
+    # Decimal copies and pickles the number only.
+    def __copy__(self):
+        return self._copy()
+
+    def __deepcopy__(self, memo):
+        return self._copy()
+
+    def __reduce__(self):
+        return type(self), (Decimal.__str__(self),), self.__dict__
+
+
 class IonPySymbol(SymbolToken, _IonNature):
     def __init__(self, *args, **kwargs):
         super(IonPySymbol, self).__init__(*args, **kwargs)
-- 
2.43.0


From 753c3537ea86687c7e4f1d0eb95b7a284537aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 47/54] fix: copying or replacing a Timestamp keeps its fold

---
 amazon/ion/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index e3e15e8..ccf0484 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -536,14 +536,15 @@ class Timestamp(datetime):
         replaced = super(Timestamp, self).replace(*args, **kwargs)
         fields = (replaced.year, replaced.month, replaced.day, replaced.hour, replaced.minute, replaced.second)
         if replaced.microsecond == self.microsecond:
-            return type(self)(*(fields + (None, replaced.tzinfo)),
-                              precision=self.precision, fractional_seconds=self.fractional_seconds)
-        return type(self)(*(fields + (replaced.microsecond, replaced.tzinfo)), precision=self.precision)
+            return type(self)(*(fields + (None, replaced.tzinfo)), precision=self.precision,
+                              fractional_seconds=self.fractional_seconds, **_fold_argument(replaced))
+        return type(self)(*(fields + (replaced.microsecond, replaced.tzinfo)), precision=self.precision,
+                          **_fold_argument(replaced))
 
     def __reduce_ex__(self, protocol):
         # The inherited reduction leaves out the fields that this class adds.
         fields = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
-        return (_restore_timestamp, (type(self), fields, self.precision, self.fractional_seconds),
+        return (_restore_timestamp, (type(self), fields, self.precision, self.fractional_seconds, _fold_argument(self)),
                 getattr(self, '__dict__', None) or None)
 
     def __reduce__(self):
@@ -585,8 +586,13 @@ class Timestamp(datetime):
         )
 
 
-def _restore_timestamp(cls, fields, precision, fractional_seconds):
-    return cls(*fields, precision=precision, fractional_seconds=fractional_seconds)
+def _fold_argument(date_time):
+    # Versions before 3.6 have no fold.
+    return {'fold': 1} if getattr(date_time, 'fold', 0) else {}
+
+
+def _restore_timestamp(cls, fields, precision, fractional_seconds, fold):
+    return cls(*fields, precision=precision, fractional_seconds=fractional_seconds, **fold)
 
 
 def timestamp(year, month=1, day=1,
-- 
2.43.0


From a299599c330d827195d473296896342219c41f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 48/54] fix: assigning to an element of all values of a name
 replaces that element

---
 amazon/ion/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index ccf0484..65d147c 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -700,7 +700,7 @@ class MultimapValue(MutableSequence):
             self.__store = []
 
     def insert(self, index, value):
-        self.__setitem__(index, value)
+        self.__store.insert(index, value)
 
     def __len__(self):
         return len(self.__store)
@@ -709,7 +709,7 @@ class MultimapValue(MutableSequence):
         return self.__store[index]
 
     def __setitem__(self, index, value):
-        self.__store.insert(index, value)
+        self.__store[index] = value
 
     def __delitem__(self, index):
         del self.__store[index]
-- 
2.43.0


From a57b99cb18016c89d767fe7bef100da3fd2c2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 49/54] fix: extending the buffer by no data leaves it readable

---
 amazon/ion/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 7728848..969c42a 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -148,8 +148,9 @@ class BufferQueue(object):
         # TODO Determine if we should use memoryview to avoid copying.
         if not isinstance(data, self.__element_type):
             BufferQueue._incompatible_types(self.__element_type, data)
-        self.__segments.append(data)
-        self.__size += len(data)
+        if len(data) > 0:
+            self.__segments.append(data)
+            self.__size += len(data)
 
     def mark_eof(self):
         self.__segments.append(_EOF)
-- 
2.43.0


From f471f2d42ad46ad319323554293c0453b0510663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 50/54] fix: refusing to unread a character leaves the buffer
 unchanged

---
 amazon/ion/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 969c42a..4736c37 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -249,10 +249,10 @@ class BufferQueue(object):
                 segment = c
             self.__segments.appendleft(segment)
         else:
-            self.__offset -= num_code_units
+            offset = self.__offset - num_code_units
 
             def verify(ch, idx):
-                existing = self.__segments[0][self.__offset + idx]
+                existing = self.__segments[0][offset + idx]
                 if existing != ch:
                     raise ValueError('Attempted to unread %s when %s was expected.' % (ch, existing))
             if num_code_units == 1:
@@ -260,6 +260,7 @@ class BufferQueue(object):
             else:
                 for i in range(num_code_units):
                     verify(c[i], i)
+            self.__offset = offset
         self.__size += num_code_units
         self.position -= num_code_units
 
-- 
2.43.0


From 485b40408b71963cd923d6fedeff75c79365f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 51/54] fix: reject binary containers, wrappers and length
 fields that overrun their container

A container, an annotation wrapper or a length field that reached beyond the
container it is in was reported as events; the error came only later, if at
all.
---
 amazon/ion/reader_binary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index edb95dd..aa2f01c 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -277,6 +277,8 @@ class _HandlerContext(record(
         return Transition(None, delegate)
 
     def derive_container_context(self, length, add_depth=1):
+        if length > self.remaining:
+            raise IonException('Length overrun: %d bytes, %d remaining' % (length, self.remaining))
         new_limit = self.queue.position + length
         return _HandlerContext(
             self.position,
@@ -402,6 +404,8 @@ def _var_uint_field_handler(handler, ctx):
         value |= octet & _VAR_INT_VALUE_MASK
         if octet & _VAR_INT_SIGNAL_MASK:
             break
+    if ctx.remaining < 0:
+        raise IonException('Length field overrun by %d bytes' % -ctx.remaining)
     yield ctx.immediate_transition(handler(value, ctx))
 
 
-- 
2.43.0


From 1eae51c7e226b99537979fbd0b85723d73742405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 52/54] fix: read a binary decimal of length zero in a separate
 length field

5E 80 raised TypeError.
---
 amazon/ion/reader_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index aa2f01c..3234f10 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -650,6 +650,9 @@ def _float_factory(data):
 
 def _decimal_factory(data):
     def parse_decimal():
+        if len(data) == 0:
+            # Zero, whose length is in a separate field.
+            return Decimal()
         return _parse_decimal(BytesIO(data))
 
     return parse_decimal
-- 
2.43.0


From ce719ccd28f8bd4362f1e959d16f7685112d1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 53/54] fix: end the token before a line comment that the end
 of the data ends

After a long string, a line comment ended by the end of the data needed a
second flush before the string was reported.
---
 amazon/ion/reader_text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index aa2a720..f328244 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2058,6 +2058,7 @@ def _container_handler(c, ctx):
                     can_flush = ctx.depth == 0 and _IMMEDIATE_FLUSH_TABLE[c]
             container_start = c == _OPEN_BRACKET or \
                               c == _OPEN_PAREN  # _OPEN_BRACE might start a lob; that is handled elsewhere.
+            resend_eof = False
             quoted_start = c == _DOUBLE_QUOTE or c == _SINGLE_QUOTE
             while True:
                 # Loop over all characters in the current token. A token is either a non-symbol value or a pending
@@ -2065,6 +2066,8 @@ def _container_handler(c, ctx):
                 if container_start:
                     c = None
                     container_start = False
+                elif resend_eof:
+                    resend_eof = False
                 else:
                     if child_context.quoted_text or quoted_start:
                         quoted_start = False
@@ -2139,6 +2142,8 @@ def _container_handler(c, ctx):
                     break
                 # This is an immediate transition to a handler (may be the same one) for the current token.
                 can_flush = _can_flush()
+                # The end of the data ended a line comment; it has to end the token before that comment, too.
+                resend_eof = BufferQueue.is_eof(c) and trans.delegate is not handler
                 handler = trans.delegate
         else:
             assert not ctx.quoted_text
-- 
2.43.0


From a9f9d4b4289c35a2f820be145ca6844caf5e0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:40 +0000
Subject: [PATCH 54/54] fix: read bytes, not a bytearray, across pieces of the
 input

A blob or clob cut by the end of a chunk was a bytearray, which is mutable
and cannot be hashed, where the same value in one piece is bytes.
---
 amazon/ion/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 4736c37..0da24f1 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -201,7 +201,7 @@ class BufferQueue(object):
         if self.is_unicode:
             return data.as_text()
         else:
-            return data
+            return six.binary_type(data)
 
     def read_byte(self):
         if self.__size < 1:
-- 
2.43.0

