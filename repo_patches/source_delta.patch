From 487f61a52f61b2d9043cea7226e5841501f46f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 001/273] fix: formatting a null EDM value raises ValueError as
 documented

---
 pyslet/odata2/csdl.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3d6b431..bd68b27 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1119,7 +1119,7 @@ class BinaryValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         input = io.BytesIO(self.value)
         output = io.StringIO()
         while True:
@@ -1167,7 +1167,7 @@ class BooleanValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         return self.utrue if self.value else self.ufalse
 
     def set_from_literal(self, value):
@@ -1248,7 +1248,7 @@ class ByteValue(NumericValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         return xsi.integer_to_str(self.value)
 
     def set_from_numeric_literal(self, num):
@@ -1309,7 +1309,7 @@ class DateTimeValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1390,7 +1390,7 @@ class DateTimeOffsetValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1458,7 +1458,7 @@ class TimeValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1528,7 +1528,7 @@ class DecimalValue(NumericValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         t = self.value.as_tuple()
         if t.exponent < -29:
             # CSDL expects a 29-digit limit to the right of the point
@@ -1760,7 +1760,7 @@ class GuidValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         return to_text(self.value)
 
     def set_from_literal(self, value):
@@ -1894,7 +1894,7 @@ class StringValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("NULL value has no text representation")
         return to_text(self.value)
 
     def set_from_value(self, new_value):
-- 
2.43.0


From c11c67382eb3b6f985f18e585f529e2def11ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 002/273] fix: an empty Edm.Binary literal is parsed as bytes

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index bd68b27..7f8b62c 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -641,7 +641,7 @@ class Parser(xsi.BasicParser):
         output = []
         hex_str = self.parse_hex_digits(1)
         if hex_str is None:
-            return ''
+            return b''
         if len(hex_str) % 2:
             raise ValueError(
                 "Trailing nibble in binary literal: '%s'" % hex_str[-1])
-- 
2.43.0


From 13cbe50e183e479aa23fa9b6ffafa1b12122420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 003/273] fix: Edm.Decimal limits do not depend on the decimal
 context

---
 pyslet/odata2/csdl.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 7f8b62c..6ca0fef 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1514,17 +1514,15 @@ class DecimalValue(NumericValue):
 
     Decimal values can be set from int, (Python 2: long,) float or
     Decimal values."""
-    Max = decimal.Decimal(
-        10) ** 29 - 1     # max decimal in the default context
+    # max decimal for string representation
+    Max = decimal.Decimal('9' * 29 + '.' + '9' * 29)
     # min decimal for string representation
     Min = decimal.Decimal(10) ** -29
 
     @classmethod
     def abs(cls, d):
-        if d < 0:
-            return -d
-        else:
-            return d
+        # no rounding to the precision of the current context
+        return d.copy_abs()
 
     def __unicode__(self):
         if self.value is None:
@@ -1532,7 +1530,8 @@ class DecimalValue(NumericValue):
         t = self.value.as_tuple()
         if t.exponent < -29:
             # CSDL expects a 29-digit limit to the right of the point
-            d = self.value.quantize(decimal.Decimal(10) ** -29)
+            d = self.value.quantize(decimal.Decimal(10) ** -29,
+                                    context=decimal.Context(prec=58))
         elif t.exponent + len(t.digits) > 29:
             # CSDL expects a 29-digit limit to the left of the point
             raise ValueError(
-- 
2.43.0


From 2406a79b5360cab15ce2b2cdee56a25b7181c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 004/273] fix: Edm.Double and Edm.Single values format as valid
 literals

---
 pyslet/odata2/csdl.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 6ca0fef..f72c5b1 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1590,7 +1590,11 @@ class FloatValue(NumericValue):
     :py:class:`DoubleValue` only differ in the Max value used
     when range checking.
 
-    Values are formatted using Python's default string conversion."""
+    Values are formatted using Python's default string conversion
+    (without the '+' sign, which is not allowed in literal exponents)."""
+
+    def __unicode__(self):
+        return super(FloatValue, self).__unicode__().replace('+', '')
 
     def set_from_value(self, new_value):
         if new_value is None:
@@ -1697,6 +1701,14 @@ class SingleValue(FloatValue):
 
     # Min=2.0**-149             #: the smallest positive single value
 
+    def __unicode__(self):
+        result = super(SingleValue, self).__unicode__()
+        mantissa, e, exponent = result.partition('e')
+        if e:
+            # literals are limited to 9 digits in exponent form
+            result = mantissa[:11 if self.value < 0 else 10] + e + exponent
+        return result
+
     def set_from_numeric_literal(self, num):
         """Decodes a Single value from a :py:class:`Numeric` literal."""
         dstr = self.join_numeric_literal(num)
-- 
2.43.0


From 1bd61081e7b95d886cde9632e7d97b6d835eae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 005/273] fix: preserve white space in OData property values
 serialized to XML

---
 pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9e9793d..3eb287e 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3213,6 +3213,10 @@ class Property(ODataElement):
         # an :py:class:`pyslet.mc_csdl.EDMValue` instance
         self.edmValue = None
 
+    def get_space(self):
+        # white space is always significant in property values
+        return 'preserve'
+
     def get_simple_type(self):
         try:
             type = self.get_attribute((ODATA_METADATA_NAMESPACE, 'type'))
-- 
2.43.0


From 68c5ee1c39c9d42f447a1b293d042dcfd331e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 006/273] fix: read JSON dates which have no zone offset or
 precede 1970

---
 pyslet/odata2/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 3eb287e..3d738a8 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2834,15 +2834,17 @@ def parse_asp_dot_net_date(src):
     if not (src.startswith("/Date(") and src.endswith(")/")):
         raise ValueError
     ticks = src[6:-2]
+    # dates before the epoch have negative ticks
     if '+' in ticks:
         # split by +
         ticks = ticks.split('+')
         zdir = 1
-    elif '-' in ticks:
+    elif '-' in ticks[1:]:
         # split by -
-        ticks = ticks.split('-')
+        ticks = ticks.rsplit('-', 1)
         zdir = -1
     else:
+        ticks = [ticks]
         zdir = 0
     if zdir:
         if len(ticks) != 2:
@@ -2850,8 +2852,8 @@ def parse_asp_dot_net_date(src):
         zoffset = int(ticks[1])
     else:
         zoffset = 0
-    t, overflow = iso.Time().offset(
-        seconds=int(ticks[0]) / 1000.0)
+    overflow, ticks = divmod(int(ticks[0]), TICKS_PER_DAY)
+    t, _ = iso.Time().offset(seconds=ticks / 1000.0)
     t = t.with_zone(zdir, zoffset // 60, zoffset % 60)
     d = iso.Date(absolute_day=BASE_DAY + overflow)
     return iso.TimePoint(date=d, time=t)
-- 
2.43.0


From 14eebd43b43135d84cdc8d69fc3d1b9c87864556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 007/273] fix: round, don't truncate, milliseconds of dates in
 JSON

---
 pyslet/odata2/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 3d738a8..745d9cb 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2799,7 +2799,8 @@ def simple_value_to_json_str(v):
         # a strange format based on ticks, by definition, DateTime has no
         # offset
         ticks = (v.value.date.get_absolute_day() - BASE_DAY) * \
-            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000)
+            TICKS_PER_DAY + int(round(
+                v.value.time.get_total_seconds() * 1000))
         return '"\\/Date(%i)\\/"' % ticks
     elif isinstance(v, (edm.DecimalValue, edm.DoubleValue, edm.GuidValue,
                         edm.Int64Value, edm.SingleValue, edm.StringValue,
@@ -2810,7 +2811,8 @@ def simple_value_to_json_str(v):
         # a strange format based on ticks, by definition, DateTime has no
         # offset
         ticks = (v.value.date.get_absolute_day() - BASE_DAY) * \
-            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000)
+            TICKS_PER_DAY + int(round(
+                v.value.time.get_total_seconds() * 1000))
         dir, offset = v.value.get_zone()
         if dir > 0:
             s = "+"
-- 
2.43.0


From a5547112f7ef300cbd1a46975bb1c5e795ff022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 008/273] fix: malformed ISO 8601 strings raise ParserError or
 DateTimeError

---
 pyslet/iso8601.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 133de00..253fe89 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2886,7 +2886,7 @@ class ISO8601Parser(BasicParser):
         d, df = self.parse_date_format(base)
         if not d.complete():
             raise DateTimeError("incomplete date in time point %s" % str(d))
-        if self.the_char not in tdesignators:
+        if self.the_char is None or self.the_char not in tdesignators:
             raise DateTimeError("time-point requires time %s..." % str(d))
         tdesignator = self.the_char
         t, overflow, tf = self.parse_time_format(None, tdesignators)
@@ -2972,7 +2972,7 @@ class ISO8601Parser(BasicParser):
                                 century=v1, decade=v2 // 10, year=v2 %
                                 10, week=v3, base=base), "YYYY-Www"
                     else:
-                        self.BadSyntax("expected digit or W in ISO date")
+                        self.parser_error("expected digit or W in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
                     v3 = self.require_digit_value()
@@ -3004,7 +3004,7 @@ class ISO8601Parser(BasicParser):
                         return Date(
                             year=v1, month=v2, day=v3, base=base), "YY-MM-DD"
                     else:
-                        self.BadSyntax(
+                        self.parser_error(
                             "expected digit or hyphen in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
@@ -3021,7 +3021,7 @@ class ISO8601Parser(BasicParser):
                             decade=v1 // 10, year=v1 %
                             10, week=v2, base=base), "YY-Www"
                 else:
-                    self.BadSyntax("expected digit or W in ISO date")
+                    self.parser_error("expected digit or W in ISO date")
             elif self.the_char == "W":
                 self.next_char()
                 v2 = self.require_digit_value()
@@ -3080,6 +3080,9 @@ class ISO8601Parser(BasicParser):
                             year=v1, week=v2, weekday=v3, base=base), "-YWwwD"
                     else:
                         return Date(year=v1, week=v2, base=base), "-YWww"
+                else:
+                    self.parser_error(
+                        "expected digit, hyphen or W in truncated ISO date")
             elif self.the_char == "-":
                 self.next_char()
                 if self.match_digit():
@@ -3102,7 +3105,7 @@ class ISO8601Parser(BasicParser):
                     v1 = v1 * 10 + self.require_digit_value()
                     return Date(day=v1, base=base), "---DD"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             elif self.the_char == "W":
                 self.next_char()
@@ -3123,13 +3126,13 @@ class ISO8601Parser(BasicParser):
                     v1 = self.require_digit_value()
                     return Date(weekday=v1, base=base), "-W-D"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             else:
-                self.BadSyntax(
+                self.parser_error(
                     "expected digit, hyphen or W in truncated ISO date")
         else:
-            self.BadSyntax("expected digit or hyphen in ISO date")
+            self.parser_error("expected digit or hyphen in ISO date")
 
     def parse_date(self, date, base=None):
         raise DateTimeError(
@@ -3138,7 +3141,7 @@ class ISO8601Parser(BasicParser):
             "         d, tformat = p.parse_date_format(base)")
 
     def parse_time_format(self, base=None, tdesignators="T"):
-        if self.the_char in tdesignators:
+        if self.the_char is not None and self.the_char in tdesignators:
             self.next_char()
             tdesignator = 1
         else:
@@ -3202,7 +3205,7 @@ class ISO8601Parser(BasicParser):
                 tformat = "hh"
         elif self.the_char == "-":
             if tdesignator:
-                self.BadSyntax("time designator T before truncated time")
+                self.parser_error("time designator T before truncated time")
             self.next_char()
             if self.match_digit():
                 v1 = self.require_digit_value()
@@ -3251,12 +3254,14 @@ class ISO8601Parser(BasicParser):
                     hour, minute, second = None, None, v1
                     tformat = "--ss"
             else:
-                self.BadSyntax("expected digit or hyphen in truncated Time")
+                self.parser_error("expected digit or hyphen in truncated Time")
             # truncated forms cannot take timezones, return early
+            if base is None:
+                raise DateTimeError("truncated time with no base")
             t, overflow = base.extend(hour=hour, minute=minute, second=second)
             return t, overflow, tformat
         else:
-            self.BadSyntax("expected digit or hyphen in Time")
+            self.parser_error("expected digit or hyphen in Time")
         if self.the_char is not None and self.the_char in "Z+-":
             # can't be truncated form
             zdirection, zhour, zminute, tzFormat = \
@@ -3326,7 +3331,7 @@ class ISO8601Parser(BasicParser):
         value = self.parse_integer()
         if value is None:
             return None, None
-        if self.the_char in ".,":
+        if self.the_char is not None and self.the_char in ".,":
             if not allow_fraction:
                 raise DateTimeError(
                     "fractional component in duration must have lowest order")
@@ -3435,7 +3440,7 @@ class ISO8601Parser(BasicParser):
 
     def parse_fraction(self):
         if not (self.the_char == "." or self.the_char == ","):
-            self.BadSyntax("expected decimal sign")
+            self.parser_error("expected decimal sign")
         self.next_char()
         f = 0
         fmag = 1
@@ -3443,7 +3448,7 @@ class ISO8601Parser(BasicParser):
             f = f * 10 + self.require_digit_value()
             fmag *= 10
         if fmag == 1:
-            self.BadSyntax("expected decimal digit")
+            self.parser_error("expected decimal digit")
         return float(f) / float(fmag)
 
     def require_digit_value(self):
-- 
2.43.0


From e975b65a0a4538973da415abd972e1907fc4e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 009/273] fix: refuse ISO 8601 dates with a zero week, weekday
 or day number

---
 pyslet/iso8601.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 253fe89..8919645 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -224,12 +224,13 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         absolute_day = kwargs.get('absoluteDay', absolute_day)
         if src is None:
             # explicit form
-            if absolute_day:
+            if absolute_day is not None:
                 self._set_from_absolute_day(absolute_day)
-            elif decade or week or weekday:
+            elif (decade is not None or week is not None or
+                    weekday is not None):
                 self._set_from_week_day(
                     century, decade, year, week, weekday, base)
-            elif ordinal_day:
+            elif ordinal_day is not None:
                 self._set_from_ordinal_day(century, year, ordinal_day, base)
             elif century is None and base is None:
                 # use the origin, but everything else must be None too
@@ -449,7 +450,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         else:
             if weekday <= 0 or weekday > 7:
                 raise DateTimeError("weekday %i out of range" % weekday)
-        if week is not None and (week < 0 or week > 53):
+        if week is not None and (week < 1 or week > 53):
             raise DateTimeError("week %i out of range" % week)
         if year is not None and (year < 0 or year > 9):
             raise DateTimeError("year %i within decade is out of range")
-- 
2.43.0


From 433efa04b603847c6df61058c54ae74756940e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 010/273] fix: extending a time to minute precision equal to
 the base minute

---
 pyslet/iso8601.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 8919645..39317c1 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1428,6 +1428,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 new_minute = minute
                 new_second = second
                 if new_minute < base_minute or (new_minute == base_minute and
+                                                new_second is not None and
                                                 new_second < base_second):
                     add_hour = 1
         else:
-- 
2.43.0


From 92af762a03f20ac458da3b311869479c43613b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 011/273] fix: offsetting times by negative or reduced
 precision fractions

---
 pyslet/iso8601.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 39317c1..bba16e3 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1467,8 +1467,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 raise DateTimeError("second precision required")
             second = second + seconds
             if isinstance(second, float):
-                fs, s = modf(second)
-                s = int(s)
+                s = int(floor(second))
+                fs = second - s
                 minutes += s // 60
                 second = float(s % 60) + fs
             else:
@@ -1482,10 +1482,10 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             if isinstance(minute, float):
                 if second is not None:
                     raise DateTimeError("minute precision required")
-                fm, m = modf(minute)
-                m = int(m)
-                hours += minute // 60
-                minute = float(minute % 60) + fm
+                m = int(floor(minute))
+                fm = minute - m
+                hours += m // 60
+                minute = float(m % 60) + fm
             else:
                 hours += minute // 60
                 minute = minute % 60
@@ -1495,10 +1495,10 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             if isinstance(hour, float):
                 if minute is not None:
                     raise DateTimeError("hour precision required")
-                fh, h = modf(hour)
-                h = int(h)
-                days += float(h // 24)
-                hour = float(hour % 24) + fh
+                h = int(floor(hour))
+                fh = hour - h
+                days += h // 24
+                hour = float(h % 24) + fh
             else:
                 days += hour // 24
                 hour = hour % 24
-- 
2.43.0


From 1e340a6cdce3a9f2612f8ccbd15e5846b672186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 012/273] fix: shifting the zone of times with a fractional
 hour or minute

---
 pyslet/iso8601.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index bba16e3..264e9c0 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1563,14 +1563,14 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         hour = self.hour
         if minute is not None:
             minute = minute + zshift % 60
-            if minute > 59:
+            if minute >= 60:
                 hour += 1
                 minute -= 60
             elif minute < 0:
                 hour -= 1
                 minute += 60
         hour = hour + zshift // 60
-        if hour > 23:
+        if hour >= 24:
             hour -= 24
             overflow = 1
         elif hour < 0:
-- 
2.43.0


From 291d2a5072f02c21784f63d00a3567c1329157a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 013/273] fix: fractions close to 1 overflowed the decimal
 places when formatted

---
 pyslet/iso8601.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 264e9c0..5f97a6f 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1759,7 +1759,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             # less)
             fraction_str = "%s%s%0*i"
             fraction += 2e-13
-            fraction = int(floor(fraction * float(10 ** ndp)))
+            fraction = min(int(floor(fraction * float(10 ** ndp))),
+                           10 ** ndp - 1)
             stem = fraction_str % (stem, dp, ndp, fraction)
         if truncation == NoTruncation:
             # untruncated forms can have a zone string
@@ -2684,7 +2685,9 @@ class Duration(UnicodeMixin, PEP8Compatibility):
                             fraction_str = "%i.%0*i"
                             ndp = -ndp
                         fraction += 2e-13
-                        fraction = int(floor(fraction * float(10 ** ndp)))
+                        fraction = min(
+                            int(floor(fraction * float(10 ** ndp))),
+                            10 ** ndp - 1)
                         components[i] = fraction_str % (value, ndp, fraction)
                     else:
                         components[i] = str(value)
-- 
2.43.0


From 8c7d33c35c9b28bea2efb54831a89801c602685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 014/273] fix: refuse zone offsets with minutes out of range

---
 pyslet/iso8601.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 5f97a6f..ce104da 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1317,6 +1317,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 "non-zero UTC offset requires at least hour zone precision")
         elif zminute is None:
             self.zoffset = zhour * 60
+        elif zminute < 0 or zminute > 59:
+            raise DateTimeError("zone minute out of range %i" % zminute)
         else:
             self.zoffset = zhour * 60 + zminute
 
-- 
2.43.0


From b60e7001656878d74c94cd2f742ef81ee4aa52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 015/273] fix: time points at 24:00 equal midnight at the start
 of the next day

---
 pyslet/iso8601.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index ce104da..9b8e227 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2443,7 +2443,13 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
             return self.shift_zone(zdirection=0).sortkey()
         else:
             # no zone, or Zulu time
-            return tuple(list(self.date.sortkey()) + list(self.time.sortkey()))
+            day = self.date.get_absolute_day()
+            time_key = self.time.sortkey()
+            if self.time.hour == 24:
+                # midnight: equivalent to the start of the next day
+                day += 1
+                time_key = (0, ) + time_key[1:]
+            return (day, ) + time_key
 
     def otherkey(self, other):
         if is_string(other):
-- 
2.43.0


From 446951bfb6af0a386b133c9f5694b206da979b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 016/273] fix: accept fractional minutes in the last minute of
 an hour

---
 pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 9b8e227..74d881a 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1938,7 +1938,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             return
         if not isinstance(self.hour, int):
             raise DateTimeError("bad fractional hour %s" % str(self.hour))
-        if self.minute < 0 or self.minute > 59:
+        if self.minute < 0 or self.minute >= 60:
             raise DateTimeError("minute out of range %s" % str(self.minute))
         if self.second is None:
             return
-- 
2.43.0


From 0feba312a9ee015dec835c13b18ecddc0dfa142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 017/273] fix: shifting times between zones more than 24 hours
 apart

---
 pyslet/iso8601.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 74d881a..ae8c95d 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1535,8 +1535,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
 
             (<Time instance>, overflow)
 
-        overflow is one of -1, 0 or 1 indicating if the time over- or
-        under-flowed as a result of the time zone shift."""
+        overflow is the number of days, typically one of -1, 0 or 1, by
+        which the time over- or under-flowed as a result of the time
+        zone shift."""
         zdirection = kwargs.get('zDirection', zdirection)
         zhour = kwargs.get('zHour', zhour)
         zminute = kwargs.get('zMinute', zminute)
@@ -1572,14 +1573,13 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 hour -= 1
                 minute += 60
         hour = hour + zshift // 60
-        if hour >= 24:
+        overflow = 0
+        while hour >= 24:
             hour -= 24
-            overflow = 1
-        elif hour < 0:
+            overflow += 1
+        while hour < 0:
             hour += 24
-            overflow = -1
-        else:
-            overflow = 0
+            overflow -= 1
         return type(self)(hour=hour, minute=minute, second=second,
                           zdirection=zdirection, zhour=zhour,
                           zminute=zminute), overflow
-- 
2.43.0


From b30f3dcc943a76a6ade6174cfb68bfb2363aed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 018/273] fix: keep the opaque part of http and file URIs when
 canonicalizing

---
 pyslet/http/params.py | 2 ++
 pyslet/rfc2396.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 2a083cc..4ca8875 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -260,6 +260,8 @@ class HTTPURL(uri.ServerBasedURL):
                 new_uri.append(uri.canonicalize_data(self.abs_path))
         elif self.rel_path is not None:
             new_uri.append(uri.canonicalize_data(self.rel_path))
+        elif self.opaque_part is not None:
+            new_uri.append(self.opaque_part)
         if self.query is not None:
             new_uri.append('?')
             new_uri.append(uri.canonicalize_data(self.query))
diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 835a242..d94c73c 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1514,6 +1514,8 @@ class ServerBasedURL(URI):
             new_uri.append(self.abs_path)
         elif self.rel_path is not None:
             new_uri.append(self.rel_path)
+        elif self.opaque_part is not None:
+            new_uri.append(self.opaque_part)
         if self.query is not None:
             new_uri.append('?')
             new_uri.append(self.query)
-- 
2.43.0


From 2724c351326b18917096d81a88c3d4091cb940c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 019/273] fix: relative URIs which resolved to a different URI

---
 pyslet/rfc2396.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index d94c73c..2414479 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -529,23 +529,18 @@ def normalize_segments(path_segments):
 
 
 def _relativize_segments(path_segments, base_segments):
-    result = []
+    # the last segment of the base takes no part in resolving
+    depth = max(len(base_segments) - 1, 0)
     pos = 0
-    while pos < len(base_segments):
-        if result:
-            result = ['..'] + result
-        else:
-            if (pos >= len(path_segments) or
-                    base_segments[pos] != path_segments[pos]):
-                result = result + path_segments[pos:]
-        pos = pos + 1
-    if not result and len(path_segments) > len(base_segments):
-        # full match but path_segments is longer
-        return path_segments[len(base_segments) - 1:]
-    elif result == ['']:
-        return ['.'] + result
-    else:
-        return result
+    while (pos < depth and pos < len(path_segments) - 1 and
+            base_segments[pos] == path_segments[pos]):
+        pos += 1
+    result = ['..'] * (depth - pos) + path_segments[pos:]
+    if result and (not result[0] or ':' in result[0]):
+        # a leading empty segment would look like an absolute path, a
+        # colon would look like a scheme
+        result = ['.'] + result
+    return result
 
 
 def _make_rel_path_abs(abs_path, base_path):
-- 
2.43.0


From 37565fad7a4d27466439a91cd4d1e240bf20c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 020/273] fix: resolve relative paths against a base with an
 empty path

---
 pyslet/rfc2396.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 2414479..2985b1b 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1198,7 +1198,8 @@ class URI(CmpMixin, PEP8Compatibility):
         if self.authority is None:
             authority = base.authority
             if self.abs_path is None:
-                if base.abs_path is not None:
+                if base.abs_path is not None or base.authority is not None:
+                    # an empty path following an authority is the root
                     segments = split_abs_path(base.abs_path)[:-1]
                     segments = segments + split_rel_path(self.rel_path)
                     normalize_segments(segments)
-- 
2.43.0


From 209585a7896851c390d3b57588c8baef33103e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 021/273] fix: native file paths are character strings in
 Python 3

---
 pyslet/rfc2396.py | 6 +++---
 pyslet/vfs.py     | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 2985b1b..b527a2e 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1535,9 +1535,9 @@ class FileURL(ServerBasedURL):
     def get_pathname(self, force8bit=False):
         """Returns the system path name corresponding to this file URL
 
-        If the system supports unicode file names (as reported by
-        os.path.supports_unicode_filenames) then get_pathname also
-        returns a unicode string, otherwise it returns an 8-bit string
+        If the system supports unicode file names (always the case in
+        Python 3 and as reported by os.path.supports_unicode_filenames
+        in Python 2) then get_pathname also returns a unicode string, otherwise it returns an 8-bit string
         encoded in the underlying file system encoding.
 
         force8bit
diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index e92125c..6b38ef1 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -936,8 +936,9 @@ class OSFilePath(VirtualFilePath):
     string is consistent with the use of file:/// to reference the
     local file system."""
 
-    supports_unicode_filenames = os.path.supports_unicode_filenames
-    """Copied from os.path
+    supports_unicode_filenames = \
+        not py2 or os.path.supports_unicode_filenames
+    """Copied from os.path in Python 2, always True in Python 3
 
     That means you won't know ahead of time whether paths are expected
     as binary or unicode strings.  In most cases it won't matter as the
@@ -971,13 +972,13 @@ class OSFilePath(VirtualFilePath):
     #: copied from os.extsep
     ext = os.extsep
 
-    drive_sep = ul(":") if os.path.supports_unicode_filenames else b":"
+    drive_sep = ul(":") if supports_unicode_filenames else b":"
     """always set to ':'
 
     Correctly set to either binary or character string depending on the
     setting of :attr:`supports_unicode_filenames`."""
 
-    empty = ul("") if os.path.supports_unicode_filenames else b""
+    empty = ul("") if supports_unicode_filenames else b""
     """Set to the empty string
 
     Uses either a binary or character string depending on the setting of
-- 
2.43.0


From 085da8716601de2133464b0a7a0cf799c240244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 022/273] fix: URNs with no namespace identifier raise
 URIException

---
 pyslet/urn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index 324510d..f1dc369 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -170,6 +170,8 @@ class URN(uri.URI):
         self.nid = self.nss = None
         mode = 0
         cpos = None
+        if self.opaque_part is None:
+            raise uri.URIException("Expected NID in URN: %s" % self.octets)
         while True:
             if pos < len(self.opaque_part):
                 c = self.opaque_part[pos]
-- 
2.43.0


From 1957a41a78ff7d792a4c1a5084cea96ead310179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 023/273] fix: keep the fragment when canonicalizing a URN

---
 pyslet/urn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index f1dc369..37a8c70 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -214,9 +214,12 @@ class URN(uri.URI):
             raise uri.URIException("NID value of 'urn' is not allowed in URN")
 
     def canonicalize(self):
-        return uri.URI.from_octets(
-            "%s:%s:%s" % (self.scheme.lower(), self.nid.lower(),
-                          uri.canonicalize_data(self.nss, lambda x: False)))
+        octets = "%s:%s:%s" % (
+            self.scheme.lower(), self.nid.lower(),
+            uri.canonicalize_data(self.nss, lambda x: False))
+        if self.fragment is not None:
+            octets = octets + '#' + self.fragment
+        return uri.URI.from_octets(octets)
 
 
 uri.URI.register('urn', URN)
-- 
2.43.0


From 4e7b951f334f479b9f4eaf789dcf2c2d427d1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 024/273] fix: refuse URNs with an empty namespace specific
 string

---
 pyslet/urn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index 37a8c70..dbfc023 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -207,6 +207,9 @@ class URN(uri.URI):
                 elif c is not None:
                     raise uri.URIException("Unexpected data in URN: %s" %
                                            self.opaque_part)
+                elif pos == cpos:
+                    raise uri.URIException("Expected NSS in URN: %s" %
+                                           self.opaque_part)
                 else:
                     self.nss = self.opaque_part[cpos:]
                     break
-- 
2.43.0


From 60de785dda046520e26255d47f76cc5262195eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 025/273] fix: splitext of virtual paths looked outside the
 last component

---
 pyslet/vfs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 6b38ef1..127a347 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -305,7 +305,11 @@ class VirtualFilePath(SortableMixin):
         if self.is_dirlike():
             return self, self.path_str('')
         else:
-            pos = self.path.rfind(self.ext)
+            # only look in the last component, ignoring leading periods
+            start = self.path.rfind(self.sep) + 1
+            while self.path[start:start + 1] == self.ext:
+                start += 1
+            pos = self.path.rfind(self.ext, start)
             if pos >= 0:
                 return self.__class__(self.path[:pos]), \
                     to_text(self.path[pos:])
-- 
2.43.0


From 6808c815e1294a405ac90154d07bd6ad030fd3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 026/273] fix: opening a missing in-memory file for reading
 created it

---
 pyslet/vfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 127a347..666c7f8 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -816,6 +816,10 @@ class MemFilePath(VirtualFilePath):
         with self._lock:
             item = self._fsdir.get(cpath, None)
             if item is None:
+                if mode[0] == 'r':
+                    # files are only created when writing or appending
+                    raise IOError(errno.ENOENT, os.strerror(errno.ENOENT),
+                                  to_text(self))
                 item = MemFile(cpath)
                 self._fsdir[cpath] = item
             if isinstance(item, MemFile):
-- 
2.43.0


From 3b3e165a942c3e34868c891c9a1ea57d35235b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 027/273] fix: rmtree left the directory at the root of the
 tree

---
 pyslet/vfs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 666c7f8..d22dd45 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -903,11 +903,13 @@ class MemFilePath(VirtualFilePath):
                 prefix = cpath.path + self.sep
             else:
                 prefix = cpath.path
-            dirs = []
+            # the root of the file system itself is never removed
+            dirs = [] if cpath.is_root() else [cpath]
             files = []
             open_files = False
             for path in dict_keys(self._fsdir):
-                if not path.path.startswith(prefix):
+                if not path.path.startswith(prefix) or \
+                        path.is_root():
                     continue
                 item = self._fsdir[path]
                 if isinstance(item, MemDirectory):
-- 
2.43.0


From 6e741c2f723b100c4f7e88e03d788943a5f28d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 028/273] fix: normalizing virtual paths like /.//a

---
 pyslet/vfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index d22dd45..abbe54d 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -379,13 +379,15 @@ class VirtualFilePath(SortableMixin):
             return self.__class__(self.curdir)
         drive, tail = self.splitdrive()
         components = tail.path.split(self.sep)
+        double_sep = tail.path.startswith(self.sep + self.sep)
         i = 0
         while i < len(components):
             component = components[i]
             if not component:
                 # empty path component removed except start and
                 # special case of all empty components
-                if i == 1 and not components[0]:
+                if i == 1 and not components[0] and (
+                        double_sep or len(components) == 2):
                     break
                 elif i:
                     del components[i]
-- 
2.43.0


From 54def07d0ee4f54a1bad0f6eb5cbb63e1f5b26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 029/273] fix: copies of a CharClass shared ranges with the
 original

---
 pyslet/unicode5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 2a48b2e..ec95032 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -500,8 +500,9 @@ class CharClass(UnicodeMixin):
                 self.add_range(r[0], r[1])
         else:
             # take a short cut here, if we have no ranges yet just copy them
+            # (each range is itself a list that we may modify later)
             for r in c.ranges:
-                self.ranges.append(r)
+                self.ranges.append(list(r))
         self._clear_cache()
 
     def subtract_class(self, c):
-- 
2.43.0


From cd2a2d21d273963c4e4b25a0a89c4cfecbcbdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 030/273] fix: regular expressions for CharClasses with caret,
 backslash or everything

---
 pyslet/unicode5.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index ec95032..457913b 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -246,6 +246,7 @@ class CharClass(UnicodeMixin):
             return self._re_controls.get(c, c)
 
     _empty_range = ul("[^\\x00-%s]") % character(maxunicode)
+    _full_range = ul("[\\x00-%s]") % character(maxunicode)
 
     def __unicode__(self):
         result = []
@@ -258,13 +259,16 @@ class CharClass(UnicodeMixin):
             # to avoid maxunicode we negate this range
             neg = CharClass(self)
             neg.negate()
+            if not neg.ranges:
+                # every character
+                return self._full_range
             result = to_text(neg)
             if result[0] == "[":
                 return "[^%s]" % result[1:-1]
             elif result[0] == "\\":
                 # we may not need the escape
-                if result == "\\]":
-                    return "[^\\]]"
+                if result in ("\\]", "\\\\"):
+                    return "[^%s]" % result
                 elif result in dict_values(self._re_controls):
                     return "[^%s]" % result
                 else:
@@ -313,7 +317,7 @@ class CharClass(UnicodeMixin):
         return ''.join(py_charset)
 
     def format_re_char(self, c):
-        if c in "-]\\":
+        if c in "-]\\^":
             # prepen a backslash
             return "\\" + c
         else:
-- 
2.43.0


From 34244e183f0c9a9109b6ce33749d608daad8b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 031/273] fix: the last two code points were in no general
 category

---
 pyslet/unicode5.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 457913b..02955cf 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -679,6 +679,18 @@ def load_category_table():
     f = open(os.path.join(os.path.dirname(__file__), CATEGORY_FILE), 'rb')
     UCDCategories = load(f)
     f.close()
+    _add_trailing_codes()
+
+
+def _add_trailing_codes():
+    """Adds the code points beyond the last one listed in the category
+    database to the unassigned category"""
+    last = max(cat.ranges[-1][1] for cat in dict_values(UCDCategories)
+               if cat.ranges)
+    if last < character(maxunicode):
+        for name in (u'C', u'Cn'):
+            _get_cat_class(name).add_range(character(ord(last) + 1),
+                                           character(maxunicode))
 
 
 def _get_cat_class(cat_name):
@@ -751,6 +763,7 @@ def parse_category_table():
     assert mark is None, \
         "Unicode database ended during character range definition: %08X-?" % \
         mark
+    _add_trailing_codes()
     f = open(os.path.join(os.path.dirname(__file__), CATEGORY_FILE), 'wb')
     dump(UCDCategories, f)
     f.close()
-- 
2.43.0


From 4d82a98d4b5ed9016335473f85d0e438b401ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 032/273] fix: XML Schema regular expressions match the whole
 string if any way of matching does

---
 pyslet/xml/xsdatatypes.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 5931b70..aeac9a2 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -926,7 +926,7 @@ class RegularExpression(UnicodeMixin):
         p = RegularExpressionParser(src)
         pyre = p.require_reg_exp()
         #: the compiled python regular expression
-        self.p = compile(pyre)
+        self.p = compile("(?:%s)\\Z" % pyre)
 
     def __unicode__(self):
         return self.src
@@ -936,11 +936,7 @@ class RegularExpression(UnicodeMixin):
 
     def match(self, target):
         """Returns True if the expression matches *target*."""
-        m = self.p.match(target)
-        if m is None or m.end(0) < len(target):
-            return False
-        else:
-            return True
+        return self.p.match(target) is not None
 
 
 RegularExpressionError = ParserError
-- 
2.43.0


From fe1ffdc1c8b4832e3aaab69a095a3870d779497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 033/273] fix: refuse XML Schema regular expressions with
 unparsed trailing text

---
 pyslet/xml/xsdatatypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index aeac9a2..f3986c4 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -925,6 +925,7 @@ class RegularExpression(UnicodeMixin):
         self.src = force_text(src)
         p = RegularExpressionParser(src)
         pyre = p.require_reg_exp()
+        p.require_end("end of regExp")
         #: the compiled python regular expression
         self.p = compile("(?:%s)\\Z" % pyre)
 
-- 
2.43.0


From a15c8336271788f470fd02d6d05e5c2a308ab894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 034/273] fix: automatic string keys for properties with no
 MaxLength or a fixed length

---
 pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index f72c5b1..712c13b 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1924,13 +1924,13 @@ class StringValue(SimpleValue):
         else:
             base = ''
         rbytes = 8
-        if self.p_def:
+        if self.p_def and self.p_def.maxLength is not None:
             # how much of base do
             if rbytes > self.p_def.maxLength:
                 rbytes = self.p_def.maxLength
             if (self.p_def.fixedLength and
                     rbytes + len(base) < self.p_def.maxLength):
-                rbytes = self.maxLength - len(base)
+                rbytes = self.p_def.maxLength - len(base)
             elif len(base) + rbytes > self.p_def.maxLength:
                 # shorten base
                 base = base[:self.p_def.maxLength - rbytes]
-- 
2.43.0


From 50d93fbb733a63cf5940e03f1ef809b4936b6627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 035/273] fix: iterate over a copy of the keys of an in-memory
 entity store

---
 pyslet/odata2/memds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6711cad..dd9917a 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -109,7 +109,7 @@ class InMemoryEntityStore(object):
         deleted during the iteration *may* not be yielded but an entity
         inserted during the iteration will never be yielded."""
         with self.container.lock:
-            keys = dict_keys(self.data)
+            keys = list(dict_keys(self.data))
         for k in keys:
             e = self.read_entity(k, select)
             if e is not None:
-- 
2.43.0


From c2d1cc28d542fb8b9948fd6c20917e0cd54b85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 036/273] fix: report a missing binary key with KeyError

---
 pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 712c13b..2d1199f 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3243,7 +3243,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
             self.lastEntity = e
             if e.key() == key:
                 return e
-        raise KeyError(to_text(key))
+        raise KeyError(repr(key))
 
     def __setitem__(self, key, value):
         if not isinstance(value, Entity) or \
@@ -3252,7 +3252,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         if key != value.key():
             raise ValueError
         if key not in self:
-            raise KeyError(to_text(key))
+            raise KeyError(repr(key))
 
     def __delitem__(self, key):
         raise NotImplementedError
-- 
2.43.0


From 9f9db3ed6b1c7740143ec2bfaf88ed68e91b1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 037/273] fix: DateTime values within half a microsecond of the
 next second in SQL stores

---
 pyslet/odata2/sqlds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b96ba75..6eac749 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5160,7 +5160,9 @@ class SQLEntityContainer(object):
                 simple_value.value.date.day,
                 simple_value.value.time.hour,
                 simple_value.value.time.minute,
-                int(seconds), int(1000000.0 * microseconds + 0.5))
+                int(seconds),
+                # don't let rounding carry us in to the next second
+                min(int(1000000.0 * microseconds + 0.5), 999999))
         elif isinstance(simple_value, edm.DateTimeOffsetValue):
             return simple_value.value.get_calendar_string(
                 basic=True, ndp=6, dp=".").ljust(27, ' ')
-- 
2.43.0


From 9933a34fab46a7820897006be45b245e32599a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 038/273] fix: failed inserts, updates and deletes in an
 in-memory container are undone

---
 pyslet/odata2/memds.py | 74 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index dd9917a..997709d 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -1,6 +1,7 @@
 #! /usr/bin/env python
 """A simple Entity store using a python dictionary"""
 
+import contextlib
 import hashlib
 import threading
 import logging
@@ -95,6 +96,19 @@ class InMemoryEntityStore(object):
             self.data[key] = tuple(value)
             # At this point the entity exists
             e.exists = True
+            self.container.on_undo(self._undo_add, key, e)
+
+    def _undo_add(self, key, e):
+        del self.data[key]
+        e.exists = False
+
+    def _undo_update(self, key, value):
+        self.data[key] = value
+
+    def _undo_delete(self, key, value, stream):
+        self.data[key] = value
+        if stream is not None:
+            self.streams[key] = stream
 
     def count_entities(self):
         with self.container.lock:
@@ -188,6 +202,7 @@ class InMemoryEntityStore(object):
                         v.set_default_value()
                         value[i] = v.value
                 i = i + 1
+            self.container.on_undo(self._undo_update, key, self.data[key])
             self.data[key] = tuple(value)
 
     def update_entity_stream(self, key, stream, sinfo):
@@ -252,6 +267,9 @@ class InMemoryEntityStore(object):
                 aindex.delete_hook(key)
             for aindex in dict_values(self.reverseAssociations):
                 aindex.rdelete_hook(key)
+            self.container.on_undo(
+                self._undo_delete, key, self.data[key],
+                self.streams.get(key, None))
             del self.data[key]
             if key in self.streams:
                 del self.streams[key]
@@ -331,6 +349,8 @@ class InMemoryAssociationIndex(object):
     def add_link(self, from_key, to_key):
         """Adds a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key not in self.index.get(from_key, ()):
+                self.container.on_undo(self.remove_link, from_key, to_key)
             self.index.setdefault(from_key, set()).add(to_key)
             self.reverseIndex.setdefault(to_key, set()).add(from_key)
 
@@ -347,6 +367,8 @@ class InMemoryAssociationIndex(object):
     def remove_link(self, from_key, to_key):
         """Removes a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key in self.index.get(from_key, ()):
+                self.container.on_undo(self.add_link, from_key, to_key)
             self.index.get(from_key, set()).discard(to_key)
             self.reverseIndex.get(to_key, set()).discard(from_key)
 
@@ -355,6 +377,7 @@ class InMemoryAssociationIndex(object):
         try:
             to_keys = self.index[from_key]
             for to_key in to_keys:
+                self.container.on_undo(self.add_link, from_key, to_key)
                 from_keys = self.reverseIndex[to_key]
                 from_keys.remove(from_key)
                 if len(from_keys) == 0:
@@ -368,6 +391,7 @@ class InMemoryAssociationIndex(object):
         try:
             from_keys = self.reverseIndex[to_key]
             for from_key in from_keys:
+                self.container.on_undo(self.add_link, from_key, to_key)
                 to_keys = self.index[from_key]
                 to_keys.remove(to_key)
                 if len(to_keys) == 0:
@@ -424,7 +448,7 @@ class EntityCollection(odata.EntityCollection):
         suppress a constraint check (on the assumption that it has
         already been checked) by passing *from_end* directly to
         :py:meth:`Entity.check_navigation_constraints`."""
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             # This is a bit clumsy, but we lock the whole container while we
             # check all constraints and perform any nested deletes
             try:
@@ -475,7 +499,7 @@ class EntityCollection(odata.EntityCollection):
 
     def update_entity(self, entity, merge=True):
         # force an error if we don't have a key
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             self.entity_store.update_entity(entity, merge)
             # now process any bindings
             self.update_bindings(entity)
@@ -484,6 +508,10 @@ class EntityCollection(odata.EntityCollection):
         """We do a cascade delete of everything that *must* be linked to
         us. We don't need to bother about deleting links because the
         delete hooks on entity_store do this automatically."""
+        with self.entity_store.container.transaction():
+            self._cascade_delete(key)
+
+    def _cascade_delete(self, key):
         if not self.entity_store.start_deleting_entity(key):
             # we're already being deleted so do nothing
             return
@@ -674,9 +702,10 @@ class NavigationCollection(odata.NavigationCollection):
     def insert_entity(self, entity):
         """Inserts a new *entity* into the target entity set *and*
         simultaneously creates a link to it from the source entity."""
-        with self.entity_set.open() as baseCollection:
-            baseCollection.insert_entity(entity,
-                                         from_end=self.from_end.otherEnd)
+        with self.aindex.container.transaction():
+            with self.entity_set.open() as baseCollection:
+                baseCollection.insert_entity(entity,
+                                             from_end=self.from_end.otherEnd)
             self[entity.key()] = entity
 
     def __len__(self):
@@ -790,6 +819,9 @@ class InMemoryEntityContainer(object):
         """a lock that must be acquired before modifying any entity or
         association in this container"""
         self.lock = threading.RLock()
+        # the actions that undo the current transaction or None if there
+        # is no transaction in progress
+        self._undo = None
         """a mapping from entity set names to
         :py:class:`InMemoryEntityStore` instances"""
         self.entityStorage = {}
@@ -829,3 +861,35 @@ class InMemoryEntityContainer(object):
                         from_storage,
                         to_storage,
                         np.name)
+
+    @contextlib.contextmanager
+    def transaction(self):
+        """A context manager for an all-or-nothing change
+
+        The container is locked for the duration.  If an exception is
+        raised then any changes made to entities and links are undone
+        before it is passed on.  Transactions nest: changes are only
+        undone on leaving the outermost one."""
+        with self.lock:
+            if self._undo is not None:
+                # nested
+                yield
+                return
+            self._undo = []
+            try:
+                yield
+            except BaseException:
+                actions, self._undo = self._undo, None
+                for action, args in reversed(actions):
+                    action(*args)
+                raise
+            finally:
+                self._undo = None
+
+    def on_undo(self, action, *args):
+        """Registers an action to be called if the current transaction
+        fails
+
+        Must only be called if you have acquired the container lock."""
+        if self._undo is not None:
+            self._undo.append((action, args))
-- 
2.43.0


From 01ce3bd291bedace697297882129b8b67437c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 039/273] fix: replacing a link must not give the target two
 links where at most one is allowed

---
 pyslet/odata2/memds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 997709d..6d5e80d 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -785,6 +785,11 @@ class NavigationCollection(odata.NavigationCollection):
         if result_set == [key]:
             # nothing to do!
             return
+        if (self.fromMultiplicity != edm.Multiplicity.Many and
+                key not in result_set and self.rLookupMethod(key)):
+            raise edm.NavigationConstraintError(
+                "Entity %s is already bound through this association" %
+                entity.get_location())
         if self.fromMultiplicity == edm.Multiplicity.One:
             if result_set:
                 # we can't delete these links because we are required
-- 
2.43.0


From 103d3dbadb89cbaaa118df38e62f616764720cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 040/273] fix: deleting a missing link from an SQL store raises
 KeyError

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 6eac749..7a60cbb 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2920,9 +2920,9 @@ class SQLEntityCollection(SQLCollectionBase):
                 # no rows matched this constraint, entity either doesn't exist
                 # or wasn't linked to the target
                 raise KeyError(
-                    "Entity %s does not exist or is not linked to %s" % str(
-                        entity.get_location(),
-                        target_entity.get_location))
+                    "Entity %s does not exist or is not linked to %s" % (
+                        str(entity.get_location()),
+                        str(target_entity.get_location())))
             transaction.commit()
         except Exception as e:
             transaction.rollback(e)
-- 
2.43.0


From d9e2e1e75fcbe56a392f8dd3ea0dec1b97a82893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 041/273] fix: reads during an SQL update must not commit or
 roll back its transaction

---
 pyslet/odata2/sqlds.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 7a60cbb..c088cd0 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -220,7 +220,7 @@ def retry_decorator(tmethod):
     """Decorates a transaction method with retry handling"""
 
     def retry(self, *args, **kwargs):
-        if self.query_count:
+        if self.query_count or self.is_interrupting():
             return tmethod(self, *args, **kwargs)
         else:
             strike = 0
@@ -313,14 +313,26 @@ class SQLTransaction(object):
         self.cursor.execute(sqlcmd,
                             params.params if params is not None else None)
         self.query_count += 1
+        if self.connection.updating is None and \
+                not sqlcmd.lstrip().upper().startswith('SELECT'):
+            self.connection.updating = self
+
+    def is_interrupting(self):
+        """True if a different transaction is part way through an update
+
+        We may be called upon to read from a connection while an update
+        is in progress (on the same connection), in which case we must
+        not commit, roll back or reopen the connection."""
+        return self.connection.updating not in (None, self)
 
     def commit(self):
         """Ends this transaction with a commit
 
         Nested transactions do nothing."""
-        if self.no_commit:
+        if self.no_commit or self.is_interrupting():
             return
         self.connection.dbc.commit()
+        self.connection.updating = None
 
     def rollback(self, err=None, swallow=False):
         """Calls the underlying database connection rollback method.
@@ -342,7 +354,8 @@ class SQLTransaction(object):
         swallow
             A flag (defaults to False) indicating that *err* should be
             swallowed, rather than re-raised."""
-        if not self.no_commit:
+        if not self.no_commit and not self.is_interrupting():
+            self.connection.updating = None
             try:
                 self.connection.dbc.rollback()
                 if err is not None:
@@ -382,6 +395,8 @@ class SQLTransaction(object):
             self.cursor.close()
             self.cursor = None
             self.query_count = 0
+            if self.connection.updating is self:
+                self.connection.updating = None
 
 
 class SQLCollectionBase(core.EntityCollection):
@@ -4061,6 +4076,8 @@ class SQLConnection(object):
         self.locked = 0
         self.last_seen = 0
         self.dbc = None
+        #: the transaction with uncommitted changes, if any
+        self.updating = None
 
 
 class SQLEntityContainer(object):
-- 
2.43.0


From 5dd52e505397c0ca5f4e19f011f5d87a61557f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 042/273] fix: deep inserts by update_entity belong to its SQL
 transaction

---
 pyslet/odata2/sqlds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c088cd0..b6ba55a 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2501,7 +2501,8 @@ class SQLEntityCollection(SQLCollectionBase):
                         # add this entity to it's base collection
                         with target_set.open() as targetCollection:
                             targetCollection.insert_entity_sql(
-                                target_entity, link_end.otherEnd, transaction)
+                                target_entity, link_end.otherEnd,
+                                transaction=transaction)
                 # Finally, we have a target entity, add the foreign key to
                 # fk_values
                 for key_name in target_set.keys:
@@ -2637,7 +2638,8 @@ class SQLEntityCollection(SQLCollectionBase):
                                 else:
                                     # foreign keys are in an auxiliary table
                                     targetCollection.insert_entity_sql(
-                                        binding, link_end.otherEnd)
+                                        binding, link_end.otherEnd,
+                                        transaction=transaction)
                                     if dv.isCollection:
                                         navCollection.insert_link(
                                             binding, transaction)
-- 
2.43.0


From 3cff9880eaaa08c3edaa039e1c6f5d8158579554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 043/273] fix: enforce at most one link in SQL tables where the
 association end says so

---
 pyslet/odata2/sqlds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b6ba55a..169f71a 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -3075,6 +3075,9 @@ class SQLEntityCollection(SQLCollectionBase):
                     fk_names), self.container.mangled_names[
                     (target_set.name,)], ', '.join(
                     k_names)))
+            if unique:
+                # at most one of our entities may have each target
+                constraints.append("UNIQUE (%s)" % ', '.join(fk_names))
         cols = cols + constraints
         query.append(", ".join(cols))
         query.append(')')
-- 
2.43.0


From 56770999c66a2515f3252e769ae7e8538cc6bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 044/273] fix: properties with the names of literal types in
 expressions

---
 pyslet/odata2/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 745d9cb..73e936f 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1716,7 +1716,12 @@ class Parser(edm.Parser):
             name = name_case.lower()
         else:
             name = None
-        if name == "null":
+        if (name in ("datetimeoffset", "datetime", "time", "binary", "guid") or
+                name_case == "X") and not self.match("'"):
+            # a property that happens to have the name of a literal type
+            self.setpos(savepos)
+            return None
+        elif name == "null":
             return edm.EDMValue.from_type(None)
         elif name is None and self.match("'"):
             return self.parse_string_uri_literal()
-- 
2.43.0


From e3f89dcf5b9e614ffbc59d82eb9882f51998d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 045/273] fix: unary operators in brackets and repeated unary
 operators in expressions

---
 pyslet/odata2/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 73e936f..210a7a2 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1393,9 +1393,9 @@ class Parser(edm.Parser):
                 else:
                     # no common expression found at all
                     return None
-            # if we already have a (unary) operator, skip the search for a
-            # binary operator
-            if not isinstance(right_op, UnaryExpression):
+            # if we already have a (unary) operator waiting for its operand
+            # (unlike one in brackets), skip the search for a binary operator
+            if not isinstance(right_op, UnaryExpression) or right_op.operands:
                 operand = right_op
                 self.parse_wsp()
                 if self.parse("/"):
@@ -1435,7 +1435,8 @@ class Parser(edm.Parser):
             # right_op (an operator expression, never None)
             # next job, determine who binds more tightly, left or right?
             while True:
-                if left_op is None or left_op < right_op:
+                if (left_op is None or operand is None or
+                        left_op < right_op):
                     # bind the operand to the right, in cases of equal
                     # precedence we left associate 1+2-3 = (1+2)-3
                     if operand is not None:
-- 
2.43.0


From 6275c7f36fc2aeb428da1c60e225d423f25d4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 046/273] fix: formatted expressions keep their structure

---
 pyslet/odata2/core.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 210a7a2..8f02b06 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -442,8 +442,11 @@ class UnaryExpression(CommonExpression):
         else:
             op = "%s " % Operator.to_str(self.operator)
         rvalue = self.operands[0]
-        if rvalue.operator is not None and rvalue < self:
-            # right expression is weaker than us, use brackets
+        if (rvalue.operator is not None and rvalue < self) or (
+                self.operator == Operator.negate and
+                isinstance(rvalue, LiteralExpression)):
+            # right expression is weaker than us, use brackets (also
+            # prevents a negated literal becoming a negative literal)
             result = "%s(%s)" % (op, to_text(rvalue))
         else:
             result = "%s%s" % (op, to_text(rvalue))
@@ -521,14 +524,20 @@ class BinaryExpression(CommonExpression):
         else:
             op = " %s " % Operator.to_str(self.operator)
         lvalue = self.operands[0]
+        if op_prefix:
+            # cast or isof, the first parameter is optional
+            return uempty.join((
+                op_prefix, op.join(to_text(x) for x in self.operands),
+                op_suffix))
         rvalue = self.operands[1]
         if lvalue.operator is not None and lvalue < self:
             # left expression is weaker than us, use brackets
             lvalue = "(%s)" % to_text(lvalue)
         else:
             lvalue = to_text(lvalue)
-        if rvalue.operator is not None and rvalue < self:
-            # right expression is weaker than us, use brackets
+        if rvalue.operator is not None and rvalue <= self:
+            # right expression is not stronger than us, use brackets as
+            # we associate to the left
             rvalue = "(%s)" % to_text(rvalue)
         else:
             rvalue = to_text(rvalue)
-- 
2.43.0


From b4e6db327b0545e83fbd5c2411a5c4cc74a10ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 047/273] fix: parameters inside brackets in expressions

---
 pyslet/odata2/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 8f02b06..727d171 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1366,27 +1366,27 @@ class Parser(edm.Parser):
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.isof,
-                            "isof"),
+                            "isof", params),
                         "isofExpression")
                 elif name == "cast":
                     self.parse_wsp()
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.cast,
-                            "cast"),
+                            "cast", params),
                         "caseExpression")
                 elif name is not None:
                     self.parse_wsp()
                     if self.match("("):
                         method_call = Method.from_str(name)
                         right_op = self.parse_method_call_expression(
-                            method_call)
+                            method_call, params)
                     else:
                         right_op = PropertyExpression(name)
             if right_op is None:
                 if self.parse("("):
                     right_op = self.require_production(
-                        self.parse_common_expression(),
+                        self.parse_common_expression(params),
                         "commonExpression inside parenExpression")
                     self.require_production(
                         self.parse(")"), "closing bracket in parenExpression")
@@ -1465,14 +1465,14 @@ class Parser(edm.Parser):
                     else:
                         left_op = None
 
-    def parse_method_call_expression(self, method_call):
+    def parse_method_call_expression(self, method_call, params=None):
         method = CallExpression(method_call)
         self.require_production(
             self.parse("("), "opening bracket in methodCallExpression")
         while True:
             self.parse_wsp()
             param = self.require_production(
-                self.parse_common_expression(), "methodCall argument")
+                self.parse_common_expression(params), "methodCall argument")
             method.add_operand(param)
             self.parse_wsp()
             if self.parse(","):
@@ -1483,13 +1483,13 @@ class Parser(edm.Parser):
                 raise ValueError("closing bracket in methodCallExpression")
         return method
 
-    def parse_castlike(self, op, name):
+    def parse_castlike(self, op, name, params=None):
         """Parses a cast-like expression, including 'isof'."""
         self.parse_wsp()
         if self.parse("("):
             e = BinaryExpression(op)
             first_param = self.require_production(
-                self.parse_common_expression(), "%s argument" % name)
+                self.parse_common_expression(params), "%s argument" % name)
             e.add_operand(first_param)
             self.parse_wsp()
             if self.parse_one(")"):
-- 
2.43.0


From aacb2a44677e0be95d19467906b6a10072032e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 048/273] fix: 'not' is not a binary operator

---
 pyslet/odata2/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 727d171..dbab244 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1416,7 +1416,8 @@ class Parser(edm.Parser):
                     if name is not None:
                         try:
                             op_code = Operator.from_str(name)
-                            if op_code in Operator.IsSpecial:
+                            if op_code in Operator.IsSpecial or \
+                                    op_code == Operator.boolNot:
                                 raise ValueError
                             right_op = BinaryExpression(op_code)
                         except ValueError:
-- 
2.43.0


From 27c49d4279c919013284ce857cd032007478c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 049/273] fix: relations between strings, dates and guids with
 null are false

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index dbab244..6469393 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -761,7 +761,11 @@ class BinaryExpression(CommonExpression):
                 edm.SimpleType.String, edm.SimpleType.DateTime,
                 edm.SimpleType.DateTimeOffset, edm.SimpleType.Guid):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-            result.set_from_value(relation(lvalue.value, rvalue.value))
+            if lvalue and rvalue:
+                result.set_from_value(relation(lvalue.value, rvalue.value))
+            else:
+                # one of the operands is null => False
+                result.set_from_value(False)
             return result
         elif type_code is None:  # e.g., null lt null
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-- 
2.43.0


From dcc42baa33676e111af06ebd6119ea813d379dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 050/273] fix: null arguments of string and date functions in
 expressions

---
 pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 6469393..d83e031 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1018,6 +1018,9 @@ class CallExpression(CommonExpression):
         if isinstance(arg, edm.SimpleValue):
             if arg.type_code == type_code:
                 return arg
+            elif arg.type_code is None:
+                # null, e.g., a property of an entity that isn't there
+                return arg.simple_cast(type_code)
         raise EvaluationError(
             "Expected %s value in %s()" %
             (edm.SimpleType.to_str(type_code),
-- 
2.43.0


From 42b39b307e1425af173555df3a286645cea3152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 051/273] fix: exact integer division and decimal remainders in
 expressions

---
 pyslet/odata2/core.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index d83e031..de037de 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -426,6 +426,12 @@ class CommonExpression(SortableMixin, UnicodeMixin, MigratedClass):
         raise NotImplementedError
 
 
+def truncated_div(x, y):
+    """Integer division, truncating towards zero"""
+    q = abs(x) // abs(y)
+    return q if (x < 0) == (y < 0) else -q
+
+
 class UnaryExpression(CommonExpression):
 
     EvalMethod = {
@@ -654,15 +660,15 @@ class BinaryExpression(CommonExpression):
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
                     # OData doesn't really specify integer division rules so
-                    # we use floating point division and truncate towards zero
+                    # we truncate towards zero
                     result.set_from_value(
-                        int(float(lvalue.value) / float(rvalue.value)))
+                        truncated_div(lvalue.value, rvalue.value))
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for div")
-        except ZeroDivisionError as e:
+        except (ZeroDivisionError, decimal.InvalidOperation) as e:
             raise EvaluationError(str(e))
 
     def evaluate_mod(self, lvalue, rvalue):
@@ -675,8 +681,12 @@ class BinaryExpression(CommonExpression):
                 rvalue = rvalue.simple_cast(type_code)
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
-                    result.set_from_value(
-                        math.fmod(lvalue.value, rvalue.value))
+                    if type_code == edm.SimpleType.Decimal:
+                        # takes the sign of lvalue, like fmod
+                        result.set_from_value(lvalue.value % rvalue.value)
+                    else:
+                        result.set_from_value(
+                            math.fmod(lvalue.value, rvalue.value))
                 return result
             elif type_code in (edm.SimpleType.Int32, edm.SimpleType.Int64):
                 lvalue = lvalue.simple_cast(type_code)
@@ -684,16 +694,17 @@ class BinaryExpression(CommonExpression):
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
                     # OData doesn't really specify integer division
-                    # rules so we use floating point division and
-                    # truncate towards zero
-                    result.set_from_value(int(math.fmod(float(lvalue.value),
-                                                        float(rvalue.value))))
+                    # rules so we truncate towards zero
+                    result.set_from_value(
+                        lvalue.value - rvalue.value *
+                        truncated_div(lvalue.value, rvalue.value))
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for mod")
-        except (ZeroDivisionError, ValueError) as e:
+        except (ZeroDivisionError, ValueError,
+                decimal.InvalidOperation) as e:
             raise EvaluationError(str(e))
 
     def evaluate_add(self, lvalue, rvalue):
-- 
2.43.0


From 96d75227b1d0f51acd1f1eb8e682491747cc1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 052/273] fix: fractional seconds in formatted expression
 literals

---
 pyslet/odata2/core.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index de037de..4379b0d 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -931,7 +931,7 @@ class LiteralExpression(CommonExpression):
         if not self.value:
             return "null"
         else:
-            result = to_text(self.value)
+            result = self.format_value()
             if self.value.type_code == edm.SimpleType.Binary:
                 result = "X'%s'" % result
             elif self.value.type_code == edm.SimpleType.DateTime:
@@ -955,6 +955,28 @@ class LiteralExpression(CommonExpression):
                 result = "'%s'" % "''".join(result.split("'"))
             return result
 
+    def format_value(self):
+        """Formats the (non-null) value of this literal
+
+        The date and time types are formatted with any fractional seconds
+        that they have."""
+        value = self.value.value
+        time = None
+        if self.value.type_code in (edm.SimpleType.DateTime,
+                                    edm.SimpleType.DateTimeOffset):
+            time = value.time
+        elif self.value.type_code == edm.SimpleType.Time:
+            time = value
+        if time is not None and time.second and time.second % 1:
+            digits = ("%.7f" % time.second).rstrip('0').partition('.')[2]
+            if time is value:
+                return value.get_string(ndp=len(digits), dp='.')
+            result = value.get_calendar_string(ndp=len(digits), dp='.')
+            if result[-1] == "Z":
+                result = result[:-1] + "+00:00"
+            return result
+        return to_text(self.value)
+
     def evaluate(self, context_entity):
         """A literal evaluates to itself."""
         return self.value
-- 
2.43.0


From d7a67904a17c4f07710cb5afcccb072bbd2589b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 053/273] fix: SQL expressions keep the grouping of operators
 with equal precedence

---
 pyslet/odata2/sqlds.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 169f71a..27da509 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -64,10 +64,13 @@ SQLOperatorPrecedence = {
     '<=': 4,
     '>=': 4,
     'LIKE': 4,
+    'IS': 4,
+    'IS NOT': 4,
     '+': 5,
     '-': 5,
     '*': 6,
-    '/': 6
+    '/': 6,
+    '||': 7
 }
 """Look-up table for SQL operator precedence calculations.
 
@@ -79,6 +82,28 @@ example::
     SQLOperatorPrecedence['<']==SQLOperatorPrecedence['>']"""
 
 
+SQLRightContext = {
+    '=': '+',
+    '<>': '+',
+    '<': '+',
+    '>': '+',
+    '<=': '+',
+    '>=': '+',
+    'LIKE': '+',
+    'IS': '+',
+    'IS NOT': '+',
+    '+': '*',
+    '-': '*',
+    '*': '||',
+    '/': '||'
+}
+"""The context in which to convert the right operand of an operator.
+
+An operator with higher precedence than the key, used to ensure that
+operators of equal precedence are bracketed when they appear in the right
+operand.  Operators not listed are associative."""
+
+
 class UnparameterizedLiteral(core.LiteralExpression):
 
     """Class used as a flag that this literal is safe and does not need
@@ -1679,8 +1704,12 @@ class SQLCollectionBase(core.EntityCollection):
         query.append(' ')
         query.append(operator)
         query.append(' ')
+        # SQL operators group to the left so an operator of the same
+        # precedence on the right must be bracketed
         query.append(
-            self.sql_expression(expression.operands[1], params, operator))
+            self.sql_expression(
+                expression.operands[1], params,
+                SQLRightContext.get(operator, operator)))
         return self.sql_bracket(''.join(query), context, operator)
 
     def sql_expression_mul(self, expression, params, context):
-- 
2.43.0


From 42ff5f5a0fc41e39fe42be22b88cdf83738b5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 054/273] fix: eq and ne with null in SQL filters

---
 pyslet/odata2/sqlds.py | 46 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 27da509..09a68d0 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1784,8 +1784,26 @@ class SQLCollectionBase(core.EntityCollection):
         """Converts the isof expression: no default implementation"""
         raise NotImplementedError
 
+    def _null_test(self, expression, params, context, operator):
+        # A comparison with null in the expression itself, = and <> are
+        # never true when comparing with NULL in SQL
+        for i in (1, 0):
+            literal = expression.operands[i]
+            if (isinstance(literal, core.LiteralExpression) and
+                    not literal.value):
+                return self.sql_bracket(
+                    self.sql_expression(expression.operands[1 - i], params,
+                                        operator) +
+                    ' %s NULL' % operator, context, operator)
+        return None
+
     def sql_expression_eq(self, expression, params, context):
-        """Converts the eq expression: maps to SQL "=" """
+        """Converts the eq expression: maps to SQL "="
+
+        Comparisons with the null literal map to IS NULL"""
+        result = self._null_test(expression, params, context, 'IS')
+        if result is not None:
+            return result
         return self.sql_expression_generic_binary(
             expression,
             params,
@@ -1793,7 +1811,12 @@ class SQLCollectionBase(core.EntityCollection):
             '=')
 
     def sql_expression_ne(self, expression, params, context):
-        """Converts the ne expression: maps to SQL "<>" """
+        """Converts the ne expression: maps to SQL "<>"
+
+        Comparisons with the null literal map to IS NOT NULL"""
+        result = self._null_test(expression, params, context, 'IS NOT')
+        if result is not None:
+            return result
         return self.sql_expression_generic_binary(
             expression,
             params,
@@ -5621,6 +5644,25 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
     DEFAULT_VALUE = False
     """SQLite does not support setting a value =DEFAULT"""
 
+    def sql_expression_eq(self, expression, params, context):
+        """Converts the eq expression: maps to IS
+
+        In SQLite IS compares any two expressions, treating NULL as equal
+        to NULL and to nothing else as required by OData."""
+        return self.sql_expression_generic_binary(
+            expression,
+            params,
+            context,
+            'IS')
+
+    def sql_expression_ne(self, expression, params, context):
+        """Converts the ne expression: maps to IS NOT"""
+        return self.sql_expression_generic_binary(
+            expression,
+            params,
+            context,
+            'IS NOT')
+
     def sql_expression_length(self, expression, params, context):
         """Converts the length method: maps to length( op[0] )"""
         query = ["length("]
-- 
2.43.0


From fd80f918cb56bc62e8ac88fb494d0a3d2e70a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 055/273] fix: indexof and substring in SQL filters

---
 pyslet/odata2/sqlds.py | 44 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 09a68d0..d757633 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1857,13 +1857,15 @@ class SQLCollectionBase(core.EntityCollection):
         return self.sql_bracket(''.join(query), context, 'LIKE')
 
     def sql_expression_indexof(self, expression, params, context):
-        """Converts the indexof method: maps to POSITION( op[0] IN op[1] )"""
+        """Converts the indexof method
+
+        maps to POSITION( op[1] IN op[0] ) - 1"""
         query = ["POSITION("]
-        query.append(self.sql_expression(expression.operands[0], params, ','))
-        query.append(" IN ")
         query.append(self.sql_expression(expression.operands[1], params, ','))
-        query.append(")")
-        return ''.join(query)
+        query.append(" IN ")
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(") - 1")
+        return self.sql_bracket(''.join(query), context, '-')
 
     def sql_expression_replace(self, expression, params, context):
         """Converts the replace method: no default implementation"""
@@ -1910,12 +1912,13 @@ class SQLCollectionBase(core.EntityCollection):
     def sql_expression_substring(self, expression, params, context):
         """Converts the substring method
 
-        maps to SUBSTRING( op[0] FROM op[1] [ FOR op[2] ]"""
+        maps to SUBSTRING( op[0] FROM op[1] + 1 [ FOR op[2] ]"""
         query = ["SUBSTRING("]
         query.append(self.sql_expression(expression.operands[0], params, ','))
         query.append(" FROM ")
-        query.append(self.sql_expression(expression.operands[1], params, ','))
-        if len(expression.operands > 2):
+        query.append(self.sql_expression(expression.operands[1], params, '+'))
+        query.append(" + 1")
+        if len(expression.operands) > 2:
             query.append(" FOR ")
             query.append(
                 self.sql_expression(expression.operands[2], params, ','))
@@ -5663,6 +5666,31 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
             context,
             'IS NOT')
 
+    def sql_expression_indexof(self, expression, params, context):
+        """Converts the indexof method: maps to instr(op[0], op[1]) - 1"""
+        query = ["instr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(", ")
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(") - 1")
+        return self.sql_bracket(''.join(query), context, '-')
+
+    def sql_expression_substring(self, expression, params, context):
+        """Converts the substring method
+
+        maps to substr(op[0], op[1] + 1 [, op[2]])"""
+        query = ["substr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(", ")
+        query.append(self.sql_expression(expression.operands[1], params, '+'))
+        query.append(" + 1")
+        if len(expression.operands) > 2:
+            query.append(", ")
+            query.append(
+                self.sql_expression(expression.operands[2], params, ','))
+        query.append(")")
+        return ''.join(query)  # don't bother with brackets!
+
     def sql_expression_length(self, expression, params, context):
         """Converts the length method: maps to length( op[0] )"""
         query = ["length("]
-- 
2.43.0


From b69292028eda36bab3bf0578448e6f649e0b4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 056/273] fix: startswith, endswith and substringof are exact
 in SQLite filters

---
 pyslet/odata2/sqlds.py | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index d757633..9495bae 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5666,6 +5666,49 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
             context,
             'IS NOT')
 
+    def sql_expression_startswith(self, expression, params, context):
+        """Converts the startswith function
+
+        maps to substr(op[0], 1, length(op[1])) = op[1]
+
+        In SQLite LIKE ignores case (and treats % and _ in op[1] as
+        wild cards)."""
+        query = ["substr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(", 1, length(")
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(")) = ")
+        query.append(
+            self.sql_expression(expression.operands[1], params, '+'))
+        return self.sql_bracket(''.join(query), context, '=')
+
+    def sql_expression_endswith(self, expression, params, context):
+        """Converts the endswith function
+
+        maps to
+        substr(op[0], length(op[0]) - length(op[1]) + 1) = op[1]"""
+        query = ["substr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(", length(")
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(") - length(")
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(") + 1) = ")
+        query.append(
+            self.sql_expression(expression.operands[1], params, '+'))
+        return self.sql_bracket(''.join(query), context, '=')
+
+    def sql_expression_substringof(self, expression, params, context):
+        """Converts the substringof function
+
+        maps to instr(op[1], op[0]) > 0"""
+        query = ["instr("]
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(", ")
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(") > 0")
+        return self.sql_bracket(''.join(query), context, '>')
+
     def sql_expression_indexof(self, expression, params, context):
         """Converts the indexof method: maps to instr(op[0], op[1]) - 1"""
         query = ["instr("]
-- 
2.43.0


From 6ee41e124d120be00cd60fc5585e75248055bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 057/273] fix: order entities by properties with null values

---
 pyslet/odata2/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 4379b0d..5b64c68 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3105,8 +3105,11 @@ class EntityCollection(edm.EntityCollection):
 
     def calculate_order_key(self, entity, order_object):
         """Evaluates order_object as an instance of
-        py:class:`CommonExpression`."""
-        return order_object.evaluate(entity).value
+        py:class:`CommonExpression`.
+
+        Null values come before any other."""
+        value = order_object.evaluate(entity).value
+        return (value is not None, value)
 
     def generate_entity_set_in_json(self, version=2):
         """Generates JSON serialised form of this collection."""
-- 
2.43.0


From fb84dd97edc17762cdffee73052ac961aa738793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 058/273] fix: the null literal as a filter selects nothing

---
 pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 5b64c68..510cc8d 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3100,6 +3100,9 @@ class EntityCollection(edm.EntityCollection):
             result = self.filter.evaluate(entity)
             if isinstance(result, edm.BooleanValue):
                 return result.value         #: NULL treated as False
+            elif result.type_code is None:
+                # the null literal has no type
+                return False
             else:
                 raise ValueError("Boolean required for filter expression")
 
-- 
2.43.0


From 8f697507ed9a7b68dcfe23b9d620cf34365313be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 059/273] fix: entities looked up through memds navigation obey
 the filter

---
 pyslet/odata2/memds.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6d5e80d..5de48a5 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -734,10 +734,7 @@ class NavigationCollection(odata.NavigationCollection):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             result = self.collection[key]
-            if self.filter is None:
-                if self.check_filter(result):
-                    return result
-            else:
+            if self.check_filter(result):
                 return result
         raise KeyError(key)
 
-- 
2.43.0


From 9ff7f30eb4ded7c0ebe0d0d5e59446bac37448cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 060/273] fix: memds filters and orderings can use unselected
 properties

---
 pyslet/odata2/csdl.py  |  2 +-
 pyslet/odata2/memds.py | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 2d1199f..bab134a 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3038,7 +3038,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         if possible as this implementation simply iterates through the
         entities and calls :py:meth:`Entity.expand` on each one."""
         for e in entity_iterable:
-            if self.expand or self.select:
+            if self.expand or self.select is not None:
                 e.expand(self.expand, self.select)
             yield e
 
diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 5de48a5..9acbe44 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -484,13 +484,14 @@ class EntityCollection(odata.EntityCollection):
             return result
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        # unselected properties may be used by the filter and orderby
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
-                    self.entity_store.generate_entities(self.select))))
+                    self.entity_store.generate_entities())))
 
     def __getitem__(self, key):
-        e = self.entity_store.read_entity(key, self.select)
+        e = self.entity_store.read_entity(key)
         if e is not None and self.check_filter(e):
             e.expand(self.expand, self.select)
             return e
@@ -725,8 +726,8 @@ class NavigationCollection(odata.NavigationCollection):
             yield self.collection[k]
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
                     self.entity_generator())))
 
@@ -735,6 +736,7 @@ class NavigationCollection(odata.NavigationCollection):
         if key in result_set:
             result = self.collection[key]
             if self.check_filter(result):
+                result.expand(self.expand, self.select)
                 return result
         raise KeyError(key)
 
-- 
2.43.0


From 54163b3edbc1f8ae3cd64006ba3e34d2058dfdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 061/273] fix: no skip token after the last page of a
 collection

---
 pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index bab134a..83a49c0 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3362,6 +3362,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         finally:
             self.paging = False
         # no more pages
+        self.nextSkiptoken = None
         if set_next:
             self.top = self.skip = 0
             self.skiptoken = None
-- 
2.43.0


From 6831028698537bf72ce00bb7e98b34cd9df91f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 062/273] fix: skip without top in SQLite collections

---
 pyslet/odata2/sqlds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 9495bae..69a25a3 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5630,6 +5630,9 @@ class SQLiteEntityContainer(SQLEntityContainer):
         clause = []
         if top:
             clause.append('LIMIT %i ' % top)
+        elif skip:
+            # SQLite has no OFFSET without LIMIT, negative means no limit
+            clause.append('LIMIT -1 ')
         if skip:
             clause.append('OFFSET %i ' % skip)
             skip = 0
-- 
2.43.0


From 1138e96e67f5415ee4cf6a1b11f2c20628e7f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 063/273] fix: skip tokens of SQL collections with long values
 or when top is reached

---
 pyslet/odata2/sqlds.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 69a25a3..af8db48 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -609,7 +609,7 @@ class SQLCollectionBase(core.EntityCollection):
                     order_len + len(self.entity_set.keys) + 1):
                 # the last value must be an integer we add to skip
                 if isinstance(self.skiptoken[-1], edm.Int32Value):
-                    self.skip += self.skiptoken[-1].value
+                    self.skip = (self.skip or 0) + self.skiptoken[-1].value
                     self.skiptoken = self.skiptoken[:-1]
                 else:
                     raise core.InvalidSystemQueryOption(
@@ -632,9 +632,11 @@ class SQLCollectionBase(core.EntityCollection):
         if self.top == 0:
             # end of paging
             return
+        self.nextSkiptoken = None
         skip = self.skip
         top = self.top
         topmax = self.topmax
+        count = 0
         if topmax is not None:
             if top is not None:
                 limit = min(top, topmax)
@@ -674,7 +676,7 @@ class SQLCollectionBase(core.EntityCollection):
                     # no more pages
                     if set_next:
                         self.top = self.skip = 0
-                        self.skipToken = None
+                        self.skiptoken = None
                     break
                 if skip:
                     skip = skip - 1
@@ -689,10 +691,15 @@ class SQLCollectionBase(core.EntityCollection):
                     self.container.read_sql_value(value, new_value)
                 entity.exists = True
                 yield entity
-                if topmax is not None:
-                    topmax = topmax - 1
-                    if topmax < 1:
-                        # this is the last entity, set the nextSkiptoken
+                count += 1
+                if count == limit:
+                    # this is the last entity on this page
+                    if topmax is None or (top is not None and top <= topmax):
+                        # all requested entities were returned
+                        if set_next:
+                            self.skip = (self.skip or 0) + top
+                    else:
+                        # truncated, set the nextSkiptoken
                         order_values = row_values[-len(self.orderNames):]
                         self.nextSkiptoken = []
                         for v in order_values:
@@ -704,26 +711,20 @@ class SQLCollectionBase(core.EntityCollection):
                                                     edm.BinaryValue)):
                                 tokenlen += len(v.value)
                         # a really large skiptoken is no use to anyone
-                        if tokenlen > 512:
+                        if tokenlen > 512 and self.skiptoken is not None:
                             # ditch this one, copy the previous one and add a
                             # skip
+                            next_skip = (self.skip or 0) + topmax
                             self.nextSkiptoken = list(self.skiptoken)
                             v = edm.Int32Value()
-                            v.set_from_value(self.topmax)
+                            v.set_from_value(next_skip)
                             self.nextSkiptoken.append(v)
-                        if set_next:
+                            if set_next:
+                                self.skip = next_skip
+                        elif set_next:
                             self.skiptoken = self.nextSkiptoken
                             self.skip = 0
-                        break
-                if top is not None:
-                    top = top - 1
-                    if top < 1:
-                        if set_next:
-                            if self.skip is not None:
-                                self.skip = self.skip + self.top
-                            else:
-                                self.skip = self.top
-                        break
+                    break
                 entity = None
             # we haven't changed the database, but we don't want to
             # leave the connection idle in transaction
-- 
2.43.0


From a138454d3a3b5d51b7fd90d17acd50950f66df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 064/273] fix: page through SQL collections ordered by null
 values

---
 pyslet/odata2/sqlds.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index af8db48..21ec77c 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1190,7 +1190,10 @@ class SQLCollectionBase(core.EntityCollection):
         """Adds the entity constraint expression to a list of SQL expressions.
 
         where
-                The list to append the skiptoken expression to."""
+                The list to append the skiptoken expression to.
+
+        NULL values are assumed to come before all other values, the
+        order in which SQLite and MySQL return them."""
         skip_expression = []
         i = ket = 0
         while True:
@@ -1205,12 +1208,23 @@ class SQLCollectionBase(core.EntityCollection):
                 o_expression = self.sql_expression(expression, params, op)
             else:
                 o_expression = oname
-            skip_expression.append(
-                "(%s %s %s" %
-                (o_expression,
-                 op,
-                 params.add_param(
-                     self.container.prepare_sql_value(v))))
+            if v:
+                skip_expression.append(
+                    "(%s %s %s" %
+                    (o_expression,
+                     op,
+                     params.add_param(
+                         self.container.prepare_sql_value(v))))
+                if oname is None and dir < 0:
+                    # NULL comes first, last when descending
+                    o_expression = self.sql_expression(
+                        expression, params, 'IS')
+                    skip_expression.append(" OR %s IS NULL" % o_expression)
+            elif dir > 0:
+                skip_expression.append("(%s IS NOT NULL" % o_expression)
+            else:
+                # nothing comes after NULL, never true
+                skip_expression.append("(%s <> NULL" % o_expression)
             ket += 1
             i += 1
             if i < len(self.orderNames):
@@ -1218,10 +1232,14 @@ class SQLCollectionBase(core.EntityCollection):
                 if oname is None:
                     # remake the expression
                     o_expression = self.sql_expression(expression, params, '=')
-                skip_expression.append(
-                    " OR (%s = %s AND " %
-                    (o_expression, params.add_param(
-                        self.container.prepare_sql_value(v))))
+                if v:
+                    skip_expression.append(
+                        " OR (%s = %s AND " %
+                        (o_expression, params.add_param(
+                            self.container.prepare_sql_value(v))))
+                else:
+                    skip_expression.append(" OR (%s IS NULL AND " %
+                                           o_expression)
                 ket += 1
                 continue
             else:
-- 
2.43.0


From a8a10020847d03fcbdaa4e7c033005fc1ba7dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 065/273] fix: next page links keep to the top requested

---
 pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 510cc8d..817e641 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3005,6 +3005,10 @@ class EntityCollection(edm.EntityCollection):
                 sys_query_options[
                     SystemQueryOption.orderby] = \
                     CommonExpression.orderby_to_str(self.orderby)
+            if self.top is not None and self.topmax is not None:
+                # the number of entities still to be returned
+                sys_query_options[SystemQueryOption.top] = to_text(
+                    self.top - self.topmax)
             sys_query_options[SystemQueryOption.skiptoken] = to_text(token)
             return uri.URI.from_octets(
                 str(base_url) +
-- 
2.43.0


From 225522a9d2e8466de9b6363cadc886d192946633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 066/273] fix: skip tokens with null values

---
 pyslet/odata2/sqlds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 21ec77c..e6c26f4 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5315,6 +5315,8 @@ class SQLEntityContainer(object):
 
         You may need to override this method to identify the appropriate
         value type."""
+        if sql_value is None:
+            return edm.EDMValue.from_type(None)
         return edm.EDMValue.from_value(sql_value)
 
     def prepare_sql_literal(self, value):
-- 
2.43.0


From 72cc749c64c616de8b126eb20d6b6d1b25ce6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 067/273] fix: skip tokens for boolean order expressions in SQL
 collections

---
 pyslet/odata2/sqlds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index e6c26f4..9b2eb9b 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1205,7 +1205,8 @@ class SQLCollectionBase(core.EntityCollection):
             v = self.skiptoken[i]
             op = ">" if dir > 0 else "<"
             if oname is None:
-                o_expression = self.sql_expression(expression, params, op)
+                # boolean expressions must be bracketed
+                o_expression = self.sql_expression(expression, params, '+')
             else:
                 o_expression = oname
             if v:
@@ -1218,7 +1219,7 @@ class SQLCollectionBase(core.EntityCollection):
                 if oname is None and dir < 0:
                     # NULL comes first, last when descending
                     o_expression = self.sql_expression(
-                        expression, params, 'IS')
+                        expression, params, '+')
                     skip_expression.append(" OR %s IS NULL" % o_expression)
             elif dir > 0:
                 skip_expression.append("(%s IS NOT NULL" % o_expression)
@@ -1231,7 +1232,7 @@ class SQLCollectionBase(core.EntityCollection):
                 # more to come
                 if oname is None:
                     # remake the expression
-                    o_expression = self.sql_expression(expression, params, '=')
+                    o_expression = self.sql_expression(expression, params, '+')
                 if v:
                     skip_expression.append(
                         " OR (%s = %s AND " %
-- 
2.43.0


From b943de7089d353571bdb463348fe7b3bb384fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 068/273] fix: skip tokens with binary values (and guids in
 SQLite)

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 9b2eb9b..926d1c9 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5627,7 +5627,7 @@ class SQLiteEntityContainer(SQLEntityContainer):
         underlying DB API are converted to strings.  Otherwise
         *sql_value* is passed directly to the parent."""
         if isinstance(sql_value, buffer2):
-            result = edm.BinaryValue()
+            result = edm.EDMValue.from_type(edm.SimpleType.Binary)
             result.set_from_value(bytes(sql_value))
             return result
         else:
-- 
2.43.0


From 42b480017a6494911a34138b2e36ad00b0ab41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 069/273] fix: key predicates are only percent-decoded once

---
 pyslet/odata2/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 817e641..abf4a1a 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2400,7 +2400,7 @@ class ODataURI(PEP8Compatibility):
             if len(keys) == 0:
                 return name, {}
             elif len(keys) == 1:
-                return name, {keys[0][0]: uri_literal_from_str(keys[0][1])}
+                return name, {keys[0][0]: cls.parse_key_literal(keys[0][1])}
             else:
                 key_predicate = {}
                 for k in keys:
@@ -2408,12 +2408,20 @@ class ODataURI(PEP8Compatibility):
                         raise ValueError(
                             "unrecognized key predicate: %s" % repr(keys))
                     kname, value = k
-                    kvalue = uri_literal_from_str(value)
+                    kvalue = cls.parse_key_literal(value)
                     key_predicate[kname] = kvalue
                 return name, key_predicate
         else:
             return segment, None
 
+    @classmethod
+    def parse_key_literal(cls, source):
+        """Parses a key value from a source string
+
+        The string has already had any URI-escaping removed."""
+        p = Parser(source)
+        return p.require_production_end(p.parse_uri_literal(), "uri literal")
+
     def get_param_value(self, param_name):
         if param_name in self.param_table:
             param_def = self.query_options[self.param_table[param_name]]
-- 
2.43.0


From d3ad1ad395c9c55b76681e61deef49520871b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 070/273] fix: the path prefix of an OData URI is made of whole
 segments

---
 pyslet/odata2/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index abf4a1a..7ae1423 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2198,7 +2198,9 @@ class ODataURI(PEP8Compatibility):
             #   both ds_uri and path_prefix are relative, this is an error
             raise ValueError("path_prefix cannot be relative: %s" %
                              path_prefix)
-        if path_prefix and not ds_uri.abs_path.startswith(path_prefix):
+        if path_prefix and not (
+                ds_uri.abs_path == path_prefix or
+                ds_uri.abs_path.startswith(path_prefix + '/')):
             # this is not a URI we own
             return
         #
-- 
2.43.0


From 388a51bab833489a392f6d720f7b809d1e7c213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 071/273] fix: refuse misplaced $metadata, $batch and $links
 path segments

---
 pyslet/odata2/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 7ae1423..5b95bf6 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2254,13 +2254,12 @@ class ODataURI(PEP8Compatibility):
                             (segment,
                              PathOption.to_str(
                                  self.path_option)))
-                    if self.nav_path and self.path_option in (
+                    if self.nav_path and path_option in (
                             PathOption.batch, PathOption.metadata):
                         raise InvalidPathOption(
                             "$%s must be the only path segment" %
-                            PathOption.to_str(
-                                self.path_option))
-                    elif self.path_option == PathOption.links:
+                            PathOption.to_str(path_option))
+                    elif path_option == PathOption.links:
                         if not self.nav_path:
                             raise InvalidPathOption(
                                 "resource path must not start with $links")
-- 
2.43.0


From 8bf0171059058098b187d12ca9494edc452d5c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 072/273] fix: read JSON objects that omit a complex property

---
 pyslet/odata2/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 5b95bf6..5decba9 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2568,7 +2568,7 @@ class Entity(edm.Entity):
                     # assume a complex value then
                     complex_value_from_json(v, obj[k])
             else:
-                v.set_from_value(None)
+                v.set_null()
         if self.exists is False:
             # we need to look for any link bindings
             for nav_property in self.navigation_keys():
@@ -2812,7 +2812,7 @@ def complex_value_from_json(complex_value, obj):
             else:
                 complex_value_from_json(v, obj[k])
         else:
-            v.set_from_value(None)
+            v.set_null()
 
 
 TICKS_PER_DAY = 86400000
-- 
2.43.0


From a921d60ac62de9d7ece956579236e31832a3eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 073/273] fix: read Atom entries with an expanded null link

---
 pyslet/odata2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 5decba9..5e58d84 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3584,13 +3584,14 @@ class Link(atom.Link):
         if self.Inline is not None:
             target_entity_set = deferred.target()
             with target_entity_set.open() as collection:
+                # an empty element is an expanded null link
+                entries = []
                 if self.Inline.Entry is not None:
                     entity = collection.new_entity()
                     entity.exists = exists
                     self.Inline.Entry.get_value(entity)
-                    entries = [entity]
+                    entries.append(entity)
                 elif self.Inline.Feed is not None:
-                    entries = []
                     for entry in self.Inline.Feed.find_children_depth_first(
                             Entry, sub_match=False):
                         entity = collection.new_entity()
-- 
2.43.0


From 70b881cbb63109b724c3503df0aa1460146c396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 074/273] fix: single links of new entities are not JSON arrays

---
 pyslet/odata2/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 5e58d84..802e48f 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2728,7 +2728,13 @@ class Entity(edm.Entity):
                 if not dv.bindings:
                     continue
                 target_set = dv.target()
-                yield ', %s :[' % json.dumps(k)
+                yield ', %s :' % json.dumps(k)
+                if dv.isCollection:
+                    yield '['
+                elif len(dv.bindings) > 1:
+                    raise edm.NavigationError(
+                        "Multiple bindings found for navigation property "
+                        "%s.%s" % (self.entity_set.name, k))
                 sep = False
                 for binding in dv.bindings:
                     if sep:
@@ -2750,7 +2756,8 @@ class Entity(edm.Entity):
                                 target_set.get_key_dict(binding))
                     if href:
                         yield '{ "__metadata":{"uri":%s}}' % json.dumps(href)
-                yield ']'
+                if dv.isCollection:
+                    yield ']'
         yield '}'
 
     def link_json(self):
-- 
2.43.0


From a9df5da638c4180f5cfcb450c9082f2a6334c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 075/273] fix: expressions that can't be evaluated are bad
 requests

---
 pyslet/odata2/core.py   | 16 ++++++++++++++--
 pyslet/odata2/server.py |  4 ++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 802e48f..c5083e6 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -463,6 +463,8 @@ class UnaryExpression(CommonExpression):
         return self.EvalMethod[self.operator](self, rvalue)
 
     def evaluate_negate(self, rvalue):
+        if not isinstance(rvalue, edm.SimpleValue):
+            raise EvaluationError("Illegal operand for negate")
         type_code = rvalue.type_code
         if type_code in (edm.SimpleType.Byte, edm.SimpleType.Int16):
             rvalue = rvalue.simple_cast(edm.SimpleType.Int32)
@@ -994,6 +996,9 @@ class PropertyExpression(CommonExpression):
     def evaluate(self, context_entity):
         if context_entity:
             if isinstance(context_entity, edm.Entity):
+                if self.name not in context_entity:
+                    raise EvaluationError(
+                        "Undefined property: %s" % self.name)
                 if context_entity.is_entity_collection(self.name):
                     raise EvaluationError(
                         "%s navigation property must have cardinality of "
@@ -3118,7 +3123,10 @@ class EntityCollection(edm.EntityCollection):
             return True
         else:
             result = self.filter.evaluate(entity)
-            if isinstance(result, edm.BooleanValue):
+            if not isinstance(result, edm.SimpleValue):
+                raise EvaluationError(
+                    "Simple value required for filter expression")
+            elif isinstance(result, edm.BooleanValue):
                 return result.value         #: NULL treated as False
             elif result.type_code is None:
                 # the null literal has no type
@@ -3131,7 +3139,11 @@ class EntityCollection(edm.EntityCollection):
         py:class:`CommonExpression`.
 
         Null values come before any other."""
-        value = order_object.evaluate(entity).value
+        result = order_object.evaluate(entity)
+        if not isinstance(result, edm.SimpleValue):
+            raise EvaluationError(
+                "Simple value required for orderby expression")
+        value = result.value
         return (value is not None, value)
 
     def generate_entity_set_in_json(self, version=2):
diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 9267e10..6b877ba 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -880,6 +880,10 @@ class Server(app.Server):
             return self.odata_error(
                 request, environ, start_response, "Bad Request",
                 "Resource not found for segment %s" % str(e), 400)
+        except core.EvaluationError as e:
+            return self.odata_error(
+                request, environ, start_response, "Bad Request",
+                "Can't evaluate expression: %s" % str(e), 400)
         except edm.NavigationError as e:
             return self.odata_error(
                 request, environ, start_response, "NavigationError", str(e),
-- 
2.43.0


From b618ffba14a97aa32d5bccca88ce4ace4ba2b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 076/273] fix: refuse JSON values of the wrong type, don't
 replace missing ones on merge

---
 pyslet/odata2/core.py | 63 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index c5083e6..75da22b 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2564,7 +2564,17 @@ class Entity(edm.Entity):
             *existing* entity is being deserialised for update or just
             for read access.  When True, new bindings are added to the
             entity for links provided in the obj.  If the entity doesn't
-            exist then this argument is ignored."""
+            exist then this argument is ignored.
+
+        When updating, properties missing from obj are set to null and
+        become unselected."""
+        if not isinstance(obj, dict):
+            raise InvalidData("JSON object expected: %s" % str(obj)[:256])
+        self.selected = None
+        if self.exists and for_update:
+            selected = set(k for k in self.data_keys() if k in obj)
+            if len(selected) < len(list(self.data_keys())):
+                self.selected = selected
         for k, v in self.data_items():
             if k in obj:
                 if isinstance(v, edm.SimpleValue):
@@ -2572,7 +2582,7 @@ class Entity(edm.Entity):
                 else:
                     # assume a complex value then
                     complex_value_from_json(v, obj[k])
-            else:
+            elif not self.exists or k not in self.entity_set.keys:
                 v.set_null()
         if self.exists is False:
             # we need to look for any link bindings
@@ -2581,15 +2591,24 @@ class Entity(edm.Entity):
                     continue
                 links = obj[nav_property]
                 if not self.is_entity_collection(nav_property):
+                    if links is None:
+                        # nothing to link to
+                        continue
                     # wrap singletons for convenience
                     links = (links,)
+                elif not isinstance(links, list):
+                    raise InvalidData("JSON array expected for %s: %s" %
+                                      (nav_property, str(links)[:256]))
                 target_set = self.entity_set.get_target(nav_property)
                 with target_set.open() as collection:
                     for link in links:
+                        if not isinstance(link, dict):
+                            raise InvalidData(
+                                "JSON object expected for %s: %s" %
+                                (nav_property, str(link)[:256]))
                         if len(link) == 1 and '__metadata' in link:
                             # bind to an existing entity
-                            href = uri.URI.from_octets(
-                                link['__metadata']['uri'])
+                            href = link_from_json(link['__metadata'])
                             if entity_resolver is not None:
                                 if not href.is_absolute():
                                     # we'll assume that the base URI is
@@ -2626,10 +2645,13 @@ class Entity(edm.Entity):
                     # missing or can't be updated these this way
                     continue
                 link = obj[nav_property]
+                if not isinstance(link, dict):
+                    raise InvalidData("JSON object expected for %s: %s" %
+                                      (nav_property, str(link)[:256]))
                 if '__metadata' in link:
                     target_set = self.entity_set.get_target(nav_property)
                     # bind to an existing entity
-                    href = uri.URI.from_octets(link['__metadata']['uri'])
+                    href = link_from_json(link['__metadata'])
                     if entity_resolver is not None:
                         if not href.is_absolute():
                             #   we'll assume that the base URI is the
@@ -2794,6 +2816,20 @@ def complex_property_to_json_v1(complex_value):
     return '{%s}' % complex_property_to_json_str(complex_value)
 
 
+def link_from_json(obj):
+    """Returns the :class:`pyslet.rfc2396.URI` of a JSON link
+
+    obj
+        The object with the 'uri' parsed from the JSON representation
+
+    :class:`InvalidData` is raised if there is no valid URI."""
+    try:
+        return uri.URI.from_octets(obj['uri'])
+    except (KeyError, TypeError, AttributeError, uri.URIException):
+        raise InvalidData("Unable to parse link from JSON: %s" %
+                          str(obj)[:256])
+
+
 def complex_property_from_json(complex_value, obj):
     if complex_value.p_def.name in obj:
         complex_value_from_json(complex_value, obj[complex_value.p_def.name])
@@ -2817,6 +2853,10 @@ def complex_value_to_json_str(complex_value):
 
 
 def complex_value_from_json(complex_value, obj):
+    if obj is None:
+        obj = {}
+    elif not isinstance(obj, dict):
+        raise InvalidData("JSON object expected: %s" % str(obj)[:256])
     for k, v in complex_value.iteritems():
         if k in obj:
             if isinstance(v, edm.SimpleValue):
@@ -2944,10 +2984,17 @@ def simple_value_from_json(v, json_value):
     to reflect the parsed value."""
     if json_value is None:
         v.set_from_value(None)
+    elif isinstance(json_value, (dict, list)):
+        raise ValueError("Simple value expected: %s" % str(json_value)[:256])
+    elif not is_text(json_value) and isinstance(
+            v, (edm.BinaryValue, edm.DateTimeValue, edm.DateTimeOffsetValue)):
+        raise ValueError("String expected: %s" % repr(json_value))
     elif isinstance(v, edm.BinaryValue):
         v.set_from_value(base64.b64decode(json_value))
     elif isinstance(v, (edm.BooleanValue, edm.ByteValue, edm.Int16Value,
                         edm.Int32Value, edm.SByteValue)):
+        if is_text(json_value):
+            raise ValueError("Unexpected string: %s" % json_value)
         v.set_from_value(json_value)
     elif isinstance(v, edm.DateTimeValue):
         if json_value.startswith("/Date("):
@@ -2965,14 +3012,14 @@ def simple_value_from_json(v, json_value):
                     # shift to UTC and strip zone
                     d = d.shift_zone(0).with_zone(None)
                 v.set_from_value(d)
-            except ValueError:
+            except (ValueError, iso.DateTimeError):
                 raise ValueError(
                     "Unrecognized value for DateTime: %s" % json_value)
     elif isinstance(v, (edm.DecimalValue, edm.DoubleValue, edm.GuidValue,
                         edm.Int64Value, edm.SingleValue, edm.StringValue,
                         edm.TimeValue)):
         # just use the literal form as a json string
-        v.set_from_literal(json_value)
+        v.set_from_literal(to_text(json_value))
     elif isinstance(v, (edm.DateTimeOffsetValue)):
         if json_value.startswith("/Date("):
             try:
@@ -2988,7 +3035,7 @@ def simple_value_from_json(v, json_value):
                     # assume UTC
                     d = d.with_zone(0)
                 v.set_from_value(d)
-            except ValueError:
+            except (ValueError, iso.DateTimeError):
                 raise ValueError(
                     "Unrecognized value for DateTimeOffset: %s" % json_value)
     else:
-- 
2.43.0


From 1bc28851a542458a66c95caa5296cf6cdae1c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 077/273] fix: request bodies that can't be parsed are bad
 requests

---
 pyslet/odata2/server.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 6b877ba..9ae9d20 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -345,6 +345,10 @@ class Server(app.Server):
             return self.odata_error(
                 core.ODataURI('error'), environ, start_response, "Bad Request",
                 "Method not allowed: %s" % to_text(e), 400)
+        except core.InvalidData as e:
+            return self.odata_error(
+                core.ODataURI('error'), environ, start_response, "Bad Request",
+                "Invalid data in request: %s" % to_text(e), 400)
         except ValueError as e:
             logging.error(
                 "Error in OData call: %s",
@@ -975,13 +979,7 @@ class Server(app.Server):
                     input.root.xmlname)
         else:
             # must be a json object
-            try:
-                return self.get_resource_from_uri(
-                    uri.URI.from_octets(input['uri']))
-            except KeyError:
-                raise core.InvalidData(
-                    "Unable to parse link from JSON request body (found %s )" %
-                    str(input)[:256])
+            return self.get_resource_from_uri(core.link_from_json(input))
 
     def return_link(self, entity, request, environ, start_response,
                     response_headers):
@@ -1031,7 +1029,19 @@ class Server(app.Server):
         return [data]
 
     def read_xml_or_json(self, environ):
-        """Reads either an XML document or a JSON object from environ."""
+        """Reads either an XML document or a JSON object from environ.
+
+        :class:`core.InvalidData` is raised if the body can't be parsed."""
+        try:
+            result = self._parse_xml_or_json(environ)
+        except (xml.XMLError, uri.URIException, LookupError) as e:
+            raise core.InvalidData(
+                "Unable to parse request body: %s" % to_text(e))
+        if not isinstance(result, (core.Document, dict)):
+            raise core.InvalidData("JSON object expected in request body")
+        return result
+
+    def _parse_xml_or_json(self, environ):
         atom_flag = None
         encoding = None
         if "CONTENT_TYPE" in environ:
@@ -1070,7 +1080,7 @@ class Server(app.Server):
                     break
             if b == '<':
                 atom_flag = True
-            elif b in '{[':
+            elif b and b in '{[':
                 atom_flag = False
             else:
                 raise core.InvalidData("Unable to parse request body")
-- 
2.43.0


From 0f98689b4a5c6ccc08e3b3784c8fc834d96d86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 078/273] fix: links to anything but an entity of the target
 set are bad requests

---
 pyslet/odata2/server.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 9ae9d20..40aff5d 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -623,7 +623,8 @@ class Server(app.Server):
                             request.links_property].open()
                     if isinstance(resource, edm.EntityCollection):
                         with resource as collection:
-                            target_entity = self.read_entity_from_link(environ)
+                            target_entity = self.read_entity_from_link(
+                                environ, collection.entity_set)
                             collection[target_entity.key()] = target_entity
                         return self.return_empty(
                             start_response, response_headers)
@@ -641,7 +642,8 @@ class Server(app.Server):
                     with parent_entity[
                             request.links_property].open() as \
                             collection:
-                        target_entity = self.read_entity_from_link(environ)
+                        target_entity = self.read_entity_from_link(
+                            environ, collection.entity_set)
                         collection.replace(target_entity)
                     return self.return_empty(start_response, response_headers)
                 elif method == "DELETE":
@@ -956,10 +958,9 @@ class Server(app.Server):
                 entities.generate_link_coll_json(request.version)))
         else:
             doc = core.Document(root=core.Links)
-            for e in entities.itervalues():
+            for e in entities.iterpage():
                 child = doc.root.add_child(core.URI)
-                child.set_value(str(self.service_root) + "%s(%s)" %
-                                (e.entity_set.name, repr(e.key())))
+                child.set_value(str(e.get_location()))
             data = str(doc)
         data = data.encode('utf-8')
         response_headers.append(("Content-Type", str(response_type)))
@@ -967,19 +968,34 @@ class Server(app.Server):
         start_response("%i %s" % (200, "Success"), response_headers)
         return [data]
 
-    def read_entity_from_link(self, environ):
+    def read_entity_from_link(self, environ, target_set=None):
+        """Reads the entity linked to from the request body
+
+        :class:`core.InvalidData` is raised if the link does not identify
+        a single entity (in *target_set*, if given)."""
         input = self.read_xml_or_json(environ)
         if isinstance(input, core.Document):
             if isinstance(input.root, core.URI):
-                return self.get_resource_from_uri(
-                    uri.URI.from_octets(input.root.get_value()))
+                try:
+                    href = uri.URI.from_octets(input.root.get_value())
+                except uri.URIException as e:
+                    raise core.InvalidData(
+                        "Unable to parse link from request body: %s" %
+                        str(e))
             else:
                 raise core.InvalidData(
                     "Unable to parse link from request body (found <%s>)" %
                     input.root.xmlname)
         else:
             # must be a json object
-            return self.get_resource_from_uri(core.link_from_json(input))
+            href = core.link_from_json(input)
+        entity = self.get_resource_from_uri(href)
+        if not isinstance(entity, edm.Entity) or (
+                target_set is not None and
+                entity.entity_set is not target_set):
+            raise core.InvalidData(
+                "Link is not to a valid target entity: %s" % str(href))
+        return entity
 
     def return_link(self, entity, request, environ, start_response,
                     response_headers):
-- 
2.43.0


From 75d3b47264ceb270b024ed6d0bf4d2f6c4857634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 079/273] fix: refuse $value of collections and complex values,
 allow it without a content type

---
 pyslet/odata2/server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 40aff5d..9e0ceab 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -732,6 +732,11 @@ class Server(app.Server):
                     return self.return_empty(start_response, response_headers)
                 else:
                     raise core.InvalidMethod("%s not supported here" % method)
+            elif (request.path_option == core.PathOption.value and
+                    not isinstance(resource, edm.SimpleValue)):
+                raise core.BadURISegment(
+                    "$value must be applied to a simple property or a "
+                    "media stream")
             elif isinstance(resource, edm.EntityCollection):
                 if method == "GET":
                     self.expand_resource(resource, request.sys_query_options)
@@ -1244,7 +1249,7 @@ class Server(app.Server):
         return [data]
 
     def read_dereferenced_value(self, value, environ):
-        encoding = None
+        encoding = request_type = None
         if "CONTENT_TYPE" in environ:
             request_type = params.MediaType.from_str(environ["CONTENT_TYPE"])
         if value.mtype is None:
@@ -1277,7 +1282,7 @@ class Server(app.Server):
                 "Unable to parse property value from request "
                 "body (found <%s>)" % str(request_type))
         data = messages.WSGIInputWrapper(environ).read()
-        if request_type.type == "text":
+        if request_type is not None and request_type.type == "text":
             try:
                 encoding = request_type['charset'].decode('latin-1')
             except KeyError:
-- 
2.43.0


From 9203896bc3a828159c7beb1b9201fd102b0c00f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 080/273] fix: path info decoded as iso-8859-1 (PEP 3333) in
 the OData server

---
 pyslet/odata2/server.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 9e0ceab..f4acfaa 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -246,6 +246,14 @@ class Server(app.Server):
         ..  _RFC3875 http://www.ietf.org/rfc/rfc3875"""
         if isinstance(pathinfo, bytes):
             pathinfo = pathinfo.decode('utf-8')
+        else:
+            # in Python 3, WSGI servers decode the octets of the path
+            # using iso-8859-1, see PEP3333
+            try:
+                pathinfo = pathinfo.encode('iso-8859-1').decode('utf-8')
+            except UnicodeError:
+                # already decoded from UTF-8
+                pass
         qmode = False
         result = []
         for c in pathinfo:
-- 
2.43.0


From 0b21e320e78dc0ec7b572ac989460834ab087499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 081/273] fix: key predicates of the wrong type don't identify
 entities

---
 pyslet/odata2/csdl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 83a49c0..f08d4c0 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4779,6 +4779,15 @@ class EntitySet(CSDLElement):
                     else:
                         raise
                 if isinstance(kv, SimpleValue):
+                    value = kp.property()
+                    if kv and kv.type_code != value.type_code:
+                        try:
+                            value.set_from_value(kv.value)
+                        except (TypeError, ValueError):
+                            raise KeyError(
+                                "Bad value for key %s: %s" %
+                                (kp.name, to_text(kv)))
+                        kv = value
                     kv = kv.value
                 k.append(kv)
             if len(k) == 1:
-- 
2.43.0


From c8ef6f7ef6530711069d16989cd4046e39a0dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 082/273] fix: slugs that suggest the key 0

---
 pyslet/odata2/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index f4acfaa..36b22c1 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -794,7 +794,7 @@ class Server(app.Server):
                                 key = resource.entity_set.get_key(kp)
                             except ValueError:
                                 pass
-                        if not key:
+                        if key is None:
                             key = resource.entity_set.extract_key(slug.slug)
                     else:
                         slug = key = None
-- 
2.43.0


From 19014987e5a47ee0962d2b8f87517318dfba56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 083/273] fix: navigation properties used as values in SQL
 filters

---
 pyslet/odata2/sqlds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 926d1c9..4746eeb 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1607,6 +1607,10 @@ class SQLCollectionBase(core.EntityCollection):
                             "Unqualified property %s "
                             "must refer to a simple type" %
                             expression.name)
+                else:
+                    raise core.EvaluationError(
+                        "Navigation property %s is not a simple value" %
+                        expression.name)
             except KeyError:
                 raise core.EvaluationError(
                     "Property %s is not declared" % expression.name)
-- 
2.43.0


From 8b6f11524b826b9f458284c947dae7e065878dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 084/273] fix: rounding errors in the milliseconds of JSON
 dates

---
 pyslet/odata2/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 75da22b..3493656 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2972,7 +2972,10 @@ def parse_asp_dot_net_date(src):
     else:
         zoffset = 0
     overflow, ticks = divmod(int(ticks[0]), TICKS_PER_DAY)
-    t, _ = iso.Time().offset(seconds=ticks / 1000.0)
+    # avoid rounding errors in the fraction of the second
+    minutes, ticks = divmod(ticks, 60000)
+    t = iso.Time(hour=minutes // 60, minute=minutes % 60,
+                 second=ticks / 1000.0 if ticks % 1000 else ticks // 1000)
     t = t.with_zone(zdir, zoffset // 60, zoffset % 60)
     d = iso.Date(absolute_day=BASE_DAY + overflow)
     return iso.TimePoint(date=d, time=t)
-- 
2.43.0


From 56e9575ba12082d19d11ae82c9e878472d7cf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 085/273] fix: filters on URIs that identify a single entity

---
 pyslet/odata2/server.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 36b22c1..d78a39f 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -682,6 +682,17 @@ class Server(app.Server):
                                 "$value cannot be used since "
                                 "the entity is not a media stream")
                     else:
+                        entity_filter = request.sys_query_options.get(
+                            core.SystemQueryOption.filter, None)
+                        if entity_filter is not None and \
+                                not request.nav_path[-1][1]:
+                            # no key predicate: the entity is returned
+                            # if it passes
+                            with resource.entity_set.open() as coll:
+                                coll.set_filter(entity_filter)
+                                if resource.key() not in coll:
+                                    raise core.MissingURISegment(
+                                        "the entity does not pass $filter")
                         self.expand_resource(resource,
                                              request.sys_query_options)
                         return self.return_entity(
-- 
2.43.0


From 853f848c30fe8507c8835fe3ac486b4de290b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 086/273] fix: OData client replaces the links of single and
 required navigation properties

---
 pyslet/odata2/client.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 770b806..8883d5e 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -568,6 +568,16 @@ class EntityCollection(ClientCollection, core.EntityCollection):
                 binding = dv.bindings[-1]
                 if isinstance(binding, edm.Entity) and binding.exists:
                     dv.bindings = []
+                elif isinstance(binding, edm.Entity):
+                    # a new entity replaces the one currently linked
+                    with dv.open() as collection:
+                        if collection.from_end.associationEnd.multiplicity \
+                                == edm.Multiplicity.One:
+                            continue
+                        with collection.entity_set.open() as base:
+                            base.insert_entity(binding)
+                        collection.replace(binding)
+                    dv.bindings = []
             # now use the default method to finish the job
             self.update_bindings(entity)
             return
@@ -831,8 +841,16 @@ class NavigationCollection(ClientCollection, core.NavigationCollection):
         if not entity.exists:
             raise edm.NonExistentEntity(str(entity.get_location()))
         if self.isCollection:
-            # inherit the implementation
-            super(NavigationCollection, self).replace(entity)
+            # leave any existing link to entity alone, it may be required
+            key = entity.key()
+            linked = False
+            for k in list(self):
+                if k == key:
+                    linked = True
+                else:
+                    del self[k]
+            if not linked:
+                self[key] = entity
         else:
             if not isinstance(entity, edm.Entity) or \
                     entity.entity_set is not self.entity_set:
-- 
2.43.0


From c0f821159c70a4537aa7e4882fbf001ef7402fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 087/273] fix: SQL link updates refuse an entity that is linked
 elsewhere

---
 pyslet/odata2/sqlds.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 4746eeb..9944c82 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2826,6 +2826,13 @@ class SQLEntityCollection(SQLCollectionBase):
             transaction.commit()
         except self.container.dbapi.IntegrityError as e:
             transaction.rollback(e, swallow=True)
+            if unique and target_entity:
+                with target_set.open() as targets:
+                    if target_entity.key() in targets:
+                        raise edm.NavigationError(
+                            "Linked entity %s is already linked through "
+                            "association %s" %
+                            (target_entity.get_location(), aset_name))
             raise KeyError("Linked entity %s does not exist" %
                            str(target_entity.get_location()))
         except Exception as e:
-- 
2.43.0


From 67e3616fc21cb07d131dfb9a8e023d8912ad3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 088/273] fix: OData client selects entities by key from
 filtered collections

---
 pyslet/odata2/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 8883d5e..fd4fff5 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -308,7 +308,7 @@ class ClientCollection(core.EntityCollection):
     def __getitem__(self, key):
         sys_query_options = {}
         if self.filter is not None:
-            sys_query_options[core.SystemQueryOption.filter] = "%s and %s" % (
+            sys_query_options[core.SystemQueryOption.filter] = "%s and (%s)" % (
                 core.ODataURI.key_dict_to_query(self.entity_set.key_dict(key)),
                 to_text(self.filter))
             entity_url = str(self.base_uri)
@@ -356,7 +356,7 @@ class ClientCollection(core.EntityCollection):
                 return entity
             else:
                 raise UnexpectedHTTPResponse("%i entities returned from %s" %
-                                             nresults, entity_url)
+                                             (nresults, entity_url))
         elif isinstance(doc.root, core.Error):
             raise KeyError(key)
         else:
-- 
2.43.0


From 01a81d04c3a6fd6b6c81c7a42c52278339da2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 089/273] fix: readall left pipes in blocking mode

---
 pyslet/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 65baddd..536afe5 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -592,7 +592,7 @@ class Pipe(io.RawIOBase):
                     else:
                         data.append(part)
             finally:
-                self.rlocking = save_rblocking
+                self.rblocking = save_rblocking
 
     def _consolidate_buffer(self):
         with self.lock:
-- 
2.43.0


From 2202026df39f3cfba6ea4a2774e1ffd6493a992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 090/273] fix: readmatch miscounted the bytes buffered in a
 pipe

---
 pyslet/streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 536afe5..f9da30a 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -599,6 +599,7 @@ class Pipe(io.RawIOBase):
             if self.buffer:
                 if self.rpos:
                     self.buffer[0] = self.buffer[0][self.rpos:]
+                    self.bsize -= self.rpos
                     self.rpos = 0
                 self.buffer = [b''.join(self.buffer)]
 
-- 
2.43.0


From 27943f1a234c0699aa2abafbf83759663c055e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 091/273] fix: writing an empty bytearray to a pipe looked like
 its end

---
 pyslet/streams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index f9da30a..1ecdb5f 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -487,6 +487,8 @@ class Pipe(io.RawIOBase):
                 return nbytes
             elif isinstance(b, bytearray):
                 nbytes = len(b)
+                if not nbytes:
+                    return nbytes
                 if nbytes > wlen:
                     nbytes = wlen
                     # partial copy, creates transient bytearray :(
-- 
2.43.0


From a700d5605127cf7c25cb9de2a12b2b3886bf6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 092/273] fix: seek in buffered stream wrappers returns the
 position

---
 pyslet/streams.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 1ecdb5f..641393c 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -119,15 +119,18 @@ class BufferedStreamWrapper(io.RawIOBase):
         if self.overflow:
             raise io.UnsupportedOperation
         elif whence == io.SEEK_SET:
-            self.pos = offset
+            pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.length + offset
+            pos = self.length + offset
         else:
             raise ValueError("unrecognized whence value in seek: %s" %
                              repr(whence))
-        self.buff.seek(self.pos)
+        # negative positions raise ValueError
+        self.buff.seek(pos)
+        self.pos = pos
+        return pos
 
     def readinto(self, b):
         if self.pos < self.bsize:
-- 
2.43.0


From 21e68e4f0471565d7adf1372922c1d31632c9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:05 +0000
Subject: [PATCH 093/273] fix: writers missed the reader flag of a read that
 had waited for data

---
 pyslet/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 641393c..fc3540b 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -752,5 +752,8 @@ class Pipe(io.RawIOBase):
                 self.rpos = 0
             if nbytes:
                 self.rstate += 1
+                # the writer may have cleared the flag while we waited
+                if self.rflag is not None:
+                    self.rflag.set()
                 self.lock.notify_all()
             return nbytes
-- 
2.43.0


From dc0b3f3490d1af20e62383caad877d270ce2126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 094/273] fix: block streams opened for appending were not
 writable

---
 pyslet/blockstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 32f5e9e..3f46466 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -628,7 +628,7 @@ class BlockStream(io.RawIOBase):
         self.ss = ss
         self.stream = stream
         self.r = "r" in mode or "+" in mode
-        self.w = "w" in mode or "+" in mode
+        self.w = "w" in mode or "+" in mode or "a" in mode
         self.size = stream['size'].value
         self.block_size = self.ss.bs.max_block_size
         self._bdata = None
-- 
2.43.0


From fbc9ca85543dac41196c64df31dd6994075eb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 095/273] fix: seek in block streams returns the new position

---
 pyslet/blockstore.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 3f46466..2a4ffec 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -666,13 +666,16 @@ class BlockStream(io.RawIOBase):
 
     def seek(self, offset, whence=io.SEEK_SET):
         if whence == io.SEEK_SET:
-            self.pos = offset
+            pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.size + offset
+            pos = self.size + offset
         else:
             raise IOError("bad value for whence in seek")
+        if pos < 0:
+            raise ValueError("negative seek position %i" % pos)
+        self.pos = pos
         new_bnum = self.pos // self.block_size
         if new_bnum != self._bnum:
             self.flush()
@@ -680,6 +683,7 @@ class BlockStream(io.RawIOBase):
             self._bnum = new_bnum
         self._bpos = self.pos % self.block_size
         self._set_btop()
+        return self.pos
 
     def _set_btop(self):
         if self.size // self.block_size == self._bnum:
-- 
2.43.0


From f683343ac1acd67f4e4e2000c3ec060fc2233d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 096/273] fix: reading and writing past the end of block
 streams

---
 pyslet/blockstore.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 2a4ffec..31b5f0d 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -686,11 +686,9 @@ class BlockStream(io.RawIOBase):
         return self.pos
 
     def _set_btop(self):
-        if self.size // self.block_size == self._bnum:
-            # we're pointing to the last block
-            self._btop = self.size % self.block_size
-        else:
-            self._btop = self.block_size
+        # 0 if we're pointing past the end of the stream
+        self._btop = max(0, min(
+            self.block_size, self.size - self._bnum * self.block_size))
 
     def flush(self):
         if self._bdirty:
@@ -749,10 +747,22 @@ class BlockStream(io.RawIOBase):
             raise IOError("stream not open for writing")
         # we can always write something in the block, nbytes > 0
         nbytes = self.block_size - self._bpos
+        if not len(b):
+            return 0
         if self._bdata is None:
             if self._btop <= 0:
                 # add a new empty blocks first
                 last_block = len(self.blocks)
+                if last_block < self._bnum or self.size % self.block_size:
+                    # there's a gap
+                    self._md5 = None
+                if self.size % self.block_size:
+                    # the last block must be full now
+                    block = self.blocks[last_block - 1]
+                    data = bytes(self.ss.retrieve_block(block))
+                    self.ss.update_block(
+                        block, data.ljust(self.block_size, b'\x00'))
+                    self.size = last_block * self.block_size
                 while last_block < self._bnum:
                     self.blocks.append(self.ss.store_block(
                         self.stream, last_block, bytearray(self.block_size)))
-- 
2.43.0


From fa7966b2f8950a5d064e8598e496c23fca074da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 097/273] fix: opening block streams for writing did not
 truncate them

---
 pyslet/blockstore.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 31b5f0d..238563f 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -647,6 +647,10 @@ class BlockStream(io.RawIOBase):
                 self.blocks = []
                 self._md5 = hashlib.md5()
                 self._md5num = 0
+                if self.size:
+                    self.size = 0
+                    self._set_btop()
+                    self._update_stream()
             else:
                 self.blocks = list(self.ss.retrieve_blocklist(self.stream))
 
@@ -706,17 +710,20 @@ class BlockStream(io.RawIOBase):
                     self._md5num += 1
                 else:
                     self._md5 = None
-            if self.size != self.stream['size'].value:
-                self.stream['size'].set_from_value(self.size)
-            now = TimePoint.from_now_utc()
-            self.stream['modified'].set_from_value(now)
-            if self._md5 is not None:
-                self.stream['md5'].set_from_value(self._md5.digest())
-            else:
-                self.stream['md5'].set_null()
-            self.stream.commit()
+            self._update_stream()
             self._bdirty = False
 
+    def _update_stream(self):
+        if self.size != self.stream['size'].value:
+            self.stream['size'].set_from_value(self.size)
+        now = TimePoint.from_now_utc()
+        self.stream['modified'].set_from_value(now)
+        if self._md5 is not None:
+            self.stream['md5'].set_from_value(self._md5.digest())
+        else:
+            self.stream['md5'].set_null()
+        self.stream.commit()
+
     def tell(self):
         return self.pos
 
-- 
2.43.0


From c65f73ee59e5b8e8c914fc6b46899880aa860b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 098/273] fix: signatures made with an unknown key raised
 RuntimeError

---
 pyslet/wsgi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c9ccc3a..a4af78c 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1797,9 +1797,11 @@ class AppCipher(object):
                 else:
                     message = smessage
             with self.lock:
-                cipher = self._get_cipher(num)
-                if cipher is None:
-                    return ValueError
+                try:
+                    cipher = self._get_cipher(num)
+                except RuntimeError:
+                    # an unknown key
+                    raise ValueError
                 if cipher.hash(salt + message) == hash:
                     return message
                 else:
-- 
2.43.0


From 08a01452caea03c9319632f5757341ce6f591d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 099/273] fix: signature of another message accepted for an
 empty message

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index a4af78c..be3f5ec 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1790,7 +1790,7 @@ class AppCipher(object):
             hash = binascii.unhexlify(hash)
             if smessage:
                 smessage = unescape_data(smessage)
-                if message:
+                if message is not None:
                     # must match exactly!
                     if message != smessage:
                         raise ValueError
-- 
2.43.0


From 7aebe3f3b441b4386a37b71a3a11acfefd95fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 100/273] fix: signatures of empty messages could not be
 checked

---
 pyslet/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index be3f5ec..1b2570e 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1796,6 +1796,9 @@ class AppCipher(object):
                         raise ValueError
                 else:
                     message = smessage
+            elif message is None:
+                # the signature of an empty message
+                message = b''
             with self.lock:
                 try:
                     cipher = self._get_cipher(num)
-- 
2.43.0


From 0fd404a4971b6dfe9eda05f7cfb15d304f19ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 101/273] fix: AppCipher could not be started with the time of
 a key change

---
 pyslet/wsgi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 1b2570e..88f0d6a 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1567,21 +1567,21 @@ class AppCipher(object):
         self.key_num = key_num
         self.key = key
         self.ciphers = {key_num: self.new_cipher(key)}
-        if when:
+        if when and when.get_unixtime() >= time.time():
             # we need to find a key that hasn't expired
             with key_set.open() as keys:
                 t = edm.EDMValue.from_type(edm.SimpleType.DateTime)
                 t.set_from_value(time.time())
                 filter = odata.CommonExpression.from_str(
-                    "Expires gte :t", {'t': t})
+                    "Expires ge :t", {'t': t})
                 keys.set_filter(filter)
                 # Only interested in keys that haven't expired
-                old_keys = keys.values()
+                old_keys = list(keys.values())
                 if not old_keys:
                     raise RuntimeError("AppCipher: no current key")
                 old_key = old_keys[0]
                 self.old_num = old_key['KeyNum'].value
-                self.old_key = self.decrypt(old_key['KeyString'])
+                self.old_key = self.decrypt(old_key['KeyString'].value)
                 self.old_expires = when.get_unixtime()
                 self.ciphers[self.old_num] = self.new_cipher(self.old_key)
         else:
@@ -1684,7 +1684,7 @@ class AppCipher(object):
             e = keys.new_entity()
             e.set_key(self.old_num)
             e['KeyString'].set_from_value(old_key_encrypted)
-            e['Expires'].set_from_value(when)
+            e['Expires'].set_from_value(when.shift_zone(0))
             try:
                 keys.insert_entity(e)
             except edm.ConstraintError:
-- 
2.43.0


From dfc998e1b6896896fd73971598204b03177d98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 102/273] fix: impossible HTTP dates raised DateTimeError

---
 pyslet/http/params.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 4ca8875..7411b89 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -900,11 +900,14 @@ class ParameterParser(WordParser):
                 century = 20
             else:
                 century = 19
-        tp = FullDate(
-            date=iso.Date(century=century, year=year, month=month + 1,
-                          day=day),
-            time=iso.Time(hour=hour, minute=minute, second=second,
-                          zdirection=0))
+        try:
+            tp = FullDate(
+                date=iso.Date(century=century, year=year, month=month + 1,
+                              day=day),
+                time=iso.Time(hour=hour, minute=minute, second=second,
+                              zdirection=0))
+        except iso.DateTimeError:
+            self.parser_error("valid date")
         d1, d2, d3, d4, dow = tp.date.get_week_day()
         if dow != dayofweek + 1:
             self.parser_error("matching day-of-week")
-- 
2.43.0


From 7eec5401feb0d9da7331dbf4f5264e1789fea8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 103/273] fix: unterminated quoted strings in HTTP headers were
 accepted

---
 pyslet/http/grammar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index d1e7798..fabae81 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -433,6 +433,9 @@ class OctetParser(BasicParser):
                     qs.append(qdtext)
                 else:
                     self.parser_error('<">')
+        else:
+            # ran out of data
+            self.parser_error('<">')
         return b''.join(qs)
 
     def parse_qdtext(self, unfold=False):
-- 
2.43.0


From b55d94c2bf889c97ce32e972d6952eba8e3d2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 104/273] fix: media types and other HTTP parameters could not
 be hashed

---
 pyslet/http/messages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f1b0f0..096ef52 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2515,7 +2515,7 @@ class AcceptRanges(params.SortableParameter):
                 self._sorted = []
             else:
                 raise grammar.BadSyntax("none is not a valid range-unit")
-        self._sorted.sort()
+        self._sorted = tuple(sorted(self._sorted))
 
     @classmethod
     def from_str(cls, source):
@@ -2559,7 +2559,7 @@ class Allow(params.SortableParameter):
 
     def __init__(self, *args):
         self._methods = list(self.bstr(a).upper() for a in args)
-        self._sorted = sorted(self._methods)
+        self._sorted = tuple(sorted(self._methods))
 
     @classmethod
     def from_str(cls, source):
-- 
2.43.0


From 43c9d37319d1390d21c46ab52a76995338076d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 105/273] fix: Accept-* token lists could not be formatted

---
 pyslet/http/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 096ef52..ef788d2 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2365,7 +2365,7 @@ class AcceptTokenList(params.Parameter):
         return al
 
     def to_bytes(self):
-        return b', '.join(str(i) for i in self._items)
+        return b', '.join(i.to_bytes() for i in self._items)
 
     def __len__(self):
         return len(self._items)
-- 
2.43.0


From 3b77e8c60dfadb7995afcfa777c08e8c28ecd26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 106/273] fix: empty HTTP parameter values were formatted
 without quotes

---
 pyslet/http/grammar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index fabae81..d6274f6 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -177,6 +177,9 @@ def quote_string(s, force=True):
     only the double quote, \\ and CTL characters other than SP and HT
     are quoted in the output."""
     qstring = [DQUOTE]
+    if not s:
+        # a token can't be empty
+        force = True
     for b in s:
         if b in (REVERSE_SOLIDUS, DQUOTE) or (is_ctl(b) and b not in (SP, HT)):
             qstring.append(REVERSE_SOLIDUS)
-- 
2.43.0


From b03f4a184dcf52be1e6a3685a04d92febcb68134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 107/273] fix: language negotiation returned 'None' when
 nothing was acceptable

---
 pyslet/http/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index ef788d2..e490d56 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2478,8 +2478,9 @@ class AcceptLanguageList(AcceptTokenList):
 
     def select_token(self, token_list):
         """Remapped to :py:meth:`select_language`"""
-        return str(self.select_language(
-                   list(params.LanguageTag.from_str(t) for t in token_list)))
+        lang = self.select_language(
+            list(params.LanguageTag.from_str(t) for t in token_list))
+        return None if lang is None else str(lang)
 
     def select_language(self, lang_list):
         bestmatch = None
-- 
2.43.0


From 3d488ec3e2f9548dd9fd1cbd5c864f03d7f73237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 108/273] fix: repr of entity tags

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 7411b89..d2643a1 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -773,7 +773,7 @@ class EntityTag(SortableParameter):
 
     def __repr__(self):
         return ("EntityTag(%s,%s)" %
-                (repr(self.tag), "True" if self.week else "False"))
+                (repr(self.tag), "True" if self.weak else "False"))
 
     def sortkey(self):
         return (self.tag, self.weak)
-- 
2.43.0


From d86a7da8c9db548846b4969a52f1d83062a170fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:27 +0000
Subject: [PATCH 109/273] fix: quality values with no digits after the point
 were refused

---
 pyslet/http/params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index d2643a1..c6f744c 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -981,7 +981,8 @@ class ParameterParser(WordParser):
                 if is_digits(qsplit[0]):
                     q = float(qsplit[0])
             elif len(qsplit) == 2:
-                if is_digits(qsplit[0]) and is_digits(qsplit[1]):
+                if is_digits(qsplit[0]) and (
+                        not qsplit[1] or is_digits(qsplit[1])):
                     q = float("%.3f" % float(self.the_word))
             if q is None:
                 return None
-- 
2.43.0


From d8f0aa43f0abee489a698b83de2d67f598b92781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 110/273] fix: media types and chunk headers could not be
 hashed

---
 pyslet/http/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index c6f744c..2072e34 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -442,6 +442,7 @@ class Chunk(SortableParameter):
         else:
             self.extensions = {}
         self._cx = sorted((p[0], p[1][1]) for p in dict_items(self.extensions))
+        self._cx = tuple(self._cx)
 
     @classmethod
     def from_str(cls, source):
@@ -498,6 +499,7 @@ class MediaType(SortableParameter):
         else:
             self.parameters = {}
         self._hp = sorted((p[0], p[1][1]) for p in dict_items(self.parameters))
+        self._hp = tuple(self._hp)
 
     @classmethod
     def from_str(cls, source):
-- 
2.43.0


From 104a232e1642bbf9550920e1ed5dbac830d7518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 111/273] fix: Cache-Control headers could not be parsed

---
 pyslet/http/messages.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index e490d56..40a7caf 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2633,7 +2633,7 @@ class CacheControl(params.Parameter):
     def from_str(cls, source):
         """Create a Cache-Control value from a *source* string."""
         p = HeaderParser(source)
-        cc = p.ParseCacheControl()
+        cc = p.require_cache_control()
         p.require_end("Cache-Control header")
         return cc
 
@@ -2879,6 +2879,35 @@ class HeaderParser(params.ParameterParser):
                 break
         return cls(*items)
 
+    def require_cache_control(self):
+        """Parses a :py:class:`CacheControl` instance
+
+        Numeric values are converted to integers and the comma-separated
+        values of quoted strings to tuples, other values are character
+        strings.  Raises BadSyntax if there are no directives."""
+        directives = []
+        while self.the_word:
+            if self.parse_separator(COMMA):
+                continue
+            name = self.require_token("cache-directive").decode('ascii')
+            if self.parse_separator(EQUALS_SIGN):
+                if self.is_integer():
+                    value = self.parse_integer()
+                elif self.is_quoted_string():
+                    value = self.parse_quoted_string().decode('iso-8859-1')
+                    value = tuple(v.strip() for v in value.split(','))
+                else:
+                    value = self.require_token(
+                        "cache-directive value").decode('ascii')
+                directives.append((name, value))
+            else:
+                directives.append(name)
+            if not self.is_separator(COMMA):
+                break
+        if not directives:
+            raise grammar.BadSyntax("Expected cache-directive")
+        return CacheControl(*directives)
+
     def require_contentrange(self):
         """Parses a :py:class:`ContentRange` instance."""
         self.parse_sp()
-- 
2.43.0


From 0d6dfbff2c91d19a483e53c7056147d830786e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 112/273] fix: TypeError parsing a separator where a number is
 expected

---
 pyslet/http/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index d6274f6..26128e8 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -751,7 +751,7 @@ class WordParser(ParserMixin):
 
     def is_integer(self):
         """Returns True if the current word is an integer token"""
-        return self.the_word and is_digits(self.the_word)
+        return self.is_token() and is_digits(self.the_word)
 
     def parse_integer(self):
         """Parses an integer token from the list of words
@@ -776,7 +776,7 @@ class WordParser(ParserMixin):
 
     def is_hexinteger(self):
         """Returns True if the current word is a hex token"""
-        return self.the_word and is_hexdigits(self.the_word)
+        return self.is_token() and is_hexdigits(self.the_word)
 
     def parse_hexinteger(self):
         """Parses a hex integer token from the list of words
-- 
2.43.0


From 576885de1bc2b14786149c24bd3c4fa84beffb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 113/273] fix: octets outside US-ASCII were accepted in HTTP
 tokens

---
 pyslet/http/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 26128e8..7739494 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -321,7 +321,8 @@ class OctetParser(BasicParser):
         token was found."""
         token = []
         while self.the_char is not None:
-            if is_ctl(self.the_char) or is_separator(self.the_char):
+            if (is_ctl(self.the_char) or is_separator(self.the_char) or
+                    not is_char(self.the_char)):
                 break
             else:
                 token.append(self.the_char)
-- 
2.43.0


From 935599d647234e8eb35ee9aa3314d69206c5f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 114/273] fix: HTTP dates next to the start of a century were
 formatted in the wrong century

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 2072e34..82a1497 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -346,7 +346,7 @@ class FullDate(Parameter, iso.TimePoint):
         z = self.shift_zone(0)
         (century, year, month, day,
          hour, minute, second) = z.get_calendar_time_point()
-        century, decade, dyear, week, dayofweek = z.date.get_week_day()
+        dayofweek = z.date.get_week_day()[4]
         return b"%s, %02i %s %04i %02i:%02i:%02i GMT" % (
             ParameterParser.wkday[dayofweek - 1],
             day,
-- 
2.43.0


From faf9deeda7e4008016590f7b528a2efdede3913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 115/273] fix: HTTP parameter values outside US-ASCII were
 formatted without quotes

---
 pyslet/http/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 7739494..1929247 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -185,7 +185,7 @@ def quote_string(s, force=True):
             qstring.append(REVERSE_SOLIDUS)
             qstring.append(b)
             force = True
-        elif is_ctl(b) or is_separator(b):
+        elif is_ctl(b) or is_separator(b) or not is_char(b):
             force = True
             qstring.append(b)
         else:
-- 
2.43.0


From ed2bc9b7e2b55be123fffe5192a5bdf8a445f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:53 +0000
Subject: [PATCH 116/273] fix: lists of language tags could not be parsed

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 82a1497..d9cefd1 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -721,7 +721,7 @@ class LanguageTag(SortableParameter):
             if t is not None:
                 tags.append(t)
             p.parse_sp()
-            if not p.parse_separator(","):
+            if not p.parse_separator(COMMA):
                 break
         p.parse_sp()
         p.require_end("language tag")
-- 
2.43.0


From ad60fdccb7562a804a600ce68efe237a5df88136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 117/273] fix: header values outside US-ASCII could not be set
 in HTTP messages

---
 pyslet/http/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 40a7caf..6142210 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -10,7 +10,7 @@ import zlib
 
 from .. import rfc2396 as uri
 from ..pep8 import PEP8Compatibility
-from ..py2 import force_bytes, is_string, dict_keys
+from ..py2 import force_bytes, is_string, is_unicode, dict_keys
 from ..py26 import *    # noqa
 from ..streams import BufferedStreamWrapper, io_blocked
 
@@ -1138,7 +1138,8 @@ class Message(PEP8Compatibility, object):
         append_mode==False (Default)
                 *field_value* replaces the existing value."""
         field_name = force_bytes(field_name)
-        field_value = force_bytes(field_value)
+        if is_unicode(field_value):
+            field_value = field_value.encode('iso-8859-1')
         with self.lock:
             fieldname_key = field_name.lower()
             if field_value is None:
-- 
2.43.0


From a9cad1f0b8e57c149599d20419f11588bd57068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 118/273] fix: set_upgrade with no protocols removed the
 Connection header

---
 pyslet/http/messages.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 6142210..da88bee 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1526,7 +1526,11 @@ class Message(PEP8Compatibility, object):
                 connection.add("upgrade")
                 self.set_connection(connection)
         else:
-            self.set_header("Connection", None)
+            self.set_header("Upgrade", None)
+            connection = self.get_connection()
+            if "upgrade" in connection:
+                connection.remove("upgrade")
+                self.set_connection(connection)
 
     def get_host(self):
         return self.get_header("Host")
-- 
2.43.0


From 33c3d4ab554b5af52a3fd80233987cfea3790d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 119/273] fix: set_location(None) raised TypeError instead of
 removing the header

---
 pyslet/http/messages.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index da88bee..f54d0a9 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2006,16 +2006,16 @@ class Response(Message):
             a :py:class:`pyslet.rfc2396.URI` instance or a string
             from which one can be parsed.  If None, the Location
             header is removed."""
+        if location is None:
+            self.set_header("Location", None)
+            return
         if isinstance(location, str):
             location = uri.URI.from_octets(location)
         if not isinstance(location, uri.URI):
             raise TypeError
         if not location.is_absolute():
             raise HTTPException("Location header must be an absolute URI")
-        if location is None:
-            self.set_header("Location", None)
-        else:
-            self.set_header("Location", str(location))
+        self.set_header("Location", str(location))
 
     def get_www_authenticate(self):
         """Returns a list of :py:class:`~pyslet.rfc2617.Challenge`
-- 
2.43.0


From 3c081fa33dd0120769e51334ff32b66bfe3da3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 120/273] fix: Cache-Control values outside US-ASCII could not
 be formatted

---
 pyslet/http/messages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index f54d0a9..a580ad9 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2651,12 +2651,12 @@ class CacheControl(params.Parameter):
             elif isinstance(v, tuple):
                 result.append(b"%s=%s" % (
                               d, grammar.quote_string(
-                                  b", ".join(str(s).encode('ascii')
+                                  b", ".join(str(s).encode('iso-8859-1')
                                              for s in v))))
             else:
                 result.append(b"%s=%s" % (
                               d, grammar.quote_string(
-                                  str(v).encode('ascii'), force=False)))
+                                  str(v).encode('iso-8859-1'), force=False)))
         return b", ".join(result)
 
     def __len__(self):
-- 
2.43.0


From 74b703c148b965bb03b1d29b4fe18c7b93bff7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 121/273] fix: ignored Set-Cookie headers were returned as None
 by get_set_cookie

---
 pyslet/http/messages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index a580ad9..f355576 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2047,7 +2047,9 @@ class Response(Message):
         """
         field_value = self.get_header('Set-Cookie', list_mode=True)
         if field_value is not None:
-            return list(cookie.Cookie.from_str(v) for v in field_value)
+            cookies = (cookie.Cookie.from_str(v) for v in field_value)
+            # definitions that must be ignored are parsed as None
+            return list(c for c in cookies if c is not None)
         else:
             return None
 
-- 
2.43.0


From 74b518e5870a31177261ac8c40a0ce4a54c337db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 122/273] fix: bad expires attributes raised TypeError in the
 strict cookie parser

---
 pyslet/http/cookie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index c352d3c..e13d54b 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -599,7 +599,10 @@ class CookieParser(grammar.OctetParser):
         result is a :class:`~params.FullDate` instance."""
         savepos = self.pos
         date_str = self.parse_until(b'GMT')
-        date_str = date_str + self.parse(b'GMT')
+        if not self.parse(b'GMT'):
+            self.setpos(savepos)
+            return None
+        date_str = date_str + b'GMT'
         try:
             return params.FullDate.from_http_str(date_str)
         except ValueError:
-- 
2.43.0


From ff4c871dff73ff3be96ec1c98db1c4ca45f5715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 123/273] fix: get_registered_domain raised ValueError for
 domains with a leading '.'

---
 pyslet/http/cookie.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index e13d54b..8d36aa7 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1459,11 +1459,11 @@ class CookieStore(object):
         :meth:`set_public_list`)."""
         if domain_str is None:
             return None
-        domain = split_domain(domain_str)
-        domain.reverse()
-        if domain and domain[-1] == '':
+        if domain_str[0:1] in ('.', b'.'):
             # ignore domains with a leading '.'
             return None
+        domain = split_domain(domain_str)
+        domain.reverse()
         with self.lock:
             dnode = self
             dcount = len(domain)
-- 
2.43.0


From 2fda6c17e7b27baa909294d1ee67b9a2837e17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 124/273] fix: intermediate labels of a public suffix were made
 public too

---
 pyslet/http/cookie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 8d36aa7..184f45b 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1261,8 +1261,9 @@ class CookieStore(object):
                     else:
                         # create a new node
                         dnode = self._expand_node(old_node, d)
-                        # force this to be public
-                        dnode.public = True
+                        if dcount == 1:
+                            # force this to be public
+                            dnode.public = True
                 elif dcount == 1:
                     # this is the last label in the suffix, mark it
                     # as public if it isn't explicitly private
-- 
2.43.0


From 05acd7edeae16a711a485ff90d23ea9a8e4cf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 125/273] fix: cookie stores failed with hosts that are not
 domain names

---
 pyslet/http/cookie.py | 50 ++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 184f45b..ef8f1c6 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -171,6 +171,31 @@ def domain_in_domain(subdomain, domain):
         return False
 
 
+def split_host(host_str, strict=False):
+    """Splits the host of a URL (or the domain of a cookie)
+
+    host_str
+        A character string
+
+    strict (Default: False)
+        Raise ValueError if the string is neither a valid domain nor an
+        IP address.  By default such strings are treated like IP
+        addresses.
+
+    Returns a *reversed* list of labels, IP addresses are never split
+    as they only match whole."""
+    try:
+        labels = split_domain(host_str)
+    except ValueError:
+        if strict and host_str[0:1] != '[':
+            raise
+        return [host_str.lower()]
+    if len(labels) == 4 and all(label.isdigit() for label in labels):
+        return [host_str]
+    labels.reverse()
+    return labels
+
+
 def encode_domain(domain, allow_wildcard=False):
     """Returns domain correctly encoded as a binary string
 
@@ -1046,21 +1071,18 @@ class CookieStore(object):
             raise CookieError(
                 "Can't set http_only cookie with this protocol: %s" %
                 url.scheme)
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host_str = url.host
+        host = split_host(host_str)
         domain = c.domain
-        if domain is None:
+        if not domain:
             domain_str = host_str
             domain = host
         else:
             domain_str = domain
-            domain = split_domain(domain)
-            domain.reverse()
+            try:
+                domain = split_host(domain, strict=True)
+            except ValueError as e:
+                raise CookieError(str(e))
             if not domain_in_domain(domain, host):
                 # you can't set this cookie from host
                 raise CookieError(
@@ -1115,13 +1137,7 @@ class CookieStore(object):
         Expired cookies are automatically removed from the repository
         and all cookies returned have their access time updated to the
         current time."""
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host = split_host(url.host)
         matched = []
         dpos = 0
         now = time.time()
-- 
2.43.0


From 68100c8a894b219022194cff15c7042d4e09f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 126/273] fix: cookies were not sent to requests for exactly
 the cookie's path

---
 pyslet/http/cookie.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index ef8f1c6..6f2d418 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1160,14 +1160,11 @@ class CookieStore(object):
                     if c.domain is None and not host_match:
                         continue
                     # do a path match
-                    if url.abs_path is None:
-                        continue
-                    if len(url.abs_path) < len(c.path):
-                        continue
-                    if not (url.abs_path.startswith(c.path) and
+                    path = url.abs_path or '/'
+                    if path != c.path and not (
+                            path.startswith(c.path) and
                             (c.path[-1] == '/' or
-                             url.abs_path[len(c.path):len(c.path) + 1] ==
-                             '/')):
+                             path[len(c.path):len(c.path) + 1] == '/')):
                         continue
                     # we have a domain and path match
                     if c.secure and not isinstance(url, params.HTTPSURL):
-- 
2.43.0


From 436cacce25ad82f451321fb4c7e807b43330f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 127/273] fix: the last Path attribute of a cookie was not used
 if it had no value

---
 pyslet/http/cookie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 6f2d418..b8e999e 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -434,6 +434,8 @@ class CookieParser(grammar.OctetParser):
             elif aname_lower == b"path":
                 if avalue and avalue[0] == grammar.SOLIDUS:
                     path = Cookie.cstr(avalue)
+                else:
+                    path = None
             elif aname_lower == b"secure":
                 secure = True
             elif aname_lower == b"httponly":
-- 
2.43.0


From 8a75cb656d801f6f5325079189eb5bc47766f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 128/273] fix: Expires attributes of cookies were not always
 formatted as HTTP dates

---
 pyslet/http/cookie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index b8e999e..672316b 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -893,7 +893,8 @@ class Cookie(params.Parameter):
             components.append(b"Domain=%s" %
                               encode_domain(self.domain).encode('ascii'))
         if self.expires is not None:
-            components.append(b"Expires=%s" % to_bytes(self.expires))
+            components.append(b"Expires=%s" % to_bytes(
+                params.FullDate.from_unix_time(self.expires.get_unixtime())))
         if self.max_age is not None:
             components.append(b"Max-Age=%s" % to_bytes(self.max_age))
         if self.secure:
-- 
2.43.0


From 913f35b1517d53229da1a803f6cde60bf8e2fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 129/273] fix: get_registered_domain raised errors when
 U-labels were requested

---
 pyslet/http/cookie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 672316b..4f9492d 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1513,8 +1513,9 @@ class CookieStore(object):
             return None
         matched.reverse()
         if u_labels:
-            matched = [u[4:].decode('punycode') if is_a_label(u) else
-                       u.decode('utf-8') for u in matched]
+            matched = [u[4:].encode('ascii').decode('punycode')
+                       if is_a_label(u.encode('ascii')) else u
+                       for u in matched]
         return '.'.join(matched)
 
     def check_public_suffix(self, domain_str, match_str):
-- 
2.43.0


From ac0963353d52c8f0a7ece85707a6206438f6d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 130/273] fix: wild card public suffixes were ignored below
 domains that aren't public themselves

---
 pyslet/http/cookie.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 4f9492d..10b43b6 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1483,34 +1483,25 @@ class CookieStore(object):
         domain.reverse()
         with self.lock:
             dnode = self
-            dcount = len(domain)
-            matched = []
-            for d in domain:
+            # the number of labels in the longest public suffix
+            npublic = 0
+            for i, d in enumerate(domain):
                 old_node = dnode
                 dnode = old_node.nodes.get(d, None)
                 if dnode is None:
-                    # dcount is the number of labels left in domain
-                    if dcount > old_node.public_depth:
-                        # private domain with public prefix
-                        matched = matched + domain[
-                            -dcount:len(domain) - dcount +
-                            old_node.public_depth + 1]
-                    else:
-                        # public domain
-                        matched = None
+                    if old_node.public_depth:
+                        npublic = min(i + old_node.public_depth, len(domain))
                     break
-                elif not dnode.public:
-                    # that's it, don't add any more labels after this one
-                    matched.append(d)
+                elif dnode.public:
+                    npublic = i + 1
+                elif dnode.private:
+                    # an exception, add no more labels after this one
+                    npublic = i
                     break
-                elif dcount == 1:
-                    # last label, this domain matches this rule exactly
-                    matched = None
-                    break
-                matched.append(d)
-                dcount -= 1
-        if matched is None:
+        if npublic == len(domain):
+            # public domain
             return None
+        matched = domain[:npublic + 1]
         matched.reverse()
         if u_labels:
             matched = [u[4:].encode('ascii').decode('punycode')
-- 
2.43.0


From 84417efa89977e653071629f59c5fffd033a8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 131/273] fix: very long Max-Age attributes raised
 OverflowError

---
 pyslet/http/cookie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 10b43b6..9470518 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -831,7 +831,10 @@ class Cookie(params.Parameter):
             if max_age <= 0:
                 self.expires_time = 0
             else:
-                self.expires_time = now + max_age
+                try:
+                    self.expires_time = now + max_age
+                except OverflowError:
+                    self.expires_time = float('inf')
             self.max_age = max_age
         #: the expires value as passed to the constructor, this is
         #: preserved and is used when serialising the definition even if
-- 
2.43.0


From 9dbda7eb329dcd0f7564867d130dfec6efa94b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 132/273] fix: duplicate Max-Age attributes were accepted in
 strict cookies

---
 pyslet/http/cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 9470518..316657f 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -994,7 +994,7 @@ class Section4Cookie(Cookie):
             if self.path:
                 attrs.add(b'path')
             if self.max_age is not None:
-                attrs.add(b'max_age')
+                attrs.add(b'max-age')
             if self.expires is not None:
                 attrs.add(b'expires')
             if self.secure:
-- 
2.43.0


From 013bac5d671a6731e8d664ca587423a3dd883404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 133/273] fix: bad Expires attributes replaced earlier valid
 ones in cookies

---
 pyslet/http/cookie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 316657f..64bf7a8 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -407,7 +407,9 @@ class CookieParser(grammar.OctetParser):
             aname_lower = aname.lower()
             if aname_lower == b"expires":
                 p = CookieParser(avalue)
-                expires = p.require_cookie_date()
+                date = p.require_cookie_date()
+                if date is not None:
+                    expires = date
             elif aname_lower == b"max-age":
                 if avalue and avalue[0] == HYPHEN:
                     if len(avalue) == 1:
-- 
2.43.0


From 74514b384af0205c778b9a6ff30c90b615480fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 134/273] fix: cookies were refused for domains below a private
 suffix

---
 pyslet/http/cookie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 64bf7a8..c5e34cc 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1339,11 +1339,13 @@ class CookieStore(object):
                             # private node
                             dnode.private = True
                             dnode.public = False
+                            dnode.public_depth = 0
                 elif dcount == 1:
                     # this is the last label in the suffix, mark it
                     # as private
                     dnode.private = True
                     dnode.public = False
+                    dnode.public_depth = 0
                     if d == '*':
                         # mark all children public too
                         for child in dict_values(old_node.nodes):
-- 
2.43.0


From 1693ae5d6ff164152f608cf28c9c6ce746c17899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 135/273] fix: cookies with the domain '.' were not treated as
 host only

---
 pyslet/http/cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index c5e34cc..46df778 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -809,7 +809,7 @@ class Cookie(params.Parameter):
             elif domain[-1:] == '.':
                 domain = None
         #: the cookie's domain
-        self.domain = domain
+        self.domain = domain or None
         #: the cookie's secure flag
         self.secure = secure
         #: the cookie's httponly flag
-- 
2.43.0


From 82fad97240662d2417eef2417cdd9cf430b75110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 136/273] fix: cookies inherited the creation time of expired
 cookies

---
 pyslet/http/cookie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 46df778..92ed750 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1125,7 +1125,8 @@ class CookieStore(object):
                         "Cookie for public domain %s ignored" % domain_str)
             old_cookie = dnode.cookies.get((c.name, c.path), None)
             if old_cookie is not None:
-                c.creation_time = old_cookie.creation_time
+                if not old_cookie.expired():
+                    c.creation_time = old_cookie.creation_time
                 del dnode.cookies[(c.name, c.path)]
             if not c.expired():
                 dnode.cookies[(c.name, c.path)] = c
-- 
2.43.0


From bf1f81bdec469bae35e98e8851a745de61d5519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:15 +0000
Subject: [PATCH 137/273] fix: send_body returned a character string at the end
 of the message

---
 pyslet/http/messages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index f355576..8477798 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -674,10 +674,10 @@ class Message(PEP8Compatibility, object):
                     else:
                         # end of the message body (read forever mode)
                         self.transferDone = True
-                        return ''
+                        return b''
                 else:
                     self.transferDone = True
-                    return ''
+                    return b''
 
     START_MODE = 1
     HEADER_MODE = 2
-- 
2.43.0


From 272215039ab1be05d5e56c2931800cd0c78a0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:15 +0000
Subject: [PATCH 138/273] fix: GzipEncoder lost data when reads were smaller
 than its buffer

---
 pyslet/http/messages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 8477798..f8af4cb 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -45,12 +45,12 @@ class GzipEncoder(io.RawIOBase):
             if self.buffstr:
                 # we have some buffered data left over
                 if len(self.buffstr) > nbytes:
-                    self.buffstr = data[nbytes:]
-                    b[:] = data[:nbytes]
+                    b[:] = self.buffstr[:nbytes]
+                    self.buffstr = self.buffstr[nbytes:]
                 else:
                     nbytes = len(self.buffstr)
                     b[:nbytes] = self.buffstr
-                self.buffstr = None
+                    self.buffstr = None
                 return nbytes
             elif self.src is not None:
                 data = self.src.read(nbytes)
-- 
2.43.0


From df319fcd8fc86a375bfe07dd8c28850b91c100e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:15 +0000
Subject: [PATCH 139/273] fix: messages with a single (gzip) transfer-coding
 were not encoded or decoded

---
 pyslet/http/messages.py | 47 +++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index f8af4cb..5dfa49b 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -582,19 +582,18 @@ class Message(PEP8Compatibility, object):
                 # read until end of connection
                 self.transferchunked = False
             self.transferlength = None
-            if len(encoding) > 1:
-                for enc in encoding:
-                    if enc.token == "gzip":
-                        # wrap the body in a gzip compression wrapper
-                        self.transferbody = GzipEncoder(self.transferbody)
-                    elif enc.token == "identity":
-                        continue
-                    elif enc.token == "chunked":
-                        # always the last encoding
-                        break
-                    else:
-                        raise NotImplementedError(
-                            "Unsupported transfer encoding %s" % enc.token)
+            for enc in encoding:
+                if enc.token == "gzip":
+                    # wrap the body in a gzip compression wrapper
+                    self.transferbody = GzipEncoder(self.transferbody)
+                elif enc.token == "identity":
+                    continue
+                elif enc.token == "chunked":
+                    # always the last encoding
+                    break
+                else:
+                    raise NotImplementedError(
+                        "Unsupported transfer encoding %s" % enc.token)
             # overrides any Content-Length setting
             return
         # If there is a Content-Length header
@@ -1029,18 +1028,16 @@ class Message(PEP8Compatibility, object):
             else:
                 self.transferchunked = False
             self.transferlength = None
-            if len(encoding) > 1:
-                encoding = encoding[:-1]
-                encoding.reverse()
-                for enc in encoding:
-                    if enc.token == "gzip":
-                        # wrap the body in a gzip decoding wrapper
-                        self.transferbody = GzipDecoder(self.transferbody)
-                    elif enc.token == "identity":
-                        continue
-                    else:
-                        raise NotImplementedError(
-                            "Unsupported transfer encoding %s" % enc.token)
+            # data passes through the last wrapper first
+            for enc in encoding:
+                if enc.token == "gzip":
+                    # wrap the body in a gzip decoding wrapper
+                    self.transferbody = GzipDecoder(self.transferbody)
+                elif enc.token in ("identity", "chunked"):
+                    continue
+                else:
+                    raise NotImplementedError(
+                        "Unsupported transfer encoding %s" % enc.token)
             # overrides any Content-Length setting
             return
         # If there is a Content-Length header
-- 
2.43.0


From 5c9b2952b770b7c9a0b63795915878923a1434fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 140/273] fix: status lines with reasons that are not sequences
 of words were refused with the wrong error

---
 pyslet/http/messages.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 5dfa49b..a96b5fc 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1903,15 +1903,23 @@ class Response(Message):
 
     def recv_start(self, line):
         # Read the status line
-        pstatus = params.ParameterParser(line[:-2], ignore_sp=False)
-        self.protocol = pstatus.parse_production(pstatus.require_http_version)
-        pstatus.parse_sp()
-        if pstatus.is_integer():
-            self.status = pstatus.parse_integer()
+        line = line[:-2]
+        # the reason is any TEXT, don't parse it as a list of words
+        items = line.split(None, 1)
+        try:
+            if not items:
+                raise ValueError
+            self.protocol = params.HTTPVersion.from_str(items[0])
+        except ValueError:
+            raise ProtocolError("Badly formed Status-line: %s" % line)
+        line = items[1] if len(items) > 1 else b''
+        items = line.split(None, 1)
+        if items and items[0].isdigit():
+            self.status = int(items[0])
+            line = items[1] if len(items) > 1 else b''
         else:
             self.status = 0
-        pstatus.parse_sp()
-        self.reason = pstatus.parse_remainder().decode('iso-8859-1')
+        self.reason = line.decode('iso-8859-1')
 
     def recv_transferlength(self):
         self.transferchunked = False
-- 
2.43.0


From 742857c271fc32cfe051836a2c8c5c1a90fbec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 141/273] fix: messages that end when the connection closes
 were never completed

---
 pyslet/http/messages.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index a96b5fc..1af6dcd 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -866,7 +866,9 @@ class Message(PEP8Compatibility, object):
                         self.recv_buffer = data
                     self._recv_buffered()
                 else:
-                    self.transfer_mode = None
+                    # end of the stream
+                    self.recv_buffer = None
+                    self._recv_end()
             elif self.transfermode == self.BLOCKED_MODE:
                 self._recv_buffered()
             elif self.transfermode == self.CHUNK_END_MODE:
@@ -877,14 +879,8 @@ class Message(PEP8Compatibility, object):
             elif self.transfermode == self.CHUNK_TRAILER_MODE:
                 for line in data:
                     self._recv_header(line)
-                try:
-                    self.transferbody.flush()
-                    self.transfermode = None
-                except IOError as e:
-                    if io_blocked(e):
-                        self.transfermode = self.BLOCKED_MODE
-                    else:
-                        raise
+                self.recv_buffer = None
+                self._recv_end()
             else:
                 raise HTTPException(
                     "recv_line when in unknown mode: %i" % self.transfermode)
@@ -927,6 +923,18 @@ class Message(PEP8Compatibility, object):
                         "Badly formed header line: %s" % repr(h))
             return True
 
+    def _recv_end(self):
+        # the whole of the message body has been received
+        self.transferDone = True
+        try:
+            self.transferbody.flush()
+            self.transfermode = None
+        except IOError as e:
+            if io_blocked(e):
+                self.transfermode = self.BLOCKED_MODE
+            else:
+                raise
+
     def _recv_buffered(self):
         if self.recv_buffer:
             if isinstance(self.entity_body, io.IOBase):
@@ -949,6 +957,9 @@ class Message(PEP8Compatibility, object):
                 self.recv_buffer = None
         if self.recv_buffer:
             self.transfermode = self.BLOCKED_MODE
+        elif self.transferDone:
+            # nothing more to receive, just flushing
+            self._recv_end()
         elif self.transferchunked:
             if self.transferPos >= self.transferlength:
                 self.transfermode = self.CHUNK_END_MODE
@@ -960,14 +971,7 @@ class Message(PEP8Compatibility, object):
         elif self.transferPos >= self.transferlength:
             # not chunked, defined message body length
             # we need a flushing mode here
-            try:
-                self.transferbody.flush()
-                self.transfermode = None
-            except IOError as e:
-                if io_blocked(e):
-                    self.transfermode = self.BLOCKED_MODE
-                else:
-                    raise
+            self._recv_end()
         else:
             # not chunked, still reading
             self.transfermode = self.DATA_MODE
-- 
2.43.0


From 8b83fd8d32bff08e23bc79e5f24adef05ea63664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 142/273] fix: corrupt gzip transfer-codings raised zlib.error
 or were silently truncated

---
 pyslet/http/messages.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1af6dcd..7616e3d 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -81,6 +81,7 @@ class GzipDecoder(io.RawIOBase):
         self.dst = dst
         self.buffstr = None
         self.decoder = zlib.decompressobj(31)
+        self.started = False
 
     def readable(self):
         return False
@@ -95,7 +96,12 @@ class GzipDecoder(io.RawIOBase):
                 self.buffstr = self.buffstr + self.decoder.flush()
             else:
                 self.buffstr = self.decoder.flush()
+            # eof is not available in Python 2
+            truncated = self.started and not getattr(
+                self.decoder, 'eof', True)
             self.decoder = None
+            if truncated:
+                raise ProtocolError("truncated gzip data")
         while self.buffstr:
             if isinstance(self.dst, io.RawIOBase):
                 n = self.dst.write(self.buffstr)
@@ -109,6 +115,9 @@ class GzipDecoder(io.RawIOBase):
                 self.buffstr = self.buffstr[n:]
             else:
                 self.buffstr = None
+        if isinstance(self.dst, GzipDecoder):
+            # nested encodings, flush the next decoder too
+            self.dst.flush()
 
     def write(self, zdata):
         wbytes = None
@@ -131,7 +140,11 @@ class GzipDecoder(io.RawIOBase):
                     self.buffstr = None
             elif zdata:
                 # decompress the data
-                self.buffstr = self.decoder.decompress(zdata)
+                self.started = True
+                try:
+                    self.buffstr = self.decoder.decompress(zdata)
+                except zlib.error as e:
+                    raise ProtocolError("bad gzip data: %s" % str(e))
                 wbytes = len(zdata)
                 zdata = None
             else:
-- 
2.43.0


From fa10e2f1d6e5acf9fa1c80382a969e9c1fad68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 143/273] fix: negative and otherwise malformed Content-Length
 headers were accepted

---
 pyslet/http/messages.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 7616e3d..2591d26 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1315,7 +1315,11 @@ class Message(PEP8Compatibility, object):
         If no Content-Length header was present None is returned."""
         field_value = self.get_header("Content-Length")
         if field_value is not None:
-            return int(field_value.strip())
+            field_value = field_value.strip()
+            if not field_value.isdigit():
+                raise ProtocolError(
+                    "Badly formed Content-Length: %s" % repr(field_value))
+            return int(field_value)
         else:
             return None
 
-- 
2.43.0


From 493800a28db5d377190156086a20acb2748e0dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 144/273] fix: empty Transfer-Encoding headers raised
 IndexError

---
 pyslet/http/messages.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 2591d26..528b936 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1500,7 +1500,8 @@ class Message(PEP8Compatibility, object):
             telist = params.TransferEncoding.list_from_str(field_value)
             # validate the list at this point
             self._check_transfer_encoding(telist)
-            return telist
+            # the list may be empty, e.g., ","
+            return telist or None
         else:
             return None
 
-- 
2.43.0


From 54cbde7dea540351186d6a1e467d66eee6966cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 145/273] fix: chunk extensions without values were refused

---
 pyslet/http/params.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index d9cefd1..13f87b6 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -17,7 +17,8 @@ from ..py2 import (
     SortableMixin)
 from ..unicode5 import BasicParser
 
-from .grammar import WordParser, COMMA, is_digits, quote_string
+from .grammar import WordParser, COMMA, SEMICOLON, EQUALS_SIGN, is_digits
+from .grammar import quote_string
 from .grammar import format_parameters
 
 
@@ -945,7 +946,22 @@ class ParameterParser(WordParser):
         self.parse_sp()
         size = self.require_hexinteger("chunk-size")
         extensions = {}
-        self.parse_parameters(extensions)
+        self.parse_sp()
+        while self.parse_separator(SEMICOLON):
+            # unlike other parameters the value is optional
+            self.parse_sp()
+            ext_name = self.require_token(
+                "chunk-ext-name").decode('iso-8859-1')
+            ext_value = b''
+            self.parse_sp()
+            if self.parse_separator(EQUALS_SIGN):
+                self.parse_sp()
+                if self.is_quoted_string():
+                    ext_value = self.parse_quoted_string()
+                else:
+                    ext_value = self.require_token("chunk-ext-val")
+                self.parse_sp()
+            extensions[ext_name.lower()] = (ext_name, ext_value)
         return Chunk(size, extensions)
 
     def require_media_type(self):
-- 
2.43.0


From fc0f0e705e9f5d20ac7837c7626e374014e1407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 146/273] fix: ChunkedReader failed on short reads, chunk
 extensions and truncated input

---
 pyslet/http/messages.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 528b936..722b5c2 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -163,16 +163,23 @@ class ChunkedReader(io.RawIOBase):
     def _read_chunksize(self):
         # trailing CRLF needs to be read:
         if self.chunk_left == 0:
-            self.src.readline()
-        p = params.ParameterParser(self.src.readline().strip())
-        self.chunk_left = int(p.parse_token(), 16)
-        if self.chunk_left == 0:
-            self.eof = True
+            if self._read_line():
+                raise ProtocolError("chunk-data termination error")
+            self.chunk_left = -1
+        chunk = params.Chunk.from_str(self._read_line())
+        if chunk.size == 0:
             # read the trailing headers and CRLF
-            while True:
-                line = self.src.readline()
-                if not line.strip():
-                    break
+            while self._read_line():
+                continue
+            self.eof = True
+        self.chunk_left = chunk.size
+
+    def _read_line(self):
+        # returns a line, without the line terminator
+        line = self.src.readline()
+        if line[-1:] != b'\n':
+            raise ProtocolError("unexpected end of chunked data")
+        return line.rstrip(b'\r\n')
 
     def readable(self):
         return True
@@ -192,7 +199,13 @@ class ChunkedReader(io.RawIOBase):
         nbytes = len(b)
         if nbytes > self.chunk_left:
             nbytes = self.chunk_left
-        b[:nbytes] = self.src.read(nbytes)
+        if not nbytes:
+            return 0
+        data = self.src.read(nbytes)
+        if not data:
+            raise ProtocolError("unexpected end of chunked data")
+        nbytes = len(data)
+        b[:nbytes] = data
         self.chunk_left -= nbytes
         return nbytes
 
-- 
2.43.0


From b2aa1d310b72899d82091c215b1f7690f4f7d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 147/273] fix: WSGIInputWrapper.readinto raised TypeError,
 iteration never ended and seeking past the buffer lost data

---
 pyslet/http/messages.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 722b5c2..0dd83ba 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -270,7 +270,7 @@ class WSGIInputWrapper(io.RawIOBase):
         the input_stream itself."""
         if self.closed:
             raise IOError("WSGIInputWrapper was closed")
-        if n == -1:
+        if n is None or n < 0:
             return self.readall()
         data = b''
         if n and self.pos < self.buffSize:
@@ -282,7 +282,7 @@ class WSGIInputWrapper(io.RawIOBase):
                     self.pos + n > self.inputLength:
                 # application should not attempt to read past the
                 # CONTENT_LENGTH
-                n = self.inputLength - self.pos
+                n = max(self.inputLength - self.pos, 0)
             idata = self.input_stream.read(n)
             if len(idata) == 0:
                 self.input_stream = None
@@ -325,8 +325,6 @@ class WSGIInputWrapper(io.RawIOBase):
                 data = self.read(n)
                 if len(data) == 0:
                     break
-                else:
-                    self.pos += len(data)
         # new_pos may be beyond the end of the input stream, that's OK
         self.pos = new_pos
 
@@ -362,10 +360,7 @@ class WSGIInputWrapper(io.RawIOBase):
     def readinto(self, b):
         n = len(b)
         data = self.read(n)
-        i = 0
-        for d in data:
-            b[i] = ord(d)
-            i = i + 1
+        b[:len(data)] = data
         return len(data)
 
     def readline(self, limit=-1):
@@ -415,8 +410,9 @@ class WSGIInputWrapper(io.RawIOBase):
     def __iter__(self):
         while True:
             line = self.readline()
-            if line:
-                yield line
+            if not line:
+                break
+            yield line
 
 
 class Message(PEP8Compatibility, object):
-- 
2.43.0


From 5692cf7cb3bf263829cb2b931f87f603409ca8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 148/273] fix: requests buffered for HTTP/1.0 servers lost data
 when sent again

---
 pyslet/http/messages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 0dd83ba..243f6d3 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1623,6 +1623,8 @@ class Request(Message):
                     logging.warning(
                         "Request buffered to send to HTTP/1.0 server")
                     self.body_len = self.entity_body.length
+                    # replaces the position in the original stream
+                    self.body_start = 0
                     super(Request, self).send_transferlength()
                 else:
                     logging.error("Request too large for buffering")
-- 
2.43.0


From 4e99ee1dd7751e8440c44cf4cc75c81c063b987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 149/273] fix: lists of authentication challenges could not be
 parsed

---
 pyslet/http/auth.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3941177..a355d2d 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -330,23 +330,35 @@ class AuthorizationParser(ParameterParser):
         params = []
         self.parse_sp()
         while self.the_word is not None:
-            param_name = self.parse_token().decode('ascii')
-            if param_name is not None:
-                self.parse_sp()
-                self.require_separator(EQUALS_SIGN)
+            savepos = self.pos
+            if params:
+                # parameters are separated by commas
+                if not self.parse_separator(COMMA):
+                    break
                 self.parse_sp()
-                if self.is_token():
-                    param_value = self.parse_token()
-                    forceq = False
-                else:
-                    param_value = self.require_production(
-                        self.parse_quoted_string(), "auth-param value")
-                    forceq = True
-                params.append((param_name, param_value, forceq))
+                while self.parse_separator(COMMA):
+                    # ignore empty items
+                    self.parse_sp()
+            if not self.is_token():
+                self.setpos(savepos)
+                break
+            param_name = self.parse_token().decode('ascii')
             self.parse_sp()
-            if not self.parse_separator(COMMA):
+            if not self.parse_separator(EQUALS_SIGN):
+                # this is the scheme of the next challenge
+                self.setpos(savepos)
                 break
+            self.parse_sp()
+            if self.is_token():
+                param_value = self.parse_token()
+                forceq = False
+            else:
+                param_value = self.require_production(
+                    self.parse_quoted_string(), "auth-param value")
+                forceq = True
+            params.append((param_name, param_value, forceq))
+            self.parse_sp()
         if auth_scheme.lower() == "basic":
             return BasicChallenge(*params)
         else:
-            return Challenge(*params)
+            return Challenge(auth_scheme, *params)
-- 
2.43.0


From 624b3abb23551056dffa99a405f2e023ddfb763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 150/273] fix: passwords containing ':' were refused, corrupt
 Basic credentials accepted

---
 pyslet/http/auth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index a355d2d..266d6f5 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -218,7 +218,9 @@ class BasicCredentials(Credentials):
         self.path_prefixes = []
 
     def set_basic_credentials(self, basic_credentials):
-        credentials = base64.b64decode(basic_credentials).split(b':')
+        # the password may contain ':' too
+        credentials = base64.b64decode(
+            basic_credentials, validate=True).split(b':', 1)
         if len(credentials) == 2:
             self.userid = credentials[0].decode('iso-8859-1')
             self.password = credentials[1].decode('iso-8859-1')
-- 
2.43.0


From 195ca8f90613e86ecf027cbbd9073bb161d4dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 151/273] fix: credentials with a realm raised AttributeError
 when challenged

---
 pyslet/http/auth.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 266d6f5..9d4803b 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -169,8 +169,11 @@ class Credentials(Parameter):
             return False
         if self.protectionSpace != challenge.protectionSpace:
             return False
-        if self.realm:
-            if self.realm != challenge.realm:
+        if self.realm is not None:
+            realm = self.realm
+            if not isinstance(realm, bytes):
+                realm = self.bstr(realm)
+            if realm != challenge["realm"]:
                 return False
         return True
 
@@ -230,7 +233,7 @@ class BasicCredentials(Credentials):
     def match(self, challenge=None, url=None):
         if challenge is not None:
             # must match the challenge
-            if not super(BasicCredentials, self).match(challenge):
+            if not self.match_challenge(challenge):
                 return False
         if url is not None:
             # must match the url
-- 
2.43.0


From 0e5eec829f443319289db7ead66b2a46c6b80c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 152/273] fix: empty path segments matched anything when
 finding credentials

---
 pyslet/http/auth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 9d4803b..fbb094a 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -310,8 +310,10 @@ class BasicCredentials(Credentials):
             return False
         i = 0
         while i < len(prefix):
-            # note that an empty segment matches anything (except nothing)
-            if prefix[i] and prefix[i] != path[i]:
+            # note that a final empty segment matches anything (except
+            # nothing)
+            if ((prefix[i] or i + 1 < len(prefix)) and
+                    prefix[i] != path[i]):
                 return False
             i = i + 1
         return True
-- 
2.43.0


From bd5c99baed87ec30f1901d5e009c1583ffb35549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 153/273] fix: removing credentials raised IndexError

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3db3ac5..08446b2 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1575,6 +1575,7 @@ class Client(PEP8Compatibility, object):
             for i in range3(len(self.credentials)):
                 if self.credentials[i] is credentials:
                     del self.credentials[i]
+                    break
 
     def dnslookup(self, host, port):
         """Given a host name (string) and a port number performs a DNS lookup
-- 
2.43.0


From afc9a06af93d5da4f5b6861d94da83e9a3ded2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 154/273] fix: requests were sent again for each challenge that
 could be met

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 08446b2..c693073 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1980,6 +1980,7 @@ class ClientRequest(messages.Request):
                 if self.tried_credentials:
                     self.set_authorization(self.tried_credentials)
                     self.resend()  # to the same URL
+                    break
 
 
 class ClientResponse(messages.Response):
-- 
2.43.0


From 76f68fb0570e3126dbc1cfcaa191cd9a4b54f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 155/273] fix: redirects to other servers were sent with
 'Authorization: None'

---
 pyslet/http/messages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 243f6d3..082abe2 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1219,7 +1219,10 @@ class Message(PEP8Compatibility, object):
 
         credentials
                 a :py:class:`~pyslet.http.auth.Credentials` instance"""
-        self.set_header("Authorization", str(credentials))
+        if credentials is None:
+            self.set_header("Authorization", None)
+        else:
+            self.set_header("Authorization", credentials.to_bytes())
 
     def get_cache_control(self):
         """Returns an :py:class:`CacheControl` instance or None if no
-- 
2.43.0


From 1ca7017fbd04a87a06d002cd8e5414161969c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 156/273] fix: relative Location headers raised AttributeError

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index c693073..5a1f589 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1968,7 +1968,7 @@ class ClientRequest(messages.Request):
             # confirmed by the user
             location = self.response.get_location()
             if location:
-                if not location.host:
+                if not location.is_absolute() or not location.host:
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
                 self.resend(location)
-- 
2.43.0


From 899e9bf9dee79b030121c8b2bda903189279f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 157/273] fix: early 2xx responses raised TypeError in the HTTP
 client

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 5a1f589..7b21590 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1925,7 +1925,7 @@ class ClientRequest(messages.Request):
                         self.connection.request_disconnect()
                     # else, we were finished anyway... the connection will
                     # discover this itself
-                elif self.response >= 200:
+                elif self.status >= 200:
                     # For 2xx result codes we let the connection finish
                     # spooling and disconnect from us when it is done
                     pass
-- 
2.43.0


From 69b23a6c0868a40c5cdd3f6440eec60dd30a06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 158/273] fix: requests with data left to send were not
 abandoned after an error response

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 7b21590..3520a95 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1919,7 +1919,7 @@ class ClientRequest(messages.Request):
                 # finished with us
                 if self.status >= 300:
                     # Some type of error condition....
-                    if isinstance(self.send_body(), str):
+                    if self.send_body() != b'':
                         # There was more data to send in the request but we
                         # don't plan to send it so we have to hang up!
                         self.connection.request_disconnect()
-- 
2.43.0


From 70e5832f283fb479e1708d26314385c7e3a22f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 159/273] fix: requests finished on informational responses

---
 pyslet/http/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3520a95..a24c23a 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1846,8 +1846,9 @@ class ClientRequest(messages.Request):
         else:
             self.max_retries = 0
         self.connection = None
-        if self.status > 0:
-            # The response has finished
+        if self.status > 0 and (self.status == 101 or
+                                not (100 <= self.status <= 199)):
+            # The (final) response has finished
             self.finished()
 
     def send_header(self):
-- 
2.43.0


From 585f8108d8db3e0ed5bd49a7fc51c57b280bb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 160/273] fix: pipelined responses received in a single block
 stalled or were lost

---
 pyslet/http/client.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a24c23a..d1e874c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -179,6 +179,8 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        # True if recv_buffer may satisfy a new response
+        self.recv_ready = False
 
     def thread_target_key(self):
         return (self.thread_id, self.scheme, self.host, self.port)
@@ -360,6 +362,8 @@ class Connection(SortableMixin):
                                 self.response = self.response_queue[0]
                                 self.response_queue = self.response_queue[1:]
                                 self.response.start_receiving()
+                                # we may already have (some of) it
+                                self.recv_ready = self.recv_buffer_size > 0
                             elif self.response:
                                 self.response = None
                                 if self.request_mode == self.CLOSE_WAIT:
@@ -661,6 +665,7 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        self.recv_ready = False
         self.request_mode = self.REQ_READY
 
     def kill(self):
@@ -816,7 +821,15 @@ class Connection(SortableMixin):
         #   received completely, False otherwise"""
         err = None
         try:
-            data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
+            if self.recv_ready:
+                # left over from the previous response, no need to wait
+                # for more data from the server
+                data = b''.join(self.recv_buffer)
+                self.recv_buffer = []
+                self.recv_buffer_size = 0
+                self.recv_ready = False
+            else:
+                data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
             self.last_rw = time.time()
         except ssl.SSLError as err:
             if err.args[0] == ssl.SSL_ERROR_WANT_READ:
-- 
2.43.0


From cdf66a54f84e2fc9df30fe768cb2dc2567d603ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 161/273] fix: surplus response data was taken as the response
 to the next request

---
 pyslet/http/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index d1e874c..489943a 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -366,6 +366,12 @@ class Connection(SortableMixin):
                                 self.recv_ready = self.recv_buffer_size > 0
                             elif self.response:
                                 self.response = None
+                                if self.recv_buffer_size:
+                                    # we didn't ask for this data
+                                    logging.error(
+                                        "%s: unexpected data after response",
+                                        self.host)
+                                    close_connection = True
                                 if self.request_mode == self.CLOSE_WAIT:
                                     # no response and waiting to close the
                                     # connection
-- 
2.43.0


From 52ab35659a69ec2fc936d4e569019c8ba8113e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 162/273] fix: responses cut short by the server were reported
 as complete

---
 pyslet/http/client.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 489943a..824de3e 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -640,6 +640,12 @@ class Connection(SortableMixin):
             self.request = None
             self.request_mode = self.CLOSE_WAIT
         resend = True
+        # only the first response can have been (partially) received
+        status = self.response.status if self.response else None
+        if err is None and status is not None:
+            err = self._end_response()
+            if self.response is not None and err is None:
+                status = None
         while self.response:
             response = self.response
             # remove it from the queue
@@ -649,7 +655,7 @@ class Connection(SortableMixin):
             else:
                 self.response = None
             # check for resends
-            if err or response.status is None and resend:
+            if err or status is None and resend:
                 # terminated by an error or before we read the response
                 if response.request.can_retry():
                     # resend this request
@@ -659,7 +665,11 @@ class Connection(SortableMixin):
                     continue
                 else:
                     resend = False
+            if status is None:
+                # discard the status of any previous attempt
+                response.status = None
             response.handle_disconnect(err)
+            status = None
         with self.lock:
             if self.socket:
                 olds = self.socket
@@ -674,6 +684,30 @@ class Connection(SortableMixin):
         self.recv_ready = False
         self.request_mode = self.REQ_READY
 
+    def _end_response(self):
+        # Ends a response that may be terminated by closing the
+        # connection.  Returns None if it is complete and an error to
+        # use for the response if it was cut short.
+        response = self.response
+        try:
+            if response.recv_mode() == messages.Message.RECV_ALL:
+                response.recv(b'')
+                while response.recv_mode() == 0:
+                    # blocked on write
+                    response.recv(None)
+            if response.recv_mode() is not None:
+                return messages.HTTPException(
+                    "Connection closed before the end of the response")
+        except Exception as err:
+            logging.error("%s: error at end of response %s",
+                          self.host, str(err))
+            return err
+        if self.response_queue:
+            self.response = self.response_queue.pop(0)
+        else:
+            self.response = None
+        return None
+
     def kill(self):
         """Kills the connection, typically called from a different
         thread than the one currently bound (if any).
-- 
2.43.0


From 692e60346a3443bfeb60cefbda5588847340d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 163/273] fix: responses were lost when the server hung up
 while requests were being sent

---
 pyslet/http/client.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 824de3e..4da9ddf 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -829,9 +829,10 @@ class Connection(SortableMixin):
                 if io_blocked(err):
                     # we're blocked on send
                     return (False, True)
-                # stop everything
-                self.close(err)
-                return (False, False)
+                # the server has hung up but it may have sent us some
+                # responses first
+                logging.warning("socket.send raised %s", str(err))
+                nbytes = 0
             if nbytes == 0:
                 # We can't send any more data to the socket
                 # The other side has closed the connection
@@ -840,10 +841,7 @@ class Connection(SortableMixin):
                 # will be handled more seriously.  However,
                 # we do change to a mode that prevents future
                 # requests!
-                self.request.disconnect(self.sent_bytes)
-                self.request = None
-                self.request_mode == self.CLOSE_WAIT
-                self.send_buffer = []
+                self.request_disconnect()
             elif nbytes < len(data):
                 # Some of the data went:
                 self.send_buffer[0] = data[nbytes:]
-- 
2.43.0


From 74ccc1099bb927c6071ccb455617a7d986ab8358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 164/273] fix: responses ending while the request was blocked
 on sending were never completed

---
 pyslet/http/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 4da9ddf..7aab475 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -340,9 +340,9 @@ class Connection(SortableMixin):
                 # sending.
                 if self.response:
                     recv_done, recv_rbusy, recv_wbusy = self._recv_task()
-                    rbusy = rbusy or recv_rbusy
-                    wbusy = wbusy or recv_wbusy
-                    if rbusy or wbusy:
+                    if recv_rbusy or recv_wbusy:
+                        rbusy = rbusy or recv_rbusy
+                        wbusy = wbusy or recv_wbusy
                         if (self.last_rw is not None and
                                 self.timeout is not None and
                                 self.last_rw + self.timeout < time.time()):
-- 
2.43.0


From 9bd7a6d01551101818071c06502d168b8764f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 165/273] fix: unterminated XML comments and processing
 instructions were accepted

---
 pyslet/xml/parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index dec55de..88c2a9e 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1643,6 +1643,10 @@ class XMLParser(PEP8Compatibility):
                     nhyphens = 0
                 data.append(self.the_char)
                 self.next_char()
+        else:
+            if not self.dont_check_wellformedness:
+                self.well_formedness_error(
+                    production + ": Unexpected end of file")
         return ''.join(data)
 
     def parse_pi(self, got_literal=False):
@@ -1669,10 +1673,16 @@ class XMLParser(PEP8Compatibility):
                         self.next_char()
                         break
                     else:
-                        # just a single '?'
+                        # just a single '?', check the next character
+                        # as that may be '?' too
                         data.append('?')
+                        continue
                 data.append(self.the_char)
                 self.next_char()
+            else:
+                if not self.dont_check_wellformedness:
+                    self.well_formedness_error(
+                        production + ": Unexpected end of file")
         else:
             self.check_pe_between_declarations(dentity)
             self.parse_required_literal('?>', production)
-- 
2.43.0


From dedf3fd98a921519b5c06f276daba59a6069dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 166/273] fix: processing instructions without a target raised
 AttributeError

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 88c2a9e..c112561 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1696,7 +1696,7 @@ class XMLParser(PEP8Compatibility):
 
         Parses a processing instruction target name, the name is
         returned."""
-        name = self.parse_name()
+        name = self.parse_required_name("[17] PITarget")
         if name.lower() == 'xml':
             self.buff_text(name)
             self.well_formedness_error(
-- 
2.43.0


From 540ad661ad8da05830e09af12f5fc99066e16acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 167/273] fix: documents starting with <?xml... were not
 recognised as processing instructions

---
 pyslet/xml/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index c112561..77826e6 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1762,7 +1762,13 @@ class XMLParser(PEP8Compatibility):
         Parses the document prolog, including the XML declaration and
         dtd."""
         production = "[22] prolog"
-        if self.parse_literal('<?xml'):
+        got_decl = self.parse_literal('<?xml')
+        if got_decl and self.the_char is not None and \
+                xml.is_name_char(self.the_char):
+            # just a PI with a target that starts 'xml...'
+            self.buff_text('<?xml')
+            got_decl = False
+        if got_decl:
             self.parse_xml_decl(True)
         else:
             self.declaration = None
-- 
2.43.0


From 5a580be8245e8c5fe7f99977d0e9b1679783d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 168/273] fix: references to skipped entities raised TypeError
 in attribute values

---
 pyslet/xml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 77826e6..bed75ce 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3683,7 +3683,8 @@ class XMLParser(PEP8Compatibility):
                 else:
                     self.validity_error(
                         "Entity Declared: undeclared general entity %s" % name)
-
+                    # the reference is skipped
+                    return ''
     def lookup_predefined_entity(self, name):
         """Looks up pre-defined entities, e.g., "lt"
 
-- 
2.43.0


From a9608de5745174fa466d8cd213a5228fa1fe6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 169/273] fix: system literals that are not URIs raised
 URIException from the XML parser

---
 pyslet/xml/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index bed75ce..66b9a00 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -10,6 +10,7 @@ from ..py2 import (
     to_text,
     ul,
     uspace)
+from .. import rfc2396 as uri
 from ..pep8 import PEP8Compatibility, old_function
 from ..unicode5 import CharClass
 
@@ -3979,7 +3980,13 @@ class XMLParser(PEP8Compatibility):
             entity = self.get_external_entity()
         if entity:
             base = entity.location
-        return external_id.get_location(base)
+        try:
+            return external_id.get_location(base)
+        except uri.URIException as e:
+            self.processing_error(
+                "Bad system identifier %s: %s" %
+                (repr(external_id.system), str(e)))
+            return None
 
     def parse_ndata_decl(self, got_literal=False):
         """[76] NDataDecl
-- 
2.43.0


From 87bc470735500bdb9962a874edabcbf674575f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 170/273] fix: a second reference to an empty XML entity was
 treated as recursion

---
 pyslet/xml/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 66b9a00..70f6b42 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -831,6 +831,7 @@ class XMLParser(PEP8Compatibility):
             # entity used UTF-16 but it was completely empty (not even a
             # BOM) then that is an error.
             self.check_encoding(entity, None)
+            entity.close()
         if entity.buff_text:
             self.buff_text(entity.buff_text)
 
-- 
2.43.0


From d44a89b891f4284adf06cbee3d21afda20d8c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 171/273] fix: omitted attributes did not get their #FIXED
 values

---
 pyslet/xml/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 70f6b42..aaaca71 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2289,7 +2289,8 @@ class XMLParser(PEP8Compatibility):
                 value = attrs.get(a, None)
                 if value is None:
                     # check for default
-                    if adef.presence == xml.XMLAttributeDefinition.DEFAULT:
+                    if adef.presence in (xml.XMLAttributeDefinition.DEFAULT,
+                                         xml.XMLAttributeDefinition.FIXED):
                         attrs[a] = adef.defaultValue
                         if check_standalone:
                             self.validity_error(
@@ -2317,7 +2318,7 @@ class XMLParser(PEP8Compatibility):
                                 "type)" % a)
                         attrs[a] = new_value
                 if adef.presence == xml.XMLAttributeDefinition.FIXED:
-                    if value != adef.defaultValue:
+                    if attrs[a] != adef.defaultValue:
                         self.validity_error(
                             "Fixed Attribute Default: %s must match the "
                             "#FIXED value %s" % (value, adef.defaultValue))
-- 
2.43.0


From 28fc396d96640915ecda4a7fe19a59da995d5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 172/273] fix: parameter entity references were accepted in
 declarations of string documents

---
 pyslet/xml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index aaaca71..5784f03 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1975,7 +1975,8 @@ class XMLParser(PEP8Compatibility):
         subset_entity = self.entity
         while True:
             if self.the_char == '<':
-                self.noPERefs = (self.get_external_entity() is subset_entity)
+                self.noPERefs = ((self.get_external_entity() or
+                                  self.docEntity) is subset_entity)
                 self.parse_markup_decl()
                 self.noPERefs = False
             elif self.the_char == '%' or self.is_s():
-- 
2.43.0


From a5cfc5c8970459343532cdd947e59897d05a343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 173/273] fix: carriage return references in entity values
 became line feeds

---
 pyslet/xml/structures.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 7ce723e..875f697 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3252,6 +3252,8 @@ class XMLEntity(MigratedClass):
         self.chars = ''
         self.char_pos = None
         self.ignore_lf = None
+        #: whether or not to apply the end-of-line handling rules
+        self.eol_handling = True
         self.flags = {}
         if is_unicode(src):
             self.open_unicode(src)
@@ -3522,7 +3524,10 @@ class XMLEntity(MigratedClass):
             self.the_char = None
         else:
             self.the_char = self.chars[self.char_pos]
-            if self.the_char == '\x0D':
+            if not self.eol_handling:
+                if self.the_char == '\x0A':
+                    self.next_line()
+            elif self.the_char == '\x0D':
                 # change to a line feed and ignore the next line feed
                 self.the_char = '\x0A'
                 self.ignore_lf = True
@@ -3731,6 +3736,9 @@ class XMLDeclaredEntity(XMLEntity):
         if isinstance(self.definition, bytes):
             self.open_string(self.definition)
         elif is_unicode(self.definition):
+            # line ends were normalised when the definition was parsed,
+            # any CR came from a character reference
+            self.eol_handling = False
             self.open_unicode(self.definition)
         elif isinstance(self.definition, XMLExternalID):
             # open from location or raise NotImplementedError
-- 
2.43.0


From fb149fb70855d53babd448b113632df7cf6c4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 174/273] fix: validating undeclared elements with comments or
 processing instructions raised AttributeError

---
 pyslet/xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 5784f03..e870a86 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2639,6 +2639,7 @@ class XMLParser(PEP8Compatibility):
                         self.parse_required_literal('--')
                         self.parse_comment(True)
                         if (self.check_validity and
+                                self.elementType and
                                 self.elementType.content_type ==
                                 xml.ElementType.Empty):
                             self.validity_error(
@@ -2663,6 +2664,7 @@ class XMLParser(PEP8Compatibility):
                     self.next_char()
                     self.parse_pi(True)
                     if (self.check_validity and
+                            self.elementType and
                             self.elementType.content_type ==
                             xml.ElementType.Empty):
                         self.validity_error(
-- 
2.43.0


From b15222307e9510ecbf080db0250ee260db899e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 175/273] fix: character references beyond U+10FFFF raised
 ValueError

---
 pyslet/xml/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index e870a86..e9fd8ea 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3562,11 +3562,17 @@ class XMLParser(PEP8Compatibility):
         if self.parse_literal('x'):
             qualifier = 'x'
             digits = self.parse_required_hex_digits(production)
-            data = character(int(digits, 16))
+            base = 16
         else:
             qualifier = ''
             digits = self.parse_required_decimal_digits(production)
-            data = character(int(digits))
+            base = 10
+        try:
+            data = character(int(digits, base))
+        except (ValueError, OverflowError):
+            self.well_formedness_error(
+                "Legal Character: &#%s%s; does not match production for Char" %
+                (qualifier, digits))
         self.parse_required_literal(';', production)
         if self.refMode == XMLParser.RefModeInDTD:
             raise XMLForbiddenEntityReference(
-- 
2.43.0


From d44bdb82b30b7c94883b34b70bd7748f89c133b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 176/273] fix: the XML parser looped for ever on ]]> in
 character data

---
 pyslet/xml/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index e9fd8ea..a5880b2 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1573,8 +1573,11 @@ class XMLParser(PEP8Compatibility):
                 break
             if self.the_char == ']':
                 if self.parse_literal(xml.CDATA_END):
-                    self.buff_text(xml.CDATA_END)
-                    break
+                    if not self.dont_check_wellformedness:
+                        self.buff_text(xml.CDATA_END)
+                        break
+                    data.append(xml.CDATA_END)
+                    continue
             self.is_s()     # force Unicode compatible white space handling
             data.append(self.the_char)
             self.next_char()
@@ -2711,6 +2714,10 @@ class XMLParser(PEP8Compatibility):
                 if pcdata and not self.unhandled_data(pcdata):
                     # indicates end of the containing element
                     return False
+                if self.the_char == ']':
+                    # only possible at the literal that ends a CDATA section
+                    self.well_formedness_error(
+                        "[14] CharData: ]]> in character data")
         return True
 
     def handle_data(self, data, cdata=False):
-- 
2.43.0


From 2df38b07a768c28b1ae827adcea83c35a342072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:50 +0000
Subject: [PATCH 177/273] fix: characters that are not allowed in XML documents
 were accepted

---
 pyslet/xml/parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index a5880b2..59d4cf9 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -781,6 +781,13 @@ class XMLParser(PEP8Compatibility):
                 self.entity = self.entityStack.pop()
                 self.the_char = self.entity.the_char
 
+    def _check_char(self, production):
+        # Checks that the current character is allowed in XML documents
+        if not self.dont_check_wellformedness and not is_char(self.the_char):
+            self.well_formedness_error(
+                "%s: illegal character %s" % (production,
+                                              repr(self.the_char)))
+
     def buff_text(self, unused_chars):
         """Buffers characters that have already been parsed.
 
@@ -1492,6 +1499,7 @@ class XMLParser(PEP8Compatibility):
                 elif self.the_char == '<':
                     self.well_formedness_error("No < in Attribute Values")
                 else:
+                    self._check_char(production)
                     value.append(self.the_char)
                     self.next_char()
             except XMLWellFormedError:
@@ -1578,6 +1586,7 @@ class XMLParser(PEP8Compatibility):
                         break
                     data.append(xml.CDATA_END)
                     continue
+            self._check_char("[14] CharData")
             self.is_s()     # force Unicode compatible white space handling
             data.append(self.the_char)
             self.next_char()
@@ -1646,6 +1655,7 @@ class XMLParser(PEP8Compatibility):
                         self.well_formedness_error("-- in Comment")
                     data.append('-' * nhyphens)
                     nhyphens = 0
+                self._check_char(production)
                 data.append(self.the_char)
                 self.next_char()
         else:
@@ -1682,6 +1692,7 @@ class XMLParser(PEP8Compatibility):
                         # as that may be '?' too
                         data.append('?')
                         continue
+                self._check_char(production)
                 data.append(self.the_char)
                 self.next_char()
             else:
@@ -1746,6 +1757,7 @@ class XMLParser(PEP8Compatibility):
             if self.parse_literal(cdend):
                 self.buff_text(cdend)
                 break
+            self._check_char("[20] CData")
             data.append(self.the_char)
             self.next_char()
             if len(data) >= xml.XMLEntity.chunk_size:
-- 
2.43.0


From 994beae3715a28d42d4df2cb570624866adab79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:50 +0000
Subject: [PATCH 178/273] fix: -- followed by white space was accepted in XML
 comments

---
 pyslet/xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 59d4cf9..ce957b8 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1647,6 +1647,8 @@ class XMLParser(PEP8Compatibility):
                 if nhyphens < 2:
                     data.append('-' * nhyphens + self.the_char)
                     nhyphens = 0
+                elif not self.dont_check_wellformedness:
+                    self.well_formedness_error("-- in Comment")
                 # space does not change the hyphen count
                 self.next_char()
             else:
-- 
2.43.0


From 12d0f123bc394fc4068e4cf64274d53145c96910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:50 +0000
Subject: [PATCH 179/273] fix: malformed content specifications in element
 declarations raised TypeError

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index ce957b8..b2198e0 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2874,7 +2874,7 @@ class XMLParser(PEP8Compatibility):
                 etype.content_model = self.parse_children(True, group_entity)
         else:
             self.well_formedness_error(
-                production, ": expected 'EMPTY', 'ANY' or '('")
+                production + ": expected 'EMPTY', 'ANY' or '('")
 
     def parse_children(self, got_literal=False, group_entity=None):
         """[47] children
-- 
2.43.0


From c067c37136277b5b8774368a65d46485188f7fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 180/273] fix: parameter entity references were recognised in
 document type declaration headers

---
 pyslet/xml/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index b2198e0..37d0884 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1935,6 +1935,9 @@ class XMLParser(PEP8Compatibility):
             self.parse_required_literal('<!DOCTYPE', production)
         save_mode = self.refMode
         self.refMode = XMLParser.RefModeInDTD
+        # parameter entities are only recognized between markup
+        # declarations of the internal subset
+        self.noPERefs = True
         self.dtd = xml.XMLDTD()
         self.parse_required_s(production)
         self.dtd.name = self.parse_required_name(production)
@@ -1946,7 +1949,9 @@ class XMLParser(PEP8Compatibility):
         if self.parse_literal('['):
             # If there is no external_id we treat as standalone (until a
             # PE ref)
+            self.noPERefs = False
             self.parse_int_subset()
+            self.noPERefs = True
             self.parse_required_literal(']', production)
             self.parse_s()
         if self.check_validity and self.dtd.external_id:
@@ -1956,7 +1961,9 @@ class XMLParser(PEP8Compatibility):
             if src:
                 external_dtd_subset = xml.XMLEntity(src)
                 self.push_entity(external_dtd_subset)
+                self.noPERefs = False
                 self.parse_ext_subset()
+        self.noPERefs = False
         self.parse_required_literal('>', production)
         self.refMode = save_mode
         return self.dtd
-- 
2.43.0


From 876a53f7fcdb34b6ad8dfe65064080e9a269a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:23 +0000
Subject: [PATCH 181/273] fix: documents declaring unknown encodings raised
 LookupError

---
 pyslet/xml/parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 37d0884..b4f6058 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -899,6 +899,15 @@ class XMLParser(PEP8Compatibility):
                     "Byte order mark required in %s (%s) was missing" %
                     (entity.get_name(), entity.encoding))
 
+    def _change_encoding(self, encoding):
+        # Changes the encoding of the current entity
+        try:
+            self.entity.change_encoding(encoding)
+        except LookupError:
+            raise XMLFatalError(
+                "%s: unknown encoding %s" %
+                (self.entity.get_position_str(), repr(encoding)))
+
     def get_external_entity(self):
         """Returns the external entity currently being parsed.
 
@@ -1856,7 +1865,7 @@ class XMLParser(PEP8Compatibility):
         self.check_encoding(self.entity, encoding)
         if (encoding is not None and
                 self.entity.encoding.lower() != encoding.lower()):
-            self.entity.change_encoding(encoding)
+            self._change_encoding(encoding)
         self.parse_required_literal('?>', production)
         self.declaration = xml.XMLDeclaration(version, encoding, standalone)
         return self.declaration
@@ -2279,7 +2288,7 @@ class XMLParser(PEP8Compatibility):
                 # This element was triggered by data which element_class
                 # was supposed to consume It didn't consume any data so
                 # we raise an error here to prevent a loop
-                raise xml.XMLFatalError(
+                raise XMLFatalError(
                     production +
                     ": element implied by PCDATA had empty content %s" %
                     self.element)
@@ -4069,7 +4078,7 @@ class XMLParser(PEP8Compatibility):
         self.check_encoding(self.entity, encoding)
         if (encoding is not None and
                 self.entity.encoding.lower() != encoding.lower()):
-            self.entity.change_encoding(encoding)
+            self._change_encoding(encoding)
         self.parse_s()
         self.parse_required_literal('?>', production)
         return xml.XMLTextDeclaration(version, encoding)
-- 
2.43.0


From 84e7e39ec760b7ba648445bbc1d1436623657499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:19 +0000
Subject: [PATCH 182/273] fix: later declarations of an XML entity replaced the
 first one

---
 pyslet/xml/structures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 875f697..e85d83f 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1037,11 +1037,14 @@ class XMLDTD(MigratedClass):
 
         The same method is used for both general and parameter entities.  The
         value of *entity* can be either an :py:class:`XMLGeneralEntity` or an
-        :py:class:`XMLParameterEntity` instance."""
+        :py:class:`XMLParameterEntity` instance.
+
+        If the same entity is declared more than once the first
+        declaration is binding."""
         if isinstance(entity, XMLGeneralEntity):
-            self.general_entities[entity.name] = entity
+            self.general_entities.setdefault(entity.name, entity)
         elif isinstance(entity, XMLParameterEntity):
-            self.parameter_entities[entity.name] = entity
+            self.parameter_entities.setdefault(entity.name, entity)
         else:
             raise ValueError
 
-- 
2.43.0


From 8e606978766e69d25b2603d365785fd100288569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:19 +0000
Subject: [PATCH 183/273] fix: validating elements declared EMPTY with child
 elements raised AttributeError

---
 pyslet/xml/parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index b4f6058..a288df8 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -525,11 +525,15 @@ class ContentParticleCursor(object):
         expected = {}
         end_tag = None
         if self.state == ContentParticleCursor.START_STATE:
-            for name in dict_keys(self.element_type.particle_map):
-                if name:
-                    expected[name] = True
-                else:
-                    end_tag = "</%s>" % self.element_type.name
+            if self.element_type.particle_map is None:
+                # no child elements are allowed
+                end_tag = "</%s>" % self.element_type.name
+            else:
+                for name in dict_keys(self.element_type.particle_map):
+                    if name:
+                        expected[name] = True
+                    else:
+                        end_tag = "</%s>" % self.element_type.name
         elif self.state == ContentParticleCursor.PARTICLE_STATE:
             for p in self.plist:
                 for name in dict_keys(p.particle_map):
-- 
2.43.0


From 36737549af5ce1c779dd5a8f1e6303338db708cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 184/273] fix: standalone documents could refer to entities
 declared in parameter entities

---
 pyslet/xml/parser.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index a288df8..c622c17 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -927,6 +927,15 @@ class XMLParser(PEP8Compatibility):
                     return e
         return None
 
+    def _in_external_markup(self):
+        # True if the parser is in the external subset or in a parameter
+        # entity
+        for e in self.entityStack + [self.entity]:
+            if e is not self.docEntity and not isinstance(
+                    e, xml.XMLGeneralEntity):
+                return True
+        return False
+
     def standalone(self):
         """True if the document should be treated as standalone.
 
@@ -3700,10 +3709,16 @@ class XMLParser(PEP8Compatibility):
                     e = self.dtd.get_entity(name)
                     if (e and self.declared_standalone() and
                             e.entity is not self.docEntity):
-                        self.validity_error(
-                            "Standalone Document Declaration: reference to "
-                            "entity %s not allowed (externally defined)" %
-                            e.get_name())
+                        if self._in_external_markup():
+                            self.validity_error(
+                                "Standalone Document Declaration: reference "
+                                "to entity %s not allowed (externally "
+                                "defined)" % e.get_name())
+                        else:
+                            self.well_formedness_error(
+                                "Entity Declared: entity %s declared "
+                                "externally but document is standalone" %
+                                e.get_name())
                 if e is not None:
                     if e.notation is not None:
                         self.well_formedness_error(
-- 
2.43.0


From ceead5b4d0a1cde7517cca551612d16b61ee1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 185/273] fix: ]] and > in different XML entities were refused

---
 pyslet/xml/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index c622c17..5429b13 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1602,11 +1602,14 @@ class XMLParser(PEP8Compatibility):
             if self.the_char == '<' or self.the_char == '&':
                 break
             if self.the_char == ']':
-                if self.parse_literal(xml.CDATA_END):
-                    if not self.dont_check_wellformedness:
-                        self.buff_text(xml.CDATA_END)
+                entity = self.entity
+                if self.parse_literal(']]'):
+                    if (self.the_char == '>' and self.entity is entity and
+                            not self.dont_check_wellformedness):
+                        self.buff_text(']]')
                         break
-                    data.append(xml.CDATA_END)
+                    data.append(']')
+                    self.buff_text(']')
                     continue
             self._check_char("[14] CharData")
             self.is_s()     # force Unicode compatible white space handling
-- 
2.43.0


From 7f78ec7ee4f977c97a56b9b8db924d5b59275682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 186/273] fix: markup and references could start in one XML
 entity and end in another

---
 pyslet/xml/parser.py | 62 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 5429b13..c8dcacb 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -755,6 +755,8 @@ class XMLParser(PEP8Compatibility):
         self.dataCount = 0
         self.noPERefs = False
         self.gotPERef = False
+        # the entity in which the current markup in content started
+        self._markup_entity = None
 
     def get_context(self):
         """Returns the parser's context
@@ -927,6 +929,15 @@ class XMLParser(PEP8Compatibility):
                     return e
         return None
 
+    def _check_nesting(self, production, entity):
+        # Checks that the current character, the last character of some
+        # markup or reference, is in entity
+        if entity is not None and self.entity is not entity and \
+                not self.dont_check_wellformedness:
+            self.well_formedness_error(
+                production + ": not properly nested in entity %s" %
+                entity.get_name())
+
     def _in_external_markup(self):
         # True if the parser is in the external subset or in a parameter
         # entity
@@ -1656,6 +1667,7 @@ class XMLParser(PEP8Compatibility):
             elif self.the_char == '>':
                 if nhyphens == 2:
                     self.check_pe_between_declarations(centity)
+                    self._check_nesting(production, self._markup_entity)
                     self.next_char()
                     break
                 elif nhyphens < 2:
@@ -1712,6 +1724,7 @@ class XMLParser(PEP8Compatibility):
                 if self.the_char == '?':
                     self.next_char()
                     if self.the_char == '>':
+                        self._check_nesting(production, self._markup_entity)
                         self.next_char()
                         break
                     else:
@@ -1728,7 +1741,9 @@ class XMLParser(PEP8Compatibility):
                         production + ": Unexpected end of file")
         else:
             self.check_pe_between_declarations(dentity)
-            self.parse_required_literal('?>', production)
+            self.parse_required_literal('?', production)
+            self._check_nesting(production, self._markup_entity)
+            self.parse_required_literal('>', production)
         if self.element:
             self.element.processing_instruction(target, ''.join(data))
         elif self.doc:
@@ -1781,9 +1796,13 @@ class XMLParser(PEP8Compatibility):
         is no return value."""
         data = []
         while self.the_char is not None:
-            if self.parse_literal(cdend):
-                self.buff_text(cdend)
-                break
+            self._check_nesting("[20] CData", self._markup_entity)
+            if self.parse_literal(cdend[:-1]):
+                self._check_nesting("[20] CData", self._markup_entity)
+                self.buff_text(cdend[:-1])
+                if self.parse_literal(cdend):
+                    self.buff_text(cdend)
+                    break
             self._check_char("[20] CData")
             data.append(self.the_char)
             self.next_char()
@@ -2179,6 +2198,7 @@ class XMLParser(PEP8Compatibility):
             attrs = {}
             empty = False
         else:
+            element_entity = self._markup_entity or self.entity
             name, attrs, empty = self.parse_stag()
             self.check_attributes(name, attrs)
             if self.check_validity:
@@ -2269,6 +2289,12 @@ class XMLParser(PEP8Compatibility):
                 while self.parse_content():
                     end_name = self.parse_etag()
                     if end_name == name:
+                        if (not self.dont_check_wellformedness and
+                                self._markup_entity is not element_entity):
+                            self.well_formedness_error(
+                                "[39] element: <%s> not properly nested in "
+                                "entity %s" % (name,
+                                               element_entity.get_name()))
                         break
                     spurious_tag = True
                     if self.sgml_omittag:
@@ -2582,10 +2608,14 @@ class XMLParser(PEP8Compatibility):
             try:
                 s = self.parse_s()
                 if self.the_char == '>':
+                    self._check_nesting("[40] STag", self._markup_entity)
                     self.next_char()
                     break
                 elif self.the_char == '/':
-                    self.parse_required_literal('/>')
+                    self.parse_required_literal('/')
+                    self._check_nesting("[44] EmptyElemTag",
+                                        self._markup_entity)
+                    self.parse_required_literal('>')
                     empty = True
                     break
                 if s:
@@ -2658,6 +2688,7 @@ class XMLParser(PEP8Compatibility):
                     break
                 self.next_char()
         else:
+            self._check_nesting(production, self._markup_entity)
             self.parse_required_literal('>', production)
         return name
 
@@ -2680,6 +2711,7 @@ class XMLParser(PEP8Compatibility):
         while True:
             if self.the_char == '<':
                 # element, CDSect, PI or Comment
+                self._markup_entity = self.entity
                 self.next_char()
                 if self.the_char == '!':
                     # CDSect or Comment
@@ -3599,16 +3631,20 @@ class XMLParser(PEP8Compatibility):
             else:
                 self.next_char()
 
-    def parse_char_ref(self, got_literal=False):
+    def parse_char_ref(self, got_literal=False, entity=None):
         """[66] CharRef
 
         got_literal
             If True, assumes that the leading '&' literal has already
             been parsed.
 
+        entity
+            The entity in which the leading '&' was parsed, defaults to
+            the current entity.
         The method returns a unicode string containing the character
         referred to."""
         production = "[66] CharRef"
+        entity = self.entity if entity is None else entity
         if not got_literal:
             self.parse_required_literal('&', production)
         self.parse_required_literal('#', production)
@@ -3626,6 +3662,7 @@ class XMLParser(PEP8Compatibility):
             self.well_formedness_error(
                 "Legal Character: &#%s%s; does not match production for Char" %
                 (qualifier, digits))
+        self._check_nesting(production, entity)
         self.parse_required_literal(';', production)
         if self.refMode == XMLParser.RefModeInDTD:
             raise XMLForbiddenEntityReference(
@@ -3646,19 +3683,23 @@ class XMLParser(PEP8Compatibility):
         referred to.  For a general entity the data returned will depend
         on the parsing context. For more information see
         :py:meth:`parse_entity_ref`."""
+        entity = self.entity
         self.parse_required_literal('&', "[67] Reference")
         if self.the_char == '#':
-            return self.parse_char_ref(True)
+            return self.parse_char_ref(True, entity)
         else:
-            return self.parse_entity_ref(True)
+            return self.parse_entity_ref(True, entity)
 
-    def parse_entity_ref(self, got_literal=False):
+    def parse_entity_ref(self, got_literal=False, entity=None):
         """[68] EntityRef
 
         got_literal
             If True, assumes that the leading '&' literal has already
             been parsed.
 
+        entity
+            The entity in which the leading '&' was parsed, defaults to
+            the current entity.
         This method returns any data parsed as a result of the
         reference.  For example, if this method is called in a context
         where entity references are bypassed then the string returned
@@ -3683,9 +3724,9 @@ class XMLParser(PEP8Compatibility):
         if it were '&amp;'. Similarly we are generous about the missing
         ';'."""
         production = "[68] EntityRef"
+        entity = self.entity if entity is None else entity
         if not got_literal:
             self.parse_required_literal('&', production)
-        entity = self.entity
         if self.dont_check_wellformedness:
             name = self.parse_name()
             if not name:
@@ -3695,6 +3736,7 @@ class XMLParser(PEP8Compatibility):
         if self.dont_check_wellformedness:
             self.parse_literal(';')
         else:
+            self._check_nesting(production, entity)
             self.parse_required_literal(';', production)
         if self.refMode == XMLParser.RefModeInEntityValue:
             return "&%s;" % name
-- 
2.43.0


From c83f1ae196a95d54cc4cc8e1a4ca857bfa1cbea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 187/273] fix: line feeds and tabs in attribute values became
 spaces when a document was written and read

---
 pyslet/xml/structures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index e85d83f..bf0fd73 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -283,6 +283,9 @@ def escape_char_data(src, quote=False):
             data.append('&gt;')
         elif c == '\r':
             data.append('&#xD;')
+        elif quote and c in '\n\t':
+            # otherwise attribute value normalization replaces them
+            data.append('&#x%X;' % ord(c))
         elif c == '"':
             quot += 1
             data.append(c)
@@ -358,6 +361,9 @@ def escape_char_data7(src, quote=False):
             dst.append("&gt;")
         elif c == '\r':
             dst.append("&#xD;")
+        elif quote and c in '\n\t':
+            # otherwise attribute value normalization replaces them
+            dst.append("&#x%X;" % ord(c))
         elif c == q:
             dst.append(qstr)
         else:
-- 
2.43.0


From 9b293a179f81c0df8fbd58f156188886c91b87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 188/273] fix: xmlns="" did not undeclare the default namespace

---
 pyslet/xml/namespace.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 25986f5..0364f6c 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -149,8 +149,9 @@ class NSNode(Node):
         ei = self
         while ei is not None:
             ns = ei._prefix_to_ns.get(prefix, None)
-            if ns:
-                break
+            if ns is not None:
+                # an empty string undeclares the namespace
+                return ns or None
             if prefix == '':
                 ns = getattr(ei, 'default_ns', None)
                 if ns:
@@ -665,7 +666,8 @@ class XMLNSParser(XMLParser):
                 ns_uri = ns_defs.get('', None)
                 if ns_uri is None and context is not None:
                     ns_uri = context.get_ns('')
-                return (ns_uri, qname)
+                # xmlns="" undeclares the default namespace
+                return (ns_uri or None, qname)
             else:
                 return (NO_NAMESPACE, qname)
         elif len(xname) == 2:
-- 
2.43.0


From e031b1f72069777e486fc6ed318762c261186682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 189/273] fix: attributes with names starting xmlns were
 discarded

---
 pyslet/xml/namespace.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 0364f6c..6bc3a96 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -708,13 +708,13 @@ class XMLNSParser(XMLParser):
         :py:meth:`NSElement.set_attribute` by py:class:`XMLParser`."""
         ns = {}
         for aname in list(dict_keys(attrs)):
-            if aname.startswith('xmlns'):
-                if len(aname) == 5:
-                    # default ns declaration
-                    ns[''] = attrs[aname]
-                elif aname[5] == ':':
-                    # ns prefix declaration
-                    ns[aname[6:]] = attrs[aname]
+            if aname == 'xmlns':
+                # default ns declaration
+                ns[''] = attrs[aname]
+                del attrs[aname]
+            elif aname.startswith('xmlns:'):
+                # ns prefix declaration
+                ns[aname[6:]] = attrs[aname]
                 del attrs[aname]
         for aname in list(dict_keys(attrs)):
             xname = self.expand_qname(aname, ns, False)
-- 
2.43.0


From 31597b39bb487210f68aa74f9cc1b3d5b90b7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 190/273] fix: attributes in the default namespace were written
 with no namespace

---
 pyslet/xml/namespace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 6bc3a96..313d359 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -456,6 +456,15 @@ class NSElement(NSNode, Element):
                 prefix = self.get_prefix(ns)
             if prefix is None:
                 prefix = self.make_prefix(ns)
+            elif not prefix and not is_string(a) and ns != NO_NAMESPACE:
+                # the default namespace does not apply to attributes
+                prefix_list = [p for p, uri in self.get_prefix_map().items()
+                               if p and uri == ns]
+                if prefix_list:
+                    prefix = min(prefix_list)
+                else:
+                    prefix = self.new_prefix()
+                    self._prefix_to_ns[prefix] = ns
             if prefix:
                 prefix = prefix + ':'
             attributes.append(
-- 
2.43.0


From 369b8c3795a1bcee958cf0a2b897f77546656835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 191/273] fix: elements with no namespace were written in the
 default namespace

---
 pyslet/xml/namespace.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 313d359..2281fad 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -491,9 +491,16 @@ class NSElement(NSNode, Element):
             prefix = self.get_prefix(self.ns)
             if prefix is None:
                 # We need to declare our namespace
-                prefix = self.make_prefix(self.ns, '')
+                if '' in self._prefix_to_ns:
+                    prefix = self.make_prefix(self.ns)
+                else:
+                    prefix = self.make_prefix(self.ns, '')
         else:
             prefix = ''
+            if self.get_prefix_map().get('', None):
+                # We are not in the default namespace, undeclare it
+                self._ns_to_prefix.pop(self._prefix_to_ns.get('', None), None)
+                self._prefix_to_ns[''] = ''
         if prefix:
             prefix = prefix + ':'
         self.write_xml_attributes(attributes, escape_function, root=root)
-- 
2.43.0


From 594adb6daeda50759ca4ce43e12523c0f17a1ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 192/273] fix: XMLNSParser could not find registered document
 classes

---
 pyslet/xml/namespace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 2281fad..00911bf 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -637,14 +637,14 @@ class XMLNSParser(XMLParser):
         If no document class can be found, :py:class:`NSDocument` is
         returned."""
         if xname[0] is None:
-            doc_class = XMLParser._nsdoc_class_table.get(xname, None)
+            doc_class = self._nsdoc_class_table.get(xname, None)
         else:
-            doc_class = XMLParser._nsdoc_class_table.get(xname, None)
+            doc_class = self._nsdoc_class_table.get(xname, None)
             if doc_class is None:
-                doc_class = XMLParser.DocumentClassTable.get(
+                doc_class = self._nsdoc_class_table.get(
                     (xname[0], None), None)
             if doc_class is None:
-                doc_class = XMLParser.DocumentClassTable.get(
+                doc_class = self._nsdoc_class_table.get(
                     (None, xname[1]), None)
         if doc_class is None:
             doc_class = NSDocument
-- 
2.43.0


From fa3813d8dabece6bf43996a0d2a46ab5e523216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 193/273] fix: external entities starting with markup but no
 text declaration lost their first character

---
 pyslet/xml/parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index c8dcacb..496f6c0 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -814,10 +814,11 @@ class XMLParser(PEP8Compatibility):
             self.the_char = self.buff[0]
 
     def _get_buff(self):
-        if len(self.buff) > 1:
-            return ''.join(self.buff[1:])
+        # the characters that precede the entity's current character
+        if self.buff and self.entity.the_char is not None:
+            return ''.join(self.buff[:-1])
         else:
-            return ''
+            return ''.join(self.buff)
 
     def push_entity(self, entity):
         """Starts parsing an entity
@@ -834,7 +835,7 @@ class XMLParser(PEP8Compatibility):
         Note that in the degenerate case where the entity being pushed
         is empty (or is already positioned at the end of the file) then
         push_entity does nothing."""
-        if entity.the_char is not None:
+        if entity.the_char is not None or entity.buff_text:
             self.entityStack.append(self.entity)
             self.entity = entity
             self.entity.flags = {}
-- 
2.43.0


From e9670f2d33fbc092d95723a21981cfe22dc2ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 194/273] fix: external entities starting with <?xml... were
 not recognised as processing instructions

---
 pyslet/xml/structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index bf0fd73..f58dc23 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3756,7 +3756,11 @@ class XMLDeclaredEntity(XMLEntity):
             from pyslet.xml.parser import XMLParser
             p = XMLParser(self)
             if p.parse_literal('<?xml'):
-                p.parse_text_decl(True)
+                if p.the_char is not None and is_name_char(p.the_char):
+                    # just a PI with a target that starts 'xml...'
+                    p.buff_text('<?xml')
+                else:
+                    p.parse_text_decl(True)
             self.keep_encoding()
             # at this point we may have some left over text in p's buffer
             # we can't push it back down the pipe so need to handle here
-- 
2.43.0


From 6dc18a96c5ad370e0b8cd33f89c424c96afbb042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 195/273] fix: undecodable XML entities raised
 UnicodeDecodeError or lost an incomplete last character

---
 pyslet/xml/structures.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index f58dc23..5d2e841 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3527,8 +3527,14 @@ class XMLEntity(MigratedClass):
         self.line_pos = self.line_pos + 1
         if self.char_pos >= len(self.chars):
             self.char_seek = self.char_source.tell()
-            self.chars = self.char_source.read(self.chunk)
+            try:
+                self.chars = self.char_source.read(self.chunk)
+            except UnicodeError as e:
+                raise XMLError("%s: %s" % (self.get_position_str(), str(e)))
             self.char_pos = 0
+            if not self.chars and getattr(self.char_source, 'bytebuffer', ''):
+                raise XMLError("%s: incomplete character at end of entity" %
+                               self.get_position_str())
         if self.char_pos >= len(self.chars):
             self.the_char = None
         else:
@@ -3655,10 +3661,17 @@ class XMLEntity(MigratedClass):
                 self.char_source.seek(self.char_seek)
                 self.char_source = codecs.getreader(
                     self.encoding)(self.data_source)
-                self.chars = self.char_source.read(len(self.chars))
+                try:
+                    self.chars = self.char_source.read(len(self.chars))
+                except UnicodeError as e:
+                    raise XMLError(
+                        "%s: %s" % (self.get_position_str(), str(e)))
                 # We assume that char_pos will still point to the correct
                 # next character
-                self.the_char = self.chars[self.char_pos]
+                if self.char_pos < len(self.chars):
+                    self.the_char = self.chars[self.char_pos]
+                else:
+                    self.the_char = None
         self.keep_encoding()
 
     @old_method('KeepEncoding')
-- 
2.43.0


From 67546eebaa1336727dd63bd57a0aa92f7c930dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:23 +0000
Subject: [PATCH 196/273] fix: 8-bit XML entities declared to be in UTF-16 or
 UTF-32 were accepted and those in hex and the like raised TypeError

---
 pyslet/xml/structures.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 5d2e841..88c971c 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3655,7 +3655,15 @@ class XMLEntity(MigratedClass):
             # UTF-16 and UTF-32 we don't want to reset the stream
             # because that will force BOM detection and we may not have
             # a BOM to detect.
-            if not keep_existing:
+            if keep_existing:
+                if not codecs.lookup(self.encoding).name.replace(
+                        '-', '_').startswith(encoding):
+                    raise XMLError("%s: encoding is %s but %s was declared" % (
+                        self.get_position_str(), self.encoding, lencoding))
+            else:
+                if not getattr(codecs.lookup(encoding), '_is_text_encoding',
+                               True):
+                    raise LookupError("not a text encoding: %s" % encoding)
                 self.encoding = encoding
                 # Need to rewind and re-read the current buffer
                 self.char_source.seek(self.char_seek)
-- 
2.43.0


From 8d689d9f1311396a6d0951900df75179771abfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:23 +0000
Subject: [PATCH 197/273] fix: character positions in XML entities were one too
 high on lines following CR LF

---
 pyslet/xml/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 88c971c..4697bf6 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3550,6 +3550,7 @@ class XMLEntity(MigratedClass):
             elif self.the_char == '\x0A':
                 if self.ignore_lf:
                     self.ignore_lf = False
+                    self.line_pos = self.line_pos - 1
                     self.next_char()
                 else:
                     self.next_line()
-- 
2.43.0


From b9bb2837da8f9ebeaa96d615a2ff4841ab19c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:23 +0000
Subject: [PATCH 198/273] fix: XML documents in EBCDIC were not recognised

---
 pyslet/xml/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 4697bf6..95f1d5c 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3587,9 +3587,9 @@ class XMLEntity(MigratedClass):
         # a 16-bit code unit
         b'\x3c\x00\x3f\x00': ('utf_16_le', 0, False),
         # UTF-8, ISO 646, ASCII or similar
-        b'\3c\x3f\x78\x6D': ('utf_8', 0, False),
+        b'\x3c\x3f\x78\x6D': ('utf-8', 0, False),
         # EBCDIC (in some flavor)
-        b'\4c\x6f\xa7\x94': ('cp500', 0, False)
+        b'\x4c\x6f\xa7\x94': ('cp500', 0, False)
     }
 
     def auto_detect_encoding(self, src_file):
-- 
2.43.0


From 9a5066d0bf67e278ca6b9fa198b4680917a9d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:52 +0000
Subject: [PATCH 199/273] fix: character positions on the first line were one
 too high after a byte order mark

---
 pyslet/xml/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 95f1d5c..c380601 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3505,6 +3505,7 @@ class XMLEntity(MigratedClass):
         # skip it for utf-8
         if self.the_char == character(0xFEFF) and \
                 self.encoding is not None and self.encoding.lower() == 'utf-8':
+            self.line_pos = 0
             self.next_char()
 
     def get_position_str(self):
-- 
2.43.0


From cbaf94800a1d1261cfb90f81ef133a48ae4296ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 200/273] fix: U+FEFF following a byte order mark was discarded

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index c380601..2cb4de1 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3503,7 +3503,7 @@ class XMLEntity(MigratedClass):
         self.next_char()
         # python handles the utf-16 BOM automatically but we have to
         # skip it for utf-8
-        if self.the_char == character(0xFEFF) and \
+        if self.the_char == character(0xFEFF) and not self.bom and \
                 self.encoding is not None and self.encoding.lower() == 'utf-8':
             self.line_pos = 0
             self.next_char()
-- 
2.43.0


From 28cb4ef6d03631be4d639434f6ab2ada2ab80739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 201/273] fix: floats lost precision when written as XML Schema
 decimals, floats and doubles, and NaN was written NAN

---
 pyslet/xml/xsdatatypes.py | 194 ++++++++++++--------------------------
 1 file changed, 58 insertions(+), 136 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index f3986c4..9288eba 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -1,12 +1,13 @@
 #! /usr/bin/env python
 
+import decimal
 import logging
 import math
 import types
 import warnings
 
 from re import compile
-from sys import maxunicode, float_info
+from sys import maxunicode
 
 from .. import iso8601
 from ..pep8 import (
@@ -106,42 +107,19 @@ def decimal_from_str(src):
     return float(src)
 
 
-_uzero = ul("0")
-_uone = ul("1")
-_unine = ul("9")
 _udot = ul(".")
 _uexp = ul("E")
 
 
-def _round_digits(digits):
-    """Rounds a list of digits to the machine precision.  The function
-    returns True if the rounding operation overflowed, this indicates
-    that *digits* is one digit longer than it was when passed in."""
-    if len(digits) > float_info.dig:
-        # we need to add some rounding to remove spurious digits
-        pos = len(digits) - 1
-        while pos >= 0:
-            if pos > float_info.dig:
-                digits[pos] = _uzero
-            elif pos == float_info.dig:
-                rtest = ord(digits[pos])
-                digits[pos] = _uzero
-                if rtest < 0x35:
-                    # no rounding needed
-                    break
-            elif digits[pos] == "9":
-                digits[pos] = _uzero
-            else:
-                digits[pos] = character(ord(digits[pos]) + 1)
-                # rounding done
-                break
-            pos = pos - 1
-        if pos < 0:
-            # overflow
-            digits[0:0] = _uone
-            return True
-    else:
-        return False
+_decimal_context = decimal.Context(prec=2000, rounding=decimal.ROUND_HALF_UP)
+
+
+def _exact_decimal(value):
+    """Returns a decimal with the significant digits of value.  For
+    floats that's the fewest digits that identify the value."""
+    if isinstance(value, float):
+        value = repr(value)
+    return _decimal_context.normalize(decimal.Decimal(value))
 
 
 def _strip_zeros(digits):
@@ -173,63 +151,32 @@ def decimal_to_str(value, digits=None, strip_zeros=True, **kws):
         To override this behaviour and return exactly *digits* decimal
         places set *stripZeros* to False."""
     strip_zeros = kws.get('stripZeros', strip_zeros)
-    if value < 0:
-        sign = '-'
-        value = -value
-    else:
-        sign = ''
-    if digits is None:
-        # calculate the appropriate number of digits
-        try:
-            x = math.log10(value)
-            m, e = math.modf(x)
-            e = int(e)
-            # If e is 0 then we have a number in the open range [1.0,10.0)
-            # which means that we need 1 fewer digits than the maximum
-            # precision of float.  If e is 1 we need 2 fewer, and so on...
-            # We can therefore deduce the formula for digits:
-            digits = float_info.dig - (e + 1)
-            if digits < 1:
-                # by default we always display one digit
-                digits = 1
-        except ValueError:
-            # not sure if this is possible, a number so small log10 fails
-            value = 0.0
-            digits = 1
-    elif digits < 0:
-        # forced to display no digits, result won't be in canonical form
-        digits = 0
-    if value == 0:
-        # canonical representation of 0 is 0.0
-        if digits is None:
-            return "0.0"
-        elif digits == 0:
-            return "0"
-        elif strip_zeros:
-            return "0.0"
-        else:
-            return "0." + ("0" * digits)
-    elif math.isnan(value) or math.isinf(value):
+    if math.isnan(value) or math.isinf(value):
         raise ValueError("Invalid value for decimal: %s" %
                          double_to_str(value))
-    f, i = math.modf(value * math.pow(10, digits))
-    if f >= 0.5:
-        i = i + 1
-    dstring = list(str(int(i)))
-    # assume all digits in dstring are significant
-    _round_digits(dstring)
-    if len(dstring) <= digits:
+    value = _exact_decimal(value)
+    if digits is not None:
+        # digits < 0 is forced to display no digits, when there are no
+        # digits the result won't be in canonical form
+        value = _decimal_context.quantize(
+            value, decimal.Decimal((0, (1, ), -max(digits, 0))))
+    sign, dstring, e = value.as_tuple()
+    dstring = [str(d) for d in dstring] + ["0"] * e
+    pos = len(dstring) + min(e, 0)
+    if pos < 1:
         # we need to zero pad on the left
-        dstring[0:0] = ["0"] * (digits + 1 - len(dstring))
-        dlen = digits + 1
+        dstring[0:0] = ["0"] * (1 - pos)
+        pos = 1
+    if pos == len(dstring):
+        if digits is None:
+            dstring[pos:pos] = ".0"
     else:
-        dlen = len(dstring)
-    # now put the point in the right place
-    dstring[dlen - digits:dlen - digits] = _udot
-    if sign:
-        dstring[0:0] = sign
-    if strip_zeros:
-        _strip_zeros(dstring)
+        # now put the point in the right place
+        dstring[pos:pos] = _udot
+        if strip_zeros:
+            _strip_zeros(dstring)
+    if sign and value:
+        dstring[0:0] = "-"
     return ''.join(dstring)
 
 
@@ -337,62 +284,37 @@ def double_to_str(value, digits=None, strip_zeros=True, **kws):
         By default zeros are stripped (except there is always one zero
         left after the decimal point)."""
     strip_zeros = kws.get('stripZeros', strip_zeros)
-    if digits is None:
-        digits = float_info.dig - 2
-        if digits < 0:
-            # by default we show at least one digit
-            digits = 1
-    elif digits < 0:
-        digits = 0
-    if value == 0:
-        # canonical representation of 0 is 0.0E0
-        if digits == 0:
-            return "0E0"
-        elif strip_zeros:
-            return "0.0E0"
-        else:
-            return "0." + ("0" * digits) + "E0"
-    elif math.isnan(value):
-        return "NAN"
+    if math.isnan(value):
+        return "NaN"
     elif math.isinf(value):
         return "INF" if value > 0 else "-INF"
-    if value < 0:
-        sign = '-'
-        value = -value
+    value = _exact_decimal(value)
+    sign, dstring, e = value.as_tuple()
+    if digits is not None:
+        digits = max(digits, 0)
+        # round to the given number of digits after the first
+        value = _decimal_context.quantize(
+            value, decimal.Decimal((0, (1, ), len(dstring) + e - 1 - digits)))
+        sign, dstring, e = value.as_tuple()
+        if len(dstring) > digits + 1:
+            # overflow, strip the trailing zero
+            dstring = dstring[:-1]
+            e += 1
+    if value:
+        e = e + len(dstring) - 1
     else:
-        sign = ''
-    try:
-        x = math.log10(value)
-    except ValueError:
-        # not sure if this is possible, a number so small log10 fails
-        return "0.0E0"
-    m, e = math.modf(x)
-    e = int(e)
-    r, m = math.modf(math.pow(10, m + digits))
-    if r >= 0.5:
-        m = m + 1
-    dstring = list(str(int(m)))
-    # m should originally have been in [1,10) but we need to check for
-    # over/underflow
-    if len(dstring) > digits + 1:
-        # overflow, strip the trailing zero
-        e = e + 1
-        del dstring[-1]
-    elif len(dstring) <= digits:
-        # underflow - probably impossible, e.g,
-        # pow(10,log10(1.000)+N)->999....9(.9)
-        e = e - 1
-        dstring.append(_unine)
-    # inevitably, after this len(dstring)==digits+1
-    if _round_digits(dstring):
-        del dstring[-1]
-    assert dstring[0] != '0'
+        # canonical representation of 0 is 0.0E0
+        sign = e = 0
+        dstring = [0] * (1 if digits is None else digits + 1)
+    dstring = [str(d) for d in dstring]
+    if len(dstring) == 1 and digits is None:
+        dstring.append("0")
     if len(dstring) > 1:
         dstring[1:1] = _udot
-    if strip_zeros:
-        _strip_zeros(dstring)
+        if strip_zeros:
+            _strip_zeros(dstring)
     if sign:
-        dstring[0:0] = sign
+        dstring[0:0] = "-"
     dstring.append(_uexp)
     dstring.append(str(e))
     return ''.join(dstring)
-- 
2.43.0


From 349dfbec9aea52b4c189f0e32d784cef90fa4ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 202/273] fix: XML Schema doubles with large exponents raised
 OverflowError and others were not the nearest double

---
 pyslet/xml/xsdatatypes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 9288eba..4c5432f 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -205,9 +205,9 @@ def float_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        result = m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        result = float(src)
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
@@ -257,9 +257,9 @@ def double_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        return m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        return float(src)
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
-- 
2.43.0


From 7cb02b959ceafe916110eaba4a98b1b10800180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 203/273] fix: the smallest XML Schema float became 0

---
 pyslet/xml/xsdatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 4c5432f..f7ecd48 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -215,7 +215,7 @@ def float_from_str(src):
     abs_result = math.fabs(result)
     if abs_result >= _max_float:
         return float("-inf") if result < 0.0 else float("inf")
-    elif abs_result <= _min_float:
+    elif abs_result < _min_float:
         # this value is too small for a float, return 0
         return -0.0 if result < 0.0 else 0.0
     else:
@@ -236,7 +236,7 @@ def float_to_str(value):
     abs_value = math.fabs(value)
     if abs_value >= _max_float:
         return ul("-INF") if value < 0.0 else ul("INF")
-    elif abs_value <= _min_float:
+    elif abs_value < _min_float:
         # this value is too small for a float, return 0
         return "0.0E0"
     else:
-- 
2.43.0


From e93162a6b070579cc05e36bc0f4bbd659bd46da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 204/273] fix: Enumeration.dict_from_str returned the last
 value only

---
 pyslet/xml/xsdatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index f7ecd48..0663356 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -636,8 +636,8 @@ class Enumeration(EnumBase):
         result = {}
         for s in src.split():
             sv = decoder(s)
-        if sv not in result:
-            result[sv] = s
+            if sv not in result:
+                result[sv] = s
         return result
 
     @classmethod
-- 
2.43.0


From a5b48606aa77fc9a6e2e871d351aa99fab0dfd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 205/273] fix: Enumeration.from_str_title raised IndexError for
 empty strings

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 0663356..275303a 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -586,7 +586,7 @@ class Enumeration(EnumBase):
         decoded then ValueError is raised."""
         try:
             src = src.strip()
-            src = src[0].upper() + src[1:].lower()
+            src = src[:1].upper() + src[1:].lower()
             return cls.decode[src]
         except KeyError:
             raise ValueError("Can't decode %s from %s" % (cls.__name__, src))
-- 
2.43.0


From 747407651141c8fc8b1ada4211f815f8791b16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:53 +0000
Subject: [PATCH 206/273] fix: empty XML Schema durations raised IndexError

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 275303a..bbc3a76 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -347,7 +347,7 @@ class Duration(iso8601.Duration):
 
     def set_from_string(self, duration_str):
         if is_text(duration_str):
-            if duration_str[0] == '-':
+            if duration_str[:1] == '-':
                 self.sign = -1
                 duration_str = duration_str[1:]
             else:
-- 
2.43.0


From cd9c5f96d8c095b11dd14141fb3f19fce2c700a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:15 +0000
Subject: [PATCH 207/273] fix: XML Schema durations lost fractions of seconds
 when written and ignored the sign when compared

---
 pyslet/xml/xsdatatypes.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index bbc3a76..2d463dd 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -339,12 +339,35 @@ class Duration(iso8601.Duration):
 
     def __unicode__(self):
         """Formats this duration."""
-        result = force_text(self.get_string())
+        result = self.get_string()
+        # get_string truncates fractions, which may only appear in the
+        # last component
+        values = [v for v in self.get_calender_duration() if v is not None]
+        if values and values[-1] != int(values[-1]):
+            whole = to_text(int(values[-1]))
+            result = result[:-1 - len(whole)] + \
+                decimal_to_str(values[-1]) + result[-1]
+        result = force_text(result)
         if self.sign < 0:
             return "-" + result
         else:
             return result
 
+    def __eq__(self, other):
+        if not isinstance(other, iso8601.Duration):
+            other = Duration(other)
+        if self.sign != getattr(other, 'sign', 1):
+            # the sign of zero is not significant
+            if any((self.years, self.months, self.days, self.hours,
+                    self.minutes, self.seconds, self.weeks)):
+                return False
+        return bool(iso8601.Duration.__eq__(self, other))
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
     def set_from_string(self, duration_str):
         if is_text(duration_str):
             if duration_str[:1] == '-':
-- 
2.43.0


From cef66f52330d75e86d483cff942329361c8ef282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 208/273] fix: characters beyond U+FFFF were not allowed in XML
 names

---
 pyslet/xml/structures.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 2cb4de1..c77ce91 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -9,6 +9,7 @@ import random
 import warnings
 
 from copy import copy
+from sys import maxunicode
 from types import MethodType
 
 from .. import rfc2396 as uri
@@ -178,7 +179,14 @@ def collapse_space(data, smode=True, stest=is_s):
         return uspace
 
 
+if maxunicode < 0x10FFFF:
+    _supplementary = CharClass()
+else:
+    _supplementary = CharClass((character(0x10000), character(0xeffff)))
+
+
 name_start_char = CharClass(
+    _supplementary,
     ':', ('A', 'Z'), '_', ('a', 'z'), (character(0xc0), character(0xd6)),
     (character(0xd8), character(0xf6)), (character(0xf8), character(0x02ff)),
     (character(0x0370), character(0x037d)),
-- 
2.43.0


From 5551faa1b57f4a8e4b99a9a0a3b23acc8d42e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 209/273] fix: fractions of seconds were lost when writing XML
 Schema dateTimes

---
 pyslet/xml/xsdatatypes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 2d463dd..5af1218 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -402,8 +402,16 @@ def datetime_to_str(value):
     """Returns the canonical lexical representation for dateTime
 
     value:
-        An instance of :py:class:`pyslet.iso8601.TimePoint`"""
-    return value.get_calendar_string()
+        An instance of :py:class:`pyslet.iso8601.TimePoint`
+
+    Fractions of seconds are represented to the nearest nanosecond."""
+    second = value.time.get_time()[2]
+    ndp = 0
+    if second:
+        fraction = decimal_to_str(second, 9).split('.')[1]
+        if fraction != '0':
+            ndp = len(fraction)
+    return value.get_calendar_string(ndp=ndp, dp='.')
 
 
 @old_function("DecodeName")
-- 
2.43.0


From acff30a676b21d1cfe17021e0f56c400b7248844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 210/273] fix: text following an XML Schema dateTime was
 ignored

---
 pyslet/xml/xsdatatypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 5af1218..b44659c 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -392,9 +392,13 @@ class Duration(iso8601.Duration):
 def datetime_from_str(src):
     """Returns a :py:class:`pyslet.iso8601.TimePoint` instance."""
     try:
-        return iso8601.TimePoint.from_str(src)
+        p = iso8601.ISO8601Parser(src)
+        value = p.parse_time_point_format()[0]
     except iso8601.DateTimeError as e:
         raise ValueError(str(e))
+    if p.the_char is not None:
+        raise ValueError("unexpected text after dateTime: %s" % repr(src))
+    return value
 
 
 @old_function("EncodeDateTime")
-- 
2.43.0


From 43905cdeb6d3b7926806442d3a0e5d9863baea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 211/273] fix: text following an XML Schema duration was
 ignored

---
 pyslet/xml/xsdatatypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index b44659c..d33b9d4 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -376,7 +376,12 @@ class Duration(iso8601.Duration):
             else:
                 self.sign = 1
             p = iso8601.ISO8601Parser(duration_str)
-            return p.parse_duration(self)
+            result = p.parse_duration(self)
+            if p.the_char is not None:
+                raise iso8601.DateTimeError(
+                    "unexpected text after duration: %s" %
+                    repr(duration_str))
+            return result
         else:
             raise TypeError
 
-- 
2.43.0


From f9d360362220598708f7a2d7ba60daffe9d116ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 212/273] fix: white_space_collapse added a space when the
 value started with one

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index d33b9d4..9efdd15 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -865,7 +865,7 @@ def white_space_collapse(value):
         else:
             if output and got_space:
                 output.append(character(0x20))
-                got_space = False
+            got_space = False
             output.append(c)
     return ''.join(output)
 
-- 
2.43.0


From 653231b2f0b8c9aab19c0f9aba4178b7ed28a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:40 +0000
Subject: [PATCH 213/273] fix: durations with a fraction in a component that
 isn't the last were accepted

---
 pyslet/iso8601.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index ae8c95d..29d9c40 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -3340,14 +3340,15 @@ class ISO8601Parser(BasicParser):
 
         formatString is one of "n", "n.n" or "n,n".
 
-        If allow_fraction is False then a fractional format raises an error."""
+        allow_fraction is False if a preceding component had a fraction,
+        in which case any further component raises an error."""
         value = self.parse_integer()
         if value is None:
             return None, None
+        if not allow_fraction:
+            raise DateTimeError(
+                "fractional component in duration must have lowest order")
         if self.the_char is not None and self.the_char in ".,":
-            if not allow_fraction:
-                raise DateTimeError(
-                    "fractional component in duration must have lowest order")
             format = "n" + self.the_char + "n"
             value = value + self.parse_fraction()
         else:
-- 
2.43.0


From 20f75c209ad6e1021a07b0e4b44e7a64b183e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 214/273] fix: validating against a non-deterministic content
 model took exponential time

---
 pyslet/xml/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 496f6c0..fbd6f81 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -501,10 +501,12 @@ class ContentParticleCursor(object):
                         new_plist = None
                         self.state = ContentParticleCursor.END_STATE
                         break
-                    if isinstance(ps, list):
-                        new_plist = new_plist + ps
-                    else:
-                        new_plist.append(ps)
+                    if not isinstance(ps, list):
+                        ps = [ps]
+                    for new_p in ps:
+                        # particles may be reachable in several ways
+                        if not any(new_p is x for x in new_plist):
+                            new_plist.append(new_p)
             if new_plist is None or len(new_plist) > 0:
                 # success if we got to the end state or have found
                 # particles
-- 
2.43.0


From fcc57a2112aec35a68deea75ade9a2d035886237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:35 +0000
Subject: [PATCH 215/273] fix: empty-element tags were valid whatever the
 content model required

---
 pyslet/xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index fbd6f81..f8a94b7 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2337,6 +2337,8 @@ class XMLParser(PEP8Compatibility):
                     production +
                     ": element implied by PCDATA had empty content %s" %
                     self.element)
+        else:
+            self.check_expected_particle('')
         self.element.content_changed()
         self.element = save_element
         self.elementType = save_element_type
-- 
2.43.0


From 8a2b917860eebeff6b24c4ced9ac0c22f16b2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:35 +0000
Subject: [PATCH 216/273] fix: NOTATION attributes naming undeclared notations
 were not reported as invalid

---
 pyslet/xml/parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index f8a94b7..1f35344 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1864,6 +1864,18 @@ class XMLParser(PEP8Compatibility):
                                     "No Notation on Empty Element: "
                                     "attribute %s on element %s cannot have "
                                     "NOTATION type" % (aname, ename))
+            for ename in dict_keys(self.dtd.attribute_lists):
+                adefs = self.dtd.get_attribute_list(ename)
+                for aname in dict_keys(adefs):
+                    adef = adefs[aname]
+                    if adef.type == xml.XMLAttributeDefinition.NOTATION:
+                        for value in dict_keys(adef.values):
+                            if value not in self.dtd.notations:
+                                self.validity_error(
+                                    "Notation Attributes: notation %s used "
+                                    "in declaration of attribute %s on "
+                                    "element %s has not been declared" %
+                                    (value, aname, ename))
             for ename in dict_keys(self.dtd.general_entities):
                 edef = self.dtd.general_entities[ename]
                 if edef.notation and edef.notation not in self.dtd.notations:
-- 
2.43.0


From ca5915c525ec9f1eb8f1e99a00fb93641c014fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:32 +0000
Subject: [PATCH 217/273] fix: the message for an unresolved IDREF did not name
 it

---
 pyslet/xml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 1f35344..8070abc 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1209,7 +1209,8 @@ class XMLParser(PEP8Compatibility):
             for idref in dict_keys(self.idRefTable):
                 if idref not in self.idTable:
                     self.validity_error(
-                        "IDREF: %s does not match any ID attribute value")
+                        "IDREF: %s does not match any ID attribute value" %
+                        idref)
         self.parse_misc()
         if self.the_char is not None and not self.dont_check_wellformedness:
             self.well_formedness_error(
-- 
2.43.0


From d202da5eaa7b03d2760442c0185e1d8e5671c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:11 +0000
Subject: [PATCH 218/273] fix: empty CDATA sections were valid in elements
 declared EMPTY

---
 pyslet/xml/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 8070abc..9dba785 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2754,6 +2754,14 @@ class XMLParser(PEP8Compatibility):
                             self.buff_text(xml.CDATA_START)
                             self.unhandled_data('')
                         else:
+                            if (self.check_validity and
+                                    self.elementType and
+                                    self.elementType.content_type ==
+                                    xml.ElementType.Empty):
+                                self.validity_error(
+                                    "Element Valid: CDATA section not "
+                                    "allowed in element declared EMPTY: %s" %
+                                    self.elementType.name)
                             self.parse_cdsect(True)
                     else:
                         self.well_formedness_error(
-- 
2.43.0


From ab2c743a694f0f03a0101824301292059c6a6565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:11 +0000
Subject: [PATCH 219/273] fix: repeated declarations of ID and NOTATION
 attributes, which are ignored, were reported as invalid

---
 pyslet/xml/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 9dba785..d68ff80 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3242,7 +3242,7 @@ class XMLParser(PEP8Compatibility):
                                     "must have a declared default of #IMPLIED "
                                     "or #REQUIRED" % a.name)
                             alist = self.dtd.get_attribute_list(name)
-                            if alist:
+                            if alist and a.name not in alist:
                                 for ia in dict_values(alist):
                                     if (ia.type ==
                                             xml.XMLAttributeDefinition.ID):
@@ -3253,7 +3253,7 @@ class XMLParser(PEP8Compatibility):
                                             "ID attribute" % (a.name, name))
                         elif a.type == xml.XMLAttributeDefinition.NOTATION:
                             alist = self.dtd.get_attribute_list(name)
-                            if alist:
+                            if alist and a.name not in alist:
                                 for ia in dict_values(alist):
                                     if (ia.type ==
                                             xml.XMLAttributeDefinition.
-- 
2.43.0


From e383f5a54ecc651e455681a716349fe8d0cb7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 220/273] fix: references to QTI template variables raised
 AttributeError

---
 pyslet/qtiv2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/core.py b/pyslet/qtiv2/core.py
index 7b30c36..5756e27 100755
--- a/pyslet/qtiv2/core.py
+++ b/pyslet/qtiv2/core.py
@@ -381,6 +381,6 @@ def get_template_ref(value):
     the value does not look like a template variable reference."""
     if value.startswith('{') and value.endswith('}'):
         id_value = value[1:-1]
-        if xsi.is_valid_ncname(id_value):
+        if xmlns.is_valid_ncname(id_value):
             return id_value
     return None
-- 
2.43.0


From d11e4da9c140416cc9e87fb036e25b82ef669546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 221/273] fix: bad numbers and references to undeclared
 variables in QTI expressions were not processing errors

---
 pyslet/qtiv2/expressions.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 544eec6..71066ef 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -24,14 +24,27 @@ class Expression(core.QTIElement):
         """Evaluates this expression in the context of the session *state*."""
         raise NotImplementedError("Evaluation of %s" % self.__class__.__name__)
 
+    def _template_ref(self, value):
+        if value is None:
+            raise core.ProcessingError(
+                "%s: missing required attribute" % self.__class__.__name__)
+        return core.get_template_ref(value)
+
+    def _is_template(self, state, ref):
+        try:
+            return state.is_template(ref)
+        except KeyError:
+            # not declared
+            return False
+
     def integer_or_template_ref(self, state, value):
         """Given a value of type integerOrTemplateRef this method returns the
         corresponding integer by looking up the value, if necessary, in
         *state*.  If value is a variable reference to a variable with NULL
         value then None is returned."""
-        ref = core.GetTemplateRef(value)
+        ref = self._template_ref(value)
         if ref:
-            if state.IsTemplate(ref):
+            if self._is_template(state, ref):
                 v = state[ref]
                 if isinstance(v, variables.IntegerValue):
                     return v.value
@@ -42,16 +55,19 @@ class Expression(core.QTIElement):
                 raise core.ProcessingError(
                     "Bad reference: %s is not a template variable" % ref)
         else:
-            return xsi.integer_from_str(value)
+            try:
+                return xsi.integer_from_str(value)
+            except ValueError as err:
+                raise core.ProcessingError(str(err))
 
     def float_or_template_ref(self, state, value):
         """Given a value of type floatOrTemplateRef this method returns the
         corresponding float by looking up the value, if necessary, in
         *state*.  If value is a variable reference to a variable with NULL
         value then None is returned."""
-        ref = core.GetTemplateRef(value)
+        ref = self._template_ref(value)
         if ref:
-            if state.IsTemplate(ref):
+            if self._is_template(state, ref):
                 v = state[ref]
                 if isinstance(v, variables.FloatValue):
                     return v.value
@@ -62,7 +78,10 @@ class Expression(core.QTIElement):
                 raise core.ProcessingError(
                     "Bad reference: %s is not a template variable" % ref)
         else:
-            return xsi.double_from_str(value)
+            try:
+                return xsi.double_from_str(value)
+            except ValueError as err:
+                raise core.ProcessingError(str(err))
 
     def string_or_template_ref(self, state, value):
         """Given a value of type stringOrTemplateRef this method returns the
@@ -77,9 +96,9 @@ class Expression(core.QTIElement):
                 variable but there is no variable with the given name it should
                 be treated simply as string value"
         """
-        ref = core.GetTemplateRef(value)
+        ref = self._template_ref(value)
         if ref:
-            if state.IsTemplate(ref):
+            if self._is_template(state, ref):
                 v = state[ref]
                 if isinstance(v, variables.StringValue):
                     return v.value
-- 
2.43.0


From bcafd7b816c591e856b5531b4d0b6d73768d10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 222/273] fix: a base value that is not of its base type was
 not a processing error

---
 pyslet/qtiv2/expressions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 71066ef..2eb6a33 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -142,7 +142,12 @@ class BaseValue(Expression):
         self.baseType = variables.BaseType.string
 
     def evaluate(self, state):
-        return variables.SingleValue.NewValue(self.baseType, self.get_value())
+        try:
+            return variables.SingleValue.new_value(
+                self.baseType, self.get_value())
+        except ValueError as err:
+            # not in the value set of baseType
+            raise core.ProcessingError(str(err))
 
 
 class Variable(Expression):
-- 
2.43.0


From d6178615013c0b282c6bbc8b5c5c672890c0bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 223/273] fix: the QTI multiple and ordered operators accepted
 records and typed NULLs of the wrong cardinality

---
 pyslet/qtiv2/expressions.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 2eb6a33..790137f 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -460,6 +460,11 @@ class Multiple(NOperator):
         values = list(self.evaluate_children(state))
         vinput = []
         for v in values:
+            if v.cardinality() not in (variables.Cardinality.single,
+                                       variables.Cardinality.multiple,
+                                       None):
+                raise core.ProcessingError(
+                    "Ordered or Record values not allowed in Mutiple")
             if v.baseType is None:
                 continue
             if base_type is None:
@@ -473,15 +478,12 @@ class Multiple(NOperator):
             if not v:
                 # ignore NULL
                 continue
-            if v.Cardinality() == variables.Cardinality.single:
+            if v.cardinality() == variables.Cardinality.single:
                 vinput.append(v.value)
-            elif v.Cardinality() == variables.Cardinality.multiple:
+            else:
                 # apologies for the obscure code, but this turns {'x':2,'y':3}
                 # into ['y', 'y', 'y', 'x', 'x']
                 vinput = vinput + list(v.get_values())
-            else:
-                raise core.ProcessingError(
-                    "Ordered or Record values not allowed in Mutiple")
         # finally we have a matching list of input values
         result = variables.MultipleContainer(base_type)
         result.set_value(vinput)
@@ -508,6 +510,11 @@ class Ordered(NOperator):
         values = list(self.evaluate_children(state))
         vinput = []
         for v in values:
+            if v.cardinality() not in (variables.Cardinality.single,
+                                       variables.Cardinality.ordered,
+                                       None):
+                raise core.ProcessingError(
+                    "Multiple or Record values not allowed in Ordered")
             if v.baseType is None:
                 continue
             if base_type is None:
@@ -521,13 +528,10 @@ class Ordered(NOperator):
             if not v:
                 # ignore NULL
                 continue
-            if v.Cardinality() == variables.Cardinality.single:
+            if v.cardinality() == variables.Cardinality.single:
                 vinput.append(v.value)
-            elif v.Cardinality() == variables.Cardinality.ordered:
-                vinput = vinput + list(v.value)
             else:
-                raise core.ProcessingError(
-                    "Multiple or Record values not allowed in Ordered")
+                vinput = vinput + list(v.value)
         # finally we have a matching list of input values
         result = variables.OrderedContainer(base_type)
         result.set_value(vinput)
-- 
2.43.0


From 1b2663e0fabf42eefc8b70706c2c222898be4fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:11 +0000
Subject: [PATCH 224/273] fix: containerSize, index and fieldValue refused NULL

---
 pyslet/qtiv2/expressions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 790137f..6eee86f 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -568,6 +568,9 @@ class ContainerSize(UnaryOperator):
                 return variables.IntegerValue(sum)
             else:
                 return variables.IntegerValue(0)
+        elif value.cardinality() is None:
+            # NULL of unknown type, an empty container
+            return variables.IntegerValue(0)
         else:
             raise core.ProcessingError(
                 "Ordered or Multiple value required for containerSize")
@@ -630,6 +633,9 @@ class Index(UnaryOperator):
                 elif self.n <= len(value.value):
                     result.set_value(value.value[self.n - 1])
             return result
+        elif value.cardinality() is None:
+            # NULL of unknown type
+            return variables.SingleValue.new_value(value.baseType)
         else:
             # wrong cardinality
             raise core.ProcessingError(
@@ -670,6 +676,9 @@ class FieldValue(UnaryOperator):
                 return value[self.fieldIdentifier]
             else:
                 return variables.SingleValue()
+        elif value.cardinality() is None:
+            # NULL of unknown type
+            return variables.SingleValue()
         else:
             # wrong cardinality
             raise core.ProcessingError(
@@ -705,8 +714,8 @@ class Random(UnaryOperator):
             if value:
                 result.set_value(random.choice(list(value.get_values())))
             return result
-        elif value.Cardinality() is None:
-            return variables.SingleValue()
+        elif value.cardinality() is None:
+            return variables.SingleValue.new_value(value.baseType)
         else:
             # wrong cardinality
             raise core.ProcessingError(
-- 
2.43.0


From 04d7c36a75511277f1a75390e74b175aa6a7de99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:11 +0000
Subject: [PATCH 225/273] fix: the QTI member, delete and contains operators
 did not check the types of all operands

---
 pyslet/qtiv2/expressions.py | 74 +++++++++++++++----------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 6eee86f..07a5eea 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -746,32 +746,27 @@ class Member(NOperator):
             raise core.ProcessingError(
                 "Member requires two sub-expressions, found %i" % len(values))
         singleValue, containerValue = values
-        if singleValue.baseType is None or containerValue.baseType is None:
-            return variables.BooleanValue()
-        if singleValue.baseType != containerValue.baseType:
-            raise core.ProcessingError(
-                "Mismatched base types for member operator")
-        if singleValue.baseType == variables.BaseType.duration:
+        base_type = variables.check_base_types(
+            singleValue.baseType, containerValue.baseType)
+        if base_type == variables.BaseType.duration:
             raise core.ProcessingError(
                 "Member operator must not be used on duration values")
+        if singleValue.cardinality() not in (variables.Cardinality.single,
+                                             None):
+            raise core.ProcessingError(
+                "Expected single value, found %s" %
+                variables.Cardinality.to_str(
+                    singleValue.cardinality()))
+        if containerValue.cardinality() not in (variables.Cardinality.ordered,
+                                                variables.Cardinality.multiple,
+                                                None):
+            raise core.ProcessingError(
+                "Expected ordered or multiple value, found %s" %
+                variables.Cardinality.to_str(
+                    containerValue.cardinality()))
         if singleValue and containerValue:
-            if singleValue.Cardinality() != variables.Cardinality.single:
-                raise core.ProcessingError(
-                    "Expected single value, found %s" %
-                    variables.Cardinality.to_str(
-                        singleValue.Cardinality()))
-            if containerValue.Cardinality() == variables.Cardinality.ordered:
-                return variables.BooleanValue(
-                    singleValue.value in containerValue.value)
-            elif (containerValue.Cardinality() ==
-                  variables.Cardinality.multiple):
-                return variables.BooleanValue(
-                    singleValue.value in containerValue.value)
-            else:
-                raise core.ProcessingError(
-                    "Expected ordered or multiple value, found %s" %
-                    variables.Cardinality.to_str(
-                        containerValue.Cardinality()))
+            return variables.BooleanValue(
+                singleValue.value in containerValue.value)
         else:
             return variables.BooleanValue()
 
@@ -798,18 +793,9 @@ class Delete(NOperator):
             raise core.ProcessingError(
                 "Delete requires two sub-expressions, found %i" % len(values))
         singleValue, containerValue = values
-        if containerValue.baseType is None:
-            return variables.Container.NewValue(
-                containerValue.Cardinality(),
-                singleValue.baseType)
-        elif singleValue.baseType is None:
-            return variables.Container.NewValue(
-                containerValue.Cardinality(),
-                containerValue.baseType)
-        elif singleValue.baseType != containerValue.baseType:
-            raise core.ProcessingError(
-                "Mismatched base types for delete operator")
-        if singleValue.baseType == variables.BaseType.duration:
+        base_type = variables.check_base_types(
+            singleValue.baseType, containerValue.baseType)
+        if base_type == variables.BaseType.duration:
             raise core.ProcessingError(
                 "Delete operator must not be used on duration values")
         if singleValue.Cardinality() not in (variables.Cardinality.single,
@@ -825,8 +811,8 @@ class Delete(NOperator):
                 "Expected ordered or multiple value, found %s" %
                 variables.Cardinality.to_str(
                     containerValue.Cardinality()))
-        result = variables.Container.NewValue(
-            containerValue.Cardinality(), containerValue.baseType)
+        result = variables.Container.new_value(
+            containerValue.cardinality(), base_type)
         if singleValue and containerValue:
             # we treat multiple and ordered the same, less efficient as we
             # enumerate all members
@@ -869,8 +855,12 @@ class Contains(NOperator):
         if base_type == variables.BaseType.duration:
             raise core.ProcessingError(
                 "Contains operator must not be used on duration values")
-        if cardinality is None or base_type is None:
-            return variables.BooleanValue()
+        if cardinality not in (variables.Cardinality.ordered,
+                               variables.Cardinality.multiple,
+                               None):
+            raise core.ProcessingError(
+                "Expected ordered or multiple value, found %s" %
+                variables.Cardinality.to_str(cardinality))
         if v1 and v2:
             if cardinality == variables.Cardinality.ordered:
                 # we use a naive implementation here as we don't expect large
@@ -887,7 +877,7 @@ class Contains(NOperator):
                     if match:
                         return variables.BooleanValue(True)
                 return variables.BooleanValue(False)
-            elif cardinality == variables.Cardinality.multiple:
+            else:
                 # this is much easier to do
                 match = True
                 for iv1 in v1.value:
@@ -896,10 +886,6 @@ class Contains(NOperator):
                         match = False
                         break
                 return variables.BooleanValue(match)
-            else:
-                raise core.ProcessingError(
-                    "Expected ordered or multiple value, found %s" %
-                    variables.Cardinality.to_str(cardinality))
         else:
             return variables.BooleanValue()
 
-- 
2.43.0


From de7f2b79f2b42f466a7c42d592b178e60aad6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:11 +0000
Subject: [PATCH 226/273] fix: the tolerance of the QTI equal operator was not
 read as a list

---
 pyslet/qtiv2/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 07a5eea..12a1755 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1282,7 +1282,7 @@ class Equal(NOperator):
         'toleranceMode',
         ToleranceMode.from_str_lower,
         ToleranceMode.to_str)
-    XMLATTR_tolerance = 'tolerance'
+    XMLATTR_tolerance = ('tolerance', None, None, list)
     XMLATTR_includeLowerBound = (
         'includeLowerBound', xsi.boolean_from_str, xsi.boolean_to_str)
     XMLATTR_includeUpperBound = (
-- 
2.43.0


From ef5dc33fc54fd66f41c28c453bddd33500c38df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 227/273] fix: equalRounded raised ValueError for infinite
 values and a bad number of figures

---
 pyslet/qtiv2/expressions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 12a1755..b8dc8d7 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1417,6 +1417,17 @@ class EqualRounded(NOperator):
             v1v = float(v1.value)
             v2v = float(v2.value)
             figures = self.integer_or_template_ref(state, self.figures)
+            if figures is None:
+                return variables.BooleanValue()
+            if (figures < 0 or (
+                    figures == 0 and
+                    self.roundingMode != RoundingMode.decimalPlaces)):
+                raise core.ProcessingError(
+                    "equalRounded requires positive figures, found %i" %
+                    figures)
+            if any(math.isinf(v) or math.isnan(v) for v in (v1v, v2v)):
+                # can't be rounded
+                return variables.BooleanValue(v1v == v2v)
             if self.roundingMode == RoundingMode.decimalPlaces:
                 return variables.BooleanValue(
                     xsi.decimal_to_str(
-- 
2.43.0


From 074ac0714f6ab61b31f3d15935f7e0bad3c45d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 228/273] fix: QTI expressions raised TypeError for references
 to NULL template variables, and ValueError for empty ranges

---
 pyslet/qtiv2/expressions.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index b8dc8d7..ac5406b 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -366,14 +366,14 @@ class RandomInteger(Expression):
         min = self.integer_or_template_ref(state, self.min)
         max = self.integer_or_template_ref(state, self.max)
         step = self.integer_or_template_ref(state, self.step)
-        return variables.IntegerValue(
-            min +
-            step *
-            random.randint(
-                0,
-                (max -
-                 min) //
-                step))
+        if min is None or max is None or step is None:
+            return variables.IntegerValue()
+        try:
+            return variables.IntegerValue(
+                min + step * random.randint(0, (max - min) // step))
+        except (ValueError, ZeroDivisionError):
+            raise core.ProcessingError(
+                "randomInteger: bad range [%i,%i] step %i" % (min, max, step))
 
 
 class RandomFloat(Expression):
@@ -400,6 +400,8 @@ class RandomFloat(Expression):
     def evaluate(self, state):
         min = self.float_or_template_ref(state, self.min)
         max = self.float_or_template_ref(state, self.max)
+        if min is None or max is None:
+            return variables.FloatValue()
         # strictly speaking, we can never return max, but due to possible
         # rounding this point is academic
         return variables.FloatValue(min + random.random() * (max - min))
@@ -1064,6 +1066,8 @@ class AnyN(NOperator):
                                       *[x.Cardinality() for x in values])
         variables.check_base_types(variables.BaseType.boolean,
                                    *[x.baseType for x in values])
+        if min is None or max is None:
+            return variables.BooleanValue()
         ntrue = nnull = 0
         for v in values:
             if v.value:
@@ -1204,6 +1208,8 @@ class PatternMatch(UnaryOperator):
         variables.check_cardinalities(
             value.Cardinality(), variables.Cardinality.single)
         if value:
+            if pattern is None:
+                return variables.BooleanValue()
             try:
                 re = xsi.RegularExpression(pattern)
                 return variables.BooleanValue(re.match(value.value))
@@ -1319,6 +1325,8 @@ class Equal(NOperator):
                     t1 = self.float_or_template_ref(state, self.tolerance[1])
                 else:
                     t1 = t0
+                if t0 is None or t1 is None:
+                    return variables.BooleanValue()
                 if self.toleranceMode == ToleranceMode.absolute:
                     lower_bound = v1v - t0
                     upper_bound = v1v + t1
-- 
2.43.0


From 33b4afd5c8ea15c47658deb890c57ee063bbfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 229/273] fix: QTI integer operators raised ValueError and
 OverflowError for results out of range, round rounded up the number before
 0.5

---
 pyslet/qtiv2/expressions.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index ac5406b..9ee08ce 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -19,6 +19,15 @@ class Expression(core.QTIElement):
 
     """Abstract class for all expression elements."""
 
+    @staticmethod
+    def integer_result(value):
+        """Returns an integer value or NULL if *value* is outside the set of
+        values defined by integer."""
+        try:
+            return variables.IntegerValue(int(value))
+        except (ValueError, OverflowError):
+            return variables.IntegerValue()
+
     @old_method('Evaluate')
     def evaluate(self, state):
         """Evaluates this expression in the context of the session *state*."""
@@ -1759,7 +1768,7 @@ class Sum(NOperator):
             return variables.FloatValue(float(sum))
         else:
             # sum will still be of type integer at this point
-            return variables.IntegerValue(sum)
+            return self.integer_result(sum)
 
 
 class Product(NOperator):
@@ -1803,7 +1812,7 @@ class Product(NOperator):
             return variables.FloatValue(float(product))
         else:
             # sum will still be of type integer at this point
-            return variables.IntegerValue(product)
+            return self.integer_result(product)
 
 
 class Subtract(NOperator):
@@ -1841,7 +1850,7 @@ class Subtract(NOperator):
                 v2v = float(v2.value)
                 return variables.FloatValue(v1v - v2v)
             else:
-                return variables.IntegerValue(v1.value - v2.value)
+                return self.integer_result(v1.value - v2.value)
         else:
             if base_type == variables.BaseType.float:
                 return variables.FloatValue()
@@ -1953,7 +1962,7 @@ class IntegerDivide(NOperator):
             v1.Cardinality(), v2.Cardinality(), variables.Cardinality.single)
         if v1 and v2:
             try:
-                return variables.IntegerValue(v1.value // v2.value)
+                return self.integer_result(v1.value // v2.value)
             except ZeroDivisionError:
                 return variables.IntegerValue()
         else:
@@ -2016,7 +2025,7 @@ class Truncate(UnaryOperator):
         variables.check_cardinalities(
             value.Cardinality(), variables.Cardinality.single)
         if value:
-            return variables.IntegerValue(int(value.value))
+            return self.integer_result(value.value)
         else:
             return variables.IntegerValue()
 
@@ -2042,7 +2051,12 @@ class Round(UnaryOperator):
         variables.check_cardinalities(
             value.Cardinality(), variables.Cardinality.single)
         if value:
-            return variables.IntegerValue(int(math.floor(value.value + 0.5)))
+            if math.isinf(value.value) or math.isnan(value.value):
+                return variables.IntegerValue()
+            result = math.floor(value.value)
+            if value.value - result >= 0.5:
+                result += 1
+            return self.integer_result(result)
         else:
             return variables.IntegerValue()
 
-- 
2.43.0


From 8aed4605161b7459297afad039ec66c18efb29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 230/273] fix: the QTI power operator raised OverflowError

---
 pyslet/qtiv2/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 9ee08ce..822bc84 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1924,7 +1924,7 @@ class Power(NOperator):
             v2v = float(v2.value)
             try:
                 return variables.FloatValue(math.pow(v1v, v2v))
-            except ValueError:
+            except (ValueError, OverflowError):
                 # If the resulting value is outside the value set defined by
                 # float (not including positive and negative infinity) then the
                 # operator shall result in NULL
-- 
2.43.0


From 88b5484a900e35f34fa9919875fc7d823a08f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 231/273] fix: QTI integers out of range were accepted in text
 form

---
 pyslet/qtiv2/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 52964ef..f3f8315 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -701,6 +701,8 @@ class IntegerValue(SingleValue):
         integers are accepted from long or plain integer values provided they
         are within the ranges specified in the QTI specification:
         -2147483648...2147483647."""
+        if is_text(value):
+            value = xsi.integer_from_str(value)
         if value is None:
             self.value = None
         elif isinstance(value, (int, long2)):
@@ -709,8 +711,6 @@ class IntegerValue(SingleValue):
                 raise ValueError("Integer range: %s" % repr(value))
             else:
                 self.value = int(value)
-        elif is_text(value):
-            self.value = xsi.integer_from_str(value)
         else:
             self.value_error(value)
 
-- 
2.43.0


From a0e407b59e88812649820319e98757473414409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 232/273] fix: the QTI inside operator raised ValueError for
 bad coordinates

---
 pyslet/qtiv2/expressions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 822bc84..09832f5 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1495,16 +1495,20 @@ class Inside(UnaryOperator, core.ShapeElementMixin):
         UnaryOperator.__init__(self, parent)
         core.ShapeElementMixin.__init__(self)
 
+    def _test_point(self, point):
+        try:
+            if self.coords is None and self.shape != core.Shape.default:
+                raise ValueError("missing coords")
+            return self.test_point(point, None, None)
+        except ValueError as err:
+            raise core.ProcessingError("inside: %s" % str(err))
+
     def evaluate(self, state):
         value = self.Expression.evaluate(state)
         variables.check_base_types(value.baseType, variables.BaseType.point)
         if value.Cardinality() == variables.Cardinality.single:
             if value:
-                return variables.BooleanValue(
-                    self.TestPoint(
-                        value.value,
-                        None,
-                        None))
+                return variables.BooleanValue(self._test_point(value.value))
             else:
                 return variables.BooleanValue()
         elif value.Cardinality() in (variables.Cardinality.ordered,
@@ -1515,7 +1519,7 @@ class Inside(UnaryOperator, core.ShapeElementMixin):
                 else:
                     vlist = value.value
                 for value in vlist:
-                    if self.TestPoint(value, None, None):
+                    if self._test_point(value):
                         return variables.BooleanValue(True)
                 return variables.BooleanValue(False)
             else:
-- 
2.43.0


From 83c5609afec6517ad9dc449a23e13c39900d3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 233/273] fix: QTI values had no text form in Python 3

---
 pyslet/qtiv2/variables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index f3f8315..9d30356 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -25,7 +25,8 @@ from ..py2 import (
     range3,
     SortableMixin,
     uempty,
-    ul)
+    ul,
+    UnicodeMixin)
 from ..rfc2396 import URI
 from ..xml import structures as xml
 from ..xml import namespace as xmlns
@@ -242,7 +243,7 @@ class NullResult(core.QTIError):
         self.value = value
 
 
-class Value(MigratedClass, BoolMixin):
+class Value(MigratedClass, BoolMixin, UnicodeMixin):
 
     """Represents a single value in the processing model.
 
@@ -853,10 +854,10 @@ class Container(Value):
         if self.baseType is None:
             return ul(
                 "%s container of unknown base type") % Cardinality.to_str(
-                    self.Cardinality)
+                    self.cardinality())
         else:
             return ul("%s container of base type %s") % (
-                Cardinality.to_str(self.Cardinality),
+                Cardinality.to_str(self.cardinality()),
                 BaseType.to_str(self.baseType))
 
     @classmethod
-- 
2.43.0


From 44d63ffbc0c53bc54146edb47a0a4c6958260cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 234/273] fix: copies of QTI multiple containers lost the
 frequencies of their values

---
 pyslet/qtiv2/variables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 9d30356..0a875e7 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -17,6 +17,7 @@ from ..pep8 import MigratedClass, old_method
 from ..py2 import (
     BoolMixin,
     byte,
+    dict_items,
     dict_keys,
     force_text,
     is_text,
@@ -945,6 +946,10 @@ class MultipleContainer(Container):
         if value is None:
             self.value = None
         else:
+            if isinstance(value, dict):
+                # the value of another container: values and frequencies
+                value = itertools.chain.from_iterable(
+                    itertools.repeat(v, n) for v, n in dict_items(value))
             self.value = {}
             for v in value:
                 if v is None:
-- 
2.43.0


From b85f994a1cdc55727ae2d7dd6683a192e1967930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 235/273] fix: copies of QTI records shared their fields with
 the original

---
 pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 0a875e7..eec5e7d 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -1014,7 +1014,8 @@ class RecordContainer(Container):
                 if not v:
                     # ignore NULL, no need to type check in records
                     continue
-                new_value[f] = value[f]
+                # values are mutable, the record has its own
+                new_value[f] = Value.copy_value(v)
             if new_value:
                 self.value = new_value
             else:
-- 
2.43.0


From fcb60bd5410800342b664d5de96d902b3a97a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 236/273] fix: a QTI record emptied field by field was not NULL

---
 pyslet/qtiv2/variables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index eec5e7d..ca82e9e 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -1049,11 +1049,11 @@ class RecordContainer(Container):
             r['pi']                 # raises KeyError"""
         if value is None:
             if self.value and field_identifier in self.value:
-                del self.value[field_identifier]
+                del self[field_identifier]
         elif isinstance(value, SingleValue):
             if not value:
                 if self.value and field_identifier in self.value:
-                    del self.value[field_identifier]
+                    del self[field_identifier]
             else:
                 if self.value is None:
                     self.value = {field_identifier: value}
@@ -1065,6 +1065,9 @@ class RecordContainer(Container):
     def __delitem__(self, field_identifier):
         if self.value:
             del self.value[field_identifier]
+            if not self.value:
+                # an empty container is NULL
+                self.value = None
         else:
             raise KeyError(field_identifier)
 
-- 
2.43.0


From 104775cba5d472c24a2bb9c540e779bd408e763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 237/273] fix: QTI file values could not be created or set

---
 pyslet/qtiv2/variables.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index ca82e9e..050e1bd 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -553,7 +553,7 @@ class FileValue(SingleValue):
 
     """Represents single value of type :py:class:`BaseType.file`."""
 
-    def __init__(self):
+    def __init__(self, value=None):
         super(FileValue, self).__init__()
         self.baseType = BaseType.file
         self.contentType = params.MediaType.from_str(
@@ -562,6 +562,8 @@ class FileValue(SingleValue):
         :py:class:`pyslet.http.params.MediaType` instance."""
         self.file_name = "data.bin"
         """The file name to use for the file."""
+        if value is not None:
+            self.set_value(value)
 
     def __unicode__(self):
         if self.value is None:
@@ -583,14 +585,16 @@ class FileValue(SingleValue):
         If value is a plain string then it is assumed to represent the file's
         data directly, *type* and *name* are used to interpret the data.
         Other file type objects are set in the same way."""
+        if is_text(type):
+            type = params.MediaType.from_str(type)
         self.contentType = type
         self.file_name = name
         if value is None:
             self.value = None
-        elif isinstance(value, file):
+        elif hasattr(value, 'read') and hasattr(value, 'seek'):
             self.value = value
         elif isinstance(value, bytes):
-            self.value = BytesIO.BytesIO(value)
+            self.value = BytesIO(value)
         elif isinstance(value, str):
             # Parse this value from the MIME stream.
             raise NotImplementedError(
-- 
2.43.0


From 81b681ece2da9893e5c53d28b21a2aa7b300e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 238/273] fix: matchTable used the last matching entry instead
 of the first

---
 pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 050e1bd..f3ee23f 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -1645,7 +1645,8 @@ class MatchTable(LookupTable):
         self.map = {}
         for mte in self.MatchTableEntry:
             v = SingleValue.new_value(self.baseType, mte.targetValue)
-            self.map[mte.sourceValue] = v.value
+            # the first match is the one that counts
+            self.map.setdefault(mte.sourceValue, v.value)
 
     def lookup(self, value):
         """Maps an instance of :py:class:`Value` with integer base type to an
-- 
2.43.0


From 4a962a8d511deafd879f6d33a659e5ad5612a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 239/273] fix: QTI containers refusing a value were left empty
 but not NULL

---
 pyslet/qtiv2/variables.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index f3ee23f..f64acd4 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -904,7 +904,8 @@ class OrderedContainer(Container):
             self.value = None
         else:
             # assume that value is iterable
-            self.value = []
+            self.value = None
+            new_value = []
             for v in value:
                 if v is None:
                     # ignore NULLs
@@ -915,9 +916,9 @@ class OrderedContainer(Container):
                         "Can't create non-empty ordered container without a"
                         " base type")
                 v_add = SingleValue.new_value(self.baseType, v)
-                self.value.append(v_add.value)
-            if not self.value:
-                self.value = None
+                new_value.append(v_add.value)
+            if new_value:
+                self.value = new_value
 
     def get_values(self):
         """Returns an iterable of values in the ordered container."""
@@ -954,7 +955,8 @@ class MultipleContainer(Container):
                 # the value of another container: values and frequencies
                 value = itertools.chain.from_iterable(
                     itertools.repeat(v, n) for v, n in dict_items(value))
-            self.value = {}
+            self.value = None
+            new_value = {}
             for v in value:
                 if v is None:
                     # ignore NULLs
@@ -965,9 +967,9 @@ class MultipleContainer(Container):
                         "Can't create non-empty multiple container without a"
                         " base type")
                 v_add = SingleValue.new_value(self.baseType, v)
-                self.value[v_add.value] = self.value.get(v_add.value, 0) + 1
-            if not self.value:
-                self.value = None
+                new_value[v_add.value] = new_value.get(v_add.value, 0) + 1
+            if new_value:
+                self.value = new_value
 
     def get_values(self):
         """Returns an iterable of values in the ordered container."""
-- 
2.43.0


From eb7c5c9c4321e114de22dd1ab681994585adb17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:19 +0000
Subject: [PATCH 240/273] fix: setting a QTI uri from text that is not a URI
 raised URIException

---
 pyslet/qtiv2/variables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index f64acd4..e532d4c 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -28,7 +28,7 @@ from ..py2 import (
     uempty,
     ul,
     UnicodeMixin)
-from ..rfc2396 import URI
+from ..rfc2396 import URI, URIException
 from ..xml import structures as xml
 from ..xml import namespace as xmlns
 from ..xml import xsdatatypes as xsi
@@ -826,7 +826,10 @@ class URIValue(SingleValue):
         if value is None:
             self.value = None
         elif is_text(value):
-            self.value = URI.from_octets(value)
+            try:
+                self.value = URI.from_octets(value)
+            except URIException as e:
+                raise ValueError(str(e))
         elif isinstance(value, URI):
             self.value = value
         else:
-- 
2.43.0


From 6a96ee82330664618fee29de304a2bb7b59ff5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:19 +0000
Subject: [PATCH 241/273] fix: the text form of a QTI uri raised TypeError

---
 pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index e532d4c..7a5e55c 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -25,6 +25,7 @@ from ..py2 import (
     long2,
     range3,
     SortableMixin,
+    to_text,
     uempty,
     ul,
     UnicodeMixin)
@@ -819,7 +820,7 @@ class URIValue(SingleValue):
         if self.value is None:
             return uempty
         else:
-            return force_text(self.value)
+            return to_text(self.value)
 
     def set_value(self, value):
         """Sets a uri value from a string or another URI instance."""
-- 
2.43.0


From 5b821359f839011c43257c9a6b5b536fd4c5af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:36 +0000
Subject: [PATCH 242/273] fix: shuffling sections in a QTI test raised
 AttributeError

---
 pyslet/qtiv2/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/tests.py b/pyslet/qtiv2/tests.py
index 165c623..50a646f 100755
--- a/pyslet/qtiv2/tests.py
+++ b/pyslet/qtiv2/tests.py
@@ -723,7 +723,7 @@ class TestForm(MigratedClass):
                     new_bucket.append(childID)
                     child = self.test.GetPart(childID)
                     if isinstance(child, AssessmentSection):
-                        new_bucket.extend(self.Select(childID, True))
+                        new_bucket.extend(self.Select(child, True))
                         new_bucket.append("-" + childID)
                 i = selection.index(None)
                 selection[i:i + 1] = new_bucket
-- 
2.43.0


From 3ae60e958aa79aea7fedadb8ec921fac9ebac72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:36 +0000
Subject: [PATCH 243/273] fix: sections of a split section in a QTI test were
 expanded before shuffling

---
 pyslet/qtiv2/tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/tests.py b/pyslet/qtiv2/tests.py
index 50a646f..24cc801 100755
--- a/pyslet/qtiv2/tests.py
+++ b/pyslet/qtiv2/tests.py
@@ -722,7 +722,8 @@ class TestForm(MigratedClass):
                 for childID in b:
                     new_bucket.append(childID)
                     child = self.test.GetPart(childID)
-                    if isinstance(child, AssessmentSection):
+                    if (isinstance(child, AssessmentSection) and
+                            expand_children):
                         new_bucket.extend(self.Select(child, True))
                         new_bucket.append("-" + childID)
                 i = selection.index(None)
-- 
2.43.0


From 2a6763033a3e24667481113116509897c2688a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:36 +0000
Subject: [PATCH 244/273] fix: shuffling an empty split section in a QTI test
 raised IndexError

---
 pyslet/qtiv2/tests.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/tests.py b/pyslet/qtiv2/tests.py
index 24cc801..c8eeee2 100755
--- a/pyslet/qtiv2/tests.py
+++ b/pyslet/qtiv2/tests.py
@@ -692,7 +692,7 @@ class TestForm(MigratedClass):
                     new_selection = new_selection + self.Select(child, True)
                     new_selection.append("-" + child.identifier)
         selection = new_selection
-        if shuffle_list:
+        if None in selection:
             # Step 5: shuffle!
             random.shuffle(shuffle_list)
             # Expanded invisible sections may mean we have more shuffled
@@ -709,7 +709,9 @@ class TestForm(MigratedClass):
             buckets = []
             for child in selection:
                 if child is None:
-                    buckets.append([shuffle_list[i]])
+                    # there may be fewer items than slots as an
+                    # expanded section may have been empty
+                    buckets.append(shuffle_list[i:i + 1])
                     i += 1
             while i < len(shuffle_list):
                 # choose a random bucket
-- 
2.43.0


From dbfadbf9f5ea60d2edda700c2a4764953fb3208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 245/273] fix: submissions of ordered responses in QTI items
 raised AttributeError

---
 pyslet/qtiv2/variables.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 7a5e55c..27ac1bb 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2078,11 +2078,9 @@ class ItemSessionState(SessionState):
                 if len(rname) != 2:
                     continue
                 try:
-                    if (rd.baseType == BaseType.Identifier and
-                            core.ValidateIdentifier(rname[1])):
-                        if is_text(svalue):
-                            v.set_value(svalue)
-                        else:
+                    if (rd.baseType == BaseType.identifier and
+                            xmlns.is_valid_ncname(rname[1])):
+                        if not is_text(svalue):
                             raise ValueError
                         rank = xsi.integer_from_str(svalue)
                         svalue = rname[1]
-- 
2.43.0


From bdaae03e1f1bcc967c6809ca3c58585f4af05686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 246/273] fix: unexpected parameters submitted to QTI items
 raised KeyError

---
 pyslet/qtiv2/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 27ac1bb..9d5422d 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2042,7 +2042,10 @@ class ItemSessionState(SessionState):
             if not rname:
                 continue
             # rname must be the name of a response variable
-            rd = self.get_declaration(rname[0])
+            try:
+                rd = self.get_declaration(rname[0])
+            except KeyError:
+                rd = None
             if rd is None or not isinstance(rd, ResponseDeclaration):
                 # unexpected item in bagging area!
                 raise BadSessionParams(
-- 
2.43.0


From 87bcbda155f055b84cda27d887be7111762362d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 247/273] fix: bad values submitted to QTI items raised
 ValueError

---
 pyslet/qtiv2/variables.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 9d5422d..ce49da6 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2062,7 +2062,11 @@ class ItemSessionState(SessionState):
             if rd.cardinality == Cardinality.single:
                 # We are expecting a single value from the form
                 if is_text(svalue):
-                    v.set_value(svalue)
+                    try:
+                        v.set_value(svalue)
+                    except ValueError:
+                        raise BadSessionParams(
+                            "Bad value in submission for: %s" % p)
                 else:
                     raise BadSessionParams(
                         "Unexpected multi-value submission: %s" % p)
@@ -2070,9 +2074,12 @@ class ItemSessionState(SessionState):
                 # we are expecting a simple list of values
                 if is_text(svalue):
                     # single item list
-                    v.set_value([svalue])
-                else:
+                    svalue = [svalue]
+                try:
                     v.set_value(svalue)
+                except ValueError:
+                    raise BadSessionParams(
+                        "Bad value in submission for: %s" % p)
             elif rd.cardinality == Cardinality.ordered:
                 # there are two ways of setting these values, either
                 # RESPONSE.rank=VALUE or RESPONSE.VALUE=rank.  The latter
@@ -2113,7 +2120,11 @@ class ItemSessionState(SessionState):
                     svalue.append(rparams[r])
                 save_name = response + ".SAVED"
                 v = self.map[save_name]
-                v.set_value(svalue)
+                try:
+                    v.set_value(svalue)
+                except ValueError:
+                    raise BadSessionParams(
+                        "Bad value in submission for: %s" % response)
 
     def end_attempt(self):
         """Called at the end of an attempt.  Invokes response processing if
-- 
2.43.0


From 73d194f5fabbeb1de66f427e145d867827306bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 248/273] fix: EXIT_SECTION exited at the end of a nested
 section

---
 pyslet/qtiv2/variables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index ce49da6..a5283ea 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2308,6 +2308,8 @@ class TestSessionState(SessionState):
             return len(self.form)
         else:
             qpos = qpos + 1
+            # the number of sections we've entered since the start
+            depth = 0
             while True:
                 if qpos >= len(self.form):
                     return qpos
@@ -2318,12 +2320,16 @@ class TestSessionState(SessionState):
                 # handle the other special identifiers which move to the point
                 # just after the end of the part being exited
                 if id[0] == "-":
-                    if target == "EXIT_SECTION":
+                    if target == "EXIT_SECTION" and depth == 0:
                         return qpos
                     elif (target == "EXIT_TESTPART" and
                           isinstance(self.test.GetPart(id[1:]),
                                      tests.TestPart)):
                         return qpos
+                    depth = depth - 1
+                elif not isinstance(self.test.GetPart(id),
+                                    tests.AssessmentItemRef):
+                    depth = depth + 1
 
     def _next_question(self):
         if self.cQuestion is None:
-- 
2.43.0


From de488116dda23f9ba62d284ce0a036300afd8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 249/273] fix: sections and test parts failing their
 pre-conditions were not skipped

---
 pyslet/qtiv2/variables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index a5283ea..cadb65d 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2398,6 +2398,11 @@ class TestSessionState(SessionState):
                 else:
                     # skip this item
                     iq = iq + 1
+                    if not isinstance(part, tests.AssessmentItemRef):
+                        # and everything in this section or test part
+                        while self.form[iq] != "-" + id:
+                            iq = iq + 1
+                        iq = iq + 1
 
     def begin_session(self, key, html_parent=None):
         """Called at the start of a test session.  Represents a 'Start Test' event.
-- 
2.43.0


From 78715e2251ab05f924c239ec786a00fce558672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:57 +0000
Subject: [PATCH 250/273] fix: submitted ordered responses in QTI items raised
 KeyError

---
 pyslet/qtiv2/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index cadb65d..f5ea9d5 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2118,8 +2118,8 @@ class ItemSessionState(SessionState):
                 svalue = []
                 for r in ranks:
                     svalue.append(rparams[r])
-                save_name = response + ".SAVED"
-                v = self.map[save_name]
+                # keyed by the name of the saved value
+                v = self.map[response]
                 try:
                     v.set_value(svalue)
                 except ValueError:
-- 
2.43.0


From 96dda5c90d3aa16456b9aa4753f50bb9e7651161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:57 +0000
Subject: [PATCH 251/273] fix: QTI test sessions used keys again when the clock
 did not advance

---
 pyslet/qtiv2/variables.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index f5ea9d5..44e6cd3 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2266,13 +2266,13 @@ class TestSessionState(SessionState):
         if self.key:
             self.keyMap[self.key] = True
             self.prevKey = self.key
-            dt = self.t
+            t = self.t
             self.t = time.time()
-            dt = self.t - dt
-            if dt == 0.0:
-                # add a small time anyway
+            dt = self.t - t
+            if dt <= 0.0:
+                # add a small time anyway, the key depends on it
                 dt = 0.000001
-                self.t = self.t + dt
+                self.t = t + dt
         else:
             self.t = time.time()
             dt = 0.0
-- 
2.43.0


From bf16923edeac371c55e2b0aafc26402f267e2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:56 +0000
Subject: [PATCH 252/273] fix: file paths could not be compared with other
 objects and == and != agreed for strings

---
 pyslet/vfs.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index abbe54d..1f63d87 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -15,8 +15,8 @@ from .py2 import (
     builtins,
     byte,
     dict_keys,
+    is_string,
     is_unicode,
-    is_text,
     join_bytes,
     py2,
     range3,
@@ -219,6 +219,12 @@ class VirtualFilePath(SortableMixin):
         """Instances are sortable using character strings."""
         return to_text(self)
 
+    def otherkey(self, other):
+        """Instances can be compared with each other and with strings."""
+        if is_string(other):
+            other = self.__class__(other)
+        return super(VirtualFilePath, self).otherkey(other)
+
     def join(self, *components):
         """Returns a new instance by joining path components
 
@@ -614,17 +620,6 @@ class VirtualFilePath(SortableMixin):
         system."""
         raise NotImplementedError
 
-    def __eq__(self, other):
-        return self.path == self.path_str(other)
-
-    def __cmp__(self, other):
-        if is_text(other):
-            other = self.__class__(other)
-        elif self.__class__ is not other.__class__:
-            raise ValueError(
-                "Can't compare file paths from different file systems")
-        return cmp(to_text(self), to_text(other))
-
     def __hash__(self):
         return hash(self.__class__) | hash(to_text(self))
 
-- 
2.43.0


From 141b1b52f9cfc7f4218fda746961ce56ee2d7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:56 +0000
Subject: [PATCH 253/273] fix: comparing a URI with an object that is not a
 string raised AttributeError

---
 pyslet/rfc2396.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index b527a2e..279304f 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -11,6 +11,7 @@ from .py2 import (
     byte_value,
     character,
     CmpMixin,
+    is_string,
     is_text,
     is_unicode,
     join_bytes,
@@ -899,6 +900,8 @@ class URI(CmpMixin, PEP8Compatibility):
             self._canonical_octets = str(self.canonicalize())
         if other is not None:
             if not isinstance(other, URI):
+                if not is_string(other):
+                    return None
                 other = URI.from_octets(other)
             if other._canonical_octets is None:
                 other._canonical_octets = str(other.canonicalize())
@@ -907,24 +910,24 @@ class URI(CmpMixin, PEP8Compatibility):
             return self._canonical_octets, None
 
     def __eq__(self, other):
-        a, b = self._pre_cmp(other)
-        return a == b
+        ab = self._pre_cmp(other)
+        return NotImplemented if ab is None else ab[0] == ab[1]
 
     def __lt__(self, other):
-        a, b = self._pre_cmp(other)
-        return a < b
+        ab = self._pre_cmp(other)
+        return NotImplemented if ab is None else ab[0] < ab[1]
 
     def __gt__(self, other):
-        a, b = self._pre_cmp(other)
-        return a > b
+        ab = self._pre_cmp(other)
+        return NotImplemented if ab is None else ab[0] > ab[1]
 
     def __le__(self, other):
-        a, b = self._pre_cmp(other)
-        return a <= b
+        ab = self._pre_cmp(other)
+        return NotImplemented if ab is None else ab[0] <= ab[1]
 
     def __ge__(self, other):
-        a, b = self._pre_cmp(other)
-        return a >= b
+        ab = self._pre_cmp(other)
+        return NotImplemented if ab is None else ab[0] >= ab[1]
 
     def parse_scheme_specific_part(self):
         """Parses the scheme specific part of the URI
-- 
2.43.0


From 2d312b8fd7c06ccbdf7e73ceb3ec432970c6d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:34 +0000
Subject: [PATCH 254/273] fix: renamed methods of two mixins were not available
 under their old names

---
 pyslet/html401.py      | 3 ++-
 pyslet/qtiv1/common.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 160ff61..ab99acf 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -1431,7 +1431,7 @@ using the generic get_attribute."""
     pass
 
 
-class I18nMixin(object):
+class I18nMixin(MigratedClass):
 
     """Mixin class for i18n attributes
 ::
@@ -1443,6 +1443,7 @@ class I18nMixin(object):
     XMLATTR_lang = ('lang', xsi.name_from_str, xsi.name_to_str)
     XMLATTR_dir = ('dir', Direction.from_str_lower, Direction.to_str)
 
+    @old_method('GetLang')
     def get_lang(self):
         """Replaces access to xml:lang
 
diff --git a/pyslet/qtiv1/common.py b/pyslet/qtiv1/common.py
index fe8e680..98f1871 100755
--- a/pyslet/qtiv1/common.py
+++ b/pyslet/qtiv1/common.py
@@ -7,7 +7,7 @@ from . import core
 from .. import html401 as html
 from .. import imsmdv1p2p1 as imsmd
 from ..http import messages
-from ..pep8 import old_method
+from ..pep8 import MigratedClass, old_method
 from ..py2 import is_text, to_text
 from ..qtiv2 import xml as qtiv2
 from ..xml import structures as xml
@@ -56,7 +56,7 @@ class Duration(core.QTIElement):
     XMLCONTENT = xml.XMLMixedContent
 
 
-class ContentMixin(object):
+class ContentMixin(MigratedClass):
 
     """Mixin class for handling all content-containing elements.
 
@@ -72,6 +72,7 @@ class ContentMixin(object):
         ContentMixin in this context."""
         return True
 
+    @old_method('ChildElement')
     def add_child(self, child_class, name=None):
         """Creates a new child of this element.
 
-- 
2.43.0


From a5ea87534588042130c48effcb1430575a86287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:16 +0000
Subject: [PATCH 255/273] fix: media ranges that match the same types compared
 as different

---
 pyslet/http/messages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 082abe2..d4d3bf6 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2165,8 +2165,8 @@ class MediaRange(params.MediaType):
                                            repr(self.parameters)))
 
     def sortkey(self):
-        t = '~' if self.type == '*' else self.type
-        st = '~' if self.subtype == '*' else self.subtype
+        t = '~' if self.type == '*' else self.type.lower()
+        st = '~' if self.subtype == '*' else self.subtype.lower()
         # parameters sort before no parameters
         return (t, st, -len(self._hp), self._hp)
 
-- 
2.43.0


From 081ad69fbda7d41bd89d13ee260531f447f833dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:40 +0000
Subject: [PATCH 256/273] fix: the session test page failed when its session
 cookie was missing or forged

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 88f0d6a..fe172a0 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2344,7 +2344,7 @@ class SessionApp(WSGIDataApp):
                            "cookie tampering detected\n"
                            "cookie=%s\nUserAgent: %s",
                            context.environ.get('PATH_INFO', ''),
-                           cmsg, ua)
+                           cmsg_signed, ua)
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         if csession.sid != qsession.sid or csession.established:
-- 
2.43.0


From cb674793eeefdc51bb5cb31f7372512626233058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:24 +0000
Subject: [PATCH 257/273] fix: ISO 8601 dates, times, time points and durations
 followed by other text were accepted

---
 pyslet/iso8601.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 29d9c40..adeba7a 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -715,6 +715,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             d, dFormat = p.parse_date_format(base)
+            p.require_complete()
         else:
             raise TypeError
         return d
@@ -730,7 +731,9 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                         # f is set to "YYYY-MM-DD". """
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_date_format(base)
+            result = p.parse_date_format(base)
+            p.require_complete()
+            return result
         else:
             raise TypeError
 
@@ -1617,6 +1620,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             t, overflow, f = p.parse_time_format(base)
+            p.require_complete()
             return t
         else:
             raise TypeError
@@ -1628,6 +1632,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(zone_str):
             p = ISO8601Parser(zone_str)
             zdirection, zhour, zminute, format = p.parse_time_zone_format()
+            p.require_complete()
             return self.with_zone(
                 zdirection=zdirection, zhour=zhour, zminute=zminute)
         else:
@@ -1642,6 +1647,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(zone_str):
             p = ISO8601Parser(zone_str)
             zdirection, zhour, zminute, format = p.parse_time_zone_format()
+            p.require_complete()
             return self.with_zone(
                 zdirection=zdirection, zhour=zhour, zminute=zminute), format
         else:
@@ -1659,7 +1665,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         parsed, e.g., "hhmmss"."""
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_time_format(base)
+            result = p.parse_time_format(base)
+            p.require_complete()
+            return result
         else:
             raise TypeError
 
@@ -2254,6 +2262,7 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             tp, f = p.parse_time_point_format(base, tdesignators)
+            p.require_complete()
             return tp
         else:
             raise TypeError
@@ -2272,7 +2281,9 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
         tdesignators = kwargs.get('tDesignators', tdesignators)
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_time_point_format(base, tdesignators)
+            result = p.parse_time_point_format(base, tdesignators)
+            p.require_complete()
+            return result
         else:
             raise TypeError
 
@@ -2659,7 +2670,9 @@ class Duration(UnicodeMixin, PEP8Compatibility):
     def set_from_string(self, duration_str):
         if is_text(duration_str):
             p = ISO8601Parser(duration_str)
-            return p.parse_duration(self)
+            result = p.parse_duration(self)
+            p.require_complete()
+            return result
         else:
             raise TypeError
 
@@ -2895,6 +2908,12 @@ class ISO8601Parser(BasicParser):
             raise DateTimeError(
                 "iso8601 requires character source, not binary data")
 
+    def require_complete(self):
+        """Raises an error unless all of the source has been parsed"""
+        if self.the_char is not None:
+            raise DateTimeError(
+                "unexpected text: %s..." % str(self.the_char))
+
     def parse_time_point_format(self, base=None, tdesignators="T"):
         d, df = self.parse_date_format(base)
         if not d.complete():
-- 
2.43.0


From 64ebded91754afe6cf3a3b60430e4747ee5467e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:24 +0000
Subject: [PATCH 258/273] fix: a session with a bad time raised an error that
 is not a ValueError

---
 pyslet/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index fe172a0..9c8d0eb 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1937,7 +1937,10 @@ class CookieSession(UnicodeMixin):
             if len(fields) >= 3:
                 self.sid = fields[0]
                 self.established = (fields[1] == '1')
-                self.last_seen = iso.TimePoint.from_str(fields[2])
+                try:
+                    self.last_seen = iso.TimePoint.from_str(fields[2])
+                except iso.DateTimeError:
+                    raise ValueError("Bad CookieSession: %s" % src)
             else:
                 raise ValueError("Bad CookieSession: %s" % src)
         else:
-- 
2.43.0


From 005df67e51b77060c5eb27b9eabbc24fe027d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 259/273] fix: non-ASCII characters in the path of a request
 were encoded twice in its URL

---
 pyslet/wsgi.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 9c8d0eb..1474b4c 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -257,7 +257,7 @@ class WSGIContext(object):
         for the above example.  This is preferable to using absolute
         paths which would strip away the SCRIPT_NAME prefix when used."""
         url = [self._canonical_root]
-        script = urlquote(self.environ.get('SCRIPT_NAME', ''))
+        script = self._quote_path('SCRIPT_NAME')
         if not script:
             url.append('/')
         else:
@@ -293,13 +293,20 @@ class WSGIContext(object):
         respond on the service script's URL without a slash but generate
         incorrect relative links to the contained feeds as a result."""
         url = [self._canonical_root]
-        url.append(urlquote(self.environ.get('SCRIPT_NAME', '')))
-        url.append(urlquote(self.environ.get('PATH_INFO', '')))
+        url.append(self._quote_path('SCRIPT_NAME'))
+        url.append(self._quote_path('PATH_INFO'))
         query = self.environ.get('QUERY_STRING', '')
         if query:
             url += ['?', query]
         return URI.from_octets(''.join(url))
 
+    def _quote_path(self, name):
+        # WSGI represents each byte of the path as a single character
+        path = self.environ.get(name, '')
+        if not isinstance(path, bytes):
+            path = path.encode('iso-8859-1')
+        return urlquote(path)
+
     def _get_canonical_root(self):
         url = [self.environ['wsgi.url_scheme'], '://']
         sflag = (self.environ['wsgi.url_scheme'] == 'https')
-- 
2.43.0


From c34355f752724a4525a8a4149fbda34707776355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 260/273] fix: a request with a query string that is not legal
 in a URL was reported as a server error

---
 pyslet/wsgi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 1474b4c..a0e13bd 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -50,7 +50,8 @@ from .rfc2396 import (
     escape_data,
     FileURL,
     unescape_data,
-    URI)
+    URI,
+    URIException)
 from .xml import structures as xml
 
 try:
@@ -298,7 +299,10 @@ class WSGIContext(object):
         query = self.environ.get('QUERY_STRING', '')
         if query:
             url += ['?', query]
-        return URI.from_octets(''.join(url))
+        try:
+            return URI.from_octets(''.join(url))
+        except URIException as err:
+            raise BadRequest(str(err))
 
     def _quote_path(self, name):
         # WSGI represents each byte of the path as a single character
-- 
2.43.0


From 2d25ae6d62b779e435cd80601c22156955c1d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 261/273] fix: a malformed Cookie header was reported as a
 server error

---
 pyslet/wsgi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index a0e13bd..db920aa 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -485,8 +485,11 @@ class WSGIContext(object):
         if self._cookies is None:
             cookie_values = self.environ.get('HTTP_COOKIE', None)
             if cookie_values is not None:
-                p = cookie.CookieParser(cookie_values)
-                self._cookies = p.require_cookie_string()
+                try:
+                    p = cookie.CookieParser(cookie_values)
+                    self._cookies = p.require_cookie_string()
+                except ValueError as err:
+                    raise BadRequest(str(err))
                 for name in self._cookies:
                     value = self._cookies[name]
                     if isinstance(value, set):
-- 
2.43.0


From 974ccb2de34297e31d1c7c2bea0fa77f4fb52086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:12 +0000
Subject: [PATCH 262/273] fix: content that is not a form was reported as a
 server error

---
 pyslet/wsgi.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index db920aa..1e158e4 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -404,9 +404,13 @@ class WSGIContext(object):
         if self._form is None and self._content is None:
             post_environ = self.environ.copy()
             post_environ['QUERY_STRING'] = ''
-            self._form = cgi.FieldStorage(
-                fp=post_environ['wsgi.input'], environ=post_environ,
-                keep_blank_values=True)
+            try:
+                self._form = cgi.FieldStorage(
+                    fp=post_environ['wsgi.input'], environ=post_environ,
+                    keep_blank_values=True)
+            except (TypeError, ValueError) as err:
+                # TypeError is raised for content that isn't a form
+                raise BadRequest(str(err))
         return self._form
 
     def get_form_string(self, name, max_length=0x10000):
@@ -453,7 +457,10 @@ class WSGIContext(object):
                         if result.type_options is not None:
                             charset = result.type_options.get('charset',
                                                               'ascii')
-                        return value.decode(charset)
+                        try:
+                            return value.decode(charset)
+                        except (LookupError, ValueError) as err:
+                            raise BadRequest(str(err))
                     else:
                         return value
                 return result.value
-- 
2.43.0


From 14fc854ad179454b567f622a6146b64fd393b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:29 +0000
Subject: [PATCH 263/273] fix: fields repeated in a form were joined as they
 are, even if binary or too large

---
 pyslet/wsgi.py | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 1e158e4..1ec25ba 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -440,32 +440,34 @@ class WSGIContext(object):
         if name in form:
             result = form[name]
             if isinstance(result, list):
-                return ','.join([x.value for x in result])
+                return ','.join([self._field_string(x, max_length)
+                                 for x in result])
             else:
-                if result.file:
-                    # could be an ordinary field in multipart/form-data
-                    fpos = result.file.tell()
-                    result.file.seek(0, io.SEEK_END)
-                    fsize = result.file.tell()
-                    result.file.seek(fpos)
-                    if fsize > max_length:
-                        raise BadRequest
-                    # result.value could be bytes or (text) str
-                    value = result.value
-                    if isinstance(value, bytes):
-                        charset = 'ascii'
-                        if result.type_options is not None:
-                            charset = result.type_options.get('charset',
-                                                              'ascii')
-                        try:
-                            return value.decode(charset)
-                        except (LookupError, ValueError) as err:
-                            raise BadRequest(str(err))
-                    else:
-                        return value
-                return result.value
+                return self._field_string(result, max_length)
         return ''
 
+    def _field_string(self, field, max_length):
+        if field.file:
+            # could be an ordinary field in multipart/form-data
+            fpos = field.file.tell()
+            field.file.seek(0, io.SEEK_END)
+            fsize = field.file.tell()
+            field.file.seek(fpos)
+            if fsize > max_length:
+                raise BadRequest
+            # field.value could be bytes or (text) str
+            value = field.value
+            if isinstance(value, bytes):
+                charset = 'ascii'
+                if field.type_options is not None:
+                    charset = field.type_options.get('charset', 'ascii')
+                try:
+                    return value.decode(charset)
+                except (LookupError, ValueError) as err:
+                    raise BadRequest(str(err))
+            else:
+                return value
+        return field.value
     def get_form_long(self, name):
         """Returns the value of a (long) integer parameter from the form.
 
-- 
2.43.0


From 292675fd4f7c55dfad4fa1246292df6fcd4cf893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:08 +0000
Subject: [PATCH 264/273] fix: a path with non-ASCII characters was a server
 error for static files

---
 pyslet/wsgi.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 1ec25ba..6f5dcec 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1017,7 +1017,7 @@ class WSGIApp(DispatchNode):
                 # ldb-label test from the cookie module to ensure we
                 # have a very limited syntax.  Apologies if you wanted
                 # fancy URLs.
-                if not cookie.is_ldh_label(p.encode('ascii')):
+                if not self._is_label(p):
                     raise PageNotFound
                 target_path = os.path.join(target_path, p)
                 if not os.path.isdir(target_path):
@@ -1030,8 +1030,8 @@ class WSGIApp(DispatchNode):
                 # last component must be a filename.ext form
                 splitp = p.split('.')
                 if (len(splitp) != 2 or
-                        not cookie.is_ldh_label(splitp[0].encode('ascii')) or
-                        not cookie.is_ldh_label(splitp[1].encode('ascii'))):
+                        not self._is_label(splitp[0]) or
+                        not self._is_label(splitp[1])):
                     raise PageNotFound
                 filename = p
                 ext = splitp[1]
@@ -1052,6 +1052,13 @@ class WSGIApp(DispatchNode):
         context.add_header("Content-Type", str(ctype))
         return self.file_response(context, target_path)
 
+    @staticmethod
+    def _is_label(name):
+        try:
+            return cookie.is_ldh_label(name.encode('ascii'))
+        except UnicodeError:
+            return False
+
     def file_response(self, context, target_path):
         """Returns a file from the file system
 
-- 
2.43.0


From 852e60a21d37da29d648cf28397ab717f7f42b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:52 +0000
Subject: [PATCH 265/273] fix: a path that starts like a named path was not
 found when a wildcard matches all of it

---
 pyslet/wsgi.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 6f5dcec..87b1b08 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -968,6 +968,13 @@ class WSGIApp(DispatchNode):
                 if node._wildcard is not None:
                     wildcard = node._wildcard
                 i += 1
+                while i == len(path) and node._handler is None and \
+                        wildcard is None and stack:
+                    # nothing registered here, try a fall-back node
+                    i, node, wildcard = stack.pop()
+                    if node._wildcard is not None:
+                        wildcard = node._wildcard
+                    i += 1
             if node and node._handler is not None:
                 return node._handler(context)
             if wildcard:
-- 
2.43.0


From 99435326664c82e50a017ed11ad3a6dd31cd9fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:24 +0000
Subject: [PATCH 266/273] fix: every LTI launch of a tool provider application
 failed in Python 3

---
 pyslet/imsbltiv1p0.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 2f49eef..140a181 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -748,6 +748,12 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
         This method also checks the LTI message type and protocol
         version and will raise :class:`LTIProtcolError` if this is not a
         recognized launch request."""
+        if isinstance(body_string, bytes):
+            try:
+                body_string = body_string.decode('ascii')
+            except UnicodeError:
+                # not a form
+                raise LTIAuthenticationError
         try:
             result, request = self.endpoint.validate_request(
                 url, command, body_string, headers)
-- 
2.43.0


From 6a8cf08c047f28097617a2945bcdf1f074b6d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:53 +0000
Subject: [PATCH 267/273] fix: LTI launches with unknown roles or context types
 failed

---
 pyslet/imsbltiv1p0.py | 44 +++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 140a181..b2d4d57 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -29,7 +29,7 @@ from pyslet.py2 import (
     ul
     )
 from pyslet.pep8 import MigratedClass, old_method
-from pyslet.rfc2396 import URI
+from pyslet.rfc2396 import URI, URIException
 from pyslet.urn import URN
 from pyslet.xml import structures as xml
 
@@ -888,16 +888,26 @@ class ToolProviderApp(wsgi.SessionApp):
         group_types = context.parameters.get('context_type', '').split(',')
         gtypes = []
         for group_type in group_types:
-            stype = group_type.strip()
-            gtype_uri = URI.from_octets(stype)
-            if not gtype_uri.is_absolute():
-                gtype_uri = CONTEXT_TYPE_HANDLES.get(stype, None)
-            gtypes.append(gtype_uri)
+            gtype_uri = self._resolve_handle(group_type, CONTEXT_TYPE_HANDLES)
+            if gtype_uri is not None:
+                gtypes.append(gtype_uri)
         group_title = context.parameters.get('context_title', '')
         group_label = context.parameters.get('context_label', '')
         context.group = context.consumer.get_context(
             group_id, group_title, group_label, gtypes)
 
+    @staticmethod
+    def _resolve_handle(value, handles):
+        # returns a URI or None if value is neither a URI nor a handle
+        value = value.strip()
+        try:
+            uri = URI.from_octets(value)
+            if not uri.is_absolute():
+                uri = handles.get(value, None)
+        except (URIException, ValueError):
+            uri = None
+        return uri
+
     def set_launch_resource(self, context):
         """Sets the resource in the context from the launch parameters"""
         resource_id = context.parameters.get('resource_link_id', '')
@@ -936,11 +946,9 @@ class ToolProviderApp(wsgi.SessionApp):
         if 'roles' in context.parameters:
             roles = context.parameters['roles'].split(',')
             for role in roles:
-                srole = role.strip()
-                role_uri = URI.from_octets(srole)
-                if not role_uri.is_absolute():
-                    role_uri = ROLE_HANDLES.get(srole, None)
-                permissions |= self.get_permissions(role_uri)
+                role_uri = self._resolve_handle(role, ROLE_HANDLES)
+                if role_uri is not None:
+                    permissions |= self.get_permissions(role_uri)
         context.permissions = permissions
 
     #: Permission bit mask representing 'read' permission
@@ -977,11 +985,15 @@ class ToolProviderApp(wsgi.SessionApp):
         integers are combined to provide an overall permissions
         integer."""
         logging.debug("Launch role: %s", str(role))
-        if is_subrole(role, ROLE_HANDLES['Instructor']):
-            return (cls.READ_PERMISSION | cls.WRITE_PERMISSION |
-                    cls.CONFIGURE_PERMISSION)
-        elif is_subrole(role, ROLE_HANDLES['Learner']):
-            return cls.READ_PERMISSION
+        try:
+            if is_subrole(role, ROLE_HANDLES['Instructor']):
+                return (cls.READ_PERMISSION | cls.WRITE_PERMISSION |
+                        cls.CONFIGURE_PERMISSION)
+            elif is_subrole(role, ROLE_HANDLES['Learner']):
+                return cls.READ_PERMISSION
+        except ValueError:
+            # not an LTI role
+            pass
         return 0
 
     def get_user_display_name(self, context, user=None):
-- 
2.43.0


From 047eb4c55157ac484cd9bd1b377eb0e2798a2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:53 +0000
Subject: [PATCH 268/273] fix: the visits of a session were not merged into an
 older session

---
 pyslet/imsbltiv1p0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index b2d4d57..307a84f 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1129,7 +1129,7 @@ class ToolProviderApp(wsgi.SessionApp):
         """Overridden to update the Session ID in any associated visits"""
         with self.container['Visits'].open() as collection:
             sid = edm.EDMValue.from_type(edm.SimpleType.String)
-            sid.set_from_value(merge_session.session.sid)
+            sid.set_from_value(merge_session.sid)
             filter = odata.CommonExpression.from_str(
                 "Session eq :sid", {'sid': sid})
             collection.set_filter(filter)
@@ -1166,7 +1166,7 @@ class ToolProviderApp(wsgi.SessionApp):
                             collection.update_entity(old_visit)
                 merge_visit['Session'].set_from_value(context.session.sid)
                 # just update the Session field
-                merge_visit.set_expand(None, {'Session': None})
+                merge_visit.expand(None, {'Session': None})
                 collection.update_entity(merge_visit)
 
     def load_visit(self, context):
-- 
2.43.0


From cb9fad32da7cef0a05dbf28f8352e2f27df6408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:13 +0000
Subject: [PATCH 269/273] fix: LTI launches signed with an RSA key were a
 server error

---
 pyslet/imsbltiv1p0.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 307a84f..01241d3 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -659,6 +659,13 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
 
     enforce_ssl = False
 
+    @property
+    def allowed_signature_methods(self):
+        # consumers have a secret but no public key
+        return [m for m in
+                super(ToolProvider, self).allowed_signature_methods
+                if not m.startswith('RSA')]
+
     def check_client_key(self, key):
         # any non-empty string is OK as a client key
         return len(key) > 0
-- 
2.43.0


From a84d784b56173026db7292b306d32cbb69728ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:27 +0000
Subject: [PATCH 270/273] fix: visits merged into an older session did not
 replace its visits to the same resource

---
 pyslet/imsbltiv1p0.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 01241d3..040c353 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1146,6 +1146,8 @@ class ToolProviderApp(wsgi.SessionApp):
             # there should be only one visit in this session if there
             # are more then something strange is going on
             sid.set_from_value(context.session.sid)
+            # values are bound to the filter when it is set
+            collection.set_filter(filter)
             for merge_visit in merge_visits:
                 merge_resource = merge_visit['Resource'].get_entity()
                 merge_consumer = merge_resource['Consumer'].get_entity()
-- 
2.43.0


From 4546fd95ae55e1de012bd2a3e5de6d3fce4978bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 271/273] fix: LTI launches signed in the query of the launch
 URL were a server error

---
 pyslet/imsbltiv1p0.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 040c353..9ed65d1 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -770,8 +770,9 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
             parameters = parse_qs(body_string)
             for n, v in dict_items(parameters):
                 parameters[n] = ','.join(v)
-            # the consumer key is in the oauth_consumer_key param
-            consumer = self.lookup_consumer(parameters['oauth_consumer_key'])
+            # the consumer key is the oauth_consumer_key param
+            # (which may have been in the query)
+            consumer = self.lookup_consumer(request.client_key)
             message_type = parameters.get('lti_message_type', '')
             if (message_type.lower() != LTI_MESSAGE_TYPE):
                 logging.warn("Unknown lti_message_type: %s", message_type)
-- 
2.43.0


From ba4b6e5ec90581d907f7e7504dca9692fd46b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 272/273] fix: a launch of a resource that was stored twice
 raised TypeError

---
 pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 9ed65d1..3f263b1 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -565,7 +565,7 @@ class ToolConsumer(object):
             else:
                 logging.warn("Duplicate resource: %s:%s",
                              self.entity['Key'].value, resource_link_id)
-                resource = resource[0]
+                resource = resources[0]
         return resource
 
     def get_user(self, user_id, name_given=None, name_family=None,
-- 
2.43.0


From 38c9054717ec135ee83c9ff0f0e1b274356106cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:32 +0000
Subject: [PATCH 273/273] fix: ISO 8601 text followed by white space, as stored
 in SQL databases, was refused

---
 pyslet/iso8601.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index adeba7a..9b95aef 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2909,7 +2909,12 @@ class ISO8601Parser(BasicParser):
                 "iso8601 requires character source, not binary data")
 
     def require_complete(self):
-        """Raises an error unless all of the source has been parsed"""
+        """Raises an error unless all of the source has been parsed
+
+        White space at the end is ignored, text stored in fixed size
+        fields is padded."""
+        while self.the_char is not None and self.the_char.isspace():
+            self.next_char()
         if self.the_char is not None:
             raise DateTimeError(
                 "unexpected text: %s..." % str(self.the_char))
-- 
2.43.0

