From 2b89123726cf08df7a8bf81e45de9e2bedf535be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 01/56] fix: lex True/False as booleans only when they are
 whole words

Names such as Truest or Falsey were split into a BOOLEAN token and a
remainder, so 'Truest * int32' and '{TrueX: int32}' were syntax errors.
---
 datashape/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index b3e1935..d88704d 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -21,7 +21,7 @@ def _str_val(s):
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-    ('BOOLEAN',    r'True|False', ast.literal_eval),
+    ('BOOLEAN',    r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
     ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),
-- 
2.43.0


From 8fc75823e8ab8a18d3ea8b06af6ff50d4a1a0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 02/56] fix: backtrack in the parser when a dim or '?' does not
 start a datashape

A dim that is not followed by '*' was silently skipped, so 'var int32',
'... int32' and '(int32, var)' parsed as if it was not there, and so did a
'?' that is not followed by a datashape, as in '(int32, ?)'.
---
 datashape/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 2cd5080..1c2d76c 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -129,6 +129,7 @@ class DataShapeParser(object):
 
         Returns a datashape object or None.
         """
+        start_pos = self.pos
         tok = self.tok
         constructors = {lexer.QUESTIONMARK: 'option'}
         if tok.id in constructors:
@@ -143,6 +144,9 @@ class DataShapeParser(object):
                                               constructors[tok.id],
                                               saved_pos - 1)
                 return coretypes.DataShape(option(ds))
+            # No datashape after the question mark, so backtrack over it
+            self.pos = start_pos
+            return None
         else:
             return self.parse_datashape_nooption()
 
@@ -166,6 +170,8 @@ class DataShapeParser(object):
                     self.pos = saved_pos
                     self.raise_error('Expected a dim or a dtype')
                 return coretypes.DataShape(dim, *dshape.parameters)
+            # It was not a dim after all, so backtrack over it
+            self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
         if dtype:
-- 
2.43.0


From 16a35c3cb20a77063b957c84b914b6f51b0b3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 03/56] fix: quote field names that the lexer does not read as
 names

A field called 'True' or 'False', or one ending in a newline, was printed
without quotes and could not be parsed back.
---
 datashape/internal_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 701d2a9..0878d7b 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -6,7 +6,6 @@ Do not import datashape modules into this module.  See util.py in that case
 
 from __future__ import print_function, division, absolute_import
 
-import keyword
 import re
 
 
@@ -119,5 +118,6 @@ def groupby(func, seq):
 
 
 def isidentifier(s):
-    return (keyword.iskeyword(s) or
-            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
+    # True and False are booleans, not names, in a datashape
+    return (s not in ('True', 'False') and
+            re.match(r'[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
-- 
2.43.0


From 9a8cba12a30fa70c76f2ce7390bdd7328ebe0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 04/56] fix: unescape datashape strings without going through
 the Python parser

ast.parse rejects source containing a NUL or a surrogate, so a STRING token
with one failed with a plain SyntaxError or UnicodeEncodeError, and reading
the .s attribute of the node is deprecated.
---
 datashape/lexer.py   | 18 +++++++++++++++---
 datashape/py2help.py |  2 ++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index d88704d..c93d460 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -9,15 +9,27 @@ import ast
 import collections
 
 from . import error
+from .py2help import unichr
 
 # This is updated to include all the token names from _tokens,
 # where e.g. _tokens[NAME_LOWER-1] is the entry for NAME_LOWER
 __all__ = ['lex', 'Token']
 
+_escape_re = re.compile(r'\\(?:u([0-9a-fA-F]{4})|(.))')
+_escapes = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
+
+
+def _unescape(m):
+    if m.group(1):
+        return unichr(int(m.group(1), 16))
+    return _escapes.get(m.group(2), m.group(2))
+
+
 def _str_val(s):
-    # Use the Python parser via the ast module to parse the string,
-    # since the string_escape and unicode_escape codecs do the wrong thing
-    return ast.parse('u' + s).body[0].value.s
+    # Only the escapes which the STRING token allows need to be undone. The
+    # Python parser is not used for this because it rejects some of the
+    # characters which may be in a STRING, such as NUL.
+    return _escape_re.sub(_unescape, s[1:-1])
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
diff --git a/datashape/py2help.py b/datashape/py2help.py
index 3be4814..d2a3dfa 100644
--- a/datashape/py2help.py
+++ b/datashape/py2help.py
@@ -34,6 +34,7 @@ if PY2:
     reduce = __builtin__.reduce
     _inttypes = (int, long)
     unicode = __builtin__.unicode
+    unichr = __builtin__.unichr
     basestring = __builtin__.basestring
     _strtypes = (str, unicode)
 
@@ -58,6 +59,7 @@ else:
     from functools import reduce
     _inttypes = (int,)
     unicode = str
+    unichr = chr
     basestring = str
     _strtypes = (str,)
 
-- 
2.43.0


From 4770358b4642f644f4871461bb3078898f48b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 05/56] fix: print strings inside datashapes the way the lexer
 reads them

Field names, time zones, units and string categories were printed with
Python's repr, whose escapes (a doubled backslash, \x1b, \xa0...) the lexer
does not accept, so such a datashape could not be parsed back.
---
 datashape/coretypes.py      | 18 +++++++++++-------
 datashape/internal_utils.py | 30 ++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..2840b35 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -25,7 +25,7 @@ from .py2help import (
     unicode,
     with_metaclass,
 )
-from .internal_utils import IndexCallable, isidentifier
+from .internal_utils import IndexCallable, isidentifier, quote_string
 
 
 # Classes of unit types.
@@ -238,7 +238,7 @@ class Time(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote_string(self.tz))
 
 
 class DateTime(Unit):
@@ -259,7 +259,7 @@ class DateTime(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote_string(self.tz))
 
     def to_numpy_dtype(self):
         return np.dtype('datetime64[us]')
@@ -338,9 +338,9 @@ class Units(Unit):
 
     def __str__(self):
         if self.tp == DataShape(float64):
-            return 'units[%r]' % (self.unit)
+            return 'units[%s]' % quote_string(self.unit)
         else:
-            return 'units[%r, %s]' % (self.unit, self.tp)
+            return 'units[%s, %s]' % (quote_string(self.unit), self.tp)
 
 
 class Bytes(Unit):
@@ -1093,9 +1093,13 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
 R = Record  # Alias for record literals
 
 
+def _format_category(cat):
+    return quote_string(cat) if isinstance(cat, _strtypes) else repr(cat)
+
+
 def _format_categories(cats, n=10):
     return '[%s%s]' % (
-        ', '.join(map(repr, cats[:n])),
+        ', '.join(map(_format_category, cats[:n])),
         ', ...' if len(cats) > n else ''
     )
 
@@ -1421,7 +1425,7 @@ def pprint(ds, width=80):
 
     if isinstance(ds, Record):
         pairs = ['%s: %s' % (name if isidentifier(name) else
-                             repr(print_unicode_string(name)),
+                             quote_string(print_unicode_string(name)),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
         short = '{%s}' % ', '.join(pairs)
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 0878d7b..d0ee0ad 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -121,3 +121,33 @@ def isidentifier(s):
     # True and False are booleans, not names, in a datashape
     return (s not in ('True', 'False') and
             re.match(r'[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
+
+
+_escapes = {u'\b': u'b', u'\f': u'f', u'\n': u'n', u'\r': u'r', u'\t': u't'}
+
+
+def quote_string(s):
+    """ Quote a string such that the datashape lexer reads the same string
+
+    Example
+    -------
+    >>> print(quote_string('UTC'))
+    'UTC'
+    >>> print(quote_string("it's"))
+    "it's"
+    >>> print(quote_string('tab\t and backslash \\'))
+    'tab\\t and backslash \\u005c'
+    """
+    quote = u'"' if u"'" in s and u'"' not in s else u"'"
+
+    def escape(c):
+        if c == quote:
+            return u'\\' + c
+        if c in _escapes:
+            return u'\\' + _escapes[c]
+        if (c == u'\\' or c < u' ' or u'\x7f' <= c <= u'\xa0' or
+                c in u'\u2028\u2029' or u'\ud800' <= c <= u'\udfff'):
+            return u'\\u%04x' % ord(c)
+        return c
+
+    return str(quote + u''.join(map(escape, s)) + quote)
-- 
2.43.0


From 1167c604e31dbb8ad202ff0e88e37ef1b7d39579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 06/56] fix: escape quotes and backslashes in the repr of
 datashapes

The datashape text was pasted between double quotes as it is, so the repr of
a datashape with a double quote or an escape in it was not the call which
makes it.
---
 datashape/coretypes.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 2840b35..d26222d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -575,11 +575,7 @@ class DataShape(Mono):
         return self.name or ' * '.join(map(str, self.parameters))
 
     def __repr__(self):
-        s = pprint(self)
-        if '\n' in s:
-            return 'dshape("""%s""")' % s
-        else:
-            return 'dshape("%s")' % s
+        return _dshape_call(pprint(self))
 
     @property
     def shape(self):
@@ -938,12 +934,21 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _dshape_call(s):
+    """ The source code of a call to dshape with the datashape string
+
+    >>> print(_dshape_call('3 * int32'))
+    dshape("3 * int32")
+    """
+    quotes = '"""' if '\n' in s else '"'
+    s = s.replace('\\', '\\\\').replace('"', '\\"')
+    return 'dshape(%s%s%s)' % (quotes, s, quotes)
+
+
 class CollectionPrinter(object):
 
     def __repr__(self):
-        s = str(self)
-        strs = ('"""%s"""' if '\n' in s else '"%s"') % s
-        return 'dshape(%s)' % strs
+        return _dshape_call(str(self))
 
 
 class RecordMeta(Type):
-- 
2.43.0


From 16124d51e5ce965ac51e4b06934242e0dc90302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 07/56] fix: print an option of an option in a form which
 parses

option[?int32] was printed as ??int32, which the grammar does not have.
---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index d26222d..7ed0d2a 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -734,6 +734,9 @@ class Option(Mono):
         return self.ty.itemsize
 
     def __str__(self):
+        if isinstance(self.ty, Option):
+            # The grammar has no '??'
+            return 'option[%s]' % self.ty
         return '?%s' % self.ty
 
     def to_numpy_dtype(self):
-- 
2.43.0


From 29cef3cad422dbf6955fb6ed782bb773292bcb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 08/56] fix: hash Fixed like the integer it is equal to

Fixed(3) == 3, but their hashes differed.
---
 datashape/coretypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 7ed0d2a..6dac721 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -848,7 +848,9 @@ class Fixed(Unit):
         return (type(other) is Fixed and self.val == other.val or
                 isinstance(other, _inttypes) and self.val == other)
 
-    __hash__ = Mono.__hash__
+    def __hash__(self):
+        # Equal to the plain integer, so it has to hash like it
+        return hash(self.val)
 
     def __str__(self):
         return str(self.val)
-- 
2.43.0


From 27e529ea0754eb32b44cd031be3790c7751d2f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 09/56] fix: pickle datashapes without parameters with every
 protocol

Pickle protocols 0 and 1 create the object without __init__ and leave out an
empty state, so null came back without its _parameters.
---
 datashape/coretypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6dac721..f170d45 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -68,6 +68,7 @@ class Mono(with_metaclass(Type, object)):
     """
 
     composite = False
+    _parameters = ()
 
     def __init__(self, *params):
         self._parameters = params
-- 
2.43.0


From 14b5f87906b4da575cb1dac94d76ee6640d4a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 10/56] fix: do not count the dimensions inside an Option as
 outside it

Equality and hashing looked at Option.shape, which is the shape of the
optional type: Option('3 * int32') differed from dshape('?3 * int32') and was
equal to dshape('3 * ?3 * int32').
---
 datashape/coretypes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f170d45..c93ce61 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -89,7 +89,7 @@ class Mono(with_metaclass(Type, object)):
 
     def __eq__(self, other):
         return (isinstance(other, Mono) and
-                self.shape == other.shape and
+                self._dims == other._dims and
                 self.measure.info() == other.measure.info())
 
     def __ne__(self, other):
@@ -99,13 +99,19 @@ class Mono(with_metaclass(Type, object)):
         try:
             h = self._hash
         except AttributeError:
-            h = self._hash = hash(self.shape) ^ hash(self.measure.info())
+            h = self._hash = hash(self._dims) ^ hash(self.measure.info())
         return h
 
     @property
     def shape(self):
         return ()
 
+    # The dimensions in front of the measure. Unlike this, the shape of an
+    # Option is that of the type inside the measure.
+    @property
+    def _dims(self):
+        return ()
+
     def __len__(self):
         return 1
 
@@ -582,6 +588,8 @@ class DataShape(Mono):
     def shape(self):
         return self.parameters[:-1]
 
+    _dims = shape
+
     @property
     def measure(self):
         return self.parameters[-1]
-- 
2.43.0


From 05d78e684d163403008c99353051e165bf20b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 11/56] fix: make equality of a TypeSet and a DataShape of it
 symmetric

TypeSet had its own equality and hash: DataShape(t) == t held but not
t == DataShape(t), and their hashes differed. The inherited ones compare the
same parameters.
---
 datashape/typesets.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..ec3129f 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -35,13 +35,6 @@ class TypeSet(Unit):
     def types(self):
         return self._order
 
-    def __eq__(self, other):
-        return (isinstance(other, type(self)) and
-                self.name == other.name and self.types == other.types)
-
-    def __hash__(self):
-        return hash((self.name, self.types))
-
     def __contains__(self, val):
         return val in self._set
 
-- 
2.43.0


From 68b4c8a3506e395dcf04802be6f978f56d257a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 12/56] fix: count the items of a subshape slice like Python
 does

The bounds were not clamped to the dimension, so 5 * int32 sliced with [:10]
became 10 * int32; [:0] was taken for [:]; empty slices and negative steps
raised ValueError; and large counts lost precision in a float division.
---
 datashape/coretypes.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c93ce61..0255858 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -11,8 +11,6 @@ import sys
 import ctypes
 import operator
 
-from math import ceil
-
 import datashape
 
 import numpy as np
@@ -678,28 +676,18 @@ class DataShape(Mono):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-                n = int(self[0])
-                start = index.start or 0
-                stop = index.stop or n
-                if start < 0:
-                    start = n + start
-                if stop < 0:
-                    stop = n + stop
-                count = stop - start
+                count = _range_length(*index.indices(int(self[0])))
             else:
+                # The length is only known when both ends are counted from
+                # the front, then every item of the slice is assumed to exist
                 start = index.start or 0
                 stop = index.stop
-                if not stop:
-                    count = -start if start < 0 else var
-                if (stop is not None and start is not None and stop >= 0 and
-                        start >= 0):
-                    count = stop - start
+                step = 1 if index.step is None else index.step
+                if stop is not None and stop >= 0 and start >= 0 and step >= 0:
+                    count = _range_length(start, stop, step)
                 else:
                     count = var
 
-            if count != var and index.step is not None:
-                count = int(ceil(count / index.step))
-
             return count * self.subarray(1)
         if isinstance(index, tuple):
             if not index:
@@ -720,6 +708,21 @@ class DataShape(Mono):
         self.name = None
 
 
+def _range_length(start, stop, step):
+    """ The length of range(start, stop, step), however large it is
+
+    >>> _range_length(0, 7, 2)
+    4
+    >>> _range_length(3, 1, 1)
+    0
+    >>> _range_length(9, -1, -3)
+    4
+    """
+    if step == 0:
+        raise ValueError('slice step cannot be zero')
+    return max(0, -((start - stop) // step))
+
+
 numpy_provides_missing = frozenset((Date, DateTime, TimeDelta))
 
 
-- 
2.43.0


From e4b9aa3be2f8243ae70df3015ef00e11f85f40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 13/56] fix: keep fixed dimensions of record fields when
 converting to NumPy

{a: 2 * int32} became a dtype with a scalar int32 field instead of a (2,)
subarray, although from_numpy reads subarrays as dimensions.
---
 datashape/coretypes.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 0255858..72f1555 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1102,7 +1102,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         """
         To Numpy record dtype.
         """
-        return np.dtype([(str(name), to_numpy_dtype(typ))
+        return np.dtype([(str(name), _field_dtype(typ))
                          for name, typ in self.fields])
 
     def __getitem__(self, key):
@@ -1181,7 +1181,7 @@ class Tuple(CollectionPrinter, Mono):
         """
         To Numpy record dtype.
         """
-        return np.dtype([('f%d' % i, to_numpy_dtype(typ))
+        return np.dtype([('f%d' % i, _field_dtype(typ))
                          for i, typ in enumerate(self.parameters[0])])
 
 
@@ -1315,6 +1315,25 @@ def to_numpy_dtype(ds):
     return to_numpy(ds.measure)[1]
 
 
+def _field_dtype(ds):
+    """ The NumPy dtype of a field, fixed dimensions become a subarray
+
+    >>> from datashape import dshape
+    >>> _field_dtype(dshape('2 * 3 * int32'))
+    dtype(('<i4', (2, 3)))
+    >>> _field_dtype(dshape('var * int32'))
+    dtype('int32')
+    """
+    dtype = to_numpy_dtype(ds)
+    if (isinstance(ds, DataShape) and ds.shape and
+            all(isinstance(dim, Fixed) for dim in ds.shape)):
+        try:
+            return np.dtype((dtype, tuple(map(int, ds.shape))))
+        except ValueError:
+            raise TypeError('DataShape %s is not NumPy-compatible' % ds)
+    return dtype
+
+
 def to_numpy(ds):
     """
     Downcast a datashape object into a Numpy (shape, dtype) tuple if
-- 
2.43.0


From 0b6ca542b78846b2c10aedb5881633b56dac70ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 14/56] fix: see options inside a DataShape when promoting

promote(dshape('?int64'), int32) raised TypeError, and optionify missed the
option in dshape('?int64').
---
 datashape/promote.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/promote.py b/datashape/promote.py
index 798aba7..d53f799 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -41,7 +41,8 @@ def promote(lhs, rhs, promote_option=True):
     """
     if lhs == rhs:
         return lhs
-    left, right = getattr(lhs, 'ty', lhs), getattr(rhs, 'ty', rhs)
+    left, right = lhs.measure, rhs.measure
+    left, right = getattr(left, 'ty', left), getattr(right, 'ty', right)
     if left == right == datashape.string:
         # Special case string promotion, since numpy promotes to `object`.
         dtype = datashape.string
@@ -73,6 +74,6 @@ def optionify(lhs, rhs, dshape):
     """
     if hasattr(dshape.measure, 'ty'):
         return dshape
-    if hasattr(lhs, 'ty') or hasattr(rhs, 'ty'):
+    if hasattr(lhs.measure, 'ty') or hasattr(rhs.measure, 'ty'):
         return datashape.Option(dshape)
     return dshape
-- 
2.43.0


From 753e739ab5c4d3fba26244767eeda7197f0e8bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 15/56] fix: do not lose fields when uniting records with
 different names

The condition of the branch was a generator, which is always true, so
records were united on the names of the first one only:
discover([{'x': {'a': 1}}, {'x': {'b': 2}}]) had no b at all.
---
 datashape/discovery.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..45fc8ef 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -287,6 +287,12 @@ def unite_base(dshapes):
 
     >>> unite_base([int32, int64, null])
     dshape("3 * ?int64")
+
+    Records unite field by field, a field which is not in all of them is
+    optional
+
+    >>> unite_base([Record([('x', int32)]), Record([('x', int64), ('y', string)])])
+    dshape("2 * {x: int64, y: ?string}")
     """
     dshapes = [unpack(ds) for ds in dshapes]
     bynull = groupby(isnull, dshapes)
@@ -294,14 +300,19 @@ def unite_base(dshapes):
         good_dshapes = bynull[False]
     except KeyError:
         return len(dshapes) * null
+    base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
         base = lowest_common_dshape(good_dshapes)
-    elif (all(isinstance(ds, Record) for ds in good_dshapes) and
-          ds.names == dshapes[0].names for ds in good_dshapes):
+    elif all(isinstance(ds, Record) for ds in good_dshapes):
         names = good_dshapes[0].names
-        base = Record([[name,
-                        unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
-                       for name in names])
+        if any(ds.names != names for ds in good_dshapes):
+            names = sorted(set(chain.from_iterable(ds.names
+                                                   for ds in good_dshapes)))
+        columns = [unite_base([ds.dict.get(name, null) for ds in good_dshapes])
+                   for name in names]
+        if all(columns):
+            base = Record([[name, column.subshape[0]]
+                           for name, column in zip(names, columns)])
     if base:
         if bynull.get(True):
             base = Option(base)
-- 
2.43.0


From 81f56d4a1ba22216ff722a2b4591f90a705f62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 16/56] fix: discover tables with columns of types outside the
 coercion graph

lowest_common_dshape did not even know the common type of identical types
such as complex or time, and discover let its ValueError out, so
discover([[1j, 1], [None, 1]]) and discover([['1 day'], ['2 hours']]) failed.
---
 datashape/discovery.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 45fc8ef..d28d3ee 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -274,6 +274,8 @@ def lowest_common_dshape(dshapes):
     ctype("string")
     """
     common = set.intersection(*[descendents(edges, ds) for ds in dshapes])
+    if len(common) == 1:
+        return common.pop()
     if common and any(c in toposorted for c in common):
         return min(common, key=toposorted.index)
     raise ValueError("Not all dshapes are known.  Extend edges.")
@@ -302,7 +304,10 @@ def unite_base(dshapes):
         return len(dshapes) * null
     base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
-        base = lowest_common_dshape(good_dshapes)
+        try:
+            base = lowest_common_dshape(good_dshapes)
+        except ValueError:
+            pass  # nothing in common
     elif all(isinstance(ds, Record) for ds in good_dshapes):
         names = good_dshapes[0].names
         if any(ds.names != names for ds in good_dshapes):
-- 
2.43.0


From 884df2a343a414ce6a4155ba98b900a7618041af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 17/56] fix: raise ValueError for a time unit made only of the
 letter s

normalize_time_unit('sss') stripped everything and raised IndexError, and so
did discover('1 sss').
---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 72f1555..f2a9714 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -304,7 +304,7 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s[-1] == 's' and len(s) > 2:
+    if s[-1:] == 's' and len(s) > 2:
         return normalize_time_unit(s.rstrip('s'))
 
     raise ValueError("Do not understand time unit %s" % s)
-- 
2.43.0


From ee776d4ebf9b1a958262b872843b0565e9946191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 18/56] fix: accept minute and month as time units

They are documented with the others but were left out of the aliases.
---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f2a9714..06b636e 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -275,10 +275,12 @@ _units = set(['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y'])
 
 _unit_aliases = {
     'year': 'Y',
+    'month': 'M',
     'week': 'W',
     'day': 'D',
     'date': 'D',
     'hour': 'h',
+    'minute': 'm',
     'second': 's',
     'millisecond': 'ms',
     'microsecond': 'us',
-- 
2.43.0


From 1c761709c4689611a32b11510bbfa0b487ab5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 19/56] fix: discover strings which look like a time delta too
 large for NumPy

discover('99999999999999999999 days') raised OverflowError.
---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index d28d3ee..4f71714 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -180,7 +180,7 @@ def discover(s):
     for f in string_coercions:
         try:
             return discover(f(s))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, OverflowError):
             pass
 
     # don't let dateutil parse things like sunday, monday etc into dates
-- 
2.43.0


From 5adbe9a619bf0cca5b6edbd650980744773c2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 20/56] fix: check the length when validating a sequence
 against a record

validate('{x: int64, y: int64}', (1,)) and (1, 2, 'z') were accepted.
---
 datashape/user.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/user.py b/datashape/user.py
index c6b42be..48a213e 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -45,8 +45,9 @@ def validate(schema, d):
 
 @dispatch(Record, (tuple, list))
 def validate(schema, seq):
-    return all(validate(sch, item) for (k, sch), item
-                                    in zip(schema.parameters[0], seq))
+    return (len(seq) == len(schema.fields) and
+            all(validate(sch, item) for (k, sch), item
+                                    in zip(schema.parameters[0], seq)))
 
 
 @dispatch(str, object)
-- 
2.43.0


From c23640f41146e28ebfb4ddd40a8434c289e158cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 21/56] fix: validate complex numbers against complex types

Of the Python numbers only complex was missing from the base types, so
validate('complex', 1j) was False.
---
 datashape/user.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/user.py b/datashape/user.py
index 48a213e..3691f6b 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -10,7 +10,7 @@ from datetime import date, time, datetime
 __all__ = ['validate', 'issubschema']
 
 
-basetypes = np.generic, int, float, str, date, time, datetime
+basetypes = np.generic, int, float, complex, str, date, time, datetime
 
 
 @dispatch(np.dtype, basetypes)
-- 
2.43.0


From 96e68ffb6a27bd76f831295e9daf2918e962a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 22/56] fix: iscollection of a measure which is not wrapped in
 a DataShape

iscollection(Record(...)) looked up a field called 0 and raised KeyError.
---
 datashape/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8d99b04..1ee7ed4 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -135,7 +135,7 @@ def iscollection(ds):
     """
     if isinstance(ds, str):
         ds = dshape(ds)
-    return isdimension(ds[0])
+    return isinstance(ds, DataShape) and isdimension(ds[0])
 
 
 def isnumeric(ds):
-- 
2.43.0


From ee7c90876d78778a5c621a1d99e833fd0e3d886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 23/56] fix: isfixed of an ellipsis and inside of options and
 tuples

isfixed said True for '... * int32', '(var * int32)' and
'?{a: var * int32}'.
---
 datashape/predicates.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 1ee7ed4..10bb6da 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -100,12 +100,17 @@ def isfixed(ds):
     ds = dshape(ds)
     if isinstance(ds[0], TypeVar):
         return None  # don't know
-    if isinstance(ds[0], Var):
+    if isinstance(ds[0], (Var, Ellipsis)):
         return False
-    if isinstance(ds[0], Record):
-        return all(map(isfixed, ds[0].types))
     if len(ds) > 1:
         return isfixed(ds.subarray(1))
+    measure = getattr(ds[0], 'ty', ds[0])
+    if isinstance(measure, Record):
+        return all(map(isfixed, measure.types))
+    if isinstance(measure, Tuple):
+        return all(map(isfixed, measure.dshapes))
+    if isinstance(measure, DataShape):
+        return isfixed(measure)
     return True
 
 
-- 
2.43.0


From afe555b3c1c0aed37729a1c5f1e535e8bcb09fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 24/56] fix: collect from parameters which are not types

collect returned None for a parameter such as a time zone or a category, so
ishomogeneous('... * int32') raised TypeError.
---
 datashape/util/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9af40a8..37820f5 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -108,6 +108,7 @@ def collect(pred, expr):
         return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)
     if isinstance(expr, (list, tuple)):
         return chain.from_iterable(collect(pred, item) for item in expr)
+    return []
 
 
 def has_var_dim(ds):
-- 
2.43.0


From 1d989902acd0fb8daa7d9f0f44b796922c80caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 25/56] fix: look for several wildcards inside records and
 tuples too

dshape('... * ... * int32') is refused but dshape('{a: ... * ... * int32}')
was not, because the parameters of these types are nested in a tuple.
---
 datashape/validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/validation.py b/datashape/validation.py
index 4339b40..e9ac02d 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -23,6 +23,10 @@ def traverse(f, t):
     """
     if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
         return f(t, [traverse(f, p) for p in t.parameters])
+    if isinstance(t, (tuple, list)):
+        # The parameters of a composite type such as Record or Tuple
+        for p in t:
+            traverse(f, p)
     return t
 
 
-- 
2.43.0


From 42d621eb6861078a5fe260b374e5c9e9a7433ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 26/56] fix: raise TypeError for arguments the string type does
 not take

dshape('string[int32]') raised UnboundLocalError.
---
 datashape/coretypes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 06b636e..247f4a9 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -390,13 +390,15 @@ class String(Unit):
     def __init__(self, *args):
         if len(args) == 0:
             fixlen, encoding = None, None
-        if len(args) == 1:
-            if isinstance(args[0], _strtypes):
-                fixlen, encoding = None, args[0]
-            if isinstance(args[0], _inttypes):
-                fixlen, encoding = args[0], None
-        if len(args) == 2:
+        elif len(args) == 1 and isinstance(args[0], _strtypes):
+            fixlen, encoding = None, args[0]
+        elif len(args) == 1 and isinstance(args[0], _inttypes):
+            fixlen, encoding = args[0], None
+        elif len(args) == 2:
             fixlen, encoding = args
+        else:
+            raise TypeError('string takes a length, an encoding or both, '
+                            'got %s' % (args,))
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From aa8bf2b5bd054fb81c53ffcf9c4be67fb4a60009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 27/56] fix: parse bytes and char

Both types print as these names and are documented, but the symbol table of
the parser did not have them.
---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 1032100..626fc0a 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -53,6 +53,8 @@ def _ellipsis(name):
 # data types with no type constructor
 no_constructor_types = [
     ('bool', ct.bool_),
+    ('bytes', ct.bytes_),
+    ('char', ct.char),
     ('int8', ct.int8),
     ('int16', ct.int16),
     ('int32', ct.int32),
-- 
2.43.0


From c0e1b149aa28d1982abaf267ed280ac6cc959b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 28/56] fix: make json a unit type

It is a type without structure like the others, but was not one for isscalar,
ishomogeneous and issubclass(JSON, Unit).
---
 datashape/coretypes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 247f4a9..76b2d75 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1189,15 +1189,12 @@ class Tuple(CollectionPrinter, Mono):
                          for i, typ in enumerate(self.parameters[0])])
 
 
-class JSON(Mono):
+class JSON(Unit):
 
     """ JSON measure """
     cls = MEASURE
     __slots__ = ()
 
-    def __str__(self):
-        return 'json'
-
 
 bool_ = CType('bool', 1, 1)
 char = CType('char', 1, 1)
-- 
2.43.0


From b57b7302f3594e1f91c14550c6e0944c7f28bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 29/56] fix: include float16 in the floating types

supertype_map maps float16 to floating, which did not contain it, so
supertype(float16), maxtype(float16) failed and isreal('float16') was False.
---
 datashape/typesets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index ec3129f..5bbb2e4 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -105,7 +105,7 @@ signed = TypeSet(int8, int16, int32, int64, name='signed')
 unsigned = TypeSet(uint8, uint16, uint32, uint64, name='unsigned')
 integral = TypeSet(*[x for t in zip(signed, unsigned) for x in t],
                    name='integral')
-floating = TypeSet(float32, float64, name='floating')
+floating = TypeSet(float16, float32, float64, name='floating')
 complexes = TypeSet(complex64, complex128, name='complexes')
 boolean = TypeSet(bool_, name='boolean')
 
-- 
2.43.0


From 8c76a67d65036cf00fb85af57a6c4ec8b4dce0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 30/56] fix: assert_dshape_equal of datashapes with different
 numbers of dimensions

Only the dimensions both have were compared, so int32 and 3 * int32 passed
as equal.
---
 datashape/util/testing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index f8fc5ea..9292281 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -88,6 +88,16 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
                         _fmt_path(path),
                     ),
                 )
+        if len(ashape) != len(bshape):
+            raise AssertionError(
+                'dimensions do not match: %d != %d dimensions\n%s != %s\n%s' % (
+                    len(ashape),
+                    len(bshape),
+                    a,
+                    b,
+                    _fmt_path(path + ('.shape',)),
+                ),
+            )
 
     path += '.measure',
     assert_dshape_equal(
-- 
2.43.0


From f83117e77ae5dcac9bbf93aa5943e44c7fbe0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 31/56] fix: assert_dshape_equal of units and of strings
 without a length

Equal units raised AttributeError because the path is a tuple, and the
message for a length and no length raised TypeError.
---
 datashape/util/testing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 9292281..84e00a0 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -164,8 +164,7 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
     )
 
-    path.append('.tp')
-    assert_dshape_equal(a.tp, b.tp, **kwargs)
+    assert_dshape_equal(a.tp, b.tp, path=path + ('.tp',), **kwargs)
 
 
 @dispatch(String, String)
@@ -185,7 +184,7 @@ def assert_dshape_equal(a,
 
     if check_str_fixlen:
         assert a.fixlen == b.fixlen, \
-            'string fixlens do not match: %d != %d\n%s' % (
+            'string fixlens do not match: %s != %s\n%s' % (
                 a.fixlen, b.fixlen, _fmt_path(path + ('.fixlen',)),
             )
 
-- 
2.43.0


From 92c34a72c3c7d440fc1755e41c119dad8e16f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 32/56] fix: join the dimensions of a datashape given to the
 DataShape constructor

DataShape(3, dshape('4 * int32')) had a datashape with dimensions as its
measure, although it prints as 3 * 4 * int32.
---
 datashape/coretypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 76b2d75..a38a368 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -556,6 +556,10 @@ class DataShape(Mono):
                             % parameters[0])
         if len(parameters) > 0:
             self._parameters = tuple(map(_launder, parameters))
+            if isinstance(self._parameters[-1], DataShape):
+                # Its dimensions continue the dimensions of this datashape
+                self._parameters = (self._parameters[:-1] +
+                                    self._parameters[-1].parameters)
             if getattr(self._parameters[-1], 'cls', MEASURE) != MEASURE:
                 raise TypeError(('Only a measure can appear on the'
                                  ' last position of a datashape, not %s') %
-- 
2.43.0


From 03fe7250536b5be862c62c4b48408e9a38f1825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 33/56] fix: tell dimensions and measures apart for all types

null, option, function and map types and datashapes were accepted as
dimensions and an ellipsis as the measure, for lack of the attribute which
the DataShape constructor checks.
---
 datashape/coretypes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index a38a368..1d91dfa 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -198,6 +198,7 @@ class Ellipsis(Mono):
         A... * float32   # float32 array w/ any number of dimensions,
                         # associated with type variable A
     """
+    cls = DIMENSION
     __slots__ = 'typevar',
 
     def __init__(self, typevar=None):
@@ -213,7 +214,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
-    pass
+    cls = MEASURE
 
 
 class Date(Unit):
@@ -546,6 +547,7 @@ class DataShape(Mono):
     --------
     datashape.dshape
     """
+    cls = MEASURE
     composite = False
 
     def __init__(self, *parameters, **kwds):
@@ -740,6 +742,7 @@ class Option(Mono):
     Measure types which may or may not hold data. Makes no
     indication of how this is implemented in memory.
     """
+    cls = MEASURE
     __slots__ = 'ty',
 
     def __init__(self, ds):
@@ -904,6 +907,8 @@ class TypeVar(Unit):
 class Function(Mono):
     """Function signature type
     """
+    cls = MEASURE
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -919,6 +924,7 @@ class Function(Mono):
 
 
 class Map(Mono):
+    cls = MEASURE
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-- 
2.43.0


From f684cf4dbba7d92e70093e3bbfabe6f8d431f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 34/56] fix: do not let a named DataShape replace another
 registered type

DataShape(string, name='int64') replaced int64, after which
from_numpy((), 'i8') was a string.
---
 datashape/coretypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 1d91dfa..1b9f447 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -578,7 +578,11 @@ class DataShape(Mono):
         self.name = kwds.get('name')
 
         if self.name:
-            type(type(self))._registry[self.name] = self
+            registry = type(type(self))._registry
+            # Don't clobber existing types.
+            if registry.setdefault(self.name, self) != self:
+                raise TypeError('There is another type registered with name %s'
+                                % self.name)
 
     def __len__(self):
         return len(self.parameters)
-- 
2.43.0


From 0e97c948a5ce4869af3589318e32539e13463cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 35/56] fix: refuse struct[...] with different numbers of names
 and datashapes

struct[['a', 'b'], [int32]] was read as {a: int32}, without b.
---
 datashape/type_symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 626fc0a..ffb70da 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -27,6 +27,9 @@ def _complex(tp):
 
 def _struct(names, dshapes):
     """Simple temporary type constructor for struct"""
+    if len(names) != len(dshapes):
+        raise TypeError('struct takes as many datashapes as names, got %d and %d'
+                        % (len(dshapes), len(names)))
     return ct.Record(list(zip(names, dshapes)))
 
 
-- 
2.43.0


From 37d6c75ce54932dc525eb54313a2e6322892e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 36/56] fix: look for several wildcards in the type of units as
 well

dshape("units['m', ... * ... * int32]") was accepted.
---
 datashape/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/validation.py b/datashape/validation.py
index e9ac02d..be7e691 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -21,6 +21,8 @@ def traverse(f, t):
     -------
     DataShape
     """
+    if isinstance(t, T.Units):
+        traverse(f, t.tp)
     if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
         return f(t, [traverse(f, p) for p in t.parameters])
     if isinstance(t, (tuple, list)):
-- 
2.43.0


From 2787eac3ea8b3c320be7828c7f2d24c83ffd7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 37/56] fix: refuse a dimension as the type of a field, option
 or map

Record([('a', 3)]), Option(var) and dshape('map[1, 2]') were built although
these are not datashapes and their text does not parse.
---
 datashape/coretypes.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 1b9f447..f6c7a7c 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -750,7 +750,7 @@ class Option(Mono):
     __slots__ = 'ty',
 
     def __init__(self, ds):
-        self.ty = _launder(ds)
+        self.ty = _launder_type(ds)
 
     @property
     def shape(self):
@@ -932,8 +932,8 @@ class Map(Mono):
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-        self.key = _launder(key)
-        self.value = _launder(value)
+        self.key = _launder_type(key)
+        self.value = _launder_type(value)
 
     def __str__(self):
         return '%s[%s, %s]' % (type(self).__name__.lower(),
@@ -969,6 +969,22 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _launder_type(x):
+    """ Clean up a type inside another type, which cannot be a dimension
+
+    >>> _launder_type('int32')
+    ctype("int32")
+    >>> _launder_type(5)  # doctest: +IGNORE_EXCEPTION_DETAIL
+    Traceback (most recent call last):
+        ...
+    TypeError: A dimension is not a type on its own: Fixed(val=5)
+    """
+    x = _launder(x)
+    if getattr(x, 'cls', MEASURE) != MEASURE:
+        raise TypeError('A dimension is not a type on its own: %r' % x)
+    return x
+
+
 def _dshape_call(s):
     """ The source code of a call to dshape with the datashape string
 
@@ -1091,7 +1107,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
             str(name) if not isinstance(name, _strtypes) else name
             for name, _ in fields
         ])
-        types = [_launder(v) for _, v in fields]
+        types = [_launder_type(v) for _, v in fields]
 
         if len(set(names)) != len(names):
             for name in set(names):
-- 
2.43.0


From 26505e99ce17d781e7331c538eb3bf713abad4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 38/56] fix: refuse negative lengths of strings and ones which
 are not integers

---
 datashape/coretypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f6c7a7c..63d1406 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -410,6 +410,11 @@ class String(Unit):
             raise ValueError('Unsupported string encoding %s' %
                              repr(encoding))
 
+        if fixlen is not None:
+            fixlen = operator.index(fixlen)
+            if fixlen < 0:
+                raise ValueError('The length of a string must be positive')
+
         self.encoding = encoding
         self.fixlen = fixlen
 
-- 
2.43.0


From 47e984521da3c5c4bdcf8dbf649af6083cce07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 39/56] fix: refuse a precision or scale of a decimal which is
 not an integer

---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 63d1406..e7e9664 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -483,8 +483,8 @@ class Decimal(Unit):
     __slots__ = 'precision', 'scale'
 
     def __init__(self, precision, scale=0):
-        self.precision = precision
-        self.scale = scale
+        self.precision = operator.index(precision)
+        self.scale = operator.index(scale)
 
     def __str__(self):
         return 'decimal[precision={precision}, scale={scale}]'.format(
-- 
2.43.0


From edd6c04d4b6cf5acda3b801f9cea8cbdc21794a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 40/56] fix: refuse to make a datashape of a bare ellipsis

---
 datashape/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 37820f5..c114758 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -47,7 +47,7 @@ def dshape(o):
                         coretypes.Unit)):
         ds = coretypes.DataShape(o)
     elif isinstance(o, coretypes.Mono):
-        ds = o
+        ds = coretypes._launder_type(o)
     elif isinstance(o, (list, tuple)):
         ds = coretypes.DataShape(*o)
     else:
-- 
2.43.0


From 6b892e63ddd781a5e0b0f14c6a2f98dc09efc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 41/56] fix: refuse to convert strings to NumPy which are too
 long for it

---
 datashape/coretypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index e7e9664..8450d2e 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -446,9 +446,15 @@ class String(Unit):
         """
         if self.fixlen:
             if self.encoding == 'A':
-                return np.dtype('S%d' % self.fixlen)
+                dtype = np.dtype('S%d' % self.fixlen)
+                itemsize = self.fixlen
             else:
-                return np.dtype('U%d' % self.fixlen)
+                dtype = np.dtype('U%d' % self.fixlen)
+                itemsize = self.fixlen * 4
+            # NumPy does not refuse a length it has no room for
+            if dtype.itemsize != itemsize:
+                raise TypeError('DataShape %s is not NumPy-compatible' % self)
+            return dtype
 
         from .py2help import unicode
         # Create a dtype with metadata indicating it's
-- 
2.43.0


From 4f400a7fdda090f67a8e1ea6cce3e481f09fb55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 42/56] fix: convert strings without characters to NumPy as
 such

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 8450d2e..f94e870 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -444,7 +444,7 @@ class String(Unit):
         >>> String(30, 'A').to_numpy_dtype()
         dtype('S30')
         """
-        if self.fixlen:
+        if self.fixlen is not None:
             if self.encoding == 'A':
                 dtype = np.dtype('S%d' % self.fixlen)
                 itemsize = self.fixlen
-- 
2.43.0


From c976dff16699b0057854a4156dd3f2fc587e6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 43/56] fix: read a NumPy dtype without fields as a record
 without fields

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f94e870..74f8786 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1427,7 +1427,7 @@ def from_numpy(shape, dt):
         measure = String(dtype.itemsize, 'A')
     elif dtype.kind == 'U':
         measure = String(dtype.itemsize // 4, 'U32')
-    elif dtype.fields:
+    elif dtype.names is not None:
         fields = [(name, dtype.fields[name]) for name in dtype.names]
         rec = [(name, from_numpy(t.shape, t.base))  # recurse into nested dtype
                for name, (t, _) in fields]  # _ is the byte offset: ignore it
-- 
2.43.0


From afc1ebba16c9f2f2eb824bf408af840c3b1627ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 44/56] fix: promote equal types to themselves when only one of
 them is optional

---
 datashape/promote.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datashape/promote.py b/datashape/promote.py
index d53f799..999ea6d 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -43,9 +43,10 @@ def promote(lhs, rhs, promote_option=True):
         return lhs
     left, right = lhs.measure, rhs.measure
     left, right = getattr(left, 'ty', left), getattr(right, 'ty', right)
-    if left == right == datashape.string:
-        # Special case string promotion, since numpy promotes to `object`.
-        dtype = datashape.string
+    if left == right:
+        # Nothing to promote but the option. This includes strings, which numpy
+        # promotes to `object`, and types which numpy does not have.
+        dtype = left
     else:
         np_res_type = np.result_type(datashape.to_numpy_dtype(left),
                                      datashape.to_numpy_dtype(right))
-- 
2.43.0


From e2217dd8ecb116274e5575fe3d6eb4253dee1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 45/56] fix: count datetimes with a time zone as date-like

---
 datashape/predicates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 10bb6da..a1054e3 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -3,7 +3,7 @@ import numpy as np
 from .util import collect, dshape
 from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
-                        date_, datetime_, TypeVar, to_numpy_dtype, Map,
+                        Date, DateTime, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
 
@@ -211,4 +211,4 @@ def isdatelike(ds):
     True
     """
     ds = launder(ds)
-    return ds == date_ or ds == datetime_
+    return isinstance(ds, (Date, DateTime))
-- 
2.43.0


From 2acb4dc2629d60b3df008ea5b8fbe71f377d9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 46/56] fix: read a datashape text in has_var_dim and
 has_ellipsis

---
 datashape/util/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index c114758..544f2ea 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -121,6 +121,8 @@ def has_var_dim(ds):
     >>> has_var_dim(dshape('var * 2 * int32'))
     True
     """
+    if isinstance(ds, py2help._strtypes):
+        ds = dshape(ds)
     return has((coretypes.Ellipsis, coretypes.Var), ds)
 
 
@@ -144,4 +146,6 @@ def has_ellipsis(ds):
     >>> has_ellipsis(dshape('... * int'))
     True
     """
+    if isinstance(ds, py2help._strtypes):
+        ds = dshape(ds)
     return has(coretypes.Ellipsis, ds)
-- 
2.43.0


From a13c83833d022e07af223beb4de7e9e37818ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 47/56] fix: keep every type of a TypeSet once

---
 datashape/typesets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index 5bbb2e4..e245bfd 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -7,6 +7,7 @@ from itertools import chain
 from .coretypes import (Unit, int8, int16, int32, int64, uint8, uint16, uint32,
                         uint64, float16, float32, float64, complex64,
                         complex128, bool_, Decimal, TimeDelta, Option)
+from .py2help import OrderedDict
 
 
 __all__ = ['TypeSet', 'matches_typeset', 'signed', 'unsigned', 'integral',
@@ -22,7 +23,8 @@ class TypeSet(Unit):
     __slots__ = '_order', 'name'
 
     def __init__(self, *args, **kwds):
-        self._order = args
+        # Every type once, in order
+        self._order = tuple(OrderedDict.fromkeys(args))
         self.name = kwds.get('name')
         if self.name:
             register_typeset(self.name, self)
-- 
2.43.0


From 992ea8d0476c667b32c881a20af854510dfb9f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 48/56] fix: match types to a TypeSet by its members and not by
 their order

---
 datashape/typesets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index e245bfd..45b7991 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -68,6 +68,9 @@ def matches_typeset(types, signature):
     """
     if types in signature:
         return True
+    if isinstance(signature, TypeSet):
+        return (isinstance(types, (TypeSet, tuple, list)) and
+                all(a in signature for a in types))
     match = True
     for a, b in zip(types, signature):
         check = isinstance(b, TypeSet)
-- 
2.43.0


From fd6af497abb4be321ed9308ae4aecc615d15e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 49/56] fix: do not count type variables for dimensions as
 dtypes in ishomogeneous

---
 datashape/predicates.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index a1054e3..15c32a0 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -1,7 +1,8 @@
+from itertools import chain
+
 import numpy as np
 
 from .util import collect, dshape
-from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
                         Date, DateTime, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
@@ -76,7 +77,15 @@ def ishomogeneous(ds):
     False
     """
     ds = dshape(ds)
-    return len(set(remove(isdimension, collect(isscalar, ds)))) == 1
+    return len(set(_dtypes(ds))) == 1
+
+
+def _dtypes(ds):
+    # Only look at measures, a type variable may also stand for a dimension
+    terms = collect(lambda t: isscalar(t) or isinstance(t, DataShape),
+                    ds.measure)
+    return chain.from_iterable([t] if isscalar(t) else _dtypes(t)
+                               for t in terms)
 
 
 def _dimensions(ds):
-- 
2.43.0


From ab48f57cc4de59cb5071b9a3380e4c98a9e85b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 50/56] fix: compare a datashape and a bare type by the flags
 of assert_dshape_equal

---
 datashape/util/testing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 84e00a0..b17e025 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -2,9 +2,11 @@ from abc import ABCMeta
 
 from ..py2help import with_metaclass
 from ..coretypes import (
+    MEASURE,
     DataShape,
     DateTime,
     Function,
+    Mono,
     Option,
     Record,
     String,
@@ -109,6 +111,21 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     )
 
 
+@dispatch(DataShape, Mono)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if getattr(b, 'cls', MEASURE) != MEASURE:
+        return _base_case(a, b, path=path)
+    # a bare type is the same type with no dimensions
+    return assert_dshape_equal(a, DataShape(b), path=path, **kwargs)
+
+
+@dispatch(Mono, DataShape)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if getattr(a, 'cls', MEASURE) != MEASURE:
+        return _base_case(a, b, path=path)
+    return assert_dshape_equal(DataShape(a), b, path=path, **kwargs)
+
+
 class Slotted(with_metaclass(ABCMeta)):
     @classmethod
     def __subclasshook__(cls, subcls):
-- 
2.43.0


From c233921ff7ee02019e2792bde949145142526333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 51/56] fix: refuse to build functions of what is not a type

---
 datashape/coretypes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 74f8786..3da52d3 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -924,6 +924,16 @@ class Function(Mono):
     """
     cls = MEASURE
 
+    def __init__(self, *params):
+        if not params:
+            raise TypeError('a function has at least a return type')
+        for param in params:
+            if (not isinstance(param, Mono) or
+                    getattr(param, 'cls', MEASURE) != MEASURE):
+                raise TypeError('the arguments and the result of a function '
+                                'must be types, not %r' % (param,))
+        super(Function, self).__init__(*params)
+
     @property
     def restype(self):
         return self.parameters[-1]
-- 
2.43.0


From 8be508143482dc22397c3661fb04e3517ddd3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 52/56] fix: wrap options, maps and functions given to dshape
 in a DataShape

---
 datashape/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 544f2ea..2f2b3b4 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -47,7 +47,7 @@ def dshape(o):
                         coretypes.Unit)):
         ds = coretypes.DataShape(o)
     elif isinstance(o, coretypes.Mono):
-        ds = coretypes._launder_type(o)
+        ds = coretypes.DataShape(o)
     elif isinstance(o, (list, tuple)):
         ds = coretypes.DataShape(*o)
     else:
-- 
2.43.0


From 0c310bb140b79530ec736c4c7a23769af1f0d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 53/56] fix: answer isnumeric of records with fields NumPy
 would name alike

---
 datashape/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 15c32a0..4665c97 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -168,7 +168,7 @@ def isnumeric(ds):
 
     try:
         npdtype = to_numpy_dtype(ds)
-    except TypeError:
+    except (TypeError, ValueError):
         return False
     else:
         return isinstance(ds, Unit) and np.issubdtype(npdtype, np.number)
-- 
2.43.0


From f5a3560088af60876683cb3d4978e11419822d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 54/56] fix: refuse a categorical whose type is not a datashape

categorical[['a'], 'x'] failed with AttributeError.
---
 datashape/coretypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 3da52d3..f003f46 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1190,7 +1190,12 @@ class Categorical(Mono):
 
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
-        self.type = (type or datashape.discover(self.categories)).measure
+        if type is None:
+            type = datashape.discover(self.categories)
+        elif not isinstance(type, Mono):
+            raise TypeError('type parameter to categorical datashape must be '
+                            'a datashape type')
+        self.type = type.measure
         self.ordered = ordered
 
     def __str__(self):
-- 
2.43.0


From e17d9a7507eb890ea7acaf525b9e4221cf544de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 55/56] fix: discover texts in which the date parser finds too
 long a number

discover('99999999999999999999999999999h') failed with
decimal.InvalidOperation.
---
 datashape/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 4f71714..5489517 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -189,7 +189,9 @@ def discover(s):
 
     try:
         d = dateparse(s)
-    except (ValueError, OverflowError):  # OverflowError for stuff like 'INF...'
+    except (ValueError, ArithmeticError):
+        # OverflowError for stuff like 'INF...', decimal.InvalidOperation for
+        # a number with too many digits, both are arithmetic errors
         pass
     else:
         return date_ if is_zero_time(d.time()) else datetime_
-- 
2.43.0


From eceadd6cf48fb62aaade2ff1602ae36cb3ea901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:21 +0000
Subject: [PATCH 56/56] fix: convert NumPy fields with titles

---
 datashape/coretypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f003f46..4a7bad8 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1443,9 +1443,10 @@ def from_numpy(shape, dt):
     elif dtype.kind == 'U':
         measure = String(dtype.itemsize // 4, 'U32')
     elif dtype.names is not None:
-        fields = [(name, dtype.fields[name]) for name in dtype.names]
+        # ignore the byte offset, and the title if there is one
+        fields = [(name, dtype.fields[name][0]) for name in dtype.names]
         rec = [(name, from_numpy(t.shape, t.base))  # recurse into nested dtype
-               for name, (t, _) in fields]  # _ is the byte offset: ignore it
+               for name, t in fields]
         measure = Record(rec)
     else:
         measure = CType.from_numpy_dtype(dtype)
-- 
2.43.0

