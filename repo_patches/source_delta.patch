From 2ace1802031623180c3eb731e45430c9f92b5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 01/66] fix: Context.rewind to the topmost frame hid and
 removed the whole stack

---
 pilo/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..f77d4b7 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -136,11 +136,12 @@ class Context(threading.local):
         """
         for i, frame in enumerate(reversed(self.stack)):
             if stop(frame):
-                frames = self.stack[-i:]
+                keep = len(self.stack) - i
+                frames = self.stack[keep:]
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        del self.stack[keep:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From 0513ba6bf2aa9922b46943078377d660be4993de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:38 +0000
Subject: [PATCH 02/66] fix: Date silently turned text fitting none of its
 formats into null

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..92a4de4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -918,7 +918,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -926,7 +926,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From b1cf31261184a276e445f0f24f03be2faa1508ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:41 +0000
Subject: [PATCH 03/66] fix: Float.pattern yielded an int

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 92a4de4..ffb24d6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -841,7 +841,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From b2578dea10bccdcd9cff0239ad40b4eeeefeceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:44 +0000
Subject: [PATCH 04/66] fix: Decimal let decimal errors of unparsable or NaN
 data escape from mapping

---
 pilo/fields.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ffb24d6..ec674b8 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -855,9 +855,20 @@ class Decimal(Number):
         if isinstance(path.value, decimal.Decimal):
             return path.value
         if isinstance(path.value, numbers.Number):
-            return decimal.Decimal(path.value)
-        value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+            value = path.value
+        else:
+            value = path.primitive(six.string_types[0])
+        try:
+            return decimal.Decimal(value)
+        except (decimal.InvalidOperation, TypeError):
+            raise ValueError('"{0}" is not a decimal'.format(value))
+
+    def _validate(self, value):
+        try:
+            return super(Decimal, self)._validate(value)
+        except decimal.InvalidOperation:
+            self.ctx.errors.invalid('"{0}" cannot be compared'.format(value))
+            return False
 
 
 class Boolean(Field):
-- 
2.43.0


From f2cf4566240e5fd439a3be17cff4bf6c25dbfc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:46 +0000
Subject: [PATCH 05/66] fix: integers too large for a float raised
 OverflowError out of mapping

---
 pilo/source/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..474fb83 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -238,7 +238,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is too large for a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
-- 
2.43.0


From 0ed5b6b25d9971d9f4ec77bb1bc5d5cc5bedf64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:49 +0000
Subject: [PATCH 06/66] fix: JSON integers too large for a float raised
 OverflowError out of mapping

---
 pilo/source/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..2b9415f 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -67,7 +67,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is too large for a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From 1489b42b7db59a74855a2e6230d1a8f368645a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:52 +0000
Subject: [PATCH 07/66] fix: parsers of sub-classed types were looked up in a
 missing attribute

---
 pilo/source/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 474fb83..ee64798 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -285,7 +285,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From c6775249faeb3576d36109c733adf7f04ca41dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:54 +0000
Subject: [PATCH 08/66] fix: JSON parsers of sub-classed types were looked up
 in a missing attribute

---
 pilo/source/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 2b9415f..341df92 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -108,7 +108,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From ae12cbf202c5e03a26d1971c010ae97d6f9b6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 09/66] fix: JsonSource used json.loads(encoding=), which
 Python 3.9 removed

---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 341df92..af8626b 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if encoding is not None and isinstance(text, bytes):
+            text = text.decode(encoding)
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From de874cbede15adeba9d3f94d509028659bccb697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:41 +0000
Subject: [PATCH 10/66] fix: MountSource could not be used on Python 3
 (iteritems)

---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..296bf87 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -10,7 +10,7 @@ class MountPath(collections.MutableSequence):
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in src.srcs.items()
         )
 
     @property
-- 
2.43.0


From d8ec7de87266e265b66b7d5962166225da52fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:44 +0000
Subject: [PATCH 11/66] fix: a mount path had no source, so its own errors
 raised AttributeError

---
 pilo/source/mount.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 296bf87..49dc0a4 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -7,6 +7,7 @@ from . import PathPart, Source, NONE, DefaultSource
 class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
+        self.src = src
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
@@ -60,12 +61,12 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
+            raise self.src.error(self, 'not a primitive')
         return self.paths[self.part.key].primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
+            raise self.src.error(self, 'not a sequence')
         return self.paths[self.part.key].sequence()
 
     def mapping(self):
-- 
2.43.0


From 7a30585b9926cf5996b407373c10a28171fa9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:47 +0000
Subject: [PATCH 12/66] fix: an unknown mount point existed as an empty mapping
 or raised KeyError

---
 pilo/source/mount.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 49dc0a4..f9d88dd 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -35,7 +35,7 @@ class MountPath(collections.MutableSequence):
 
     @property
     def value(self):
-        if self.path is None:
+        if self.path is None or self.path is self.dne:
             return NONE
         return self.path.value
 
@@ -60,18 +60,20 @@ class MountPath(collections.MutableSequence):
         return self.value is None
 
     def primitive(self, *types):
-        if self.part is None:
+        if self.path is None or self.path is self.dne:
             raise self.src.error(self, 'not a primitive')
-        return self.paths[self.part.key].primitive(*types)
+        return self.path.primitive(*types)
 
     def sequence(self):
-        if self.part is None:
+        if self.path is None or self.path is self.dne:
             raise self.src.error(self, 'not a sequence')
-        return self.paths[self.part.key].sequence()
+        return self.path.sequence()
 
     def mapping(self):
         if self.part is None:
             return self.paths.keys()
+        if self.path is self.dne:
+            raise self.src.error(self, 'not a mapping')
         return self.path.mapping()
 
     # collections.Sequence
-- 
2.43.0


From 81d5ac5a75df458e2d987d644805d7ec0bb82bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:49 +0000
Subject: [PATCH 13/66] fix: ConfigSource could not read text (StringIO) and
 used the removed readfp

---
 pilo/source/configparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..2dc7c32 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -132,7 +132,11 @@ class ConfigSource(Source, ParserMixin):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
                 config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+            fo = six.StringIO(config)
+            if hasattr(parser, 'read_file'):
+                parser.read_file(fo)
+            else:
+                parser.readfp(fo)
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From 5237ad0183dbf0fd6cef68d9b92ad2c8b5962a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:52 +0000
Subject: [PATCH 14/66] fix: preserve_case set optionxform on the text instead
 of the parser

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 2dc7c32..c1043a1 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -131,7 +131,7 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
+                parser.optionxform = lambda x: x
             fo = six.StringIO(config)
             if hasattr(parser, 'read_file'):
                 parser.read_file(fo)
-- 
2.43.0


From 2491aef49e954edb4cd78c3ae4286671e8d26a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:54 +0000
Subject: [PATCH 15/66] fix: ConfigSource without defaults raised on unknown
 options and on sections

---
 pilo/source/configparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index c1043a1..3587390 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -60,7 +60,7 @@ class SectionMapping(collections.Mapping):
         self.config = config
         self.section = section
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
-        self.defaults = defaults
+        self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
             m = re.match(pattern, option)
@@ -91,7 +91,7 @@ class Mapping(collections.Mapping):
 
     def __init__(self, config, defaults=None):
         self.config = config
-        self.defaults = defaults
+        self.defaults = defaults or {}
 
     def __getitem__(self, key):
         if not self.config.has_section(key):
-- 
2.43.0


From 66a5ba127f7f7b6cf3e27adbcbca44a79a968a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 16/66] fix: listing the options of a config section used
 iteritems, gone in Python 3

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 3587390..581d3b5 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k in self.sub_mappings:
             yield k
         for k, v in self.config.items(self.section):
             yield k
-- 
2.43.0


From 1959f8f8f0aa21a409c1c30dc0297093efee7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 17/66] fix: config lookups raised for positions in a section
 and for unbalanced quotes

---
 pilo/source/configparser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 581d3b5..829344a 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -33,7 +33,7 @@ class ConfigPath(Path):
             if isinstance(container, six.string_types):
                 container = Sequence(container)
             return container[part.key]
-        except (KeyError, IndexError, TypeError):
+        except (KeyError, IndexError, TypeError, ValueError):
             return NONE
 
 
@@ -71,7 +71,7 @@ class SectionMapping(collections.Mapping):
     def __getitem__(self, key):
         if key in self.sub_mappings:
             return self.sub_mappings[key]
-        if self.config.has_option(self.section, key):
+        if isinstance(key, six.string_types) and self.config.has_option(self.section, key):
             return self.config.get(self.section, key)
         if key in self.defaults:
             return self.defaults[key]
@@ -169,7 +169,10 @@ class ConfigSource(Source, ParserMixin):
     def sequence(self, path):
         value = path.value
         if isinstance(value, six.string_types):
-            return len(Sequence(value))
+            try:
+                return len(Sequence(value))
+            except ValueError as ex:
+                raise self.error(path, 'not a sequence: {0}'.format(ex))
         if isinstance(value, collections.Sequence):
             return len(value)
         raise self.error(path, 'not a sequence')
-- 
2.43.0


From 0d017987e5b36a0aa8102bd5adec8c4342e90360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 18/66] fix: Code fields lost in-line code and dotted modules
 on Python 3

---
 pilo/fields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ec674b8..8f25774 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -47,6 +47,7 @@ import sys
 import datetime
 import decimal
 import imp
+import importlib
 import inspect
 import numbers
 import re
@@ -1218,7 +1219,7 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        module = importlib.import_module(name)
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
@@ -1231,7 +1232,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        six.exec_(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From a83d1880658d065e8bd04f2df6dc33bc8eb54832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 19/66] fix: Field.from_context used contextlib.nested, gone in
 Python 3

---
 pilo/fields.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 8f25774..6b73e2a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -431,11 +431,14 @@ class Field(CreatedCountMixin, ContextMixin):
 
     def from_context(self):
 
+        @contextlib.contextmanager
+        def nested(field):
+            with field.ctx(src=DefaultSource(field.ctx)):
+                with field.ctx(src=field.src):
+                    yield
+
         def resolve(self):
-            return contextlib.nested(
-                self.ctx(src=DefaultSource(self.ctx)),
-                self.ctx(src=self.src),
-            )
+            return nested(self)
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From feb21b8c58de875d3af845a8a9c0d7ff36f452d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 20/66] fix: mapping replaced the process-wide warning filters
 while other threads map

---
 pilo/fields.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6b73e2a..8f87e99 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -54,7 +54,6 @@ import re
 import six
 import time
 import uuid
-import warnings
 import weakref
 
 try:
@@ -1644,24 +1643,20 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                'ignore', 'With-statements now directly support multiple context managers'
-            )
-            if src is None:
-                src = self._map_source({})
-            elif isinstance(src, dict):
-                src = self._map_source(src)
-            elif isinstance(src, (list, tuple)):
-                src = self._seq_source(src)
-            elif isinstance(src, Source):
-                pass
-            else:
-                raise ValueError('Invalid src, expected None, dict or Source')
-            errors = (CollectErrors if error == 'collect' else RaiseErrors)()
-            with self.ctx(src=src, errors=errors):
-                self._map(tags, unmapped)
-                errors = self.ctx.errors
+        if src is None:
+            src = self._map_source({})
+        elif isinstance(src, dict):
+            src = self._map_source(src)
+        elif isinstance(src, (list, tuple)):
+            src = self._seq_source(src)
+        elif isinstance(src, Source):
+            pass
+        else:
+            raise ValueError('Invalid src, expected None, dict or Source')
+        errors = (CollectErrors if error == 'collect' else RaiseErrors)()
+        with self.ctx(src=src, errors=errors):
+            self._map(tags, unmapped)
+            errors = self.ctx.errors
         return errors
 
     def _nested_map(self, tags, unmapped, error):
-- 
2.43.0


From 33b7eba89a0a7a1a61c8eaf35921ec58334576df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 21/66] fix: a suppressed default was still taken from a
 default hook

---
 pilo/fields.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 8f87e99..3d09b86 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -572,8 +572,6 @@ class Field(CreatedCountMixin, ContextMixin):
                 else:
                     value = self._compute()
                 if value is NONE:
-                    if isinstance(self.default, Hook) and self.default:
-                        return self.default()
                     return self._default()
                 if value in IGNORE:
                     return value
-- 
2.43.0


From ed35361a21783f14c490f4f817d54b5e7ab5b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:56 +0000
Subject: [PATCH 22/66] fix: Dict.required_keys given as a list, or as
 non-strings, raised while reporting

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3d09b86..f24af5f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1188,10 +1188,10 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
             if self.max_keys and len(value) > self.max_keys:
-- 
2.43.0


From 14c6512344489646c9d5188c84cc2424f24c966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:58 +0000
Subject: [PATCH 23/66] fix: String choices given as a tuple raised while
 validating

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f24af5f..e6f5cdd 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -755,7 +755,7 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
                     value, self.choices[0],
-- 
2.43.0


From eff37c89bf407989b3a3c24e5421412f3245958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:00 +0000
Subject: [PATCH 24/66] fix: unhashable values raised TypeError from a field
 with translations

---
 pilo/fields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e6f5cdd..12b1830 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -525,8 +525,12 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Possibly munges a value.
         """
-        if self.translations and value in self.translations:
-            value = self.translations[value]
+        if self.translations:
+            try:
+                value = self.translations.get(value, value)
+            except TypeError:
+                # unhashable, so not one of the translated values
+                pass
         return value
 
     def _default(self):
-- 
2.43.0


From 0a9a101246e30ac2da71c6c6f7d9732971fcc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:03 +0000
Subject: [PATCH 25/66] fix: a clone shared hooks, ignores, translations and
 tags with its original

---
 pilo/fields.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 12b1830..6e69213 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -204,6 +204,12 @@ class Hook(object):
         self.target = target
         return self
 
+    def clone(self, parent):
+        other = Hook(parent, self.func_spec)
+        other.target = parent if self.target is self.parent else self.target
+        other.func = self.func
+        return other
+
     def __bool__(self):
         return self.func is not None
 
@@ -426,6 +432,12 @@ class Field(CreatedCountMixin, ContextMixin):
     def clone(self):
         other = copy.copy(self)
         other.parent = None
+        other.ignores = list(self.ignores)
+        other.translations = dict(self.translations)
+        other.tags = dict(self.tags)
+        for name, value in list(vars(self).items()):
+            if isinstance(value, Hook):
+                setattr(other, name, value.clone(other))
         return other
 
     def from_context(self):
-- 
2.43.0


From b36693b0dd2d42ab39e4a896224445d70105d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 26/66] fix: reading an attribute in a rewound frame neither
 cached nor checked the value

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6e69213..39eebcd 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -655,7 +655,7 @@ class Field(CreatedCountMixin, ContextMixin):
                     return getattr(frame, 'parent', None) is form
                 try:
                     with self.ctx.rewind(is_form):
-                        return self.map()
+                        value = self.map()
                 except self.ctx.RewindDidNotStop:
                     with self.ctx(form=form, parent=form, src=DefaultSource({})):
                         value = self.map()
-- 
2.43.0


From 51d96a606d372db930b38a915003f564c5cc41d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 27/66] fix: a null raised AttributeError from a field that
 attaches its parent

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 39eebcd..334e6f2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -626,7 +626,7 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
+        if self.attach_parent and value is not None and value not in IGNORE:
             if hasattr(self.ctx, 'parent'):
                 value.parent = weakref.proxy(self.ctx.parent)
             else:
-- 
2.43.0


From cec369b206a8a3b390cc10d4b463f765d798ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:11 +0000
Subject: [PATCH 28/66] fix: a null raised TypeError from String.capture

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 334e6f2..b76454a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -729,6 +729,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return None
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From 8001d3bb1f21c03f0ee77f62d96ad449dca53cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:14 +0000
Subject: [PATCH 29/66] fix: a Date kept datetimes, which its bounds cannot be
 compared with

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index b76454a..b205167 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -932,6 +932,8 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
+        if isinstance(path.value, datetime.datetime):
+            return path.value.date()
         if isinstance(path.value, datetime.date):
             return path.value
         value = path.primitive(six.string_types[0])
-- 
2.43.0


From 05ae93304a2873bbf25bd82db2e7c75d7f1b1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:56 +0000
Subject: [PATCH 30/66] fix: values_for returned dict methods for variables
 named like them

---
 pilo/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/context.py b/pilo/context.py
index f77d4b7..95dbdd6 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -112,7 +112,7 @@ class Context(threading.local):
         """
         Each value with name `k`.
         """
-        return [getattr(frame, k) for frame in self.stack if hasattr(frame, k)]
+        return [frame[k] for frame in self.stack if k in frame]
 
     def reset(self):
         """
-- 
2.43.0


From 52af49178986568ba341e816f6b9cba30ead41d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:58 +0000
Subject: [PATCH 31/66] fix: a call key over a value that cannot be called
 raised TypeError

---
 pilo/source/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..ccf2d0f 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -55,7 +55,7 @@ class DefaultPath(Path):
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part)
-            if value is NONE:
+            if value is NONE or not callable(value):
                 return NONE
             return value()
 
-- 
2.43.0


From d92993287973e6cc3ee4d10ceb07acb3a1dd7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:01 +0000
Subject: [PATCH 32/66] fix: an ignored path still existed when addressed by a
 dotted key

---
 pilo/source/default.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index ccf2d0f..b774639 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -85,7 +85,13 @@ class DefaultSource(Source, ParserMixin):
     def ignore(self, path):
         if not self.ignores:
             return False
-        return [part.key for part in path] in self.ignores
+        keys = []
+        for part in path:
+            if isinstance(part.key, six.string_types):
+                keys.extend(part.key.split('.'))
+            else:
+                keys.append(part.key)
+        return keys in self.ignores
 
     # Source
 
-- 
2.43.0


From 16e91f7b1055d718f2a6e769ea7b5eeb848fdb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:04 +0000
Subject: [PATCH 33/66] fix: mapping keys other than text and integers raised
 AttributeError

---
 pilo/source/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ee64798..75fc1b8 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -83,8 +83,10 @@ class Path(collections.MutableSequence):
             for part in self[1:]:
                 if isinstance(part.key, six.integer_types):
                     part = '[{0}]'.format(part.key)
-                else:
+                elif isinstance(part.key, six.string_types):
                     part = '.' + part.key
+                else:
+                    part = '.{0}'.format(part.key)
                 parts.append(part)
         return ''.join(parts)
 
@@ -149,7 +151,7 @@ class Path(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts[index] = value
 
@@ -157,7 +159,7 @@ class Path(collections.MutableSequence):
         del self.parts[index]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts.insert(index, value)
 
-- 
2.43.0


From 81bb7acd980cda38fd6fbc7780b3b61a1a8fcf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:06 +0000
Subject: [PATCH 34/66] fix: mapping keys other than text and integers raised
 AttributeError below a mount

---
 pilo/source/mount.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index f9d88dd..1cb5908 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,5 +1,4 @@
 import collections
-import six
 
 from . import PathPart, Source, NONE, DefaultSource
 
@@ -87,7 +86,7 @@ class MountPath(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         if index < 0:
             index = len(self) + index
@@ -111,7 +110,7 @@ class MountPath(collections.MutableSequence):
         del self.path[index - 1]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         if index < 0:
             index = len(self) + index
-- 
2.43.0


From 017166ee5a57b291f17baa70c2ab27dee938e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:09 +0000
Subject: [PATCH 35/66] fix: captured keys could overwrite the entry of a
 declared field

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index b205167..1d9f5d4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1638,7 +1638,8 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     self[field.name] = value
         unmapped = self._unmapped(unmapped)
         if unmapped is not None:
-            self.update(unmapped)
+            for key, value in six.iteritems(unmapped):
+                self.setdefault(key, value)
 
     def _unmapped(self, directive):
         if not directive:
-- 
2.43.0


From 1122dd77e0287cdb7d144d273ffa5616add593da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:12 +0000
Subject: [PATCH 36/66] fix: munging a form turned tuples into lists

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1d9f5d4..2165451 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1758,7 +1758,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     if isinstance(item, Form):
                         item = item.munge(func)
                     items.append(item)
-                value = items
+                value = tuple(items) if isinstance(value, tuple) else items
             form[field.name] = value
         return form
 
-- 
2.43.0


From 4e81d516b235eba3fa4d532a4443e488702ec3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 37/66] fix: a sub-class inheriting its identity took it away
 from the class declaring it

---
 pilo/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..cc41865 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -50,7 +50,8 @@ class Types(dict):
                 try:
                     instance = getattr(form_cls, field.name)
                     for value in instance.choices or []:
-                        identities[value] = form_cls
+                        if value not in identities or field.name in vars(form_cls):
+                            identities[value] = form_cls
                 except AttributeError:
                     pass
             for sub_cls in form_cls.__subclasses__():
-- 
2.43.0


From 0a98571dbdab2305ea071a8b45a8621cb36e88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:11 +0000
Subject: [PATCH 38/66] fix: an identity that cannot be determined raised
 AttributeError

---
 pilo/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index cc41865..5537e50 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -95,9 +95,11 @@ class Types(dict):
     def probe(self, src, default=NONE):
         probe = self.type_form()
         errors = probe.map(src)
-        if not errors:
-            return self.type_field.__get__(probe)
+        if not errors and self.type_field.name in probe:
+            return probe[self.type_field.name]
         if default in IGNORE:
+            if not errors:
+                raise ValueError('"{0}" cannot be determined'.format(self.type_field.name))
             raise errors[0]
         return default
 
-- 
2.43.0


From d1fee3b00d820479178be5208817d75d1a019859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 39/66] fix: forms declared after the first probe were not
 dispatched to

---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2165451..6ad8bdb 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1337,7 +1337,11 @@ class Type(String):
     def probe(self, value):
         if not self.types:
             self.types = Types.map(self)
-        return self.types.probe(value)
+        identity = self.types.probe(value)
+        if identity not in self.types:
+            # sub-classes may have been declared since
+            self.types = Types.map(self)
+        return identity
 
     def _validate(self, value):
         if not super(Type, self)._validate(value):
-- 
2.43.0


From fddf5a28fdd4030acc1cde0b00400fe245b6d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 40/66] fix: Form.map and polymorphic sub-forms turned down
 mappings that are not dicts

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6ad8bdb..533081a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,6 +41,7 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
+import collections
 import contextlib
 import copy
 import sys
@@ -1668,7 +1669,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
     def _root_map(self, src, tags, unmapped, error):
         if src is None:
             src = self._map_source({})
-        elif isinstance(src, dict):
+        elif isinstance(src, (dict, collections.Mapping)):
             src = self._map_source(src)
         elif isinstance(src, (list, tuple)):
             src = self._seq_source(src)
-- 
2.43.0


From 745b584d613e15cfbf36d4bda5bf9ef6b52d43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:20 +0000
Subject: [PATCH 41/66] fix: times and datetimes that cannot be compared with a
 bound raised TypeError

---
 pilo/fields.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 533081a..de172d6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1006,10 +1006,17 @@ class Time(Field, RangeMixin):
         if not super(Time, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
+            try:
+                early = self.after_value is not None and value < self.after_value
+                late = self.before_value is not None and value > self.before_value
+            except TypeError as ex:
+                # e.g. with and without time zone
+                self.ctx.errors.invalid(str(ex))
+                return False
+            if early:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-            if self.before_value is not None and value > self.before_value:
+            if late:
                 self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                 return False
         return True
@@ -1050,10 +1057,17 @@ class Datetime(Field, RangeMixin):
         if not super(Datetime, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
+            try:
+                early = self.after_value is not None and value < self.after_value
+                late = self.before_value is not None and value > self.before_value
+            except TypeError as ex:
+                # e.g. with and without time zone
+                self.ctx.errors.invalid(str(ex))
+                return False
+            if early:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-            if self.before_value is not None and value > self.before_value:
+            if late:
                 self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                 return False
         return True
-- 
2.43.0


From 1f6904baa8c01bfc8cc427a3e258a3a9d5e1c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:08 +0000
Subject: [PATCH 42/66] fix: reporting an unknown sequence merge policy raised
 IndexError

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..df3ff89 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -214,7 +214,7 @@ class Sequence(collections.Sequence):
             elif merge == 'last':
                 sequences[0] = (path, length)
             else:
-                raise ValueError('merge="{1}" invalid'.format(merge))
+                raise ValueError('merge="{0}" invalid'.format(merge))
         self.src = src
         self.sequences = sequences
 
-- 
2.43.0


From ec61a3d30eb6410ccd0119eee24e08328beefe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 43/66] fix: merge_depth of mappings was compared with the
 number of sources

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index df3ff89..bf9a71e 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -147,7 +147,7 @@ class Mapping(collections.Mapping):
         mappings = []
         if merge is None:
             merge = src.mapping_merge
-            if src.merge_depth is not None and src.merge_depth <= len(paths):
+            if src.merge_depth is not None and paths and src.merge_depth <= len(paths[0]):
                 merge = 'first'
         if merge not in ('first', 'last', 'combine'):
             raise ValueError('merge="{0}" invalid'.format(merge))
-- 
2.43.0


From 16496e5753554df1e60ef9d4e1a601de128426ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:13 +0000
Subject: [PATCH 44/66] fix: UnionSource changed the list of sources it was
 given

---
 pilo/source/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index bf9a71e..31aedf8 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -75,6 +75,7 @@ class UnionSource(Source):
         merge_depth=None,
     ):
         super(UnionSource, self).__init__()
+        srcs = list(srcs)
         for i, src in enumerate(srcs):
             if isinstance(src, Source):
                 continue
-- 
2.43.0


From 78b3ec1a743c36ce58590037f1e63a477e3af328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:15 +0000
Subject: [PATCH 45/66] fix: a union kept the first conversion of a value and
 ignored the type asked for

---
 pilo/source/union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 31aedf8..b1b2a91 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -113,7 +113,9 @@ class UnionSource(Source):
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
-            path.value = path.value.primitive(*types)
+            return path.value.primitive(*types)
+        if any(t is not None for t in types):
+            raise self.error(path, 'not a primitive')
         return path.value
 
 
-- 
2.43.0


From 69efceff142903ce2f9a1676716d4dfe3f0f63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:17 +0000
Subject: [PATCH 46/66] fix: nulls below a union were not recognised as null

---
 pilo/source/union.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index b1b2a91..4c113bc 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -34,6 +34,8 @@ class UnionPath(Path):
             return len(self.value.mappings) == 0
         if isinstance(self.value, Sequence):
             return len(self.value.sequences) == 0
+        if isinstance(self.value, Join):
+            return self.value.is_null
         return False
 
     def resolve(self, container, part):
@@ -125,6 +127,10 @@ class Join(Source):
         self.src = src
         self.paths = paths
 
+    @property
+    def is_null(self):
+        return all(path.is_null for path in self.paths)
+
     def mapping(self):
         return Mapping(self.src, self.paths)
 
@@ -134,7 +140,10 @@ class Join(Source):
     def primitive(self, *types):
         if not self.paths:
             return NONE
-        return self.paths[0].primitive(*types)
+        for path in self.paths:
+            if not path.is_null:
+                break
+        return path.primitive(*types)
 
     # Source
 
-- 
2.43.0


From 3d89c60e997a0d3f2dc269e0295b3e3daa8be6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:20 +0000
Subject: [PATCH 47/66] fix: decimals, dates and times below a union were only
 recognised as text

---
 pilo/fields.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index de172d6..0f57780 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -872,11 +872,10 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        if isinstance(path.value, decimal.Decimal):
-            return path.value
-        if isinstance(path.value, numbers.Number):
-            value = path.value
-        else:
+        value = path.primitive(None)
+        if isinstance(value, decimal.Decimal):
+            return value
+        if not isinstance(value, numbers.Number):
             value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
@@ -933,10 +932,11 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value.date()
-        if isinstance(path.value, datetime.date):
-            return path.value
+        value = path.primitive(None)
+        if isinstance(value, datetime.datetime):
+            return value.date()
+        if isinstance(value, datetime.date):
+            return value
         value = path.primitive(six.string_types[0])
         if not self._format:
             self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
@@ -991,7 +991,7 @@ class Time(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive(None)
         if isinstance(value, (time.struct_time, datetime.time)):
             return value
         value = path.primitive(six.string_types[0])
@@ -1037,8 +1037,9 @@ class Datetime(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value
+        value = path.primitive(None)
+        if isinstance(value, datetime.datetime):
+            return value
         value = path.primitive(six.string_types[0])
         if self._format == 'iso8601':
             try:
-- 
2.43.0


From de525d085cb49b39bcc445dcc23acb88953acfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:25 +0000
Subject: [PATCH 48/66] fix: max_keys=0 does not mean unlimited

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0f57780..f728bd7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1230,7 +1230,7 @@ class Dict(Field):
                         ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
-            if self.max_keys and len(value) > self.max_keys:
+            if self.max_keys is not None and len(value) > self.max_keys:
                 self.ctx.errors.invalid('Cannot have more than {0} key(s)'.format(
                     self.max_keys
                 ))
-- 
2.43.0


From a6b40bd3c058032df406e1e7138d4dea8fbdd50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:27 +0000
Subject: [PATCH 49/66] fix: String(length=0) is a length constraint

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f728bd7..b06e5ff 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -685,7 +685,7 @@ class String(Field):
 
     def __init__(self, *args, **kwargs):
         length = kwargs.pop('length', None)
-        if length:
+        if length is not None:
             if isinstance(length, (list, tuple)):
                 self.min_length, self.max_length = length
             else:
-- 
2.43.0


From c69c09871daa78dc0622cfc3f917335a8e511464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:28 +0000
Subject: [PATCH 50/66] fix: identities of sub-classes of a form that has an
 identity itself are dispatched

---
 pilo/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 5537e50..516bd7a 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -77,6 +77,8 @@ class Types(dict):
         for field in type_field.parent.fields:
             fields[field.name] = field.clone()
             if field is type_field:
+                # sub-classes may have other identities
+                fields[field.name].choices = None
                 break
         else:
             raise ValueError(
-- 
2.43.0


From f81b8f904d5632fe7b6569ddf37b49961deaa36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:49 +0000
Subject: [PATCH 51/66] fix: fields that capture unmapped keys are mapped for
 the form

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index b06e5ff..4f1d017 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1656,7 +1656,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                 value = field.map()
                 if value not in IGNORE:
                     self[field.name] = value
-        unmapped = self._unmapped(unmapped)
+            unmapped = self._unmapped(unmapped)
         if unmapped is not None:
             for key, value in six.iteritems(unmapped):
                 self.setdefault(key, value)
-- 
2.43.0


From ffb1e9c34ae7a072e1b7fa91663519b2df37f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 52/66] fix: keys that are not text raised TypeError from a
 Group with patterns

---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 4f1d017..27e9dab 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1490,7 +1490,11 @@ class Group(Field):
                 if src == key:
                     return field, None
             else:
-                m = src.match(key)
+                try:
+                    m = src.match(key)
+                except TypeError:
+                    # not text, so nothing a pattern matches
+                    m = None
                 if m is not None:
                     return field, m
 
-- 
2.43.0


From b7f20d36a8132339ea45ce873aa916d56bb1f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 53/66] fix: a field given to a Group without key was looked up
 below its own key

---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 27e9dab..7e18b95 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1445,6 +1445,7 @@ class Group(Field):
                     'field{0}.src is not set'.format(_path(*path))
                 )
             self.fields.append((obj.src, obj))
+            self.bare.append(obj)
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
@@ -1470,6 +1471,7 @@ class Group(Field):
 
         self.src = None
         self.fields = []
+        self.bare = []
         if fields:
             _add_list(fields)
         if 'default' not in kwargs:
@@ -1513,7 +1515,9 @@ class Group(Field):
                 continue
             matches += 1
             field, captures = match
-            with self.ctx(src=key):
+            # a bare field resolves its key itself
+            bare = any(field is other for other in self.bare)
+            with Close.dummy if bare else self.ctx(src=key):
                 value = field.map()
                 if value in IGNORE:
                     continue
-- 
2.43.0


From e12236e7355319c0e85e41d981f79e7d38c80705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:21 +0000
Subject: [PATCH 54/66] fix: a path below a missing part could exist when read
 again

---
 pilo/source/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 75fc1b8..208701a 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -103,9 +103,9 @@ class Path(collections.MutableSequence):
             i, value = 0, self.root
 
         for part in self.parts[i:]:
-            value = part.value = self.resolve(value, part)
             if value is NONE:
                 break
+            value = part.value = self.resolve(value, part)
 
         return value
 
-- 
2.43.0


From 3d93c42628c91e3be25fb1a2342f5e437baadf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 55/66] fix: aliases and ignores depended on whether upper
 parts of a path were read before

---
 pilo/source/default.py | 51 +++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index b774639..1d1b970 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -7,15 +7,16 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom):
-        if self.src.ignore(self):
+    def _resolve(self, container, atom, above):
+        if self.src.ignore(above + [atom]):
             return NONE
         value = self._as_item(container, atom)
         if value is not NONE:
             return value
-        value = self._as_alias(container, atom)
-        if value is not NONE:
-            return value
+        if not above:
+            value = self._as_alias(container, atom)
+            if value is not NONE:
+                return value
         return self._as_attr(container, atom)
 
     def _as_item(self, container, atom):
@@ -25,7 +26,7 @@ class DefaultPath(Path):
             return NONE
 
     def _as_alias(self, container, atom):
-        if self.src.aliases and atom in self.src.aliases and len(self) == 1:
+        if self.src.aliases and atom in self.src.aliases:
             alias = self.src.aliases[atom]
             return self._as_item(container, alias)
         return NONE
@@ -50,25 +51,39 @@ class DefaultPath(Path):
         parts.append(super(DefaultPath, self).__str__())
         return ':'.join(parts)
 
-    def resolve(self, container, part):
+    def _above(self, part):
+        keys = []
+        for other in self.parts:
+            if other is part:
+                break
+            keys.append(other.key)
+        return keys
+
+    def resolve(self, container, part, above=None):
+        if above is None:
+            above = self._above(part)
+
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+            if self.src.ignore(above + [part.key]):
+                return NONE
             part = copy.copy(part)
             part.key = part.key[:-2]
-            value = self.resolve(container, part)
+            value = self.resolve(container, part, above)
             if value is NONE or not callable(value):
                 return NONE
             return value()
 
         if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, part.key, above)
             if value is NONE:
                 value = container
                 for atom in part.key.split('.'):
-                    value = self._resolve(value, atom)
+                    value = self._resolve(value, atom, above)
                     if value is NONE:
                         break
+                    above = above + [atom]
         else:
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, part.key, above)
         return value
 
 
@@ -82,16 +97,16 @@ class DefaultSource(Source, ParserMixin):
             self.ignores = [ignore.split('.') for ignore in ignores]
         self.location = location
 
-    def ignore(self, path):
+    def ignore(self, keys):
         if not self.ignores:
             return False
-        keys = []
-        for part in path:
-            if isinstance(part.key, six.string_types):
-                keys.extend(part.key.split('.'))
+        atoms = []
+        for key in keys:
+            if isinstance(key, six.string_types):
+                atoms.extend(key.split('.'))
             else:
-                keys.append(part.key)
-        return keys in self.ignores
+                atoms.append(key)
+        return atoms in self.ignores
 
     # Source
 
-- 
2.43.0


From 7ae68c910edf1ab449a2bd12692d5f66d4fa453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:54 +0000
Subject: [PATCH 56/66] fix: a negative index beyond a mount path removed or
 replaced a part below the mount

---
 pilo/source/mount.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 1cb5908..82fed32 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -90,6 +90,8 @@ class MountPath(collections.MutableSequence):
             value = PathPart(key=value)
         if index < 0:
             index = len(self) + index
+            if index < 0:
+                raise IndexError()
         if index == 0:
             self.part = value
         else:
@@ -100,6 +102,8 @@ class MountPath(collections.MutableSequence):
             raise IndexError()
         if index < 0:
             index = len(self) + index
+            if index < 0:
+                raise IndexError()
         if index == 0:
             if self.path is not None and len(self.path) > 0:
                 raise TypeError('Cannot delete mount point')
-- 
2.43.0


From 7f2d93392f0c2e909c1106de8e5c72537653ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 57/66] fix: a path kept the values of parts below one that was
 replaced, removed or inserted

---
 pilo/source/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 208701a..11dcafa 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -153,16 +153,28 @@ class Path(collections.MutableSequence):
     def __setitem__(self, index, value):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
+        self._forget(index)
         self.parts[index] = value
 
     def __delitem__(self, index):
+        self._forget(index)
         del self.parts[index]
 
     def insert(self, index, value):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
+        self._forget(index)
         self.parts.insert(index, value)
 
+    def _forget(self, index):
+        """
+        Values below a part that changes have to be resolved anew.
+        """
+        if isinstance(index, slice):
+            index = 0
+        for part in self.parts[index:]:
+            part.value = NOT_SET
+
 
 class Source(object):
     """
-- 
2.43.0


From d96f4be40c27f6cc79d58e3befe7045d21f4d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 58/66] fix: the value of an abstract type was its default hook

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 7e18b95..962d184 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1338,7 +1338,7 @@ class Type(String):
 
     @property
     def value(self):
-        if self.default in IGNORE:
+        if self.default in IGNORE or isinstance(self.default, Hook):
             if not self.choices:
                 raise TypeError('{0} is abstract'.format(self))
             raise TypeError('{0} is polymorphic'.format(self))
-- 
2.43.0


From cb7af37e7e91e57171a1d30957b3c0c25214180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:44 +0000
Subject: [PATCH 59/66] fix: tags in the context kept the identity of
 polymorphic sub-forms from being determined

---
 pilo/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 516bd7a..bc361db 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -96,7 +96,9 @@ class Types(dict):
 
     def probe(self, src, default=NONE):
         probe = self.type_form()
-        errors = probe.map(src)
+        # whatever is selected for mapping, the identity is needed
+        with ctx(tags=None):
+            errors = probe.map(src)
         if not errors and self.type_field.name in probe:
             return probe[self.type_field.name]
         if default in IGNORE:
-- 
2.43.0


From 9749d3233adc1fee2d31c225fef512c9ef24f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 60/66] fix: asking a form for a field that was not mapped yet
 raised instead of answering

---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 962d184..0443091 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1735,14 +1735,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            return field.__get__(self, type(self)) is not None
+        except (AttributeError, LookupError, FormError):
             return False
 
     def flatten(self):
-- 
2.43.0


From 023fae09f69b83ae455ae9edd4c682b7df2a4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 61/66] fix: fields with a key of their own did not take the
 item at their position

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0443091..cbb0233 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1642,7 +1642,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return DefaultSource(
             obj,
             aliases=dict(
-                (field.name, i) for i, field in enumerate(self.fields)
+                (field.src, i) for i, field in enumerate(self.fields)
             )
         )
 
-- 
2.43.0


From 70e686a70924de76a46c01ab357ec7d2c280290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 62/66] fix: raw text of a config option could be that of
 another option, or nothing

---
 pilo/source/configparser.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 829344a..543f0ed 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -144,17 +144,25 @@ class ConfigSource(Source, ParserMixin):
         self.defaults = defaults
         self.preserve_whitespace = preserve_whitespace
 
-    def as_raw(self, path):
-        option = str(path[-1])
+    def as_raw(self, path, value):
+        keys = [str(part) for part in path]
+        section = self.section or keys.pop(0)
+        option = keys[0] if len(keys) == 1 else '{0}[{1}]'.format(*keys)
         lines = []
         with open(self.location, 'r') as fo:
-            section_header = '[{0}]'.format(self.section)
+            section_header = '[{0}]'.format(section)
             for line in fo:
                 if line.strip() == section_header:
                     break
             for line in fo:
-                if line.strip().startswith(option):
+                if line.startswith('['):
+                    # not set in this section, so a default
+                    return value
+                name = re.split('[=:]', line, 1)[0]
+                if not line[0].isspace() and self.config.optionxform(name.strip()) == self.config.optionxform(option):
                     break
+            else:
+                return value
             for line in fo:
                 if line and not line[0].isspace():
                     break
@@ -187,6 +195,6 @@ class ConfigSource(Source, ParserMixin):
 
         # preserve white-space for mulit-line strings
         if self.preserve_whitespace and isinstance(value, six.string_types) and value.count('\n') > 0:
-            value = self.as_raw(path)
+            value = self.as_raw(path, value)
 
         return value
-- 
2.43.0


From 5dd4d6bacd40da0fde03a6fdd1148d4c23c4791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 63/66] fix: raw text of a config option lacked what is on the
 line of the option

---
 pilo/source/configparser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 543f0ed..38782a4 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -158,8 +158,8 @@ class ConfigSource(Source, ParserMixin):
                 if line.startswith('['):
                     # not set in this section, so a default
                     return value
-                name = re.split('[=:]', line, 1)[0]
-                if not line[0].isspace() and self.config.optionxform(name.strip()) == self.config.optionxform(option):
+                parts = re.split('[=:]', line, 1)
+                if not line[0].isspace() and self.config.optionxform(parts[0].strip()) == self.config.optionxform(option):
                     break
             else:
                 return value
@@ -167,7 +167,8 @@ class ConfigSource(Source, ParserMixin):
                 if line and not line[0].isspace():
                     break
                 lines.append(line)
-        return textwrap.dedent(''.join(lines))
+        first = parts[1].strip()
+        return (first + '\n' if first else '') + textwrap.dedent(''.join(lines))
 
     # Source
 
-- 
2.43.0


From 94b82dd98d2930d5fa3ccc8c33ce46542044d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:39 +0000
Subject: [PATCH 64/66] fix: raw text was looked for below a line of text that
 reads like the section

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 38782a4..0d01d65 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -152,7 +152,7 @@ class ConfigSource(Source, ParserMixin):
         with open(self.location, 'r') as fo:
             section_header = '[{0}]'.format(section)
             for line in fo:
-                if line.strip() == section_header:
+                if line.startswith(section_header):
                     break
             for line in fo:
                 if line.startswith('['):
-- 
2.43.0


From 4e28f184f4d0ae138f4a869f1c0e65a2a4b04ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 65/66] fix: errors keep the path of the value they are about

---
 pilo/fields.py          |  3 ++-
 pilo/source/__init__.py | 10 +++++++++-
 pilo/source/mount.py    |  8 ++++++++
 pilo/source/union.py    |  6 ++++++
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index cbb0233..a2c22b5 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -116,7 +116,8 @@ class FieldError(ValueError):
     def __init__(self, message, field):
         super(FieldError, self).__init__(message)
         self.field = field
-        self.path = field.ctx.src_path
+        # paths move on while their source is mapped
+        self.path = copy.copy(field.ctx.src_path)
 
 
 class Missing(FieldError):
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 11dcafa..9cd0bc9 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -21,6 +21,7 @@ specializations for *computing* values from serializations:
 There's also `UnionSource` which unions a collection of `Source`s.
 """
 import collections
+import copy
 import inspect
 import six
 
@@ -44,7 +45,8 @@ class SourceError(Exception):
 
     def __init__(self, path, message):
         super(SourceError, self).__init__(message)
-        self.path = path
+        # paths move on while their source is mapped
+        self.path = copy.copy(path)
         self.message = message
 
 
@@ -90,6 +92,12 @@ class Path(collections.MutableSequence):
                 parts.append(part)
         return ''.join(parts)
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.parts = list(self.parts)
+        return other
+
     @property
     def value(self):
         if self.parts and self.parts[-1].value is not NOT_SET:
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 82fed32..6894cb2 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 
 from . import PathPart, Source, NONE, DefaultSource
 
@@ -13,6 +14,13 @@ class MountPath(collections.MutableSequence):
             (key, src.path()) for key, src in src.srcs.items()
         )
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.dne = copy.copy(self.dne)
+        other.paths = dict((key, copy.copy(path)) for key, path in self.paths.items())
+        return other
+
     @property
     def path(self):
         return self.paths.get(self.part.key, self.dne) if self.part else None
diff --git a/pilo/source/union.py b/pilo/source/union.py
index 4c113bc..6fce997 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 
 from . import Path, PathPart, Source, NONE, DefaultSource
 
@@ -26,6 +27,11 @@ class UnionPath(Path):
 
     # Path
 
+    def __copy__(self):
+        other = super(UnionPath, self).__copy__()
+        other.paths = [copy.copy(path) for path in self.paths]
+        return other
+
     @property
     def is_null(self):
         if super(UnionPath, self).is_null:
-- 
2.43.0


From 481bf147703e6545c0a46937e9bcbb6d24b261f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:07 +0000
Subject: [PATCH 66/66] fix: config options that only begin like a sub-option
 were read as one

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 0d01d65..2f56deb 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -59,7 +59,7 @@ class SectionMapping(collections.Mapping):
     def __init__(self, config, section, defaults):
         self.config = config
         self.section = section
-        pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
+        pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]$'
         self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
-- 
2.43.0

