From 3ca2399859280434be3b9dd18945730b1a4d3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 01/55] fix: JsonSource no longer passes the removed encoding
 argument to json.loads

Python 3.9 removed it, so that every JsonSource raised TypeError.
---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..8e4e7e2 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if encoding and isinstance(text, six.binary_type):
+            text = text.decode(encoding)
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From 00d541d9cae87d4d8c12e062860f0fa6af82acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 02/55] fix: MountSource paths work on Python 3 and can report
 errors

dict.iteritems does not exist there, and MountPath had neither the src
attribute that List reads nor the error attribute its own methods read.
---
 pilo/source/mount.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..ef45ac3 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -7,10 +7,11 @@ from . import PathPart, Source, NONE, DefaultSource
 class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
+        self.src = src
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
     @property
@@ -60,12 +61,12 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
+            raise self.src.error(self, 'not a primitive')
         return self.paths[self.part.key].primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
+            raise self.src.error(self, 'not a sequence')
         return self.paths[self.part.key].sequence()
 
     def mapping(self):
-- 
2.43.0


From 7afe026a1f1a796139cac4a861a849f2179086f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 03/55] fix: ConfigSource can be built from a string and from a
 file

six.moves.StringIO is the class itself, preserve_case has to be set on the
parser, and dict.iteritems does not exist on Python 3.
---
 pilo/source/configparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..e99c95e 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k, v in six.iteritems(self.sub_mappings):
             yield k
         for k, v in self.config.items(self.section):
             yield k
@@ -131,8 +131,8 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+                parser.optionxform = lambda x: x
+            parser.readfp(six.moves.StringIO(config))
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From 508440c1ef7de34448d6c4f8a5a016bd9b01a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 04/55] fix: ConfigSource over all sections works without
 defaults

Defaults of None made every section access raise AttributeError.
---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index e99c95e..b14dbe1 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -137,7 +137,7 @@ class ConfigSource(Source, ParserMixin):
         self.config = config
         self.section = section
         self.location = location
-        self.defaults = defaults
+        self.defaults = defaults or {}
         self.preserve_whitespace = preserve_whitespace
 
     def as_raw(self, path):
-- 
2.43.0


From e0dbc01023969fa7455ed3e98d06ff61b1e329f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 05/55] fix: rewinding to the current frame keeps the context

stack[-0:] is the whole stack, so all of the context was dropped.
---
 pilo/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..f77d4b7 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -136,11 +136,12 @@ class Context(threading.local):
         """
         for i, frame in enumerate(reversed(self.stack)):
             if stop(frame):
-                frames = self.stack[-i:]
+                keep = len(self.stack) - i
+                frames = self.stack[keep:]
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        del self.stack[keep:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From ea7da8ce59235f0a2aee8c156077e3c39b97ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 06/55] fix: a path below a missing value is missing

Once the missing value was cached it was used as a container, so that e.g. its
attribute "name" was found there.
---
 pilo/source/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..4f0f7a8 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -100,6 +100,9 @@ class Path(collections.MutableSequence):
         else:
             i, value = 0, self.root
 
+        if value is NONE:
+            return value
+
         for part in self.parts[i:]:
             value = part.value = self.resolve(value, part)
             if value is NONE:
-- 
2.43.0


From a28a89ac2e53cbce05a822bfbc3a62eb462c23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 07/55] fix: primitives of a derived type find the parser of
 its base type

Sources have no types attribute, so that the lookup raised AttributeError.
---
 pilo/source/__init__.py | 2 +-
 pilo/source/json.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 4f0f7a8..c8c3485 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -285,7 +285,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 8e4e7e2..3680228 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -107,7 +107,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From f71a2d6dd8f4bc989731c725f159a5567ab36769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 08/55] fix: mapping a form no longer replaces the process-wide
 warning filters

catch_warnings is not thread safe: overlapping mappings could leave their copy
of the filters, with the extra ignore entry, in place for good. It only hid the
deprecation warning of contextlib.nested.
---
 pilo/fields.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..bec535c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -53,7 +53,6 @@ import re
 import six
 import time
 import uuid
-import warnings
 import weakref
 
 try:
@@ -1629,24 +1628,20 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                'ignore', 'With-statements now directly support multiple context managers'
-            )
-            if src is None:
-                src = self._map_source({})
-            elif isinstance(src, dict):
-                src = self._map_source(src)
-            elif isinstance(src, (list, tuple)):
-                src = self._seq_source(src)
-            elif isinstance(src, Source):
-                pass
-            else:
-                raise ValueError('Invalid src, expected None, dict or Source')
-            errors = (CollectErrors if error == 'collect' else RaiseErrors)()
-            with self.ctx(src=src, errors=errors):
-                self._map(tags, unmapped)
-                errors = self.ctx.errors
+        if src is None:
+            src = self._map_source({})
+        elif isinstance(src, dict):
+            src = self._map_source(src)
+        elif isinstance(src, (list, tuple)):
+            src = self._seq_source(src)
+        elif isinstance(src, Source):
+            pass
+        else:
+            raise ValueError('Invalid src, expected None, dict or Source')
+        errors = (CollectErrors if error == 'collect' else RaiseErrors)()
+        with self.ctx(src=src, errors=errors):
+            self._map(tags, unmapped)
+            errors = self.ctx.errors
         return errors
 
     def _nested_map(self, tags, unmapped, error):
-- 
2.43.0


From ff0b6c8f5014d3d044ed68ac634a1c9a67a651ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 09/55] fix: Field.from_context works without contextlib.nested

Python 3 has no contextlib.nested; with Python 2 it emitted a warning.
---
 pilo/fields.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index bec535c..4272887 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,7 +41,6 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
-import contextlib
 import copy
 import sys
 import datetime
@@ -430,10 +429,14 @@ class Field(CreatedCountMixin, ContextMixin):
     def from_context(self):
 
         def resolve(self):
-            return contextlib.nested(
-                self.ctx(src=DefaultSource(self.ctx)),
-                self.ctx(src=self.src),
-            )
+            self.ctx(src=DefaultSource(self.ctx))
+            self.ctx(src=self.src)
+
+            def close():
+                self.ctx.restore()
+                self.ctx.restore()
+
+            return Close(close)
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From f2b492fa6450c403b323328fce663cf7a4240532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 10/55] fix: creation order of fields is kept when threads
 create fields at once

The separate read and write of the shared counter could hand out a number twice
or go backwards, so that fields of a class were ordered wrongly.
---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 4272887..6be14e8 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -47,6 +47,7 @@ import datetime
 import decimal
 import imp
 import inspect
+import itertools
 import numbers
 import re
 import six
@@ -167,11 +168,10 @@ class CreatedCountMixin(object):
     instances in creation order.
     """
 
-    _created_count = 0
+    _created_count = itertools.count(1)
 
     def __init__(self):
-        CreatedCountMixin._created_count += 1
-        self._count = CreatedCountMixin._created_count
+        self._count = next(CreatedCountMixin._created_count)
 
 
 class Hook(object):
-- 
2.43.0


From 4619aaf31bc07fee4cc0d9e069c15d3e534c7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 11/55] fix: a source error while resolving a field is reported
 as invalid

Only errors of parsing were; those of looking the value up escaped from the
mapping and hid the errors of all other fields.
---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6be14e8..e77ae36 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -473,11 +473,11 @@ class Field(CreatedCountMixin, ContextMixin):
         Processes this fields `src` from `ctx.src`.
         """
         src_path = self.ctx.src_path
-        if not src_path.exists:
-            return NONE
-        if src_path.is_null:
-            return None
         try:
+            if not src_path.exists:
+                return NONE
+            if src_path.is_null:
+                return None
             if self.parse:
                 value = self.parse(src_path)
             else:
-- 
2.43.0


From e5e4a2b7061518f4094f40e386062c7dc9873f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 12/55] fix: Date rejects text that matches none of its formats

The check for the last format never held, so such text became None and a
nullable date accepted it.
---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e77ae36..a093476 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -920,7 +920,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -928,7 +928,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From 8781149ba179057223bd531645cb9bef987a7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 13/55] fix: Decimal reports text that is not a number as
 invalid

InvalidOperation is not a ValueError, so it escaped from the mapping.
---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a093476..73174af 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -859,7 +859,10 @@ class Decimal(Number):
         if isinstance(path.value, numbers.Number):
             return decimal.Decimal(path.value)
         value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+        try:
+            return decimal.Decimal(value)
+        except decimal.InvalidOperation:
+            raise ValueError('"{0}" is not a decimal'.format(value))
 
 
 class Boolean(Field):
-- 
2.43.0


From 205e844d76855f101af6d6f5e33fd68d48c8b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 14/55] fix: NaN is not within any range

A float NaN passed every minimum and maximum, and a decimal NaN raised
InvalidOperation out of the mapping.
---
 pilo/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 73174af..ccb9ba8 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -795,6 +795,10 @@ class Number(Field):
         if not super(Number, self)._validate(value):
             return False
         if value is not None:
+            is_nan = value.is_nan() if isinstance(value, decimal.Decimal) else value != value
+            if is_nan and (self.min_value is not None or self.max_value is not None):
+                self.ctx.errors.invalid('"{0}" is not within range'.format(value))
+                return False
             if self.min_value is not None and value < self.min_value:
                 self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                     value, self.min_value
-- 
2.43.0


From 7e308f8d91a6d4b895dd4e71b2b24b1bba83bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 15/55] fix: errors keep the path of the value they are about

They held the live cursor of the mapping, which is back at the root, and so
prints as nothing, by the time that anyone can look at it.
---
 pilo/fields.py          |  2 +-
 pilo/source/__init__.py |  6 ++++++
 pilo/source/mount.py    | 10 ++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ccb9ba8..fe803f3 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -114,7 +114,7 @@ class FieldError(ValueError):
     def __init__(self, message, field):
         super(FieldError, self).__init__(message)
         self.field = field
-        self.path = field.ctx.src_path
+        self.path = copy.copy(field.ctx.src_path)
 
 
 class Missing(FieldError):
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index c8c3485..93e236b 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -88,6 +88,12 @@ class Path(collections.MutableSequence):
                 parts.append(part)
         return ''.join(parts)
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.parts = list(self.parts)
+        return other
+
     @property
     def value(self):
         if self.parts and self.parts[-1].value is not NOT_SET:
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index ef45ac3..46e6c0b 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import six
 
 from . import PathPart, Source, NONE, DefaultSource
@@ -14,6 +15,15 @@ class MountPath(collections.MutableSequence):
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.dne = copy.copy(self.dne)
+        other.paths = dict(
+            (key, copy.copy(path)) for key, path in six.iteritems(self.paths)
+        )
+        return other
+
     @property
     def path(self):
         return self.paths.get(self.part.key, self.dne) if self.part else None
-- 
2.43.0


From 8b92191fe024864c09c015d424187426b437a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 16/55] fix: polymorphic types defined after the first use are
 found

The registry was built once, so that whether a class was found depended on
whether anything had been cast before it was defined.
---
 pilo/fields.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index fe803f3..5fd341e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1307,15 +1307,23 @@ class Type(String):
 
     def cast(self, value):
         identity = self.probe(value)
-        if identity not in self.types:
+        form_type = self.form_type(identity)
+        if form_type is None:
             raise ValueError('{0} value {1} invalid'.format(self, identity))
-        return self.types[identity]
+        return form_type
 
     def probe(self, value):
         if not self.types:
             self.types = Types.map(self)
         return self.types.probe(value)
 
+    def form_type(self, identity):
+        types = self.types
+        if identity not in types:
+            # it may have been defined since
+            types = self.types = Types.map(self)
+        return types.get(identity)
+
     def _validate(self, value):
         if not super(Type, self)._validate(value):
             return False
@@ -1373,10 +1381,11 @@ class PolymorphicSubForm(Field):
             return ERROR
         if identity is None:
             return NONE
-        if identity not in self.type_field.types:
+        form_type = self.type_field.form_type(identity)
+        if form_type is None:
             self.ctx.errors.invalid('invalid identity {0}'.format(identity))
             return ERROR
-        return self.type_field.types[identity]
+        return form_type
 
     def _parse(self, path):
         form_type = self._form_type(path)
-- 
2.43.0


From 3c47141cf2df0286cdf710b3f7c481b6e9c818bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 17/55] fix: raw multi-line config values come from the text
 that was parsed

They were read from the file again at mapping time, so that a file replaced or
removed after loading gave values of another version, or none.
---
 pilo/source/configparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index b14dbe1..e264a20 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -128,7 +128,9 @@ class ConfigSource(Source, ParserMixin):
             raise ValueError('preserve_white_space=True without location')
         if preserve_case and not isinstance(config, six.string_types):
             raise ValueError('preserve_case=True but config is not string')
+        self.text = None
         if isinstance(config, six.string_types):
+            self.text = config
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
                 parser.optionxform = lambda x: x
@@ -143,7 +145,11 @@ class ConfigSource(Source, ParserMixin):
     def as_raw(self, path):
         option = str(path[-1])
         lines = []
-        with open(self.location, 'r') as fo:
+        if self.text is not None:
+            source = six.moves.StringIO(self.text)
+        else:
+            source = open(self.location, 'r')
+        with source as fo:
             section_header = '[{0}]'.format(self.section)
             for line in fo:
                 if line.strip() == section_header:
-- 
2.43.0


From 6fca0791fa883c1c37b2e76ab925e18ab47fbd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:13 +0000
Subject: [PATCH 18/55] fix: raw config values are those of the option asked
 for

Any option or continuation line with the name as a prefix matched, the first
line of a value was dropped, and without a section, or for name[key] options,
nothing was found and the value became empty.
---
 pilo/source/configparser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index e264a20..24ef50e 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -143,25 +143,32 @@ class ConfigSource(Source, ParserMixin):
         self.preserve_whitespace = preserve_whitespace
 
     def as_raw(self, path):
-        option = str(path[-1])
+        keys = [str(part) for part in path]
+        section = self.section or keys.pop(0)
+        option = keys[0] + ''.join('[{0}]'.format(key) for key in keys[1:])
+        option = self.config.optionxform(option)
         lines = []
         if self.text is not None:
             source = six.moves.StringIO(self.text)
         else:
             source = open(self.location, 'r')
         with source as fo:
-            section_header = '[{0}]'.format(self.section)
+            section_header = '[{0}]'.format(section)
             for line in fo:
                 if line.strip() == section_header:
                     break
             for line in fo:
-                if line.strip().startswith(option):
+                m = re.match(r'(\S.*?)\s*[=:]\s*(.*)', line)
+                if m and self.config.optionxform(m.group(1)) == option:
                     break
+            else:
+                return path.value
             for line in fo:
                 if line and not line[0].isspace():
                     break
                 lines.append(line)
-        return textwrap.dedent(''.join(lines))
+        first = m.group(2) + '\n' if m.group(2) else ''
+        return first + textwrap.dedent(''.join(lines))
 
     # Source
 
-- 
2.43.0


From 3de5aa398244319ef76d81f5efbb43eef77b3534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 19/55] fix: reading a field of another form inside a hook is
 like reading it outside

Errors of a form that is not being mapped went to the collector of the one that
is, and a rewind that failed inside the hooks of the field read was mistaken for
its own. A field that cannot be mapped was read as a marker, not reported by an
AttributeError as everywhere else.
---
 pilo/fields.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 5fd341e..c157a2e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -639,11 +639,16 @@ class Field(CreatedCountMixin, ContextMixin):
                 def is_form(frame):
                     return getattr(frame, 'parent', None) is form
                 try:
-                    with self.ctx.rewind(is_form):
-                        return self.map()
+                    close = self.ctx.rewind(is_form)
                 except self.ctx.RewindDidNotStop:
-                    with self.ctx(form=form, parent=form, src=DefaultSource({})):
-                        value = self.map()
+                    close = self.ctx(
+                        form=form,
+                        parent=form,
+                        src=DefaultSource({}),
+                        errors=RaiseErrors(),
+                    )
+                with close:
+                    value = self.map()
             else:
                 value = self()
         if value in IGNORE:
-- 
2.43.0


From a9fc4d0735464e6dbfb3203de4a1a41e376c02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 20/55] fix: a field read on demand during a mapping is mapped
 only once

It was mapped again in its own turn, so that e.g. a generated default differed
from the one already read, and each of its errors was reported twice.
---
 pilo/fields.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index c157a2e..c977418 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -648,9 +648,9 @@ class Field(CreatedCountMixin, ContextMixin):
                         errors=RaiseErrors(),
                     )
                 with close:
-                    value = self.map()
+                    value = form._map_field(self)
             else:
-                value = self()
+                value = form._map_field(self)
         if value in IGNORE:
             raise AttributeError(
                 '"{0}" form cannot map field "{1}"'.format(form_type.__name__, self.name),
@@ -1572,6 +1572,9 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
 
     fields = None
 
+    #: Results, by name, for the fields mapped so far while being mapped.
+    _mapped = None
+
     @classmethod
     def from_fields(cls, **fields):
         return type('AnonymousForm', (cls,), fields)
@@ -1618,15 +1621,26 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             except FieldError:
                 pass
 
+    def _map_field(self, field):
+        if self._mapped is None:
+            return field.map()
+        if field.name not in self._mapped:
+            self._mapped[field.name] = field.map()
+        return self._mapped[field.name]
+
     def _map(self, tags, unmapped):
         self.ctx.src_path.mapping()
-        with self.ctx(form=self, parent=self):
-            for field in type(self).fields:
-                if tags and not tags & set(field.tags.keys()):
-                    continue
-                value = field.map()
-                if value not in IGNORE:
-                    self[field.name] = value
+        mapped, self._mapped = self._mapped, {}
+        try:
+            with self.ctx(form=self, parent=self):
+                for field in type(self).fields:
+                    if tags and not tags & set(field.tags.keys()):
+                        continue
+                    value = self._map_field(field)
+                    if value not in IGNORE:
+                        self[field.name] = value
+        finally:
+            self._mapped = mapped
         unmapped = self._unmapped(unmapped)
         if unmapped is not None:
             self.update(unmapped)
-- 
2.43.0


From f85818f90ca87bda3522184a76452fce99778cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 21/55] fix: a key that MountSource does not mount is missing

---
 pilo/source/mount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 46e6c0b..f1d04e8 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -10,7 +10,7 @@ class MountPath(collections.MutableSequence):
     def __init__(self, src):
         self.src = src
         self.part = None
-        self.dne = DefaultSource({}).path()
+        self.dne = DefaultSource(NONE).path()
         self.paths = dict(
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
@@ -72,12 +72,12 @@ class MountPath(collections.MutableSequence):
     def primitive(self, *types):
         if self.part is None:
             raise self.src.error(self, 'not a primitive')
-        return self.paths[self.part.key].primitive(*types)
+        return self.path.primitive(*types)
 
     def sequence(self):
         if self.part is None:
             raise self.src.error(self, 'not a sequence')
-        return self.paths[self.part.key].sequence()
+        return self.path.sequence()
 
     def mapping(self):
         if self.part is None:
-- 
2.43.0


From b3eb45940a3b19f38177ef2fb36ddf53e37c1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 22/55] fix: rewinding puts back the path parts that it removed

They were appended anew from their keys, which lost the state that the
path of a UnionSource keeps for them: values nested below a hook that
read a field of an enclosing form became missing.
---
 pilo/context.py      | 15 ++++++---------
 pilo/source/union.py |  7 +++++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index f77d4b7..ed2d340 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -142,13 +142,14 @@ class Context(threading.local):
         else:
             raise RewindDidNotStop()
         del self.stack[keep:]
+        parts = []
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
                     break
                 if 'src' in frame:
-                    self.src_path.pop()
-        return Close(functools.partial(self.restore, frames))
+                    parts.append(self.src_path.pop())
+        return Close(functools.partial(self.restore, frames, parts))
 
     def push(self, **kwargs):
         """
@@ -164,7 +165,7 @@ class Context(threading.local):
     #: Alias for `push`.
     __call__ = push
 
-    def restore(self, frames=None):
+    def restore(self, frames=None, parts=()):
         """
         """
         if frames is None:
@@ -172,12 +173,8 @@ class Context(threading.local):
             if 'src' in frame and 'src_path' not in frame:
                 self.src_path.pop()
         elif frames:
-            if self.src_path is not None:
-                for frame in frames:
-                    if 'src_path' in frame:
-                        break
-                    if 'src' in frame:
-                        self.src_path.append(frame.src)
+            for part in reversed(parts):
+                self.src_path.append(part)
             self.stack.extend(frames)
 
 
diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..d8341ed 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -52,15 +52,18 @@ class UnionPath(Path):
             path[index] = value
 
     def __delitem__(self, index):
+        # a part that is put back brings back those of the members
+        self[index].members = [path[index] for path in self.paths]
         super(UnionPath, self).__delitem__(index)
         for path in self.paths:
             del path[index]
 
     def insert(self, index, value):
         super(UnionPath, self).insert(index, value)
+        values = [value] * len(self.paths)
         if isinstance(value, PathPart):
-            value = value.key
-        for path in self.paths:
+            values = getattr(value, 'members', None) or [value.key] * len(self.paths)
+        for path, value in zip(self.paths, values):
             path.insert(index, value)
 
 
-- 
2.43.0


From 236e9d62cd6a3d180e22501bcea73b8d7a4ddec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 23/55] fix: parent links are to the enclosing form, and null
 sub-forms carry none

For the items of a list the link was to the list field, and a null value
raised an AttributeError.
---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index c977418..a31af92 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -611,9 +611,9 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
-            if hasattr(self.ctx, 'parent'):
-                value.parent = weakref.proxy(self.ctx.parent)
+        if self.attach_parent and value is not None and value not in IGNORE:
+            if hasattr(self.ctx, 'form'):
+                value.parent = weakref.proxy(self.ctx.form)
             else:
                 value.parent = None
         return value
-- 
2.43.0


From 1bbac5b61cc8a1804f9e946c57dc9340f517e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:37 +0000
Subject: [PATCH 24/55] fix: failing to capture unmapped input is reported as
 invalid only

It also raised a TypeError.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a31af92..0ceee38 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1642,7 +1642,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         finally:
             self._mapped = mapped
         unmapped = self._unmapped(unmapped)
-        if unmapped is not None:
+        if unmapped is not None and unmapped not in IGNORE:
             self.update(unmapped)
 
     def _unmapped(self, directive):
-- 
2.43.0


From aefd941a9b243e39590edc2c214d664516d2eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 25/55] fix: a class that inherits its type field does not take
 over its identity

Casting gave the subclass that was visited last, not the one that
declares the identity.
---
 pilo/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..a280dc3 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -45,16 +45,18 @@ class Types(dict):
     @classmethod
     def map(cls, field):
 
-        def _map(form_cls):
+        def _map(form_cls, inherited=None):
+            instance = None
             if not inspect.isabstract(object):
                 try:
                     instance = getattr(form_cls, field.name)
-                    for value in instance.choices or []:
-                        identities[value] = form_cls
+                    if instance is not inherited:
+                        for value in instance.choices or []:
+                            identities[value] = form_cls
                 except AttributeError:
                     pass
             for sub_cls in form_cls.__subclasses__():
-                _map(sub_cls)
+                _map(sub_cls, instance)
 
         if not isinstance(field, Field):
             raise TypeError('Expected field not {0}'.format(type(field)))
-- 
2.43.0


From dc9a3686348da0968b332fefa05447a4a4027e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 26/55] fix: JSON keys that contain a dot can be read

---
 pilo/source/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 3680228..3365ada 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -23,8 +23,11 @@ class JsonPath(Path):
 
     def resolve(self, container, part):
         try:
+            return container[part.key]
+        except (IndexError, KeyError, TypeError):
             if not isinstance(part.key, six.string_types) or '.' not in part.key:
-                return container[part.key]
+                return NONE
+        try:
             value = container
             for atom in part.key.split('.'):
                 value = value[atom]
-- 
2.43.0


From f8ccf498ef4626ac06c4d5679f366a662843304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 27/55] fix: a key that is not a string is absent from a config
 section, not an error

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 24ef50e..99e29b8 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -71,7 +71,7 @@ class SectionMapping(collections.Mapping):
     def __getitem__(self, key):
         if key in self.sub_mappings:
             return self.sub_mappings[key]
-        if self.config.has_option(self.section, key):
+        if isinstance(key, six.string_types) and self.config.has_option(self.section, key):
             return self.config.get(self.section, key)
         if key in self.defaults:
             return self.defaults[key]
-- 
2.43.0


From d4206e9ccc492319e21a98baddd51e5de5f64315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 28/55] fix: what a default source ignores or aliases depends
 on the path read, not on the depth of the cursor

---
 pilo/source/default.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..ce891e1 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -1,5 +1,4 @@
 import collections
-import copy
 import six
 
 from . import Source, Path, ParserMixin, NONE
@@ -7,13 +6,13 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom):
-        if self.src.ignore(self):
+    def _resolve(self, container, atom, parts):
+        if self.src.ignore(parts):
             return NONE
         value = self._as_item(container, atom)
         if value is not NONE:
             return value
-        value = self._as_alias(container, atom)
+        value = self._as_alias(container, atom, parts)
         if value is not NONE:
             return value
         return self._as_attr(container, atom)
@@ -24,8 +23,8 @@ class DefaultPath(Path):
         except (IndexError, KeyError, TypeError):
             return NONE
 
-    def _as_alias(self, container, atom):
-        if self.src.aliases and atom in self.src.aliases and len(self) == 1:
+    def _as_alias(self, container, atom, parts):
+        if self.src.aliases and atom in self.src.aliases and len(parts) == 1:
             alias = self.src.aliases[atom]
             return self._as_item(container, alias)
         return NONE
@@ -51,24 +50,24 @@ class DefaultPath(Path):
         return ':'.join(parts)
 
     def resolve(self, container, part):
-        if isinstance(part.key, six.string_types) and part.key.endswith('()'):
-            part = copy.copy(part)
-            part.key = part.key[:-2]
-            value = self.resolve(container, part)
+        # what is ignored or aliased depends on the path to the part, not to what follows
+        parts = self.parts[:self.parts.index(part) + 1]
+        return self._resolve_key(container, part.key, parts)
+
+    def _resolve_key(self, container, key, parts):
+        if isinstance(key, six.string_types) and key.endswith('()'):
+            value = self._resolve_key(container, key[:-2], parts)
             if value is NONE:
                 return NONE
             return value()
 
-        if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key)
-            if value is NONE:
-                value = container
-                for atom in part.key.split('.'):
-                    value = self._resolve(value, atom)
-                    if value is NONE:
-                        break
-        else:
-            value = self._resolve(container, part.key)
+        value = self._resolve(container, key, parts)
+        if value is NONE and isinstance(key, six.string_types):
+            value = container
+            for atom in key.split('.'):
+                value = self._resolve(value, atom, parts)
+                if value is NONE:
+                    break
         return value
 
 
-- 
2.43.0


From 029fdd20ac6d9623df6bf0966cb033663535f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 29/55] fix: items of merged sequences are read from their
 member when it is a merged source itself

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index d8341ed..4241266 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -231,7 +231,7 @@ class Sequence(collections.Sequence):
             offset += length
         else:
             raise IndexError(key)
-        path[-1].key -= offset
+        path[-1] = path[-1].key - offset
         return Join(self.src, [path])
 
     def __len__(self):
-- 
2.43.0


From b1cf0eb26d3aa1ff2570a7de6c1aa23f90026f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 30/55] fix: an indented line of a value that looks like a
 section header is not one

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 99e29b8..cf68cef 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -155,7 +155,7 @@ class ConfigSource(Source, ParserMixin):
         with source as fo:
             section_header = '[{0}]'.format(section)
             for line in fo:
-                if line.strip() == section_header:
+                if line.rstrip() == section_header:
                     break
             for line in fo:
                 m = re.match(r'(\S.*?)\s*[=:]\s*(.*)', line)
-- 
2.43.0


From f8de853b635531cc5c50b98cb4072a83875eb1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 31/55] fix: a code block is evaluated in the module made for
 it

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0ceee38..e8d4182 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1234,7 +1234,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        exec(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From b0ef858ba98f912e6add0d254af722793f7fc8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 32/55] fix: a code import names an attribute of the module,
 not of the top level package

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e8d4182..02cb784 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -46,6 +46,7 @@ import sys
 import datetime
 import decimal
 import imp
+import importlib
 import inspect
 import itertools
 import numbers
@@ -1221,7 +1222,7 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        module = importlib.import_module(name)
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
-- 
2.43.0


From ab024be6cf56b3ab56abe565fcde2bbd3cbcf346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 33/55] fix: asking a form for a field it does not hold answers

---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 02cb784..d5ae0cd 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1712,14 +1712,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            return field.__get__(self, type(self)) is not None
+        except (AttributeError, FormError, LookupError):
             return False
 
     def flatten(self):
-- 
2.43.0


From 86ce77ff5c698a027af1778c33af49f6e97d430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 34/55] fix: capturing from a null string gives null

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index d5ae0cd..6eb6054 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -720,6 +720,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return None
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From 72e8a217a88a4173360e139052d5da7439bb9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 35/55] fix: a float with a pattern is a float

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6eb6054..2474bea 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -855,7 +855,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From 0fae86abb3daaf48e00fc65c39359221d6b1813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 36/55] fix: required keys can be a list, and missing ones need
 not be strings

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2474bea..e23618c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1193,10 +1193,10 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
             if self.max_keys and len(value) > self.max_keys:
-- 
2.43.0


From 8014d0c8da17588c2b1940be3faa6e683b8ef5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 37/55] fix: choices of a string need not be a list

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e23618c..a962f33 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -764,7 +764,7 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
                     value, self.choices[0],
-- 
2.43.0


From 23c82486994440b34d466b54aed1b9df3a25261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 38/55] fix: tags can be given as an option

---
 pilo/fields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a962f33..ddbfaf4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -392,7 +392,12 @@ class Field(CreatedCountMixin, ContextMixin):
             self.attach_parent = attach_parent
 
         if tags is not NOT_SET:
-            self.tag(tags)
+            if isinstance(tags, dict):
+                self.tag(**tags)
+            elif isinstance(tags, (list, tuple, set, frozenset)):
+                self.tag(*tags)
+            else:
+                self.tag(tags)
 
         return self
 
-- 
2.43.0


From 72fc8d89032d78491118870d0ccd90549fb3e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 39/55] fix: a date made from a date-time is a date

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index ddbfaf4..e03bc75 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -924,6 +924,8 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
+        if isinstance(path.value, datetime.datetime):
+            return path.value.date()
         if isinstance(path.value, datetime.date):
             return path.value
         value = path.primitive(six.string_types[0])
-- 
2.43.0


From da29fe0111814314ae25fa3048a975f7fdd6c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 40/55] fix: munging a form keeps tuples

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e03bc75..2eeb50f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1772,7 +1772,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     if isinstance(item, Form):
                         item = item.munge(func)
                     items.append(item)
-                value = items
+                value = tuple(items) if isinstance(value, tuple) else items
             form[field.name] = value
         return form
 
-- 
2.43.0


From 6bbaf7904a7987eb11f226ef0ddf0e8bbaa97516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 41/55] fix: a date or time that cannot be compared with its
 range is invalid

---
 pilo/fields.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2eeb50f..f425dc4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -958,10 +958,17 @@ class Date(Field, RangeMixin):
         if not super(Date, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
+            try:
+                after = self.after_value is None or not value < self.after_value
+                before = self.before_value is None or not value > self.before_value
+            except TypeError as ex:
+                # e.g. a time zone is missing
+                self.ctx.errors.invalid(str(ex))
+                return False
+            if not after:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-            if self.before_value is not None and value > self.before_value:
+            if not before:
                 self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                 return False
         return True
@@ -997,10 +1004,17 @@ class Time(Field, RangeMixin):
         if not super(Time, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
+            try:
+                after = self.after_value is None or not value < self.after_value
+                before = self.before_value is None or not value > self.before_value
+            except TypeError as ex:
+                # e.g. a time zone is missing
+                self.ctx.errors.invalid(str(ex))
+                return False
+            if not after:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-            if self.before_value is not None and value > self.before_value:
+            if not before:
                 self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                 return False
         return True
@@ -1041,10 +1055,17 @@ class Datetime(Field, RangeMixin):
         if not super(Datetime, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
+            try:
+                after = self.after_value is None or not value < self.after_value
+                before = self.before_value is None or not value > self.before_value
+            except TypeError as ex:
+                # e.g. a time zone is missing
+                self.ctx.errors.invalid(str(ex))
+                return False
+            if not after:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-            if self.before_value is not None and value > self.before_value:
+            if not before:
                 self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                 return False
         return True
-- 
2.43.0


From 86879cea96a70f92a4c49c1425b9ebe716fe7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:15 +0000
Subject: [PATCH 42/55] fix: values are told from the markers by identity

---
 pilo/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index a280dc3..b1fdffc 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -35,7 +35,15 @@ NONE = _Constant('NONE')
 
 ERROR = _Constant('ERROR')
 
-IGNORE = (NONE, ERROR, NOT_SET)
+
+class _Constants(tuple):
+
+    def __contains__(self, value):
+        # a value can have its own idea of equality
+        return any(value is constant for constant in self)
+
+
+IGNORE = _Constants((NONE, ERROR, NOT_SET))
 
 
 class Types(dict):
-- 
2.43.0


From 6e32d8a9e2721ca2853f0aa1fc936a71c498f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 43/55] fix: keys of a mapping can be of any type

---
 pilo/source/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 93e236b..421fb3f 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -81,10 +81,10 @@ class Path(collections.MutableSequence):
         if self:
             parts = ['{0}'.format(self[0])]
             for part in self[1:]:
-                if isinstance(part.key, six.integer_types):
-                    part = '[{0}]'.format(part.key)
-                else:
+                if isinstance(part.key, six.string_types):
                     part = '.' + part.key
+                else:
+                    part = '[{0}]'.format(part.key)
                 parts.append(part)
         return ''.join(parts)
 
@@ -158,7 +158,7 @@ class Path(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts[index] = value
 
@@ -166,7 +166,7 @@ class Path(collections.MutableSequence):
         del self.parts[index]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts.insert(index, value)
 
-- 
2.43.0


From e0aa8e565a701ffc991281a91dbc7dc70675cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 44/55] fix: a key that ends like a call is found

---
 pilo/source/default.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index ce891e1..88fa46e 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -56,6 +56,9 @@ class DefaultPath(Path):
 
     def _resolve_key(self, container, key, parts):
         if isinstance(key, six.string_types) and key.endswith('()'):
+            value = self._resolve(container, key, parts)
+            if value is not NONE:
+                return value
             value = self._resolve_key(container, key[:-2], parts)
             if value is NONE:
                 return NONE
-- 
2.43.0


From 8ab6a66aa3afe75f7fdd4645fc17c2196089f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 45/55] fix: fields of a group are read at their own key

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f425dc4..89ebe6b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1446,7 +1446,10 @@ class Group(Field):
                 raise ValueError(
                     'field{0}.src is not set'.format(_path(*path))
                 )
-            self.fields.append((obj.src, obj))
+            # the group resolves it
+            src, obj = obj.src, obj.clone()
+            obj.src = None
+            self.fields.append((src, obj))
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
-- 
2.43.0


From 7f25509acff69354a1f34742e3ccbb077a6c787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 46/55] fix: mapping a form again captures unmapped input again

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 89ebe6b..a59b2a7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1695,8 +1695,9 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         if isinstance(directive, Field):
             directive = (String(), directive)
 
+        names = set(field.name for field in type(self).fields if field.name in self)
         dict_field = Dict(*directive)
-        dict_field.key_filter.attach(self)(lambda self, key: key not in self)
+        dict_field.key_filter.attach(self)(lambda self, key: key not in names)
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-- 
2.43.0


From 4e49ff4114e22c5101800e80cd52dd563d0e899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 47/55] fix: capturing unmapped input does not overwrite a
 field

---
 pilo/fields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a59b2a7..f735c1f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1698,7 +1698,12 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         names = set(field.name for field in type(self).fields if field.name in self)
         dict_field = Dict(*directive)
         dict_field.key_filter.attach(self)(lambda self, key: key not in names)
-        return dict_field.map()
+        captured = dict_field.map()
+        if isinstance(captured, dict):
+            # a converted key can be the name of a field
+            for name in names.intersection(captured):
+                del captured[name]
+        return captured
 
     def _root_map(self, src, tags, unmapped, error):
         if src is None:
-- 
2.43.0


From 58b73b309e3ee074e4e2c959476fdd58fbf34a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 48/55] fix: a key that is not a string does not match the
 patterns of a group

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f735c1f..5d9b683 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1494,7 +1494,7 @@ class Group(Field):
             if isinstance(src, six.string_types):
                 if src == key:
                     return field, None
-            else:
+            elif isinstance(key, six.string_types):
                 m = src.match(key)
                 if m is not None:
                     return field, m
-- 
2.43.0


From e8ee8afd53cfb9dd1e54f876e7648607464277ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 49/55] fix: hooks of fields that capture unmapped input have
 their form

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 5d9b683..468ab74 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1673,11 +1673,11 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     value = self._map_field(field)
                     if value not in IGNORE:
                         self[field.name] = value
+                unmapped = self._unmapped(unmapped)
+                if unmapped is not None and unmapped not in IGNORE:
+                    self.update(unmapped)
         finally:
             self._mapped = mapped
-        unmapped = self._unmapped(unmapped)
-        if unmapped is not None and unmapped not in IGNORE:
-            self.update(unmapped)
 
     def _unmapped(self, directive):
         if not directive:
-- 
2.43.0


From ec4b4e010efac684486962b1b70dbaf1ff31ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:14 +0000
Subject: [PATCH 50/55] fix: a form under a null key is mapped from what is
 there

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 468ab74..9f73564 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1736,7 +1736,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             tags = set(tags)
         if reset:
             self._reset(tags)
-        if src is None and self.ctx.src is not None:
+        if src is None and self.ctx.src_path is not None:
             errors = self._nested_map(tags, unmapped, error)
         else:
             errors = self._root_map(src, tags, unmapped, error)
-- 
2.43.0


From 72bbcf312cd3b1e05b57582920cc800349419772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 51/55] fix: an integer that no float can hold is not a float

---
 pilo/source/__init__.py | 5 ++++-
 pilo/source/json.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 421fb3f..f943ff0 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -247,7 +247,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is not a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 3365ada..d64e86f 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -72,7 +72,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is not a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From 5ea09d40e33f092d8808a12085cbe749ed210e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 52/55] fix: a clone of a field shares no settings or hooks
 with the original

---
 pilo/fields.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 9f73564..f1cfa33 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -203,6 +203,13 @@ class Hook(object):
         self.target = target
         return self
 
+    def clone(self, parent, other):
+        hook = copy.copy(self)
+        hook.parent = other
+        if hook.target is parent:
+            hook.target = other
+        return hook
+
     def __bool__(self):
         return self.func is not None
 
@@ -430,6 +437,13 @@ class Field(CreatedCountMixin, ContextMixin):
     def clone(self):
         other = copy.copy(self)
         other.parent = None
+        # what is set or hooked on a clone must not show up on the original
+        other.ignores = list(self.ignores)
+        other.translations = dict(self.translations)
+        other.tags = dict(self.tags)
+        for name, value in vars(self).items():
+            if isinstance(value, Hook) and value.parent is self:
+                setattr(other, name, value.clone(self, other))
         return other
 
     def from_context(self):
-- 
2.43.0


From cd8f70b29bdfce910b71d5f143bdc4c1b67b03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:56 +0000
Subject: [PATCH 53/55] fix: merge_depth is a depth, not a number of members

---
 pilo/source/union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 4241266..e9df0fe 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -150,7 +150,9 @@ class Mapping(collections.Mapping):
         mappings = []
         if merge is None:
             merge = src.mapping_merge
-            if src.merge_depth is not None and src.merge_depth <= len(paths):
+            # depth of what is merged, not the number of its members
+            depth = len(paths[0]) if paths else 0
+            if src.merge_depth is not None and src.merge_depth <= depth:
                 merge = 'first'
         if merge not in ('first', 'last', 'combine'):
             raise ValueError('merge="{0}" invalid'.format(merge))
-- 
2.43.0


From e00457a1822894d0ff2b98ccfb13e6c0f8aee2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 54/55] fix: a form mapped without a source inside a context
 that has one has nowhere to report to

---
 pilo/fields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f1cfa33..8c4bf1e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1741,7 +1741,9 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         with self.ctx(errors=errors):
             self._map(tags, unmapped)
             errors = self.ctx.errors
-        self.ctx.errors.extend(errors)
+        outer = getattr(self.ctx, 'errors', None)
+        if outer is not None:
+            outer.extend(errors)
         return errors
 
     def map(self, src=None, tags=None, reset=False, unmapped='ignore', error='collect'):
-- 
2.43.0


From 4c3a7d4d68eb2f20bbc2dce206a7ab2dfa70a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 55/55] fix: a configuration section lists each key once

---
 pilo/source/configparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index cf68cef..f65e4c4 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -81,10 +81,11 @@ class SectionMapping(collections.Mapping):
         for k, v in six.iteritems(self.sub_mappings):
             yield k
         for k, v in self.config.items(self.section):
-            yield k
+            if k not in self.sub_mappings:
+                yield k
 
     def __len__(self):
-        return len(self.sub_mappings) + len(self.config.options(self.section))
+        return sum(1 for _ in self)
 
 
 class Mapping(collections.Mapping):
-- 
2.43.0

