From 9799c94caaa66bebaa12e4828fb64e6c489e794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 01/65] fix: match pattern facets against the entire value

Appending '$' let a trailing newline through and, with alternations in the
pattern, anchored only the last branch.
---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..305833e 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -152,8 +152,7 @@ class String(SimpleType):
         value = self._clean_whitespace(value)
 
         if self.pattern:
-            pattern = self.pattern + '$'
-            if re.match(pattern, value) is None:
+            if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
         if self.enumeration:
@@ -380,8 +379,7 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            pattern = self.pattern + '$'
-            if re.match(pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, str(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-- 
2.43.0


From bcba1b186c4d2ed413eb2ec59e5e8455f30d9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 02/65] fix: enforce length facets of zero

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 305833e..05fa556 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -159,15 +159,15 @@ class String(SimpleType):
             if not (value in self.enumeration):
                 raise ValueError(f"Value '{value}' not in list {self.enumeration}.")
 
-        if self.length:
+        if self.length is not None:
             if len(value) != self.length:
                 raise ValueError(f"Value '{value}' length {self.length} expected.")
 
-        if self.minLength:
+        if self.minLength is not None:
             if len(value) < self.minLength:
                 raise ValueError(f"Value '{value}' minLength {self.minLength} expected.")
 
-        if self.maxLength:
+        if self.maxLength is not None:
             if len(value) > self.maxLength:
                 raise ValueError(f"Value '{value}' maxLength {self.maxLength} expected.")
 
-- 
2.43.0


From f89261688ad96c8d6d287a46e899b70753554cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 03/65] fix: handle white space facets as XML Schema defines
 them

collapse also removes leading and trailing spaces, and only tab, line feed,
carriage return and space are white space (not \\s, which includes e.g. the
no-break space).
---
 soapfish/xsd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 05fa556..2696546 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -184,11 +184,11 @@ class String(SimpleType):
             # do nothing, just preserve the value
             pass
         elif self.whiteSpace == 'replace':
-            # replace line feeds, tabs, spaces, and carriage returns with whitespaces
-            value = re.sub(r'[\t\r\n\s]', ' ', value)
+            # replace line feeds, tabs, and carriage returns with spaces
+            value = re.sub(r'[\t\r\n]', ' ', value)
         elif self.whiteSpace == 'collapse':
-            # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value)
+            # squeeze line feeds, tabs, spaces, and carriage returns to one space, none at either end
+            value = re.sub(r'[ \t\r\n]+', ' ', value).strip(' ')
 
         return value
 
-- 
2.43.0


From 62ffb4049576a7d3b07392c0403349f65bceb695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 04/65] fix: check decimal.Decimal values as numbers

They were turned into text first, so that any bound raised TypeError and no
enumeration ever matched.
---
 soapfish/xsd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2696546..bc4f282 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -395,9 +395,7 @@ class Decimal(SimpleType):
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, decimal.Decimal):
-            value = str(value)
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
             value = float(value)
-- 
2.43.0


From 9c72bbf454cf35ecc145515c05ca54e8736fb158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 05/65] fix: do not count the sign as one of the total digits

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index bc4f282..53ea9c1 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -384,7 +384,7 @@ class Decimal(SimpleType):
 
         if self.totalDigits is not None:
             strvalue = str(value)
-            length = len(strvalue)
+            length = len(strvalue.lstrip('-'))
             if '.' in strvalue:
                 length -= 1
             if length > self.totalDigits:
-- 
2.43.0


From 5bca54501d6c0773d7f1e6df2613cd767021a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 06/65] fix: honour facets declared on subclasses of the
 numeric types

The constructor reset every facet to None, unlike the one of String.
---
 soapfish/xsd.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 53ea9c1..f5fd260 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -340,18 +340,36 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
+    # To be defined in children.
+    enumeration = None
+    fractionDigits = None
+    maxExclusive = None
+    maxInclusive = None
+    minExclusive = None
+    minInclusive = None
+    pattern = None
+    totalDigits = None
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None, totalDigits=None):
-        self.enumeration = enumeration
-        self.fractionDigits = fractionDigits
-        self.maxExclusive = maxExclusive
-        self.maxInclusive = maxInclusive
-        self.minExclusive = minExclusive
-        self.minInclusive = minInclusive
-        self.pattern = pattern
-        self.totalDigits = totalDigits
+        # Override static values
+        if enumeration is not None:
+            self.enumeration = enumeration
+        if fractionDigits is not None:
+            self.fractionDigits = fractionDigits
+        if maxExclusive is not None:
+            self.maxExclusive = maxExclusive
+        if maxInclusive is not None:
+            self.maxInclusive = maxInclusive
+        if minExclusive is not None:
+            self.minExclusive = minExclusive
+        if minInclusive is not None:
+            self.minInclusive = minInclusive
+        if pattern is not None:
+            self.pattern = pattern
+        if totalDigits is not None:
+            self.totalDigits = totalDigits
 
     def _check_restrictions(self, value):
         if self.enumeration is not None and value not in self.enumeration:
-- 
2.43.0


From 58183150f3303131c9d633ed88a87c54fd8bd4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 07/65] fix: keep user facets on the built-in integer types

The range and pattern of the built-in type replaced the ones given by the
user, e.g. xsd.Int(minInclusive=5) accepted 1.
---
 soapfish/xsd.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f5fd260..0325799 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -456,10 +456,22 @@ class Integer(Decimal):
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
-        facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        super().__init__(
+            enumeration=enumeration, fractionDigits=fractionDigits, maxExclusive=maxExclusive,
+            maxInclusive=maxInclusive, minExclusive=minExclusive, minInclusive=minInclusive, pattern=pattern,
+            totalDigits=totalDigits,
+        )
+        # The facets of the built-in types apply as well, they can be narrowed but not widened.
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
-        super().__init__(**facets)
+            for facet, value in c.overrides.items():
+                declared = getattr(self, facet)
+                if declared is not None and facet == 'minInclusive':
+                    value = max(declared, value)
+                elif declared is not None and facet == 'maxInclusive':
+                    value = min(declared, value)
+                elif declared is not None and facet == 'pattern':
+                    value = declared  # The text of an integer always matches the built-in pattern.
+                setattr(self, facet, value)
 
     def accept(self, value):
         if value is None:
-- 
2.43.0


From 0309c9b2dfa5299cdec1be3053a24f70eb60a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 08/65] fix: write dates and times with a four-digit year, the
 sub-second part and the zone of the moment

---
 soapfish/xsd.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0325799..640b366 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -245,11 +245,14 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        timestring_without_tz = f'{value.year:04d}-{value.month:02d}-{value.day:02d}'
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
-        return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(None))
+        offset = tz.utcoffset(datetime(value.year, value.month, value.day))
+        if offset is None:
+            return timestring_without_tz
+        return timestring_without_tz + timezone_offset_to_string(offset)
 
     def pythonvalue(self, value):
         if value is None or value == 'nil':
@@ -294,11 +297,11 @@ class DateTime(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
-        tz = value.tzinfo
-        if not tz:
+        timestring_without_tz = value.replace(tzinfo=None).isoformat()
+        offset = value.utcoffset()
+        if offset is None:
             return timestring_without_tz
-        return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(value))
+        return timestring_without_tz + timezone_offset_to_string(offset)
 
     def pythonvalue(self, value):
         return None if value is None or value == 'nil' else iso8601.parse_date(value)
@@ -319,11 +322,11 @@ class Time(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%H:%M:%S')
-        tz = value.tzinfo
-        if not tz:
+        timestring_without_tz = value.replace(tzinfo=None).isoformat()
+        offset = value.utcoffset()
+        if offset is None:
             return timestring_without_tz
-        return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(None))
+        return timestring_without_tz + timezone_offset_to_string(offset)
 
     def pythonvalue(self, value):
         return None if value is None or value == 'nil' else self._parse(value)
-- 
2.43.0


From 6a2805927b916805192bf18b918b9d1ae576fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 09/65] fix: refuse dates before year 1 and read zones given in
 hours only

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 640b366..65b0290 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -228,7 +228,7 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        ^(\-)?
+        ^
         (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
         (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
 
@@ -278,7 +278,7 @@ class Date(SimpleType):
 
         sign = 1 if match.group('tz_sign') == '+' else -1
         hours = int(match.group('tz_hour'))
-        minutes = int(match.group('tz_minute'))
+        minutes = int(match.group('tz_minute') or 0)
         return timezone(sign * timedelta(hours=hours, minutes=minutes), name='UTC' + offset)
 
 
-- 
2.43.0


From 59ba793b72a1f4ee6f70ed5efc56f27900b52051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 10/65] fix: read all lexical forms of booleans and accept
 nothing but booleans

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 65b0290..2da3e33 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -195,7 +195,7 @@ class String(SimpleType):
 
 class Boolean(SimpleType):
     def accept(self, value):
-        if value in [True, False, None]:
+        if value is None or isinstance(value, bool):
             return value
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
@@ -211,9 +211,9 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        if value in ('false', '0'):
             return False
-        elif value == 'true':
+        elif value in ('true', '1'):
             return True
         elif value == 'nil' or value is None:
             return None
-- 
2.43.0


From e1fe1a7f0164f8ea0bfe98735e1fcff93a73889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 11/65] fix: refuse booleans as numbers, they are not written
 as numerals

---
 soapfish/xsd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2da3e33..1845e0f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -416,6 +416,8 @@ class Decimal(SimpleType):
     def accept(self, value):
         if value is None:
             return None
+        elif isinstance(value, bool):
+            raise ValueError(f"Incorrect value '{value}' for Decimal field.")
         elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
@@ -479,6 +481,8 @@ class Integer(Decimal):
     def accept(self, value):
         if value is None:
             return None
+        elif isinstance(value, bool):
+            raise ValueError(f"Incorrect value '{value}' for Decimal field.")
         elif isinstance(value, int):
             pass  # value is just value continue.
         elif isinstance(value, str):
-- 
2.43.0


From d2e893bba386a539103e80405e9e33d1e686bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 12/65] fix: refuse values of the wrong type for maxOccurs with
 ValueError

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 1845e0f..bea0b49 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -548,8 +548,10 @@ class MaxOccurs(SimpleType):
             return None
         elif value in ('unbounded', UNBOUNDED):
             return UNBOUNDED
-        else:
+        elif isinstance(value, (int, str)) and not isinstance(value, bool):
             return int(value)
+        else:
+            raise ValueError(f"Incorrect value '{value}' for MaxOccurs field.")
 
     def xmlvalue(self, value):
         return 'unbounded' if value == UNBOUNDED else str(value)
-- 
2.43.0


From 5f2c8d2b73d45cf0ca692425ed58552e3d3132f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 13/65] fix: read attributes under their declared XML name

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index bea0b49..a771816 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -720,7 +720,7 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
         if xmlvalue is None:
             xmlvalue = self.default
         value = self._type.pythonvalue(xmlvalue)
-- 
2.43.0


From cde41aba9e809ce4e9cd98391ca0a9f645e71f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 14/65] fix: ignore processing instructions between elements

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a771816..e0512e6 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -981,8 +981,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
-            return False
+        if not isinstance(xmlelement.tag, str):
+            return False  # comments and processing instructions
         ns, tag = gettagns(xmlelement.tag)
         return tag == field._name or tag == field.tagname
 
-- 
2.43.0


From 01a3c08f830f2fb88a14da4460f160769ddca42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 15/65] fix: match elements by their declared tag name only

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e0512e6..195139b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -984,7 +984,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # comments and processing instructions
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From fdd4e94b5857cd24fd666cf1bec613da3450909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 16/65] fix: read an element as nil only when xsi:nil is true

---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 195139b..ed29b74 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -568,6 +568,10 @@ def import_type(type_name):
     return getattr(module, name)
 
 
+def is_nil(xmlelement):
+    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip() in ('true', '1')
+
+
 class Element:
     """
     Basic building block, represents an XML element that can appear 0 or 1 times that should be rendered as subelement.
@@ -655,7 +659,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -852,7 +856,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From 777b0c9483592bae1febb8cfcf6805faa12ece1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 17/65] fix: check items that are inserted, extended or set by
 index like appended ones

---
 soapfish/xsd.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ed29b74..866a49f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -790,18 +790,45 @@ class TypedList(list):
         super().__init__()
         self._list = element
 
-    def append(self, value):
+    def _accept(self, value):
         self._list._evaluate_type()
         if value is NIL:
             if not self._list.nillable:
                 raise ValueError('Nil value in not nillable list.')
-            accepted_value = NIL
-        else:
-            accepted_value = self._list._type.accept(value)
-        if self._list._maxOccurs is not None and (len(self) + 1 > self._list._maxOccurs):
+            return NIL
+        return self._list._type.accept(value)
+
+    def _check_room(self, count):
+        if self._list._maxOccurs is not None and (len(self) + count > self._list._maxOccurs):
             raise ValueError(f'You must not add more than {self._list._maxOccurs} items to this list.')
+
+    def append(self, value):
+        accepted_value = self._accept(value)
+        self._check_room(1)
         super().append(accepted_value)
 
+    def insert(self, index, value):
+        accepted_value = self._accept(value)
+        self._check_room(1)
+        super().insert(index, accepted_value)
+
+    def extend(self, values):
+        accepted_values = [self._accept(value) for value in values]
+        self._check_room(len(accepted_values))
+        super().extend(accepted_values)
+
+    def __iadd__(self, values):
+        self.extend(values)
+        return self
+
+    def __setitem__(self, index, value):
+        if isinstance(index, slice):
+            accepted_values = [self._accept(item) for item in value]
+            self._check_room(len(accepted_values) - len(self[index]))
+            super().__setitem__(index, accepted_values)
+        else:
+            super().__setitem__(index, self._accept(value))
+
 
 class ListElement(Element):
     """
-- 
2.43.0


From 1196be746370b14485f8020ab11ecc969d3ed75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 18/65] fix: check lists assigned as a whole item by item

---
 soapfish/xsd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 866a49f..97c1264 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -853,7 +853,13 @@ class ListElement(Element):
         self._minOccurs = minOccurs
 
     def accept(self, value):
-        return value
+        if value is None:
+            return self.empty_value()
+        if isinstance(value, (str, bytes, dict)) or not hasattr(value, '__iter__'):
+            raise ValueError(f'Wrong value {value!r} for a list of {self.tagname}.')
+        items = self.empty_value()
+        items.extend(value)
+        return items
 
     def empty_value(self):
         return TypedList(self)
-- 
2.43.0


From 9aacd2674ac5f285dd272aceaa6d1bec93583792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 19/65] fix: give every object its own group objects

---
 soapfish/xsd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 97c1264..8f7752c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,7 +27,6 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
-import copy
 import decimal
 import enum
 import functools
@@ -759,7 +758,7 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        return self._type.__class__()
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-- 
2.43.0


From 837e6cc115db6216e9ca180136b7abb1bf754163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 20/65] fix: render references without a value

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8f7752c..80ca9aa 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -762,7 +762,7 @@ class Ref(Element):
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-            if self._required:
+            if self._minOccurs:
                 raise ValueError('Value None is not acceptable for required field.')
             else:
                 return
-- 
2.43.0


From 9b72f2fe7a7beaf9b849348445ec985d77848217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 21/65] fix: answer with the HTTP status given to the response

---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From 1ca4b57e2f20b748633614b951f5a00d2ab5d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 22/65] fix: call the xsd-response hook for schema requests

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..dfd019f 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -230,7 +230,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From 9150ab0742c7313cb6fe254be4db584b22dcd238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 23/65] fix: refuse hook names that only start like a known one

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index dfd019f..77d4a8e 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -32,7 +32,7 @@ class SOAPDispatcher:
             hooks = {}
         else:
             for hook in hooks:
-                if not re.match(r'(soap|wsdl|xsd)-(request|response)', hook):
+                if not re.fullmatch(r'(soap|wsdl|xsd)-(request|response)', hook):
                     raise KeyError(f'Invalid dispatcher hook name: {hook}')
         self.hooks = hooks
 
-- 
2.43.0


From 1b0faee622681fd277afd76c66129cdb0b52a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 24/65] fix: name the response element without a selected or
 named output

---
 soapfish/soap_dispatch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 77d4a8e..b554445 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -200,10 +200,8 @@ class SOAPDispatcher:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
+            if request.method is not None and isinstance(request.method.output, str):
                 tagname = request.method.output
-            else:
-                tagname = uncapitalize(response.content.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From 88a1cc56cabd62a1ec059f539469f064a8e0293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 25/65] fix: take the first element of the SOAP body, answer
 empty bodies with a client fault

---
 soapfish/soap11.py        | 5 +++--
 soapfish/soap_dispatch.py | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..64eefa0 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -57,10 +57,11 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        return ContentType.parse_xmlelement(self.content())
 
     def content(self):
-        return self._xmlelement[0]
+        # comments and processing instructions are no content
+        return next((e for e in self._xmlelement if isinstance(e.tag, str)), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b554445..3385b34 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -73,6 +73,8 @@ class SOAPDispatcher:
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
         if envelope.Body is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
+        if envelope.Body.content() is None:
+            raise SOAPError(SOAP.Code.CLIENT, 'Empty SOAP body')
         return envelope
 
     def _find_handler_for_request(self, request, body):
-- 
2.43.0


From 2cc5ea8269a75db0f8e1f09c6b283bfb433d9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 26/65] fix: answer elements of no operation and no
 substitution group with a client fault

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 3385b34..b77650e 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -99,7 +99,8 @@ class SOAPDispatcher:
                 pass  # fall through and check for substitution group element
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
-                e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
+                e = next(e for s in self.service.schemas for n, e in s.elements.items()
+                         if n == root_tag and e.substitutionGroup)
                 return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
-- 
2.43.0


From e2561dddf50e0faf62dded70399cdd99318b346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 27/65] fix: ignore comments and processing instructions in the
 SOAP header

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b77650e..ce45dcb 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -132,7 +132,7 @@ class SOAPDispatcher:
     def _validate_header(self, soap_header):
         if soap_header is None:
             return
-        for children in soap_header._xmlelement.getchildren():
+        for children in soap_header._xmlelement.iterchildren('*'):
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
-- 
2.43.0


From 9132ebaebfc87a86a902da0d0ec32974ce419fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 28/65] fix: answer nil headers and bodies and unreadable
 values with a client fault

---
 soapfish/soap_dispatch.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index ce45dcb..fa7c543 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -6,7 +6,7 @@ from urllib.parse import parse_qs
 
 from lxml import etree
 
-from . import py2wsdl, py2xsd, wsa
+from . import py2wsdl, py2xsd, wsa, xsd
 from .core import SOAPError, SOAPRequest, SOAPResponse
 from .utils import uncapitalize, walk_schema_tree
 
@@ -63,8 +63,10 @@ class SOAPDispatcher:
         try:
             # note : no validation is performed
             envelope = SOAP.Envelope.parsexml(xml)
-        except etree.XMLSyntaxError as e:
+        except (etree.XMLSyntaxError, ValueError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
+        if envelope.Header is xsd.NIL:
+            envelope.Header = None
         # Actually this is more a stopgap measure than a real fix. The real
         # fix is to change SOAP.Envelope/ComplexType so it raises some kind of
         # validation error. A missing SOAP body is not allowed by the SOAP
@@ -163,8 +165,11 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except (ArithmeticError, ValueError) as e:
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
-- 
2.43.0


From ae92aa118803f4006cbe04800d66c5374146e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 29/65] fix: give text responses to the WSGI server as bytes

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index fa7c543..7936efe 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -262,4 +262,5 @@ class WsgiSoapApplication:
         soap_request = SOAPRequest(req_env, content)
         response = self.dispatcher.dispatch(soap_request)
         start_response(response.http_status_text, list(response.http_headers.items()))
-        return [response.http_content]
+        content = response.http_content
+        return [content.encode() if isinstance(content, str) else content]
-- 
2.43.0


From 1cd260f42f7810d5d201b77eeb6385eac4673be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 30/65] fix: hand the complete request body to the dispatcher,
 whatever its content type

---
 soapfish/flask_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/flask_.py b/soapfish/flask_.py
index 3c6894f..9480883 100644
--- a/soapfish/flask_.py
+++ b/soapfish/flask_.py
@@ -8,7 +8,7 @@ def flask_dispatcher(service, **dispatcher_kwargs):
     from flask import request, Response
 
     def flask_dispatch():
-        soap_request = SOAPRequest(request.environ, request.data)
+        soap_request = SOAPRequest(request.environ, request.get_data())
         soap_request._original_request = request
         soap_dispatcher = SOAPDispatcher(service, **dispatcher_kwargs)
         soap_response = soap_dispatcher.dispatch(soap_request)
-- 
2.43.0


From 8a691e06f030841047eb4c764c5535a6d67f7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 31/65] fix: answer with a fault even if its message has
 characters XML can not hold

---
 soapfish/soap_dispatch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 7936efe..28e8cde 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -14,6 +14,9 @@ __all__ = ['SOAPDispatcher']
 
 logger = logging.getLogger(__name__)
 
+# Everything that can not be part of an XML document.
+INVALID_XML_CHARS = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
 
 def call_method(request):
     request.dispatcher._prepare_request(request)
@@ -202,7 +205,10 @@ class SOAPDispatcher:
 
         if isinstance(response.soap_body, SOAPError):
             error = response.soap_body
-            response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
+            message = error.message
+            if isinstance(message, str):
+                message = INVALID_XML_CHARS.sub('\N{REPLACEMENT CHARACTER}', message)
+            response.http_content = SOAP.get_error_response(error.code, message, header=response.soap_header)
             response.http_status_code = 500
         else:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
-- 
2.43.0


From 20cc2c7ea2c5a843952d7b5f37ef05f65912c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 32/65] fix: read the SOAP action header from WSGI environments

---
 soapfish/soap11.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 64eefa0..2caefe7 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -10,12 +10,11 @@ NAME = 'soap11'
 
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
-    if request.environ.get('SOAPACTION'):
-        return request.environ.get('SOAPACTION').replace('"', '')
-    elif request.environ.get('ACTION'):
-        return request.environ.get('ACTION').replace('"', '')
-    else:
-        return None
+    # WSGI servers provide the HTTP header with a HTTP_ prefix.
+    for name in ('SOAPACTION', 'HTTP_SOAPACTION', 'ACTION'):
+        if request.environ.get(name):
+            return request.environ.get(name).replace('"', '')
+    return None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From 69297a0fa6452f043bc226d94d5404e1a133826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 33/65] fix: use the existing header class for services with
 WS-Addressing

---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From a59be9cba5036c601614cbc1a610d7e311b05462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 34/65] fix: look up elements in schemas that import each other
 without endless recursion

---
 soapfish/xsd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 80ca9aa..16f788c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1220,12 +1220,17 @@ class Schema:
         for t in types:
             t._force_elements_type_evalution()
 
-    def get_element_by_name(self, name):
+    def get_element_by_name(self, name, seen=None):
         if name in self.elements:
             return self.elements[name]
 
+        # schemas may import each other.
+        seen = [] if seen is None else seen
+        seen.append(self)
         for i in itertools.chain(self.imports, self.includes):
-            element = i.get_element_by_name(name)
+            if any(i is x for x in seen):
+                continue
+            element = i.get_element_by_name(name, seen)
             if element is not None:
                 return element
 
-- 
2.43.0


From 2d967b96f04272bd6e0fd566ba238aed0f761f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 35/65] fix: resolve relative locations in remote documents
 against their url

---
 soapfish/utils.py   | 9 ++++++---
 soapfish/wsdl2py.py | 3 +--
 soapfish/xsd2py.py  | 3 +--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..9e7d9cf 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -5,7 +5,7 @@ import logging
 import os
 import re
 from datetime import datetime, timedelta, timezone
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse, urlunparse
 
 import requests
 from jinja2 import Environment, PackageLoader
@@ -18,9 +18,12 @@ logger = logging.getLogger('soapfish')
 # --- File Functions ----------------------------------------------------------
 def resolve_location(path, cwd):
     if '://' in path:
-        location = path
+        # the document itself is the base of the relative urls it contains.
+        cwd = location = path
+    elif '://' in cwd:
+        path = cwd = location = urljoin(cwd, path)
     else:
-        path = os.path.join(cwd, path)
+        path = os.path.normpath(os.path.join(cwd, path))
         location = os.path.relpath(path, cwd)
         cwd = os.path.dirname(path)
     return path, cwd, location
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..ed59d57 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -130,8 +130,7 @@ def main(argv=None):
 
     logger.info('Generating %s code for WSDL document: %s', opt.target, opt.wsdl)
     xml = stdin.read() if opt.wsdl == '-' else open_document(opt.wsdl)
-    cwd = opt.wsdl if '://' in opt.wsdl else os.path.abspath(opt.wsdl)
-    cwd = os.path.dirname(cwd)
+    cwd = opt.wsdl if '://' in opt.wsdl else os.path.dirname(os.path.abspath(opt.wsdl))
     code = generate_code_from_wsdl(xml, opt.target, opt.use_wsa, cwd=cwd)
 
     opt.output.write(code.strip())
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..9ed4f75 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -171,8 +171,7 @@ def main(argv=None):
 
     logger.info('Generating code for XSD document: %s', opt.xsd)
     xml = stdin.read() if opt.xsd == '-' else open_document(opt.xsd)
-    cwd = opt.xsd if '://' in opt.xsd else os.path.abspath(opt.xsd)
-    cwd = os.path.dirname(cwd)
+    cwd = opt.xsd if '://' in opt.xsd else os.path.dirname(os.path.abspath(opt.xsd))
     code = generate_code_from_xsd(xml, encoding='utf-8', cwd=cwd)
 
     opt.output.write(code.strip())
-- 
2.43.0


From b2df26f4efd36b9699b63bf55365b67e26ae6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 36/65] fix: resolve the imports of a WSDL document independent
 of each other

---
 soapfish/wsdl2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index ed59d57..3997f29 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -42,7 +42,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         seen = set()
 
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, import_cwd, location = resolve_location(i.location, cwd)
 
         if path in seen:
             continue
@@ -57,7 +57,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
-- 
2.43.0


From f77280da4e3158851adb850eb726da89c1129999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 37/65] fix: resolve schema locations in imported WSDL
 documents against the imported document

---
 soapfish/wsdl2py.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 3997f29..cd2b8a0 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -32,7 +32,7 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
+def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
         seen = set()
@@ -41,6 +41,9 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
     if seen is None:
         seen = set()
 
+    if base_path is None:
+        base_path = cwd
+
     for i in definitions.imports:
         path, import_cwd, location = resolve_location(i.location, cwd)
 
@@ -56,8 +59,12 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
+        if imported.types:
+            for schema in imported.types.schemas:
+                rewrite_paths(schema, import_cwd, base_path)
+
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen, base_path=base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
-- 
2.43.0


From e7dd0a8ab51ebc57a31dc1cd712dd3cdbffa9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 38/65] fix: generate code for a document imported by several
 schemas of a WSDL once

---
 soapfish/wsdl2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index cd2b8a0..5e8981f 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -94,7 +94,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_paths': [], 'known_types': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
-- 
2.43.0


From b96d27e732bfcda969d354223f9f598ec57740e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 39/65] fix: order every schema of a WSDL after the schemas it
 imports

---
 soapfish/wsdl2py.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 5e8981f..c543f7c 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import collections
 import logging
 import os
 import sys
@@ -18,18 +17,21 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
-    schemas, targets, counter, x = [], set(), len(schemas), collections.deque(schemas)
-    while x and counter > 0:
-        counter -= 1
-        schema = x.popleft()
-        ns = {i.namespace for i in schema.imports}
-        if x and ns and ns - targets:
-            x.append(schema)
-        else:
-            schemas.append(schema)
-            targets.add(schema.targetNamespace)
-    schemas.extend(x)  # always add remaining unorderable schemas...
-    return schemas
+    ordered, seen = [], set()
+
+    def add(schema):
+        if id(schema) in seen:  # schemas may import each other...
+            return
+        seen.add(id(schema))
+        namespaces = {i.namespace for i in schema.imports}
+        for other in schemas:
+            if other.targetNamespace in namespaces:
+                add(other)
+        ordered.append(schema)
+
+    for schema in schemas:
+        add(schema)
+    return ordered
 
 
 def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
-- 
2.43.0


From a44f8c613b0055f4f818654fe508d6d3a9e55bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 40/65] fix: give included documents without a namespace the
 one of the including document

---
 soapfish/xsd2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 9ed4f75..f7eddb9 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -71,8 +71,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
-                        standalone=standalone)
+                        location, parent_namespace, cwd=cwd,
+                        base_path=base_path, standalone=standalone)
 
     return code.encode(encoding) if encoding else code
 
-- 
2.43.0


From dbafaa66d4580ea3930cb08dd25e069d595e14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 41/65] fix: walk the imports of every schema without a
 location

---
 soapfish/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 9e7d9cf..393587b 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -183,14 +183,18 @@ def find_xsd_namespaces(xml):
     return {k for k, v in nsmap.items() if v in (ns.xsd, ns.xsd2000)}
 
 
-def walk_schema_tree(schemas, callback, seen=None):
+def walk_schema_tree(schemas, callback, seen=None, walked=None):
     if seen is None:
         seen = {}
+    if walked is None:
+        walked = set()
     for schema in schemas:
         for item in itertools.chain(schema.imports, schema.includes):
             if item.location not in seen:
                 seen[item.location] = callback(item)
-                walk_schema_tree([item], callback, seen)
+            if id(item) not in walked:  # several schemas may have no location...
+                walked.add(id(item))
+                walk_schema_tree([item], callback, seen, walked)
     return seen
 
 
-- 
2.43.0


From ac2f0b8e267d66c0128b332aea2a561b3827367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 42/65] fix: leave imports without a schema location alone when
 rewriting locations

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 28e8cde..2549346 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -246,7 +246,8 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From 9bd0706a6d7f74cad0c76437c33094721162a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 43/65] fix: generate schemas for complex types with attributes

---
 soapfish/xsdspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From 5d07830cb16a5f70c775a5dc14fb5935bf8ca402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 44/65] fix: refer to all built-in types in the XML Schema
 namespace

---
 soapfish/py2xsd.py | 7 +++++--
 soapfish/utils.py  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..7cb5366 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -13,10 +13,13 @@ from .utils import uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [
+    xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN, xsd.NMTOKENS,
+]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 393587b..7119b9a 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -45,7 +45,7 @@ def remove_namespace(qname):
 
 
 def uncapitalize(value):
-    return value if value == 'QName' else value[0].lower() + value[1:]
+    return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
 
 def schema_name(obj, location=None):
-- 
2.43.0


From 9642e7cdbca2a54d8defa960113af68e834b391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 45/65] fix: write every declared facet of a simple type to the
 schema

---
 soapfish/py2xsd.py | 69 +++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 7cb5366..bd3a5e1 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -23,6 +23,12 @@ STRING_TYPES = [
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
+# The facets which restrict a type by a single value.
+FACETS = [
+    'minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits', 'length',
+    'minLength', 'maxLength', 'whiteSpace',
+]
+
 
 logger = logging.getLogger('soapfish')
 
@@ -45,6 +51,26 @@ def xsd_attribute(attribute):
     return xsdattr
 
 
+def xsd_restriction(_type, base):
+    """Build the restriction of a base type by all of the facets declared on a simple type (a class or an instance)."""
+    restriction = xsdspec.Restriction()
+    restriction.base = base
+
+    for value in getattr(_type, 'enumeration', None) or ():
+        enum = xsdspec.Enumeration.create(value if isinstance(value, str) else str(value))
+        restriction.enumerations.append(enum)
+
+    if getattr(_type, 'pattern', None):
+        restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
+
+    for facet in FACETS:
+        value = getattr(_type, facet, None)
+        if value is not None:
+            setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
+
+    return restriction
+
+
 def create_xsd_element(element):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
@@ -54,39 +80,9 @@ def create_xsd_element(element):
         xsd_element.maxOccurs = element._maxOccurs
 
     # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
-    _type = element._type
-
     if not inspect.isclass(element._passed_type):
         xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
-                xsd_element.simpleType.restriction.enumerations.append(enum)
-
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-            xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
-
-        if hasattr(_type, 'pattern') and _type.pattern:
-            xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
-
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
-
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
-
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
-
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
-
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
-            xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+        xsd_element.simpleType.restriction = xsd_restriction(element._type, get_xsd_type(element._type))
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
@@ -127,16 +123,7 @@ def xsd_complexType(complexType, named=True):
 def xsd_simpleType(st):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
-    xsd_restriction = xsdspec.Restriction()
-    xsd_restriction.base = get_xsd_type(st.__bases__[0]())
-    if hasattr(st, 'enumeration') and st.enumeration:
-        for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
-    if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
-    elif hasattr(st, 'pattern') and st.pattern:
-        xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
-    xsd_simpleType.restriction = xsd_restriction
+    xsd_simpleType.restriction = xsd_restriction(st, get_xsd_type(st.__bases__[0]()))
     return xsd_simpleType
 
 
-- 
2.43.0


From 124ea2ba6ab468119e014f45fcd7693eed427f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 46/65] fix: write types given in place for attributes and
 global elements to the schema

---
 soapfish/py2xsd.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index bd3a5e1..d3c6ee6 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import inspect
 import logging
 import sys
 from importlib.machinery import SourceFileLoader
@@ -45,9 +44,9 @@ def get_xsd_type(_type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-    xsdattr.type = get_xsd_type(attribute._type)
+    set_xsd_type(xsdattr, attribute)
     return xsdattr
 
 
@@ -71,6 +70,16 @@ def xsd_restriction(_type, base):
     return restriction
 
 
+def set_xsd_type(xsd_element, element):
+    if isinstance(element._passed_type, xsd.SimpleType):  # defined in place.
+        xsd_element.simpleType = xsdspec.SimpleType()
+        xsd_element.simpleType.restriction = xsd_restriction(element._type, get_xsd_type(element._type))
+    elif isinstance(element._passed_type, xsd.ComplexType):
+        xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+    else:
+        xsd_element.type = get_xsd_type(element._type)
+
+
 def create_xsd_element(element):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
@@ -79,12 +88,7 @@ def create_xsd_element(element):
     if hasattr(element, '_maxOccurs'):
         xsd_element.maxOccurs = element._maxOccurs
 
-    # SimpleType defined in place.
-    if not inspect.isclass(element._passed_type):
-        xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsd_restriction(element._type, get_xsd_type(element._type))
-    else:
-        xsd_element.type = get_xsd_type(element._type)
+    set_xsd_type(xsd_element, element)
     return xsd_element
 
 
@@ -175,11 +179,10 @@ def generate_elements(xsd_schema, schema):
             value = element.substitutionGroup
             xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
 
-        if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
-            xsd_element.type = get_xsd_type(element._type)
-        else:
-            xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+        if element.nillable:
+            xsd_element.nillable = True
 
+        set_xsd_type(xsd_element, element)
         xsd_schema.elements.append(xsd_element)
 
 
-- 
2.43.0


From 513db0705bde8de2c9fcd70077b7cc5b9415fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 47/65] fix: write lists without bounds to the schema as taking
 any number of items

---
 soapfish/py2xsd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index d3c6ee6..c433006 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -84,9 +84,11 @@ def create_xsd_element(element):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
-    xsd_element.minOccurs = element._minOccurs
-    if hasattr(element, '_maxOccurs'):
-        xsd_element.maxOccurs = element._maxOccurs
+    if isinstance(element, xsd.ListElement):  # by default a list takes any number of items.
+        xsd_element.minOccurs = 0 if element._minOccurs is None else element._minOccurs
+        xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
+    else:
+        xsd_element.minOccurs = element._minOccurs
 
     set_xsd_type(xsd_element, element)
     return xsd_element
-- 
2.43.0


From 01034e5252ce2fbe0fe1e01edb1ddf596f53159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 48/65] fix: validate the messages of services with several
 schemas

---
 soapfish/py2xsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c433006..3dbb71e 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -242,7 +242,14 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
+    if len(schemas) == 1:
+        schema = schemas[0]
+    else:  # combine all of them in one schema which needs a location for each.
+        locations = {f'soapfish-schema-{n}': s for n, s in enumerate(schemas)}
+        resolver.lookup.update(locations)
+        imports = [xsd.Schema(s.targetNamespace, location=location) for location, s in locations.items()]
+        schema = xsd.Schema('urn:soapfish:schemas', imports=imports)
+    schema_xml = etree.tostring(generate_xsd(schema))
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
-- 
2.43.0


From 63d9efeb5f4cb934d3041d84f02a50d110733e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 49/65] fix: refer to types and elements in the namespace of
 the schema that declares them

---
 soapfish/py2wsdl.py | 27 ++++++++++++-------
 soapfish/py2xsd.py  | 66 +++++++++++++++++++++++++++++----------------
 2 files changed, 61 insertions(+), 32 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..e1ecb96 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -8,9 +8,8 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd
-from .py2xsd import generate_xsdspec
+from .py2xsd import generate_xsdspec, get_prefixes, get_xsd_type
 from .soap import SOAP_HTTP_Transport
-from .utils import uncapitalize
 from .wsdl import get_wsdl_classes
 
 logger = logging.getLogger('soapfish')
@@ -65,29 +64,40 @@ def build_portTypes(wsdl, definitions, service):
     definitions.portTypes.append(portType)
 
 
+def get_part_name(service, part):
+    """Return the qualified name of the element, or of the type, a part of a message refers to."""
+    prefixes = {None: 'sns', **get_prefixes(service.schemas)}
+    if not isinstance(part, str):
+        return get_xsd_type(part(), prefixes)
+    elements = [schema.get_element_by_name(part) for schema in service.schemas]
+    namespaces = [element.namespace for element in elements if element is not None]
+    return prefixes.get(namespaces[0] if namespaces else None, 'sns') + ':' + part
+
+
 def build_messages(wsdl, definitions, service):
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
         part = wsdl.Part(name='body')
         if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
+            part.element = get_part_name(service, method.input)
         else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
+            part.type = get_part_name(service, method.input)
         inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
         part = wsdl.Part(name='body')
         if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
+            part.element = get_part_name(service, method.output)
         else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
+            part.type = get_part_name(service, method.output)
         outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
 
 def build_types(wsdl, definitions, service):
-    schemas = [generate_xsdspec(schema) for schema in service.schemas]
+    prefixes = get_prefixes(service.schemas)
+    schemas = [generate_xsdspec(schema, prefixes) for schema in service.schemas]
     definitions.types = wsdl.Types(schemas=schemas)
 
 
@@ -103,8 +113,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{prefix: namespace for namespace, prefix in get_prefixes(service.schemas).items()},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 3dbb71e..355d025 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 import argparse
+import itertools
 import logging
 import sys
 from importlib.machinery import SourceFileLoader
@@ -29,24 +30,39 @@ FACETS = [
 ]
 
 
+# The prefixes of namespaces, None is the namespace of the schema itself.
+OWN_PREFIX = {None: 'sns'}
+
 logger = logging.getLogger('soapfish')
 
 
 # --- Helpers -----------------------------------------------------------------
-def get_xsd_type(_type):
+def get_prefixes(schemas):
+    """Return the prefix of the target namespace of each schema, including the imported ones (sns for the first)."""
+    prefixes, schemas = {}, list(schemas)
+    for schema in schemas:
+        if schema.targetNamespace is not None and schema.targetNamespace not in prefixes:
+            prefixes[schema.targetNamespace] = f'sns{len(prefixes) or ""}'
+        schemas.extend(x for x in itertools.chain(schema.imports, schema.includes) if x not in schemas)
+    return prefixes
+
+
+def get_xsd_type(_type, prefixes=OWN_PREFIX):
     """Check if type_ is a basic type in the XSD scope otherwise it must be user defined type."""
     base_class = _type.__class__.__bases__[0]
     if base_class == xsd.SimpleType or _type.__class__ in ALL_TYPES:
         return 'xsd:' + uncapitalize(_type.__class__.__name__)
     else:
-        return 'sns:' + uncapitalize(_type.__class__.__name__)
+        schema = getattr(_type, 'SCHEMA', None)
+        prefix = prefixes.get(schema.targetNamespace if schema else None, prefixes[None])
+        return prefix + ':' + uncapitalize(_type.__class__.__name__)
 
 
-def xsd_attribute(attribute):
+def xsd_attribute(attribute, prefixes=OWN_PREFIX):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-    set_xsd_type(xsdattr, attribute)
+    set_xsd_type(xsdattr, attribute, prefixes)
     return xsdattr
 
 
@@ -70,17 +86,17 @@ def xsd_restriction(_type, base):
     return restriction
 
 
-def set_xsd_type(xsd_element, element):
+def set_xsd_type(xsd_element, element, prefixes=OWN_PREFIX):
     if isinstance(element._passed_type, xsd.SimpleType):  # defined in place.
         xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsd_restriction(element._type, get_xsd_type(element._type))
+        xsd_element.simpleType.restriction = xsd_restriction(element._type, get_xsd_type(element._type, prefixes))
     elif isinstance(element._passed_type, xsd.ComplexType):
-        xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+        xsd_element.complexType = xsd_complexType(element._type.__class__, named=False, prefixes=prefixes)
     else:
-        xsd_element.type = get_xsd_type(element._type)
+        xsd_element.type = get_xsd_type(element._type, prefixes)
 
 
-def create_xsd_element(element):
+def create_xsd_element(element, prefixes=OWN_PREFIX):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
@@ -90,17 +106,17 @@ def create_xsd_element(element):
     else:
         xsd_element.minOccurs = element._minOccurs
 
-    set_xsd_type(xsd_element, element)
+    set_xsd_type(xsd_element, element, prefixes)
     return xsd_element
 
 
-def xsd_complexType(complexType, named=True):
+def xsd_complexType(complexType, named=True, prefixes=OWN_PREFIX):
     xsd_ct = xsdspec.XSDComplexType()
     if named:
         xsd_ct.name = uncapitalize(complexType.__name__)
 
     for attribute in complexType._meta.attributes:
-        xsd_attr = xsd_attribute(attribute)
+        xsd_attr = xsd_attribute(attribute, prefixes)
         xsd_ct.attributes.append(xsd_attr)
 
     # Elements can be wrapped with few type of containers:
@@ -121,15 +137,15 @@ def xsd_complexType(complexType, named=True):
                 # unable to reproduce the error condition in a test case.
                 # Forcing type evaluation fixed the problem though.
                 element_._evaluate_type()
-            xsd_element = create_xsd_element(element_)
+            xsd_element = create_xsd_element(element_, prefixes)
             container.elements.append(xsd_element)
     return xsd_ct
 
 
-def xsd_simpleType(st):
+def xsd_simpleType(st, prefixes=OWN_PREFIX):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
-    xsd_simpleType.restriction = xsd_restriction(st, get_xsd_type(st.__bases__[0]()))
+    xsd_simpleType.restriction = xsd_restriction(st, get_xsd_type(st.__bases__[0](), prefixes))
     return xsd_simpleType
 
 
@@ -152,7 +168,10 @@ def build_includes(xsd_schema, includes):
         xsd_schema.includes.append(xsd_include)
 
 
-def generate_xsdspec(schema):
+def generate_xsdspec(schema, prefixes=None):
+    prefixes = get_prefixes([schema]) if prefixes is None else prefixes
+    prefixes = {**prefixes, None: prefixes.get(schema.targetNamespace, 'sns')}  # types without schema are its own.
+
     xsd_schema = xsdspec.Schema()
     xsd_schema.targetNamespace = schema.targetNamespace
     xsd_schema.elementFormDefault = schema.elementFormDefault
@@ -160,18 +179,18 @@ def generate_xsdspec(schema):
     build_imports(xsd_schema, schema.imports)
     build_includes(xsd_schema, schema.includes)
     for st in schema.simpleTypes:
-        xsd_st = xsd_simpleType(st)
+        xsd_st = xsd_simpleType(st, prefixes)
         xsd_schema.simpleTypes.append(xsd_st)
 
     for ct in schema.complexTypes:
-        xsd_ct = xsd_complexType(ct)
+        xsd_ct = xsd_complexType(ct, prefixes=prefixes)
         xsd_schema.complexTypes.append(xsd_ct)
 
-    generate_elements(xsd_schema, schema)
+    generate_elements(xsd_schema, schema, prefixes)
     return xsd_schema
 
 
-def generate_elements(xsd_schema, schema):
+def generate_elements(xsd_schema, schema, prefixes=OWN_PREFIX):
     for name, element in schema.elements.items():
         xsd_element = xsdspec.Element()
         xsd_element.name = name
@@ -179,12 +198,13 @@ def generate_elements(xsd_schema, schema):
         # TODO: Support non-string values for substitutionGroup:
         if element.substitutionGroup is not None:
             value = element.substitutionGroup
-            xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
+            value = value[len('sns:'):] if value.startswith('sns:') else value
+            xsd_element.substitutionGroup = f'{prefixes[None]}:{value}'
 
         if element.nillable:
             xsd_element.nillable = True
 
-        set_xsd_type(xsd_element, element)
+        set_xsd_type(xsd_element, element, prefixes)
         xsd_schema.elements.append(xsd_element)
 
 
@@ -194,7 +214,7 @@ def generate_xsd(schema):
     xmlelement = etree.Element(
         '{%s}schema' % ns.xsd,
         nsmap={
-            'sns': schema.targetNamespace,
+            **{prefix: namespace for namespace, prefix in get_prefixes([schema]).items()},
             'xsd': xsdspec.XSD_NAMESPACE,
         },
     )
-- 
2.43.0


From 39c9889e77a4904d644371913cbf63469342e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 50/65] fix: name the parts of generated messages as the method
 declares

---
 soapfish/py2wsdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index e1ecb96..b3e6d9d 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -77,7 +77,7 @@ def get_part_name(service, part):
 def build_messages(wsdl, definitions, service):
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
-        part = wsdl.Part(name='body')
+        part = wsdl.Part(name=method.inputPartName)
         if isinstance(method.input, str):
             part.element = get_part_name(service, method.input)
         else:
@@ -86,7 +86,7 @@ def build_messages(wsdl, definitions, service):
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
-        part = wsdl.Part(name='body')
+        part = wsdl.Part(name=method.outputPartName)
         if isinstance(method.output, str):
             part.element = get_part_name(service, method.output)
         else:
-- 
2.43.0


From a42c91a51fe47d7e4ffac8420f4771c4791a2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 51/65] fix: quote the texts of documents in generated code

---
 soapfish/templates/lib.jinja2  | 36 +++++++++++++++++-----------------
 soapfish/templates/wsdl.jinja2 | 32 +++++++++++++++---------------
 soapfish/templates/xsd.jinja2  |  2 +-
 soapfish/utils.py              | 12 ++++++++++++
 4 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..55d1ece 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,15 +15,15 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
-    elementFormDefault='{{ schema.elementFormDefault }}',
+    location={{ location|url_template|literal }},{% endif %}
+    elementFormDefault={{ schema.elementFormDefault|literal }},
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|literal }}: xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -64,20 +64,20 @@ class {{ group.name|capitalize }}(xsd.Group):
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
+    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}]
 {%- endif %}
 {%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
+    pattern = {{ restriction.pattern.value|raw_literal }}
 {%- endif %}
 {%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
+    minInclusive = {{ restriction.minInclusive.value|literal }}
 {%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
+    minExclusive = {{ restriction.minExclusive.value|literal }}
 {%- endif %}
 {%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
+    maxInclusive = {{ restriction.maxInclusive.value|literal }}
 {%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
+    maxExclusive = {{ restriction.maxExclusive.value|literal }}
 {%- endif %}
 {%- if not restriction.enumerations and not restriction.pattern
         and not restriction.minInclusive and not restriction.minExclusive
@@ -121,7 +121,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -139,25 +139,25 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
+    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
+    {%- if element.name in keywords %}tagname={{ element.name|literal }},{% endif %}
     {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
     {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
+    {%- if element.simpleType.restriction.pattern %}pattern={{ element.simpleType.restriction.pattern.value|raw_literal }},{% endif %}
     {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
     {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
     {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %}))
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..2c38bbc 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -49,7 +49,7 @@ class {{ _im.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
     {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
@@ -61,7 +61,7 @@ class {{ _om.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
     {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
@@ -71,11 +71,11 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction={{ (operation.operation.soapAction or '')|literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
-    input='{{ _im.part.element|remove_namespace }}',
-    inputPartName='{{ _im.part.name }}',
+    input={{ _im.part.element|remove_namespace|literal }},
+    inputPartName={{ _im.part.name|literal }},
     {%- else -%}
     input={{ _im.part.type|remove_namespace|capitalize }},
     {%- endif -%}
@@ -85,8 +85,8 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
-    output='{{ _om.part.element|remove_namespace }}',
-    outputPartName='{{ _om.part.name }}',
+    output={{ _om.part.element|remove_namespace|literal }},
+    outputPartName={{ _om.part.name|literal }},
     {%- else -%}
     output={{ _om.part.type|remove_namespace|capitalize }},
     {%- endif -%}
@@ -94,9 +94,9 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- if _omh %}
     output_header={{ _om.name }}Headers,
     {%- endif %}
-    operationName='{{ operation.name }}',
+    operationName={{ operation.name|literal }},
     {%- if operation.operation.style %}
-    style='{{ operation.operation.style }}',
+    style={{ operation.operation.style|literal }},
     {%- endif %}
 )
 {# [blank line] #}
@@ -107,9 +107,9 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {# [blank line] #}
 {{ port.name }}_SERVICE = soap.Service(
-    name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    name={{ port.name|literal }},
+    targetNamespace={{ definitions.targetNamespace|literal }},
+    location={{ port.address.location|url_template|literal }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
@@ -131,7 +131,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
 # urlpatterns += patterns('',
-#     (r'{{ service.ports.0.address.location|url_regex }}', '<module>.dispatcher'),
+#     ({{ service.ports.0.address.location|url_regex|raw_literal }}, '<module>.dispatcher'),
 # )
 {%- else %}
 ##############################################################################
@@ -140,12 +140,12 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 class {{ port.name }}ServiceStub(soap.Stub):
     SERVICE = {{ port.name }}_SERVICE
-    SCHEME = '{{ port.address.location|url_component('scheme') }}'
-    HOST = '{{ port.address.location|url_component('netloc') }}'
+    SCHEME = {{ port.address.location|url_component('scheme')|literal }}
+    HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
     def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+        return self.call({{ operation.name|literal }}, {{ _im.part.element|remove_namespace }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index be4442b..7b49d8c 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -15,7 +15,7 @@ from soapfish import xsd
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
 {{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
 {%- endfor %}
-# {% if location %}{{ location }} - {% endif -%} {{ schema.targetNamespace }}{# Output the name of the schema in a comment. #}
+# {% if location %}{{ location|comment }} - {% endif -%} {{ schema.targetNamespace|comment }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
 {# [blank line] #}
 {#- Simple Types -#}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 7119b9a..b2ffee0 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -88,6 +88,15 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def capitalize(value):
         return value[0].upper() + value[1:]
 
+    def raw_literal(value):
+        # raw strings keep patterns readable, but can not hold every text.
+        if any(x in value for x in "'\n\r") or value.endswith('\\'):
+            return repr(value)
+        return f"r'{value}'"
+
+    def comment(value):
+        return str(value).replace('\r', ' ').replace('\n', ' ')
+
     def use(value):
         from . import xsd
         if value == xsd.Use.OPTIONAL:
@@ -153,8 +162,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
+        comment=comment,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        literal=repr,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
+        raw_literal=raw_literal,
         remove_namespace=remove_namespace,
         type=get_type,
         url_component=url_component,
-- 
2.43.0


From f9a3d3633a233df8d1ff37e9b001463a84504fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 52/65] fix: generate every facet of a restriction

---
 soapfish/templates/lib.jinja2 | 41 +++++------------------------------
 soapfish/utils.py             | 18 +++++++++++++++
 soapfish/xsd.py               | 15 +++++++++++++
 3 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 55d1ece..8a5246d 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -63,27 +63,11 @@ class {{ group.name|capitalize }}(xsd.Group):
 
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
-{%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}]
-{%- endif %}
-{%- if restriction.pattern %}
-    pattern = {{ restriction.pattern.value|raw_literal }}
-{%- endif %}
-{%- if restriction.minInclusive %}
-    minInclusive = {{ restriction.minInclusive.value|literal }}
-{%- elif restriction.minExclusive %}
-    minExclusive = {{ restriction.minExclusive.value|literal }}
-{%- endif %}
-{%- if restriction.maxInclusive %}
-    maxInclusive = {{ restriction.maxInclusive.value|literal }}
-{%- elif restriction.maxExclusive %}
-    maxExclusive = {{ restriction.maxExclusive.value|literal }}
-{%- endif %}
-{%- if not restriction.enumerations and not restriction.pattern
-        and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+{%- for facet, value in restriction|facets %}
+    {{ facet }} = {{ value }}
+{%- else %}
     pass
-{%- endif %}
+{%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
@@ -143,21 +127,8 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- endif %}
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- endif %}
-    {%- if element.name in keywords %}tagname={{ element.name|literal }},{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern={{ element.simpleType.restriction.pattern.value|raw_literal }},{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %}))
+    {%- for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor -%}
+    ){% if element.name in keywords %}, tagname={{ element.name|literal }}{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index b2ffee0..c6c1016 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -94,6 +94,23 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             return repr(value)
         return f"r'{value}'"
 
+    def facets(restriction):
+        """Return the names of the declared facets with their values as Python code."""
+        found = []
+        if restriction.enumerations:
+            found.append(('enumeration', '[%s]' % ', '.join(repr(e.value) for e in restriction.enumerations)))
+        if restriction.pattern:
+            found.append(('pattern', raw_literal(restriction.pattern.value)))
+        for name in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'whiteSpace'):
+            facet = getattr(restriction, name)
+            if facet:
+                found.append((name, repr(facet.value)))
+        for name in ('fractionDigits', 'totalDigits', 'length', 'minLength', 'maxLength'):
+            facet = getattr(restriction, name)
+            if facet:
+                found.append((name, str(int(facet.value))))
+        return found
+
     def comment(value):
         return str(value).replace('\r', ' ').replace('\n', ' ')
 
@@ -163,6 +180,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         comment=comment,
+        facets=facets,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
         literal=repr,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 16f788c..6043705 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -372,6 +372,17 @@ class Decimal(SimpleType):
             self.pattern = pattern
         if totalDigits is not None:
             self.totalDigits = totalDigits
+        # The values of facets may be given as text, as in generated code.
+        for facet in ('maxExclusive', 'maxInclusive', 'minExclusive', 'minInclusive'):
+            value = getattr(self, facet)
+            if isinstance(value, str):
+                setattr(self, facet, self._number(value))
+        if self.enumeration is not None and any(isinstance(value, str) for value in self.enumeration):
+            self.enumeration = [self._number(value) if isinstance(value, str) else value for value in self.enumeration]
+
+    @staticmethod
+    def _number(value):
+        return float(value)
 
     def _check_restrictions(self, value):
         if self.enumeration is not None and value not in self.enumeration:
@@ -477,6 +488,10 @@ class Integer(Decimal):
                     value = declared  # The text of an integer always matches the built-in pattern.
                 setattr(self, facet, value)
 
+    @staticmethod
+    def _number(value):
+        return int(value)
+
     def accept(self, value):
         if value is None:
             return None
-- 
2.43.0


From 32908e0ede266d222dbd434c0e8664c1e9244de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 53/65] fix: generate the occurrence bounds of every element

---
 soapfish/templates/lib.jinja2 | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 8a5246d..f794632 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -53,9 +53,10 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 
 {% macro render_xsd_Group(group, known_types=None) -%}
 class {{ group.name|capitalize }}(xsd.Group):
-    {%- for element in group.sequence.elements %}
-    {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %})
+    {%- for element in group.sequence.elements -%}
+    {{ render_xsd_element(element, known_types) }}
+    {%- else %}
+    pass
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -72,6 +73,10 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {# [blank line] #}
 {%- endmacro %}
 
+{% macro render_inline_type(simpleType, known_types=None) -%}
+{{ simpleType.restriction|type(known_types) }}({% for facet, value in simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %})
+{%- endmacro %}
+
 {% macro render_complexType(class_name, content, known_types=None) -%}
 {%- set ct = content %}
 {%- if not ct.sequence and not ct.complexContent %}
@@ -122,13 +127,8 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
-    {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
-    {%- endif %}
-    {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor -%}
-    ){% if element.name in keywords %}, tagname={{ element.name|literal }}{% endif %})
+    {%- if element.type or element.simpleType %}
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({% if element.type %}{{ element|type(known_types) }}{% else %}{{ render_inline_type(element.simpleType, known_types) }}{% endif %}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none or element.maxOccurs and element.maxOccurs > 1 %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From 6b249d266bec0690bfb491ce3aebc02744770191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 54/65] fix: generate attributes and global elements with a
 type given in place

---
 soapfish/templates/lib.jinja2 | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index f794632..709b99d 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -11,6 +11,15 @@
 {%- endif -%}
 {%- endmacro %}
 
+{% macro render_type(item, known_types=None) -%}
+{%- if item.simpleType and not item.type -%}
+{%- set restriction = item.simpleType.restriction -%}
+{{ restriction|type(known_types) }}({% for facet, value in restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %})
+{%- else -%}
+{{ item|type(known_types) }}
+{%- endif -%}
+{%- endmacro %}
+
 {% macro render_Schema(schema, location, known_types=None) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
@@ -23,7 +32,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|literal }}: xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|literal }}: xsd.Element({% if e.complexType %}{{ e.name|capitalize }}(){% else %}{{ render_type(e, known_types) }}{% endif %}{% if e.nillable %}, nillable=True{% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -45,7 +54,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -73,10 +82,6 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {# [blank line] #}
 {%- endmacro %}
 
-{% macro render_inline_type(simpleType, known_types=None) -%}
-{{ simpleType.restriction|type(known_types) }}({% for facet, value in simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %})
-{%- endmacro %}
-
 {% macro render_complexType(class_name, content, known_types=None) -%}
 {%- set ct = content %}
 {%- if not ct.sequence and not ct.complexContent %}
@@ -85,11 +90,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
@@ -110,7 +115,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -128,7 +133,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type or element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({% if element.type %}{{ element|type(known_types) }}{% else %}{{ render_inline_type(element.simpleType, known_types) }}{% endif %}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none or element.maxOccurs and element.maxOccurs > 1 %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_type(element, known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none or element.maxOccurs and element.maxOccurs > 1 %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From 925c39c2d6a9f0c61eba721f50f692d27a1de18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 55/65] fix: generate code for names which are no Python names

---
 soapfish/templates/lib.jinja2 | 13 ++++++++-----
 soapfish/utils.py             |  9 +++++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 709b99d..e81ca0f 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -54,7 +54,9 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {%- else %}
+    pass
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -115,10 +117,10 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
     {{ render_xsd_element(element, known_types) }}
@@ -133,10 +135,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type or element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_type(element, known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none or element.maxOccurs and element.maxOccurs > 1 %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_type(element, known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none or element.maxOccurs and element.maxOccurs > 1 %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
-    {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
+    {%- set name = element.ref|remove_namespace %}
+    {{ name|fix_keyword }} = xsd.Ref({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %})
     {%- endif %}
 {%- endmacro %}
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index c6c1016..96063a6 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -85,8 +85,13 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     """Return a rendering environment to use with code generation templates."""
     from . import soap, xsd, xsdspec, wsdl
 
+    def fix_keyword(value):
+        # names may also hold dots, dashes and the like in XML.
+        value = re.sub(r'\W', '_', str(value))
+        return f'_{value}' if value in keywords else value
+
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        return fix_keyword(value[0].upper() + value[1:])
 
     def raw_literal(value):
         # raw strings keep patterns readable, but can not hold every text.
@@ -181,7 +186,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         capitalize=capitalize,
         comment=comment,
         facets=facets,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        fix_keyword=fix_keyword,
         literal=repr,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         raw_literal=raw_literal,
-- 
2.43.0


From ed9e64cd2f3f217f9282c010c955edc11e5c8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 56/65] fix: generate code for types after the ones they are
 derived from

---
 soapfish/xsd2py.py | 62 +++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f7eddb9..fd3027b 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -11,7 +10,7 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
 
 logger = logging.getLogger('soapfish')
 
@@ -77,44 +76,38 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
+def _reorder_types(types, get_base):
+    """Reorder types to render the ones which others are derived from before those."""
+    names = {t.name: t for t in types}
+    ordered, seen = [], set()
+
+    def add(t):
+        if t.name in seen:
+            return
+        seen.add(t.name)
+        base = names.get(remove_namespace(get_base(t)))
+        if base is not None:
+            add(base)
+        ordered.append(t)
+
+    for t in list(types):
+        add(t)
+    types[:] = ordered
+
+
 def _reorder_complexTypes(schema):
     """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
+    def get_base(complex_type):
         content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
-
-        weights[complex_type.name] = (n, base)
+        derivation = content and (content.extension or content.restriction)
+        return derivation and derivation.base
 
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
+    _reorder_types(schema.complexTypes, get_base)
 
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
 
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+def _reorder_simpleTypes(schema):
+    """Reorder simpleTypes to render the bases of restrictions before the restrictions."""
+    _reorder_types(schema.simpleTypes, lambda simple_type: simple_type.restriction and simple_type.restriction.base)
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -126,6 +119,7 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
+    _reorder_simpleTypes(schema)
     _reorder_complexTypes(schema)
 
     if known_paths is None:
-- 
2.43.0


From db9f0fe774a152cd7555bd1c5be491b252ca0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 57/65] fix: refer to types hidden by a field of the same name

---
 soapfish/templates/lib.jinja2 |  2 ++
 soapfish/utils.py             | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index e81ca0f..124894b 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -63,6 +63,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 {%- endmacro %}
 
 {% macro render_xsd_Group(group, known_types=None) -%}
+{%- set known_types = known_types|visible(group) %}
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements -%}
     {{ render_xsd_element(element, known_types) }}
@@ -115,6 +116,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     INDICATOR = xsd.Choice
     {%- set elements = content.choice.elements %}
 {%- endif %}
+{%- set known_types = known_types|visible(content) %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
     {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 96063a6..0c710b2 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -116,6 +116,16 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
                 found.append((name, str(int(facet.value))))
         return found
 
+    def visible(known_types, content):
+        """Leave out the types with the name of a field of the content, which hides them in its class."""
+        items = [*getattr(content, 'attributes', ()), *getattr(content, 'attributeGroups', ())]
+        for name in ('sequence', 'all', 'choice'):
+            container = getattr(content, name, None)
+            if container:
+                items.extend(container.elements)
+        hidden = [fix_keyword(remove_namespace(item.ref) or item.name) for item in items]
+        return [name for name in known_types or () if name not in hidden]
+
     def comment(value):
         return str(value).replace('\r', ' ').replace('\n', ' ')
 
@@ -196,6 +206,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         url_regex=url_regex,
         url_template=url_template,
         use=use,
+        visible=visible,
     )
     env.globals.update(
         SOAPTransport=soap.SOAP_HTTP_Transport,
-- 
2.43.0


From 77cd20ab4fe62e95319126dfb4bf2f55ff842935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 58/65] fix: generate code for schemas which refer to schemas
 not generated

---
 soapfish/templates/lib.jinja2 | 15 +++++++++++++--
 soapfish/templates/xsd.jinja2 |  2 +-
 soapfish/utils.py             |  7 +------
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 124894b..e26ad1c 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -20,10 +20,19 @@
 {%- endif -%}
 {%- endmacro %}
 
+{% macro render_Schema_reference(item, namespace, known_types=None) -%}
+{%- set name = 'Schema_' ~ schema_name(item) -%}
+{%- if known_types is none or name in known_types -%}
+{{ name }}
+{%- else -%}{# not generated, or not yet as the schemas refer to each other #}
+xsd.Schema({{ namespace|literal }}{% if item.schemaLocation %}, location={{ item.schemaLocation|literal }}{% endif %})
+{%- endif -%}
+{%- endmacro %}
+
 {% macro render_Schema(schema, location, known_types=None) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    imports=[{% for i in schema.imports %}{{ render_Schema_reference(i, i.namespace, known_types) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    includes=[{% for i in schema.includes %}{{ render_Schema_reference(i, schema.targetNamespace, known_types) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
     location={{ location|url_template|literal }},{% endif %}
@@ -38,7 +47,9 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
 {# [blank line] #}
 # XXX: Workaround for naming issues related to relative locations!
 Schema_{{ schema_name(schema, location) }} = Schema_{{ schema_name(schema) }}
+{%- do known_types.append('Schema_' ~ schema_name(schema, location)) %}
 {%- endif %}
+{%- do known_types.append('Schema_' ~ schema_name(schema)) %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index 7b49d8c..b3562ec 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -13,7 +13,7 @@ from soapfish import xsd
 {#- XSD Imports -#}
 {%- for i in schema.imports %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, none, cwd, base_path) }}
 {%- endfor %}
 # {% if location %}{{ location|comment }} - {% endif -%} {{ schema.targetNamespace|comment }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 0c710b2..535a1a7 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -62,13 +62,8 @@ def schema_name(obj, location=None):
     else:
         raise TypeError(f'Unable to generate schema name for {obj.__class__.__module__}.{obj.__class__.__name__}')
 
-    try:
-        value = value.encode()
-    except UnicodeEncodeError:
-        pass
-
     # no cryptographic requirement here, so use md5 for fast hash:
-    return hashlib.md5(value).hexdigest()[:5]
+    return hashlib.md5((value or '').encode()).hexdigest()[:5]
 
 
 def schema_select(schemas, elements):
-- 
2.43.0


From 8731542540caa5a43fed2fc98cf47a4f56318d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 59/65] fix: generate code for operations with names which are
 no Python names or messages with types

---
 soapfish/templates/wsdl.jinja2 | 53 ++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 2c38bbc..1990f12 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -1,4 +1,7 @@
 {%- import 'lib.jinja2' as lib with context -%}
+{%- macro parameter(message) -%}
+{{ (message.part.element or message.part.name)|remove_namespace|fix_keyword }}
+{%- endmacro -%}
 {%- if preamble -%}
 {{- lib.render_preamble(preamble) -}}
 from soapfish import soap, xsd{% if use_wsa %}, wsa{% endif -%}
@@ -28,9 +31,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name|fix_keyword }}(request, {{ parameter(_im) }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return {{ parameter(_om) }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -45,54 +48,54 @@ def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
-class {{ _im.name }}Headers(BaseHeader):
+class {{ _im.name|fix_keyword }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
-class {{ _om.name }}Headers(BaseHeader):
+class {{ _om.name|fix_keyword }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif %}
-{{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+{{ operation.name|fix_keyword }}_method = xsd.Method(
+    {% if is_server %}function={{ operation.name|fix_keyword }},
     {% endif -%}
     soapAction={{ (operation.operation.soapAction or '')|literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input={{ _im.part.element|remove_namespace|literal }},
-    inputPartName={{ _im.part.name|literal }},
-    {%- else -%}
+    {%- else %}
     input={{ _im.part.type|remove_namespace|capitalize }},
-    {%- endif -%}
+    {%- endif %}
+    inputPartName={{ _im.part.name|literal }},
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ _im.name }}Headers,
+    input_header={{ _im.name|fix_keyword }}Headers,
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
     output={{ _om.part.element|remove_namespace|literal }},
-    outputPartName={{ _om.part.name|literal }},
-    {%- else -%}
+    {%- else %}
     output={{ _om.part.type|remove_namespace|capitalize }},
-    {%- endif -%}
+    {%- endif %}
+    outputPartName={{ _om.part.name|literal }},
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ _om.name }}Headers,
+    output_header={{ _om.name|fix_keyword }}Headers,
     {%- endif %}
     operationName={{ operation.name|literal }},
     {%- if operation.operation.style %}
@@ -106,7 +109,7 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service
 {# [blank line] #}
 {# [blank line] #}
-{{ port.name }}_SERVICE = soap.Service(
+{{ port.name|fix_keyword }}_SERVICE = soap.Service(
     name={{ port.name|literal }},
     targetNamespace={{ definitions.targetNamespace|literal }},
     location={{ port.address.location|url_template|literal }},
@@ -116,7 +119,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
-    methods=[{% for o in binding.operations %}{{ o.name }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
+    methods=[{% for o in binding.operations %}{{ o.name|fix_keyword }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
 )
 {# [blank line] #}
 {# [blank line] #}
@@ -126,7 +129,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Uncomment the following lines to turn on dispatching for Django:
 # from soapfish.django_ import django_dispatcher
-# dispatcher = django_dispatcher({{ port.name }}_SERVICE)
+# dispatcher = django_dispatcher({{ port.name|fix_keyword }}_SERVICE)
 {# [blank line] #}
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
@@ -138,14 +141,14 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service Stub
 {# [blank line] #}
 {# [blank line] #}
-class {{ port.name }}ServiceStub(soap.Stub):
-    SERVICE = {{ port.name }}_SERVICE
+class {{ port.name|fix_keyword }}ServiceStub(soap.Stub):
+    SERVICE = {{ port.name|fix_keyword }}_SERVICE
     SCHEME = {{ port.address.location|url_component('scheme')|literal }}
     HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call({{ operation.name|literal }}, {{ _im.part.element|remove_namespace }}, header=header)
+    def {{ operation.name|fix_keyword }}(self, {{ parameter(_im) }}, header=None):
+        return self.call({{ operation.name|literal }}, {{ parameter(_im) }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
-- 
2.43.0


From 098286616d03f1420fe00619b68f9c3b768383ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 60/65] fix: instantiate types which refer to themselves by
 name

Every instance started evaluating the types of all of its elements, and did not come to an end where these led back to it.
---
 soapfish/xsd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6043705..e0b7a85 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -624,12 +624,10 @@ class Element:
 
     def _evaluate_type(self):
         if self._type is None:
-            if isinstance(self._passed_type, str):
-                self._passed_type = import_type(self._passed_type)
-            if isinstance(self._passed_type, Type):
-                self._type = self._passed_type
-            else:
-                self._type = self._passed_type()
+            _type = self._passed_type
+            if isinstance(_type, str):
+                _type = import_type(_type)
+            self._type = _type if isinstance(_type, Type) else _type()
 
     def empty_value(self):
         """
@@ -645,6 +643,8 @@ class Element:
 
     def accept(self, value):
         """Check if the value correct from type defined in constructions."""
+        if value is None and isinstance(self._passed_type, str):
+            return None  # types given by name may refer to each other, so instances without values do not need them.
         self._evaluate_type()
         if value is NIL:
             if self.nillable:
-- 
2.43.0


From aeafc727bebda07582703dbb739c57cbe05b7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 61/65] fix: read the choice and all groups of derived types

---
 soapfish/xsdspec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index d1a72ea..08f0e0c 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -107,6 +107,8 @@ class Extension(xsd.ComplexType):
     NAMESPACE = ns.xsd
     base = xsd.Attribute(xsd.String)
     sequence = xsd.Element(Sequence)
+    choice = xsd.Element(Sequence)
+    all = xsd.Element(Sequence)
     attributes = xsd.ListElement(Attribute, 'attribute')
     attributeGroups = xsd.ListElement(AttributeGroupReference, 'attributeGroup')
 
-- 
2.43.0


From 8206775aaea4588259c0bb2870c744462ca770e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:30 +0000
Subject: [PATCH 62/65] fix: restrict types hidden by a field of the same name
 in place

---
 soapfish/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 535a1a7..413e962 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -178,6 +178,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             return f'xsd.{name}'
         elif known_types is not None and name in known_types:
             return str(name)
+        elif isinstance(obj, xsdspec.Restriction):
+            return f"globals()['{name}']"  # hidden by a field of the same name, but needed right away
         else:
             return f"__name__ + '.{name}'"
 
-- 
2.43.0


From 6b314a18d30d87129b46b6aded7bb6c47258954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:04 +0000
Subject: [PATCH 63/65] fix: refer to types hidden by an attribute of the same
 name in attribute groups

---
 soapfish/templates/lib.jinja2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index e26ad1c..c912a81 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -62,6 +62,7 @@ class {{ name|capitalize }}(xsd.List):
 {%- endmacro %}
 
 {% macro render_xsd_AttributeGroup(attrGroup, known_types=None) -%}
+{%- set known_types = known_types|visible(attrGroup) %}
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-- 
2.43.0


From e3c2d455df18a9e0e9e49b3040f07477236004ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:17 +0000
Subject: [PATCH 64/65] fix: rename generated fields which would replace parts
 of their class

---
 soapfish/templates/lib.jinja2 | 14 +++++++-------
 soapfish/utils.py             |  9 ++++++++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index c912a81..ffb4c8a 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -66,7 +66,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_field }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_field != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- else %}
     pass
     {%- endfor %}
@@ -131,10 +131,10 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- set known_types = known_types|visible(content) %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_field }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_field != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_field }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
     {{ render_xsd_element(element, known_types) }}
@@ -149,23 +149,23 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type or element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_type(element, known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none or element.maxOccurs and element.maxOccurs > 1 %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_field }} = xsd.{{ field_type }}({{ render_type(element, known_types) }}{% if element.name|fix_field != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none or element.maxOccurs and element.maxOccurs > 1 %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {%- set name = element.ref|remove_namespace %}
-    {{ name|fix_keyword }} = xsd.Ref({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %})
+    {{ name|fix_field }} = xsd.Ref({{ element|type(known_types) }}{% if name|fix_field != name %}, tagname={{ name|literal }}{% endif %})
     {%- endif %}
 {%- endmacro %}
 
 {% macro render_create_method(elements, known_types=None) -%}
 {# [blank line] #}
     @classmethod
-    def create(cls{% for e in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ e.ref|remove_namespace|fix_keyword if e.ref else e.name|fix_keyword }}{% endif %}{% endfor %}):
+    def create(cls{% for e in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ e.ref|remove_namespace|fix_field if e.ref else e.name|fix_field }}{% endif %}{% endfor %}):
         instance = cls()
         {%- for element in elements %}
         {%- if element.minOccurs is not none and element.minOccurs != 1 %}{% continue %}{% endif %}
         {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-        instance.{{ name|fix_keyword }} = {{ name|fix_keyword }}
+        instance.{{ name|fix_field }} = {{ name|fix_field }}
         {%- endfor %}
         return instance
 {%- endmacro %}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 413e962..50a6f12 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -85,6 +85,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         value = re.sub(r'\W', '_', str(value))
         return f'_{value}' if value in keywords else value
 
+    def fix_field(value):
+        # names which mean something else in the class of a complex type.
+        value = fix_keyword(value)
+        return f'_{value}' if value in reserved else value
+
     def capitalize(value):
         return fix_keyword(value[0].upper() + value[1:])
 
@@ -118,7 +123,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             container = getattr(content, name, None)
             if container:
                 items.extend(container.elements)
-        hidden = [fix_keyword(remove_namespace(item.ref) or item.name) for item in items]
+        hidden = [fix_field(remove_namespace(item.ref) or item.name) for item in items]
         return [name for name in known_types or () if name not in hidden]
 
     def comment(value):
@@ -184,6 +189,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             return f"__name__ + '.{name}'"
 
     keywords = set(keyword.kwlist)
+    reserved = {'xsd', 'cls', 'instance', 'create', *dir(xsd.ComplexType)}
 
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
@@ -193,6 +199,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         capitalize=capitalize,
         comment=comment,
         facets=facets,
+        fix_field=fix_field,
         fix_keyword=fix_keyword,
         literal=repr,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
-- 
2.43.0


From 87a6a96e80e287ad1bcc7846952f7b86029ba85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 65/65] fix: keep attributes with the name of an element in
 generated types

---
 soapfish/templates/lib.jinja2 | 3 ++-
 soapfish/utils.py             | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index ffb4c8a..d18124c 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -131,7 +131,8 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- set known_types = known_types|visible(content) %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_field }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name|fix_field != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {%- set field = name|fix_field(elements) %}
+    {{ field }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if field != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace|fix_field }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 50a6f12..75b89dc 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -85,10 +85,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         value = re.sub(r'\W', '_', str(value))
         return f'_{value}' if value in keywords else value
 
-    def fix_field(value):
-        # names which mean something else in the class of a complex type.
+    def fix_field(value, elements=()):
+        # names which mean something else in the class of a complex type, maybe one of its elements.
         value = fix_keyword(value)
-        return f'_{value}' if value in reserved else value
+        taken = value in reserved or value in [fix_field(remove_namespace(e.ref) or e.name) for e in elements]
+        return f'_{value}' if taken else value
 
     def capitalize(value):
         return fix_keyword(value[0].upper() + value[1:])
-- 
2.43.0

