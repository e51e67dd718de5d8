From b1c47361525a1ea69ef9b1bf34d40cd0453060a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 01/30] fix: serialize an optional mapping element without a
 value (skip_empty, exclude_none)

---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..a43e021 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From c9005c8820c4b5f93c78a7ef6992448903ec35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 02/30] fix: a mapping of attributes no longer discards the
 attributes set by sibling fields

---
 pydantic_xml/serializers/factories/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index a43e021..503ba02 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -39,10 +39,8 @@ class AttributesSerializer(Serializer):
             return element
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
-        element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
-            for attr, enc in encoded.items()
-        })
+        for attr, enc in encoded.items():
+            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
 
         return element
 
-- 
2.43.0


From 5dccdf633062f64fce1ef95d0bed9ca0bc9628b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:52 +0000
Subject: [PATCH 03/30] fix: encode mapping values the same way as other
 primitive values (bool, None)

---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 503ba02..44e670c 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         for attr, enc in encoded.items():
-            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
+            element.set_attribute(QName(tag=attr, ns=ns).uri, encode_primitive(enc))
 
         return element
 
-- 
2.43.0


From ab49d8e5b9211b84aa84bf23b871fb0d2d6044bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 04/30] fix: serialize an optional tagged union without a value

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 5f17e43..22652ab 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -76,6 +76,9 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None:
+            return None
+
         if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
-- 
2.43.0


From 9695d0832c78c8197d185d0b3de071aeb79b6262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:22 +0000
Subject: [PATCH 05/30] fix: do not drop an instance of a subclass of a union
 member on serialization

---
 pydantic_xml/serializers/factories/union.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..765f6bf 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -108,14 +108,20 @@ class ModelSerializer(Serializer):
     ) -> Optional[XmlElementWriter]:
         for serializer in self._inner_serializers:
             if serializer.model is type(value):
-                return serializer.serialize(
-                    element, value, encoded,
-                    skip_empty=skip_empty,
-                    exclude_none=exclude_none,
-                    exclude_unset=exclude_unset,
-                )
-
-        return None
+                break
+        else:
+            for serializer in self._inner_serializers:
+                if isinstance(value, serializer.model):
+                    break
+            else:
+                return None
+
+        return serializer.serialize(
+            element, value, encoded,
+            skip_empty=skip_empty,
+            exclude_none=exclude_none,
+            exclude_unset=exclude_unset,
+        )
 
     def deserialize(
             self,
-- 
2.43.0


From f72eef4b8638e62f536d854b1775b010be634fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:27 +0000
Subject: [PATCH 06/30] fix: skip xml processing instructions of an lxml tree

---
 pydantic_xml/element/native/lxml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..59064ae 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -29,7 +29,7 @@ class XmlElement(BaseXmlElement[ElementT]):
             elements=[
                 XmlElement.from_native(sub_element)
                 for sub_element in element
-                if not is_xml_comment(sub_element)
+                if not is_xml_comment(sub_element) and not is_xml_processing_instruction(sub_element)
             ],
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
@@ -63,3 +63,7 @@ def force_str(val: Union[str, bytes]) -> str:
 
 def is_xml_comment(element: ElementT) -> bool:
     return isinstance(element, etree._Comment)
+
+
+def is_xml_processing_instruction(element: ElementT) -> bool:
+    return isinstance(element, etree._ProcessingInstruction)
-- 
2.43.0


From 90631fd4cadc6a59489e5832c3e651f57d8ff391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:31 +0000
Subject: [PATCH 07/30] fix: keep the text that follows a comment or a
 processing instruction in an lxml tree

---
 pydantic_xml/element/native/lxml.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 59064ae..59cd49c 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Optional, Union
+from typing import List, Optional, Union
 
 from lxml import etree
 
@@ -18,19 +18,27 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element) and not is_xml_processing_instruction(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text following a skipped node continues the text preceding it
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element) and not is_xml_processing_instruction(sub_element)
-            ],
+            elements=elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
-- 
2.43.0


From 220dedea010679f7c8bc2fb66c8bac9d9d91f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:54 +0000
Subject: [PATCH 08/30] fix: skip comments and processing instructions of a
 standard library tree keeping the text around them

---
 pydantic_xml/element/native/std.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..d98b95c 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -1,5 +1,5 @@
 import xml.etree.ElementTree as etree
-from typing import Optional
+from typing import List, Optional
 
 from pydantic_xml.element import XmlElement as BaseXmlElement
 from pydantic_xml.typedefs import NsMap
@@ -16,16 +16,24 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element) and not is_xml_processing_instruction(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text following a skipped node continues the text preceding it
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
         )
 
     def to_native(self) -> ElementT:
@@ -45,3 +53,7 @@ class XmlElement(BaseXmlElement[ElementT]):
 
 def is_xml_comment(element: ElementT) -> bool:
     return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+
+
+def is_xml_processing_instruction(element: ElementT) -> bool:
+    return element.tag is etree.ProcessingInstruction  # type: ignore[comparison-overlap]
-- 
2.43.0


From 5066d3f2100d7e4598ec4d6dd1f68251c2bebfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 09/30] fix: the text following an element is not an extra
 input of the element itself

---
 pydantic_xml/element/element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 6bcdb63..280df36 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -475,7 +475,8 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         if self._state.text and (text := self._state.text.strip()):
             result.append((path, None, text))
 
-        if self._state.tail and (tail := self._state.tail.strip()):
+        # the tail of the element the search is started from belongs to its parent
+        if path and self._state.tail and (tail := self._state.tail.strip()):
             result.append((path, None, tail))
 
         if attrs := self._state.attrib:
-- 
2.43.0


From fe53a71e568ab8dbb63617384833dbb1ed55ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 10/30] fix: the nearest enclosing namespace declaration takes
 precedence over the outer ones

---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From 574a39fbc3f14e6a63708232a18cead7b73d5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 11/30] fix: recognize all the lexical representations of
 xsi:nil

---
 pydantic_xml/element/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/element/utils.py b/pydantic_xml/element/utils.py
index 7d49827..f68d690 100644
--- a/pydantic_xml/element/utils.py
+++ b/pydantic_xml/element/utils.py
@@ -4,7 +4,7 @@ XSI_NS = 'http://www.w3.org/2001/XMLSchema-instance'
 
 
 def is_element_nill(element: XmlElementReader) -> bool:
-    if (is_nil := element.pop_attrib('{%s}nil' % XSI_NS)) and is_nil == 'true':
+    if (is_nil := element.pop_attrib('{%s}nil' % XSI_NS)) and is_nil.strip() in ('true', '1'):
         return True
     else:
         return False
-- 
2.43.0


From fe95b9263a98aa874c860db45e09c7cce0087d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 12/30] fix: report the source line of the element an error
 belongs to (sub-models, root models, model validators)

---
 pydantic_xml/model.py                       | 5 +++--
 pydantic_xml/serializers/factories/model.py | 7 ++++++-
 pydantic_xml/utils.py                       | 2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..87476e9 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -265,11 +265,12 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         assert cls.__xml_serializer__ is not None, f"model {cls.__name__} is partially initialized"
 
         if root.tag == cls.__xml_serializer__.element_name:
+            root_element = XmlElement.from_native(root)
             obj = typing.cast(
                 ModelT, cls.__xml_serializer__.deserialize(
-                    XmlElement.from_native(root),
+                    root_element,
                     context=context,
-                    sourcemap={},
+                    sourcemap={(): root_element.get_sourceline()},
                     loc=(),
                     empty_as_string=empty_as_string,
                 ),
diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..19cd601 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -460,8 +460,13 @@ class ModelProxySerializer(BaseModelSerializer):
             if is_element_nill(sub_element):
                 return None
             else:
+                # sub-model errors locations are relative to the sub-model
                 return self._model.__xml_serializer__.deserialize(
-                    sub_element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                    sub_element,
+                    context=context,
+                    sourcemap={(): sub_element.get_sourceline()},
+                    loc=(),
+                    empty_as_string=empty_as_string,
                 )
         else:
             return None
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..d2d3da7 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -138,7 +138,7 @@ def set_validation_error_sourceline(
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
         loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        while (sourceline := sourcemap.get(loc, sourceline)) == -1 and loc:
             loc = tuple(loc[:-1])
 
         line_errors.append(
-- 
2.43.0


From 7b9131f6daef2e52938e3bfa811645826476c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 13/30] fix: report the source line of an error of an aliased
 field

---
 pydantic_xml/serializers/factories/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 19cd601..49f3d67 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -211,7 +211,7 @@ class ModelSerializer(BaseModelSerializer):
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (field_name,)
+                loc = (self._fields_validation_aliases.get(field_name, field_name),)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
-- 
2.43.0


From 29a5bd7ee9ec202e65529561aee5780bf4190f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 14/30] fix: do not treat the message of a nested error as a
 template

---
 pydantic_xml/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index d2d3da7..3616f48 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -114,9 +114,13 @@ def into_validation_error(
     for location in list(errors_map):
         validation_error = errors_map.pop(location)
         for error in validation_error.errors():
+            msg, ctx = error['msg'], error.get('ctx') or {}
+            if msg == f"[line {ctx.get('sourceline')}]: {ctx.get('orig')}":
+                msg = "[line {sourceline}]: {orig}"  # the original message must not be treated as a template
+
             line_errors.append(
                 pdc.InitErrorDetails(
-                    type=pdc.PydanticCustomError(error['type'], error['msg'], error.get('ctx')),
+                    type=pdc.PydanticCustomError(error['type'], msg, error.get('ctx')),
                     loc=(location, *error['loc']) if location is not None else error['loc'],
                     input=error['input'],
                 ),
-- 
2.43.0


From c65280eca3e05a7afa133128f5dc371a323e527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:34 +0000
Subject: [PATCH 15/30] fix: do not leave empty wrapping elements behind if
 empty elements are skipped

---
 pydantic_xml/element/element.py               | 12 ++++++++++++
 pydantic_xml/serializers/factories/wrapper.py | 12 ++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 280df36..6ef46da 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -220,6 +220,14 @@ class XmlElementWriter(abc.ABC):
         :param element: sub-element to be added
         """
 
+    @abc.abstractmethod
+    def remove_element(self, element: 'XmlElementWriter') -> None:
+        """
+        Removes a sub-element from the xml element.
+
+        :param element: sub-element to be removed
+        """
+
     @abc.abstractmethod
     def make_element(self, tag: str, nsmap: Optional[NsMap]) -> 'XmlElement[Any]':
         """
@@ -381,6 +389,10 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         self._state.elements.append(element)
         self._state.next_element_idx += 1
 
+    def remove_element(self, element: XmlElementWriter) -> None:
+        self._state.elements = [sub_element for sub_element in self._state.elements if sub_element is not element]
+        self._state.next_element_idx -= 1
+
     def get_attrib(self, name: str) -> Optional[str]:
         return self._state.attrib.get(name, None) if self._state.attrib else None
 
diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index a21436e..fe8fb1f 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, Optional, Sized
+from typing import Any, Dict, List, Optional, Sized
 
 from pydantic_core import core_schema as pcs
 
@@ -55,14 +55,18 @@ class ElementPathSerializer(Serializer):
         if skip_empty and isinstance(value, Sized) and len(value) == 0:
             return element
 
+        path: List[XmlElementWriter] = [element]
         for part in self._path:
-            element = element.find_element_or_create(part, self._search_mode, nsmap=self._nsmap)
+            path.append(path[-1].find_element_or_create(part, self._search_mode, nsmap=self._nsmap))
 
         self._inner_serializer.serialize(
-            element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
+            path[-1], value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
         )
+        while skip_empty and len(path) > 1 and path[-1].is_empty():
+            sub_element = path.pop()
+            path[-1].remove_element(sub_element)
 
-        return element
+        return path[-1]
 
     def deserialize(
             self,
-- 
2.43.0


From 6d3bdf4df33ca7182bc8a192ee53a26fa87505f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 16/30] fix: report an item of a collection of models union
 matching no choice exactly once

---
 pydantic_xml/serializers/factories/union.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 765f6bf..c5a5056 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -139,6 +139,7 @@ class ModelSerializer(Serializer):
             return None
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        failed_snapshot: Optional[XmlElementReader] = None
         result: Any = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
@@ -154,9 +155,11 @@ class ModelSerializer(Serializer):
                     return result
             except pd.ValidationError as e:
                 union_errors[e.title] = e
+                failed_snapshot = failed_snapshot or snapshot
 
-        if union_errors:
-            element.step_forward()
+        if failed_snapshot is not None:
+            # the element the first failed choice has been found at is considered as processed
+            element.apply_snapshot(failed_snapshot)
             raise utils.into_validation_error(
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
-- 
2.43.0


From b1ba98b668b8e83810ebf79f70b273f86b91d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 17/30] fix: do not skip a wrapped raw element without
 sub-elements as an empty one

---
 pydantic_xml/serializers/factories/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index fe8fb1f..13b09ba 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -2,7 +2,7 @@ from typing import Any, Dict, List, Optional, Sized
 
 from pydantic_core import core_schema as pcs
 
-from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.element import XmlElementReader, XmlElementWriter, native
 from pydantic_xml.serializers.serializer import SearchMode, Serializer
 from pydantic_xml.typedefs import Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
@@ -52,7 +52,7 @@ class ElementPathSerializer(Serializer):
         if value is None:
             return element
 
-        if skip_empty and isinstance(value, Sized) and len(value) == 0:
+        if skip_empty and isinstance(value, Sized) and not isinstance(value, native.ElementT) and len(value) == 0:
             return element
 
         path: List[XmlElementWriter] = [element]
-- 
2.43.0


From 40bfdd8f6cad8ce25f2cfa2ea10c52a4caef4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 18/30] fix: custom serializers/validators of a derived model
 override the ones of its bases deterministically

---
 pydantic_xml/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 87476e9..67e2fb6 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Any, Callable, ClassVar, Dict, Generic, Optional, Tuple, Type, TypeVar, Union
+from typing import Any, Callable, ClassVar, Dict, Generic, List, Optional, Tuple, Type, TypeVar, Union
 
 import pydantic as pd
 import pydantic_core as pdc
@@ -129,7 +129,16 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        # attributes are looked through from the base classes to the derived ones,
+        # so that a derived class overrides the serializers/validators of its bases
+        attr_names: List[str] = []
+        for base in cls.__mro__:
+            attr_names.extend(attr_name for attr_name in reversed(list(vars(base))) if attr_name not in attr_names)
+
+        base_attr_names = set(dir(BaseModel))
+        for attr_name in reversed(attr_names):
+            if attr_name in base_attr_names:
+                continue
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From 7ef41804115feffd6d53aeb5e017c1e221f68e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:59 +0000
Subject: [PATCH 19/30] fix: resolve forward references to the names of the
 scope model_rebuild is called from

---
 pydantic_xml/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 67e2fb6..76c7ae9 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -249,12 +249,17 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
             cls.__xml_serializer__ = None
 
     @classmethod
-    def model_rebuild(cls, **kwargs: Any) -> None:
-        super().model_rebuild(**kwargs)
+    def model_rebuild(cls, *, _parent_namespace_depth: int = 2, **kwargs: Any) -> Optional[bool]:
+        if _parent_namespace_depth > 0:
+            _parent_namespace_depth += 1  # skips the frame of this method
+
+        result = super().model_rebuild(_parent_namespace_depth=_parent_namespace_depth, **kwargs)
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
 
+        return result
+
     @classmethod
     def from_xml_tree(
             cls: Type[ModelT],
-- 
2.43.0


From 83da21fdf1976cd49cbc2beb25b45b926266de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:45 +0000
Subject: [PATCH 20/30] fix: lxml elements without a namespace fell into the
 default namespace in scope

---
 pydantic_xml/element/native/lxml.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 59cd49c..266cb87 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -43,15 +43,24 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
+        return self._to_native(default_ns='')
+
+    def _to_native(self, default_ns: str) -> ElementT:
+        nsmap = {ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else {}
+        if not self._tag.startswith('{') and nsmap.get(None, default_ns):
+            # the element doesn't belong to the default namespace being in scope
+            nsmap[None] = ''
+        default_ns = nsmap.get(None, default_ns)
+
         element = etree.Element(
             self._tag,
             attrib=self._state.attrib,
             # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap={ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else None,  # type: ignore[misc]
+            nsmap=nsmap or None,  # type: ignore[arg-type]
         )
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([element.to_native() for element in self._state.elements])
+        element.extend([element._to_native(default_ns) for element in self._state.elements])
 
         return element
 
-- 
2.43.0


From c2a156b1191f8a7e43970be28712148b1d6a90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:06 +0000
Subject: [PATCH 21/30] fix: lxml output could pick a prefix hiding the one
 used by the element itself

---
 pydantic_xml/element/native/lxml.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 266cb87..4615d35 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import List, Optional, Union
+from typing import Dict, List, Optional, Union
 
 from lxml import etree
 
@@ -43,24 +43,28 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
-        return self._to_native(default_ns='')
+        return self._to_native(None, {})
 
-    def _to_native(self, default_ns: str) -> ElementT:
-        nsmap = {ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else {}
-        if not self._tag.startswith('{') and nsmap.get(None, default_ns):
+    def _to_native(self, parent: Optional[ElementT], scope: Dict[Optional[str], str]) -> ElementT:
+        nsmap: Dict[Optional[str], str] = {ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else {}
+        if not self._tag.startswith('{') and nsmap.get(None, scope.get(None)):
             # the element doesn't belong to the default namespace being in scope
             nsmap[None] = ''
-        default_ns = nsmap.get(None, default_ns)
 
-        element = etree.Element(
-            self._tag,
-            attrib=self._state.attrib,
+        nsmap = {ns: uri for ns, uri in nsmap.items() if scope.get(ns) != uri}
+        # the tree is built top-down so that lxml never picks a prefix that hides the one used by the element itself
+        element = (
             # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap=nsmap or None,  # type: ignore[arg-type]
+            etree.Element(self._tag, self._state.attrib, nsmap or None)  # type: ignore[arg-type]
+            if parent is None else
+            etree.SubElement(parent, self._tag, self._state.attrib, nsmap or None)  # type: ignore[arg-type]
         )
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([element._to_native(default_ns) for element in self._state.elements])
+
+        scope = {**scope, **nsmap}
+        for sub_element in self._state.elements:
+            sub_element._to_native(element, scope)
 
         return element
 
-- 
2.43.0


From e2222e254511f26d72734ebafd5df2a4a63f22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:23 +0000
Subject: [PATCH 22/30] fix: parametrized generic models without a tag got an
 invalid element name

---
 pydantic_xml/serializers/factories/model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 49f3d67..e776bc9 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -15,6 +15,11 @@ from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
 
+def get_default_tag(model_cls: Type['pxml.BaseXmlModel']) -> str:
+    # the name of a parametrized generic model (Model[int]) is not a valid element name
+    return (model_cls.__pydantic_generic_metadata__['origin'] or model_cls).__name__
+
+
 class BaseModelSerializer(Serializer, abc.ABC):
     @property
     @abc.abstractmethod
@@ -115,7 +120,7 @@ class ModelSerializer(BaseModelSerializer):
             )
             fields_serializers[field_name] = Serializer.parse_core_schema(model_field['return_schema'], field_ctx)
 
-        name = model_cls.__xml_tag__ or model_cls.__name__
+        name = model_cls.__xml_tag__ or get_default_tag(model_cls)
         ns = model_cls.__xml_ns__
         nsmap = model_cls.__xml_nsmap__
 
@@ -260,7 +265,7 @@ class RootModelSerializer(BaseModelSerializer):
         )
         root_serializer = Serializer.parse_core_schema(root_schema, field_ctx)
 
-        name = model_cls.__xml_tag__ or model_cls.__name__
+        name = model_cls.__xml_tag__ or get_default_tag(model_cls)
         ns = model_cls.__xml_ns__
         nsmap = model_cls.__xml_nsmap__
 
@@ -362,7 +367,9 @@ class ModelProxySerializer(BaseModelSerializer):
         model_cls = schema['cls']
         assert issubclass(model_cls, pxml.BaseXmlModel), "unexpected model type"
 
-        name = ctx.entity_path or model_cls.__xml_tag__ or ctx.field_alias or ctx.field_name or model_cls.__name__
+        name = (
+            ctx.entity_path or model_cls.__xml_tag__ or ctx.field_alias or ctx.field_name or get_default_tag(model_cls)
+        )
         ns = select_ns(ctx.entity_ns, model_cls.__xml_ns__, ctx.parent_ns)
         nsmap = merge_nsmaps(ctx.entity_nsmap, model_cls.__xml_nsmap__, ctx.parent_nsmap)
         search_mode = ctx.search_mode
-- 
2.43.0


From ff100d112b6797818e584e3b6b1a3c7963b2a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 23/30] fix: collections of primitive unions without an entity
 name are rejected

---
 pydantic_xml/serializers/factories/heterogeneous.py | 4 ++++
 pydantic_xml/serializers/factories/homogeneous.py   | 4 ++++
 pydantic_xml/serializers/factories/named_tuple.py   | 5 ++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/heterogeneous.py b/pydantic_xml/serializers/factories/heterogeneous.py
index 53536ae..69688dd 100644
--- a/pydantic_xml/serializers/factories/heterogeneous.py
+++ b/pydantic_xml/serializers/factories/heterogeneous.py
@@ -5,6 +5,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.serializers.factories import union
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
@@ -18,6 +19,9 @@ class ElementSerializer(Serializer):
         for item_schema in schema['items_schema']:
             inner_serializers.append(Serializer.parse_core_schema(item_schema, ctx))
 
+        if ctx.entity_location is None and any(isinstance(s, union.PrimitiveTypeSerializer) for s in inner_serializers):
+            raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
         return cls(model_name, computed, tuple(inner_serializers), ctx.hide_input_in_errors)
 
     def __init__(
diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index 3d134ed..8205afb 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -6,6 +6,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.serializers.factories import union
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
@@ -30,6 +31,9 @@ class ElementSerializer(Serializer):
 
         inner_serializer = Serializer.parse_core_schema(items_schema, ctx)
 
+        if ctx.entity_location is None and isinstance(inner_serializer, union.PrimitiveTypeSerializer):
+            raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
         return cls(model_name, computed, inner_serializer, ctx.hide_input_in_errors)
 
     def __init__(self, model_name: str, computed: bool, inner_serializer: Serializer, hide_input_in_errors: bool):
diff --git a/pydantic_xml/serializers/factories/named_tuple.py b/pydantic_xml/serializers/factories/named_tuple.py
index 426a094..b5e811f 100644
--- a/pydantic_xml/serializers/factories/named_tuple.py
+++ b/pydantic_xml/serializers/factories/named_tuple.py
@@ -5,7 +5,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.factories import heterogeneous
+from pydantic_xml.serializers.factories import heterogeneous, union
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
@@ -20,6 +20,9 @@ class ElementSerializer(Serializer):
             param_schema = argument_schema['schema']
             inner_serializers.append(Serializer.parse_core_schema(param_schema, ctx))
 
+        if ctx.entity_location is None and any(isinstance(s, union.PrimitiveTypeSerializer) for s in inner_serializers):
+            raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
         return cls(model_name, computed, tuple(inner_serializers), ctx.hide_input_in_errors)
 
     def __init__(
-- 
2.43.0


From 83270e6fbfdda0d106280eacfe68265552992a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 24/30] fix: nested errors of an aliased field are located by
 the alias

---
 pydantic_xml/serializers/factories/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index e776bc9..0012fac 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -229,7 +229,7 @@ class ModelSerializer(BaseModelSerializer):
                     field_name = self._fields_validation_aliases.get(field_name, field_name)
                     result[field_name] = field_value
             except pd.ValidationError as err:
-                field_errors[field_name] = err
+                field_errors[self._fields_validation_aliases.get(field_name, field_name)] = err
 
         if field_errors:
             raise utils.into_validation_error(
-- 
2.43.0


From b58848c3f5f212805ee20bdeea38d6e79412d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:25 +0000
Subject: [PATCH 25/30] fix: an alias given to wrapped() was ignored

wrapped() did not derive the serialization and validation aliases of its field from the
alias it was given, as attr() and element() do, so the field was neither named nor
populated by it.
---
 pydantic_xml/fields.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..adc1aa3 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -108,11 +108,12 @@ _Unset: Any = pdc.PydanticUndefined
 
 
 def prepare_field_kwargs(kwargs: Dict[str, Any]) -> Dict[str, Any]:
-    if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
-        kwargs['serialization_alias'] = kwargs.get('alias')
+    if (alias := kwargs.get('alias')) is not None:
+        if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
+            kwargs['serialization_alias'] = alias
 
-    if kwargs.get('validation_alias') in (None, pdc.PydanticUndefined):
-        kwargs['validation_alias'] = kwargs.get('alias')
+        if kwargs.get('validation_alias') in (None, pdc.PydanticUndefined):
+            kwargs['validation_alias'] = alias
 
     return kwargs
 
@@ -199,6 +200,8 @@ def wrapped(
     :param kwargs: pydantic field arguments. See :py:class:`pydantic.Field`
     """
 
+    kwargs = prepare_field_kwargs(kwargs)
+
     if entity is None:
         wrapped_entity_info = None
         field_info = pd.fields.FieldInfo(default=default, default_factory=default_factory, **kwargs)
-- 
2.43.0


From 4d0d83bfe4ac16a845b971061c756d6fab3c7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:00 +0000
Subject: [PATCH 26/30] fix: the mypy plugin did not recognise attr, element
 and wrapped

The functions live in pydantic_xml.fields, so that their qualified names never matched: every
field given by one of them was taken for a field with a default and without an alias.
---
 pydantic_xml/mypy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a789d77..b885fc5 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -5,9 +5,9 @@ from mypy.plugin import ClassDefContext, Plugin
 from pydantic.mypy import PydanticModelTransformer, PydanticPlugin
 
 MODEL_METACLASS_FULLNAME = 'pydantic_xml.model.XmlModelMeta'
-ATTR_FULLNAME = 'pydantic_xml.model.attr'
-ELEMENT_FULLNAME = 'pydantic_xml.model.element'
-WRAPPED_FULLNAME = 'pydantic_xml.model.wrapped'
+ATTR_FULLNAME = 'pydantic_xml.fields.attr'
+ELEMENT_FULLNAME = 'pydantic_xml.fields.element'
+WRAPPED_FULLNAME = 'pydantic_xml.fields.wrapped'
 ENTITIES_FULLNAME = (ATTR_FULLNAME, ELEMENT_FULLNAME, WRAPPED_FULLNAME)
 
 
-- 
2.43.0


From ea7f4de8a5d8c3c8bdea04ebfea8a61ebadcd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:00 +0000
Subject: [PATCH 27/30] fix: the mypy plugin did not see pydantic fields that
 are frozen

The fields that are not given by attr, element or wrapped were taken for writable ones, since
the pydantic implementation was never called for them.
---
 pydantic_xml/mypy.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index b885fc5..a5e2e4d 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -95,16 +95,15 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
         if isinstance(expr, nodes.TempNode):
             return False
 
-        if not (
+        if (
             isinstance(expr, nodes.CallExpr) and
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            return False
+            for arg, name in zip(expr.args, expr.arg_names):
+                if name == 'frozen':
+                    return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
-        for i, arg_name in enumerate(expr.arg_names):
-            if arg_name == 'frozen':
-                arg = expr.args[i]
-                return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
+            return False
 
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From 041ffc5926371560789c6bf2277c2f87b2702733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:00 +0000
Subject: [PATCH 28/30] fix: the mypy plugin ignored validation aliases

A field given by attr, element or wrapped is populated by its validation alias, which takes
precedence over the alias, as it is for pydantic fields.
---
 pydantic_xml/mypy.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a5e2e4d..a67f6b1 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -59,13 +59,16 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, arg_name in zip(expr.args, expr.arg_names):
-                if arg_name != 'alias':
-                    continue
-                if isinstance(arg, nodes.StrExpr):
-                    return arg.value, False
-                else:
-                    return None, True
+            for alias_name in ('validation_alias', 'alias'):
+                for arg, arg_name in zip(expr.args, expr.arg_names):
+                    if arg_name != alias_name:
+                        continue
+                    if isinstance(arg, nodes.StrExpr):
+                        return arg.value, False
+                    else:
+                        return None, True
+
+            return None, False
 
         return PydanticModelTransformer.get_alias_info(stmt)
 
-- 
2.43.0


From 2d4ea80e00c2fab2c4b75f68b3ac61a56015ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:58 +0000
Subject: [PATCH 29/30] fix: the mypy plugin did not look into wrapped entities

The default, the alias and the flags of a wrapped field can be given to the entity being
wrapped, as the documentation does, but only those given to wrapped() itself were seen.
---
 pydantic_xml/mypy.py | 56 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a67f6b1..99e3106 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -1,8 +1,8 @@
-from typing import Callable, Optional, Tuple, Union
+from typing import Callable, Dict, List, Optional, Tuple, Union
 
 from mypy import nodes
 from mypy.plugin import ClassDefContext, Plugin
-from pydantic.mypy import PydanticModelTransformer, PydanticPlugin
+from pydantic.mypy import FIELD_FULLNAME, PydanticModelTransformer, PydanticPlugin
 
 MODEL_METACLASS_FULLNAME = 'pydantic_xml.model.XmlModelMeta'
 ATTR_FULLNAME = 'pydantic_xml.fields.attr'
@@ -26,6 +26,31 @@ class PydanticXmlPlugin(PydanticPlugin):
         transformer.transform()
 
 
+def get_entities_kwargs(expr: nodes.Expression) -> List[Dict[str, nodes.Expression]]:
+    """
+    Returns the keyword arguments of an entity call preceded by the ones of the entities being wrapped by it.
+    """
+
+    if not isinstance(expr, nodes.CallExpr) or not isinstance(expr.callee, nodes.RefExpr):
+        return []
+
+    result: List[Dict[str, nodes.Expression]] = []
+    kwargs: Dict[str, nodes.Expression] = {}
+    for idx, (arg, name) in enumerate(zip(expr.args, expr.arg_names)):
+        if expr.callee.fullname == WRAPPED_FULLNAME and (name == 'entity' or (name is None and idx == 1)):
+            result = get_entities_kwargs(arg)
+        elif expr.callee.fullname == FIELD_FULLNAME and name is None:
+            kwargs['default'] = arg
+        elif name is not None:
+            kwargs[name] = arg
+
+    return result + [kwargs]
+
+
+def is_none(expr: nodes.Expression) -> bool:
+    return isinstance(expr, nodes.NameExpr) and expr.fullname == 'builtins.None'
+
+
 class PydanticXmlModelTransformer(PydanticModelTransformer):
     @staticmethod
     def get_has_default(stmt: nodes.AssignmentStmt) -> bool:
@@ -38,11 +63,11 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, name in zip(expr.args, expr.arg_names):
-                if name == 'default':
-                    return arg.__class__ is not nodes.EllipsisExpr
-                if name == 'default_factory':
-                    return not (isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.None')
+            for kwargs in get_entities_kwargs(expr):
+                if 'default' in kwargs and not isinstance(kwargs['default'], nodes.EllipsisExpr):
+                    return True
+                if 'default_factory' in kwargs and not is_none(kwargs['default_factory']):
+                    return True
 
             return False
 
@@ -59,9 +84,10 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for alias_name in ('validation_alias', 'alias'):
-                for arg, arg_name in zip(expr.args, expr.arg_names):
-                    if arg_name != alias_name:
+            for kwargs in get_entities_kwargs(expr):
+                for name in ('validation_alias', 'alias'):
+                    arg = kwargs.get(name)
+                    if arg is None or is_none(arg):
                         continue
                     if isinstance(arg, nodes.StrExpr):
                         return arg.value, False
@@ -80,8 +106,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, name in zip(expr.args, expr.arg_names):
-                if name != 'strict':
+            for kwargs in get_entities_kwargs(expr):
+                if 'strict' not in kwargs or is_none(arg := kwargs['strict']):
                     continue
                 if isinstance(arg, nodes.NameExpr):
                     if arg.fullname == 'builtins.True':
@@ -90,6 +116,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
                         return False
                 return None
 
+            return None
+
         return PydanticModelTransformer.get_strict(stmt)
 
     @staticmethod
@@ -103,8 +131,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, name in zip(expr.args, expr.arg_names):
-                if name == 'frozen':
+            for kwargs in get_entities_kwargs(expr):
+                if (arg := kwargs.get('frozen')) is not None and not is_none(arg):
                     return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
             return False
-- 
2.43.0


From 805a441984444b3ca614906bd82b7a6eb1742fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:00 +0000
Subject: [PATCH 30/30] fix: a union value of a derived class could be encoded
 as its base class

The validation library picks the alternative a union value is encoded with by
itself: an instance of a derived class whose own data it does not serialize
strictly (an instance of yet another derived class nested in it, for example)
was encoded as its base class, the missing fields ended in a KeyError.
---
 pydantic_xml/model.py                       | 11 +++--------
 pydantic_xml/serializers/factories/union.py |  6 +++++-
 pydantic_xml/serializers/serializer.py      | 11 +++++++++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 76c7ae9..572d2ee 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -2,17 +2,16 @@ import typing
 from typing import Any, Callable, ClassVar, Dict, Generic, List, Optional, Tuple, Type, TypeVar, Union
 
 import pydantic as pd
-import pydantic_core as pdc
 import typing_extensions as te
 from pydantic import BaseModel, RootModel
 
 from . import config, errors, utils
 from .compat import ModelMetaclass, RootModelMetaclass
 from .element import SearchMode, XmlElementReader, XmlElementWriter
-from .element.native import ElementT, XmlElement, etree
+from .element.native import XmlElement, etree
 from .fields import XmlEntityInfo, XmlFieldSerializer, XmlFieldValidator, attr, element, wrapped
 from .serializers.factories.model import BaseModelSerializer
-from .serializers.serializer import Serializer
+from .serializers.serializer import Serializer, encode_model
 from .typedefs import EntityLocation
 from .utils import NsMap
 
@@ -335,11 +334,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
 
         root = XmlElement(tag=self.__xml_serializer__.element_name, nsmap=self.__xml_serializer__.nsmap)
         self.__xml_serializer__.serialize(
-            root, self, pdc.to_jsonable_python(
-                self,
-                by_alias=False,
-                fallback=lambda obj: obj if not isinstance(obj, ElementT) else None,  # for raw fields support
-            ),
+            root, self, encode_model(self),
             skip_empty=skip_empty,
             exclude_none=exclude_none,
             exclude_unset=exclude_unset,
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index c5a5056..390f15f 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -7,7 +7,7 @@ import pydantic_xml as pxml
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.factories.model import ModelProxySerializer
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer, encode_model
 from pydantic_xml.typedefs import Location
 
 
@@ -116,6 +116,10 @@ class ModelSerializer(Serializer):
             else:
                 return None
 
+        if sum(isinstance(value, serializer.model) for serializer in self._inner_serializers) > 1:
+            # the value could have been encoded as an instance of another (base) alternative
+            encoded = encode_model(value)
+
         return serializer.serialize(
             element, value, encoded,
             skip_empty=skip_empty,
diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 59b0ca0..d313120 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -6,9 +6,12 @@ from enum import IntEnum
 from functools import cached_property
 from typing import Any, Dict, Optional, Tuple
 
+import pydantic as pd
+import pydantic_core as pdc
 from pydantic_core import core_schema as pcs
 
 from pydantic_xml.element import SearchMode, XmlElementReader, XmlElementWriter
+from pydantic_xml.element.native import ElementT
 from pydantic_xml.errors import ModelError
 from pydantic_xml.fields import XmlEntityInfoP
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
@@ -26,6 +29,14 @@ def encode_primitive(value: Any) -> str:
         return str(value)
 
 
+def encode_model(value: pd.BaseModel) -> Any:
+    return pdc.to_jsonable_python(
+        value,
+        by_alias=False,
+        fallback=lambda obj: obj if not isinstance(obj, ElementT) else None,  # for raw fields support
+    )
+
+
 class SchemaTypeFamily(IntEnum):
     META = 0
     PRIMITIVE = 1
-- 
2.43.0

