From aba11c55b09143d0a5c8d172880a231f63a418dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 001/140] fix: import the association_ln.method module from its
 package

association_ln/ver0.py used a bare 'import method', which names no installed
module: importing DLMS_SPODES failed with ModuleNotFoundError.
---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index e65cd29..9b4f304 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -5,7 +5,7 @@ from ...types import choices, cosemObjectInstanceId
 from ...types.implementations import arrays, enums, bitstrings, long_unsigneds, structs
 from ... import pdu_enums as pdu
 from . import mechanism_id, authentication_mechanism_name
-import method
+from . import method
 
 
 class AccessMode(cdt.Enum, elements=(0, 1, 2, 3)):
-- 
2.43.0


From c4581fb19b97e0e2eafb90dced2e0681751634e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 002/140] fix: keep the octets given to ut.OctetString

The constructor decoded a length prefix from the value a second time:
CosemObjectInstanceId.from_str('0.0.42.0.0.255') lost its contents and
OctetString.from_contents() failed on most values.
---
 src/DLMS_SPODES/types/useful_types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index acd79bf..b667642 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -145,11 +145,7 @@ class OctetString(UT):
     value: bytes
 
     def __init__(self, value: bytes):
-        length, pdu = get_length_and_pdu(value)
-        if length <= len(pdu):
-            self.value = pdu[:length]
-        else:
-            raise ValueError(F"for {self.__class__.__name__} got {length=}, but content length only: {len(pdu)}")
+        self.value = bytes(value)
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
-- 
2.43.0


From 602c0361ccb647713819c6b32153876e90e11104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 003/140] fix: decode Sequence fields and wide INTEGERs from
 contents

Sequence.from_contents() passed encoded bytes to the value constructors and
INTEGER.from_contents() used one octet whatever the length of the type.
---
 src/DLMS_SPODES/types/useful_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index b667642..017d905 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -71,7 +71,7 @@ class UT(ABC):
 
 
 def get_instance_and_context(meta: Type[UT], value: bytes) -> tuple[UT, bytes]:
-    instance = meta(value)
+    instance = meta.from_contents(value)
     return instance, value[len(instance.contents):]
 
 
@@ -627,7 +627,9 @@ class INTEGER(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes):
-        return cls(int.from_bytes(value[0:1], "big", signed=cls.SIGNED))
+        if len(value) < cls.LENGTH:
+            raise ValueError(F"for {cls.__name__} got content length={len(value)}, expected at least {cls.LENGTH}")
+        return cls(int.from_bytes(value[:cls.LENGTH], "big", signed=cls.SIGNED))
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From fa105068be17fb119269826a9af0793471608e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 004/140] fix: restore the selective access descriptors

useful_types was reworked to dataclasses while AssociationLN and ProfileGeneric
still declare their descriptors by ELEMENTS: the package did not import, and
setting AssociationLN.object_list or ProfileGeneric.capture_objects raised
TypeError. Both descriptors work from ELEMENTS again, encoded as COSEMpdu_GB83
Selective-Access-Descriptor and Cosem-Attribute-Descriptor-With-Selection.
---
 .../profile_generic/ver1.py                   |   2 +-
 src/DLMS_SPODES/types/useful_types.py         | 115 ++++++++----------
 2 files changed, 54 insertions(+), 63 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 233df99..55df509 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -139,7 +139,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if value == BUFFER and with_selection:
             if self.attr_descriptor_with_selection is None:
                 self.__create_selective_access_descriptor()
-            return self.attr_descriptor_with_selection((descriptor.contents, self.buffer.selective_access.contents))
+            return self.attr_descriptor_with_selection((descriptor, self.buffer.selective_access))
         else:
             return descriptor
 
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 017d905..d2ac86a 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -729,64 +729,6 @@ class Data(CHOICE, ABC):
     }
 
 
-class SelectiveAccessDescriptor(Sequence, ABC):
-    """ Selective access specification always starts with an access selector, followed by an access-specific access parameter list.
-    Specified IS/IEC 62056-53 : 2006, 7.4.1.6 Selective access """
-    access_selector: Unsigned8
-    access_parameters: cdt.CommonDataType
-    ELEMENTS: tuple[SequenceElement, SequenceElement]
-
-    def __init__(self, value: tuple | bytes | None = None):
-        super(SelectiveAccessDescriptor, self).__init__(value)
-        self.access_selector.cb_post_set = self.__validate_selector
-
-    @property
-    @abstractmethod
-    def ELEMENTS(self) -> tuple[SequenceElement, SequenceElement]:
-        """ return elements """
-
-    def from_default(self):
-        self.values[0] = self.ELEMENTS[0].TYPE()
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE()
-
-    def from_bytes(self, value: bytes | bytearray):
-        self.values[0], value = get_instance_and_context(self.ELEMENTS[0].TYPE, value)
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE(value)
-
-    def from_tuple(self, value: tuple | list):
-        self.values[0] = self.ELEMENTS[0].TYPE(value[0])
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE(value[1])
-
-    @property
-    def contents(self) -> bytes:
-        return self.access_selector.contents+self.access_parameters.encoding
-
-    def __validate_selector(self):
-        self.values[1] = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE()
-        print('change sel')
-
-    def set_selector(self, index: int, value=None):
-        """ set selector value from int type """
-        self.access_selector.set_contents_from(index)
-        if value:
-            self.access_parameters.set(value)
-
-
-# class CosemAttributeDescriptorWithSelection(Sequence):
-#     cosem_attribute_descriptor: CosemAttributeDescriptor
-#     access_selection: SelectiveAccessDescriptor
-#     ELEMENTS: tuple[CosemAttributeDescriptor, SequenceElement]
-#
-#     def __init__(self, value: bytes | tuple | list = None):
-#         super(CosemAttributeDescriptorWithSelection, self).__init__(value)
-#         self.cosem_attribute_descriptor.access_selection_parameters.set_contents_from(1)
-#
-#     @property
-#     @abstractmethod
-#     def ELEMENTS(self) -> tuple[SequenceElement, SequenceElement]:
-#         """ return elements. Need initiate in subclass """
-
-
 ####
 @dataclass
 class ServiceClass:
@@ -912,11 +854,40 @@ class CosemObjectMethodId(Integer8):
     """Cosem-Object-Method-Id"""
 
 
-@dataclass
-class SelectiveAccessDescriptor(Sequence):
-    """COSEMpdu_GB83 Selective-Access-Descriptor"""
+class SelectiveAccessDescriptor(UT, ABC):
+    """COSEMpdu_GB83 Selective-Access-Descriptor. Always starts with an access selector, followed by an access-specific access parameter list.
+    Specified IS/IEC 62056-53 : 2006, 7.4.1.6 Selective access. Initiate <ELEMENTS> in subclass: selector and CHOICE of parameters by selector"""
     access_selector: Unsigned8
-    access_parameters: Data
+    access_parameters: cdt.CommonDataType
+    ELEMENTS: tuple[SequenceElement, SequenceElement]
+
+    def __init__(self, access_selector: int = None, access_parameters: Any = None):
+        selector_type = self.ELEMENTS[0].TYPE
+        self.access_selector = selector_type() if access_selector is None else selector_type(access_selector)
+        self.access_parameters = self.__get_parameters_type()(access_parameters)
+
+    def __get_parameters_type(self) -> Type[cdt.CommonDataType]:
+        return self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE
+
+    @classmethod
+    def from_contents(cls, value: bytes) -> Self:
+        return cls(value[0], bytes(value[1:]))
+
+    @property
+    def contents(self) -> bytes:
+        return self.access_selector.contents + self.access_parameters.encoding
+
+    @classmethod
+    def from_str(cls, value: str) -> Self:
+        raise ValueError("not implementation")
+
+    def __str__(self):
+        return F"{self.access_selector}: {self.access_parameters}"
+
+    def set_selector(self, index: int, value: Any = None):
+        """set selector with access-specific parameters, default parameters if <value> is absence"""
+        self.access_selector = self.ELEMENTS[0].TYPE(index)
+        self.access_parameters = self.__get_parameters_type()(value)
 
 
 @dataclass
@@ -927,6 +898,26 @@ class CosemAttributeDescriptor(Sequence):
     attribute_id: CosemObjectAttributeId
 
 
+class CosemAttributeDescriptorWithSelection(UT):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection, always with selection"""
+    cosem_attribute_descriptor: CosemAttributeDescriptor
+    access_selection: SelectiveAccessDescriptor
+
+    def __init__(self, value: tuple[CosemAttributeDescriptor, SelectiveAccessDescriptor]):
+        self.cosem_attribute_descriptor, self.access_selection = value
+
+    @property
+    def contents(self) -> bytes:
+        return self.cosem_attribute_descriptor.contents + TRUE.contents + self.access_selection.contents
+
+    @classmethod
+    def from_str(cls, value: str) -> Self:
+        raise ValueError("not implementation")
+
+    def __str__(self):
+        return F"{self.cosem_attribute_descriptor} {self.access_selection}"
+
+
 @dataclass
 class CosemMethodDescriptor(Sequence):
     class_id: CosemClassId
-- 
2.43.0


From 4f75c9a1b03255148fcfd95541e8f1cbc8172387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 005/140] fix: build CosemClassId from int

CosemClassId no longer accepts octets or another CosemClassId: capture objects
of ProfileGeneric, method descriptors and get_objects_by_class_id() failed.
---
 src/DLMS_SPODES/cosem_interface_classes/collection.py      | 2 +-
 .../cosem_interface_classes/cosem_interface_class.py       | 7 ++++---
 .../implementations/profile_generic.py                     | 2 +-
 .../cosem_interface_classes/profile_generic/ver1.py        | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9f23150..32cb800 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1460,7 +1460,7 @@ class Collection:
             raise exc.NoObject(F"not found at least one DLMS Objects from collection with {values=}")
 
     def get_objects_by_class_id(self, value: int | CosemClassId) -> list[InterfaceClass]:
-        class_id = CosemClassId(value)
+        class_id = CosemClassId(int(value))
         return list(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values()))
 
     def get_objects_descriptions(self) -> list[tuple[cst.LogicalName, cdt.LongUnsigned, cdt.Unsigned]]:
diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 9db8c49..cc696c8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -363,9 +363,10 @@ class COSEMInterfaceClasses(ABC):
         """ TODO """
         match value:
             case int() as index:
-                return ut.CosemMethodDescriptor((CosemClassId(self.CLASS_ID.contents),
-                                                 cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
-                                                 ut.CosemObjectMethodId(index)))
+                return ut.CosemMethodDescriptor(
+                    self.CLASS_ID,
+                    cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
+                    ut.CosemObjectMethodId(index))
 
     def __hash__(self):
         return hash(self.logical_name)
diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index b0e657e..ea88372 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -61,7 +61,7 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
         # rename CaptureObjectDefinition's and adding object if it absense in collection
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             # self.collection.raise_before(obj, self)
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 55df509..702316f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -152,7 +152,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
             raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             el_value.set_name(self.collection.get_name_and_type(el_value)[0][-1])
-- 
2.43.0


From afd3d4bb433f146f04eab80f9f5f2c4306afb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 006/140] fix: drop HDLC frames too short for their addresses
 and control instead of raising IndexError

---
 src/DLMS_SPODES/hdlc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index aa5e1a2..bf15c02 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -749,7 +749,7 @@ class Frame:
         else:
             try:
                 return cls(value)
-            except ValueError as e:
+            except (ValueError, IndexError) as e:  # IndexError: the length field leaves no room for addresses and control
                 logger.info(F'Wrong Frame: {e.args[0]}')
                 return None
             except NotEnoughDataError as e:
-- 
2.43.0


From dbb2fc2d4227bbbbbaa040aabb17d769f44720a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 007/140] fix: refuse an HDLC frame longer than its 11 bit
 length field

---
 src/DLMS_SPODES/hdlc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index bf15c02..9029371 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -38,7 +38,7 @@ class Format:
                 if self.type != 0xA:
                     raise FormatDataError(F'Frame format type not according HDLC Type 3, must be 0xA, got {hex(self.type)}')
         else:
-            if length.bit_length() <= 13:
+            if length.bit_length() <= 11:
                 value = length
                 if is_segmentation:
                     value |= 0b1010_1_00000000000
-- 
2.43.0


From 138d7199ea15a3e4a496b55e0bc4c167261c3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 008/140] fix: offer the receive window in the SNRM receive
 window parameter

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index d4b99b6..71441af 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -120,7 +120,7 @@ class Negotiation(Info):
         if self.window_transmit != WINDOW_DEFAULT:
             window_pack(self.WINDOW_SIZE_TRANSMIT, self.window_transmit)
         if self.window_receive != WINDOW_DEFAULT:
-            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_transmit)
+            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_receive)
         if offset == 3:
             offset = 0
         else:
-- 
2.43.0


From 54c5f9570f8408e68011b19365f138ceb274f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 009/140] fix: make room for all four negotiation parameters in
 SNRM

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 71441af..abf897d 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -4,7 +4,7 @@ from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
 
-MAX_CONTENT_LENGTH = 0x16
+MAX_CONTENT_LENGTH = 0x17  # 3 header octets + 2 * 4 for the sizes + 2 * 6 for the windows
 FORMAT_IDENTIFIER = 0x81
 GROUP_IDENTIFIER = 0x80
 MAX_INFO_DEFAULT = 128
-- 
2.43.0


From c84abea849ad56e42472929af8f7e9fbe7baf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 010/140] fix: offer the current negotiation parameters after
 they were changed

---
 src/DLMS_SPODES/hdlc/negotiation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index abf897d..009a4a3 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import cached_property
 from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
@@ -72,12 +71,10 @@ class Negotiation(Info):
                                 case wrong_tag:
                                     raise ValueError(F"got {wrong_tag=}, expected ")
             self.max_info_receive, self.max_info_transmit, self.window_receive, self.window_transmit = i_rx, i_tx, w_rx, w_tx
-            if hasattr(self, "SNRM"):
-                del self.SNRM
         except IndexError as e:
             raise ValueError(F"got wrong UA {content.hex(' ')}")
 
-    @cached_property
+    @property
     def SNRM(self) -> memoryview:
         def small_pack(field: int, data: int):
             nonlocal buf, offset
-- 
2.43.0


From be1d4f0eae636b2fa87fd9e2e62a6cf9e91b5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 011/140] fix: reassemble windowed segments whose last frame
 carries the final bit

---
 src/DLMS_SPODES/hdlc/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 9029371..51b6283 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -807,8 +807,9 @@ class Frame:
         return self.__control == Control.next_send_sequence(Control.next_receiver_sequence(other.control))
 
     def is_next_send(self, other: Frame) -> bool:
-        """ return TRUE if frame is next information frame of current. Other must be previous. """
-        return self.__control == Control.next_send_sequence(other.control)
+        """ return TRUE if frame is next information frame of current. Other must be previous.
+        The P/F bit is not compared: inside a window only the last frame carries it """
+        return (self.__control ^ Control.next_send_sequence(other.control)) & ~0b000_1_000_0 == 0
 
     @staticmethod
     def join_info(frames: Deque[Frame]) -> bytearray:
-- 
2.43.0


From 181b86757293f01319d5367a6185ac2faca09f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 012/140] fix: refuse a negotiation parameter longer than the
 field

---
 src/DLMS_SPODES/hdlc/negotiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 009a4a3..b45de85 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -29,6 +29,8 @@ class Negotiation(Info):
         """set from UA info"""
         def get_max_information_field(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) < 1 + data_len:
+                raise ValueError(F"got parameter length {data_len}, but only {len(data) - 1} octets remain")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_MAX_INFO_FIELD_LENGTH <= ret <= MAX_MAX_INFO_FIELD_LENGTH:
                 return ret, memoryview(data[1 + data_len:])
@@ -37,6 +39,8 @@ class Negotiation(Info):
 
         def get_window_size(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) < 1 + data_len:
+                raise ValueError(F"got parameter length {data_len}, but only {len(data) - 1} octets remain")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_WINDOW_SIZE <= ret <= MAX_WINDOW_SIZE:
                 return ret, memoryview(data[1 + data_len:])
-- 
2.43.0


From e5b91f46217eaf99d071c9bf16218b5ee7d330da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 013/140] fix: check the space of the position a buffer
 operation was given

---
 src/DLMS_SPODES/types/byte_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6751b06..5d947ad 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -30,7 +30,7 @@ class ByteBuffer:
 
     def _check_space(self, space: int, pos: int = None):
         """check whether this buffer has enough `space` left for r/w op"""
-        if not pos:
+        if pos is None:
             pos = self.__pos
         if self.remaining(pos) < space:
             raise BufferError(F"{self} not enough more {space=}")
@@ -45,7 +45,7 @@ class ByteBuffer:
                  pos: int,
                  length: int = 1) -> memoryview:
         """return view to position"""
-        self._check_space(length)
+        self._check_space(length, pos)
         ret = self.buf[pos: pos + length]
         return ret
 
-- 
2.43.0


From 7e9bc85f0ededf362bd2808e784ee0ab7fa23d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 014/140] fix: let a buffer be positioned at its end
 (create_buf of an empty value)

---
 src/DLMS_SPODES/types/byte_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 5d947ad..8bc108f 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -114,7 +114,7 @@ class ByteBuffer:
 
     def set_pos(self, index):
         """set new position, with check"""
-        if 0 <= index < len(self):
+        if 0 <= index <= len(self):
             self.__pos = index
         else:
             raise IndexError(F"{self} can't set {index=}")
-- 
2.43.0


From 479c5e9027b8d8fa588c15d4c8445c4dc9f421d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 015/140] fix: read and write lengths over 127 in Buffer

---
 src/DLMS_SPODES/types/cosem_pdu.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 474a5c6..0ea7fbd 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -34,7 +34,7 @@ class Buffer(ByteBuffer):
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
         define_length = self.get_uint8()
         if define_length & 0b10000000:
-            return self.get_uint(define_length >> 1)
+            return self.get_uint(define_length & 0x7f)
         else:
             return define_length
 
@@ -47,17 +47,11 @@ class Buffer(ByteBuffer):
         if length < 0x80:
             return self.put_int(length)
         elif length < 0x1_00:
-            _length1.pack_into(self.buf, 0,
-                               0x81, length)
-            return 2
+            return self.write(_length1.pack(0x81, length))
         elif length < 0x1_00_00:
-            _length2.pack_into(self.buf, 0,
-                               0x82, length)
-            return 3
+            return self.write(_length2.pack(0x82, length))
         elif length < 0x1_00_00_00_00:
-            _length4.pack_into(self.buf, 0,
-                               0x84, length)
-            return 5
+            return self.write(_length4.pack(0x84, length))
         else:
             amount = int(log(length, 256)) + 1
             ret: int = self.put_int(0x80 + amount)
-- 
2.43.0


From 0ee65d7954a4459666270b2b34d4ba028b0557ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 016/140] fix: compare pdu integers and index pdu choices
 instead of raising

---
 src/DLMS_SPODES/types/cosem_pdu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 0ea7fbd..963033a 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -273,7 +273,7 @@ class INTEGER(Simple, ABC):
 
     def __gt__(self, other: Self):
         match other:
-            case INTEGER(): return self.contents > other.value
+            case INTEGER(): return int(self) > int(other)
             case _:          raise TypeError(F'Compare type is {other.__class__}, expected Digital')
 
     def __hash__(self):
@@ -632,7 +632,7 @@ class Choice(UT):
         return len(self.value) + 1
 
     def __getitem__(self, item):
-        raise self.value[item]
+        return self.value[item]
 
 
 class _SequenceOf(UT):
@@ -670,7 +670,7 @@ class _SequenceOf(UT):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
     def __getitem__(self, item):
-        raise self.values[item]
+        return self.values[item]
 
 
 def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
-- 
2.43.0


From 1f03d5ad54f68ed4d3d58f8f3b61b697ff5e9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 017/140] fix: keep the tag of pdu Data elements that share a
 representation

---
 src/DLMS_SPODES/types/cosem_pdu.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 963033a..5d1a7ea 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -598,6 +598,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -680,6 +683,22 @@ def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
     return SequenceOf
 
 
+class Bcd(Integer8):
+    """ Data::bcd, keeps own tag """
+
+
+class Enum(Unsigned8):
+    """ Data::enum, keeps own tag """
+
+
+class Float32(OctetString4):
+    """ Data::float32, keeps own tag """
+
+
+class DontCare(NULL):
+    """ Data::dont-care, keeps own tag """
+
+
 class Data(Choice):
     ELEMENTS = """define after, because has link to Self"""
 
@@ -695,7 +714,7 @@ Data.ELEMENTS = (
         ChoiceElement("octet-string",          9, OctetString),
         # ChoiceElement(name="visible-string",        10, VisibleString),
         # ChoiceElement(name="utf8-string",           12, UTF8String),
-        ChoiceElement("bcd",                   13, Integer8),
+        ChoiceElement("bcd",                   13, Bcd),
         ChoiceElement("integer",               15, Integer8),
         ChoiceElement("long",                  16, Integer16),
         ChoiceElement("unsigned",              17, Unsigned8),
@@ -703,11 +722,11 @@ Data.ELEMENTS = (
         # ChoiceElement("compact-array",         19, ...),
         ChoiceElement("long64",                20, Integer64),
         ChoiceElement("long64-unsigned",       21, Unsigned64),
-        ChoiceElement("enum",                  22, Unsigned8),
-        ChoiceElement("float32",               23, OctetString4),
+        ChoiceElement("enum",                  22, Enum),
+        ChoiceElement("float32",               23, Float32),
         ChoiceElement("float64",               24, OctetString8),
         ChoiceElement("date-time",             25, OctetString12),
         ChoiceElement("date",                  26, OctetString5),
         ChoiceElement("time",                  27, OctetString4),
-        ChoiceElement("dont-care",             255, NULL)
+        ChoiceElement("dont-care",             255, DontCare)
     )
-- 
2.43.0


From f5b5c909fdcfd9cf35395c6665c336703454bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 018/140] fix: refuse a data length whose octets are cut off

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6b003b4..f3f4fcd 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,6 +67,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'Length octets are cut off: {input_pdu.hex()}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From e890e78cb46519613a258d4a6a8a1e763a5ca73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 019/140] fix: clear Boolean, Float, Bcd and date/time values

---
 src/DLMS_SPODES/types/common_data_types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f3f4fcd..bc3a709 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -652,7 +652,7 @@ class Float(ABC):
         return str(self.decode())
 
     def clear(self):
-        self.contents = bytes(len(self))
+        self.__dict__['contents'] = bytes(len(self))
 
 
 class LIST(ABC):
@@ -733,7 +733,7 @@ class __DateTime(ABC):
         """"""
 
     def clear(self):
-        self.contents = self.DEFAULT
+        self.__dict__['contents'] = self.DEFAULT
 
 
 class __Date(ABC):
@@ -1453,7 +1453,7 @@ class Boolean(SimpleDataType):
         return False if self.contents == b'\x00' else True
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     def __int__(self):
         return 0 if self.contents == b'\x00' else 1
@@ -1698,7 +1698,7 @@ class Bcd(SimpleDataType):
 
     def __init__(self, value: bytes | bytearray | str | int | Self = None):
         match value:  # TODO: replace priority case
-            case None: bytes(self.contents_length)
+            case None:                                                       self.contents = bytes(self.contents_length)
             case bytes():                                                    self.contents = self.from_bytes(value)
             case bytearray():                                                self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
@@ -1720,7 +1720,7 @@ class Bcd(SimpleDataType):
         return self.TAG + self.contents
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     @property
     def contents_length(self) -> int: return 1
-- 
2.43.0


From 2e427785ef990519932e4166d2b133083a12a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 020/140] fix: keep the octets of a BitString made from a
 bytearray

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index bc3a709..3335f45 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1472,7 +1472,7 @@ class BitString(SimpleDataType):
                 self.contents = new_instance.contents
                 self.__length = len(new_instance)
             case bytes():                               self.contents = self.from_bytes(value)
-            case bytearray():                           self.from_bytearray(value)
+            case bytearray():                           self.contents = self.from_bytearray(value)
             case str():                                 self.contents = self.from_str(value)
             case int():                                 self.contents = self.from_int(value)
             case list():                                self.contents = self.from_list(value)
-- 
2.43.0


From b020927649fb3f73544da79bbfb939cb7c66e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 021/140] fix: refuse an unknown text for Boolean

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3335f45..28690ce 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1441,6 +1441,8 @@ class Boolean(SimpleDataType):
         elif value == '1' or 'True'.startswith(value.title()) or 'Правда'.startswith(value.title()) or \
                 'Yes'.startswith(value.title()) or 'Да'.startswith(value.title()):
             return b'\x01'
+        else:
+            raise ValueError(F"can't create {self.TAG} from {value=}")
 
     def from_bool(self, value: bool) -> bytes:
         return b'\x01' if value else b'\x00'
-- 
2.43.0


From 938042aaecfe97facaea1be91b5efc3e7122063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 022/140] fix: encode and decode Float32/Float64 as IEEE 60559

---
 src/DLMS_SPODES/types/common_data_types.py | 23 ++--------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 28690ce..76f08d1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -617,30 +617,11 @@ class Float(ABC):
         """ Input float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7 """
         if 'inf' in str(value):
             raise OverflowError(F'Float overflow error')
-        hex_string = value.hex()
-        sign, mantissa_and_exponent = hex_string.split('0x')
-        sign = 1 << (len(self) * 8 - 1) if sign else 0
-        mantissa, exponent = mantissa_and_exponent.split('p')
-        integer, fraction = mantissa.split('.')
-        integer = int(integer, base=16)
-        exponent = (int(exponent) + 2 ** (len(self) - 1) - 1)
-        if exponent >= 2 ** self.exponent_wide:
-            raise OverflowError(F'Exponent overflow error')
-        exponent <<= self.fraction_wide if integer else 0
-        fraction_quartet_amount = ceil(self.fraction_wide / 4)
-        offset = fraction_quartet_amount*4 - self.fraction_wide
-        fraction = int(fraction[:fraction_quartet_amount], base=16) >> offset
-        return (sign + exponent + fraction).to_bytes(len(self), 'big')
+        return pack('>f' if len(self) == 4 else '>d', value)
 
     def decode(self) -> float:
         """  return the build in float type IEEE 60559"""
-        sign = self.contents[0] >> 7
-        exponent = (int.from_bytes(self.contents[:2], 'big') & 0x7fff) >> (15 - self.exponent_wide)
-        fraction = int.from_bytes(self.contents[1:], 'big') & (1 << self.fraction_wide)-1
-        ret = 2 ** (exponent - 2**(self.exponent_wide-1)+1) * (1 + fraction/(1 << self.fraction_wide))
-        if sign:
-            ret *= -1
-        return ret
+        return unpack('>f' if len(self) == 4 else '>d', self.contents)[0]
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-- 
2.43.0


From e290b6c756668df6ffac2419830c336a65abee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 023/140] fix: keep the exact value of a Digital set from text
 or through its scaler

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 76f08d1..64e8c5c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -455,7 +455,7 @@ class Digital(ABC):
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-                case ScalUnitType(): value *= 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler())
+                case ScalUnitType(): value = round(value * 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler()))
                 case None:           """ no scaler """
                 case _ as error:     raise ValueError(F'Unknown scaler_unit: {error}')
             return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
@@ -463,7 +463,11 @@ class Digital(ABC):
             raise ValueError(F'value {value} out of range')
 
     def from_str(self, value: str) -> bytes:
-        return self.from_int(float(value))
+        try:
+            number = int(value)
+        except ValueError:
+            number = float(value)
+        return self.from_int(number)
 
     def clear(self):
         if self.DEFAULT:
-- 
2.43.0


From 9a3fb2a9b592369ced2231b86e10be2f456efcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 024/140] fix: support negative deviations in DateTime

---
 src/DLMS_SPODES/types/common_data_types.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 64e8c5c..db243a2 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2014,7 +2014,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             match dev:
                 case '':  return b'\x80\x00'
                 case '-': return b'\x00\x00'
-                case _ if dev.isdigit() and -720 <= int(dev) <= 720:   return pack('>H', int(dev))
+                case _ if dev.removeprefix('-').isdigit() and -720 <= int(dev) <= 720:   return pack('>h', int(dev))
                 case _:           raise ValueError
 
         match value.split(sep=' ', maxsplit=2):
@@ -2028,7 +2028,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ convert from build to DLMS datetime, weekday not set for uniquely datetime """
         match value.utcoffset():
             case None: deviation = 0x8000
-            case _:    deviation = value.utcoffset().seconds // 60
+            case _:    deviation = int(value.utcoffset().total_seconds() // 60) & 0xffff
         return pack('>HBBBBBBBH',
                     value.year,
                     value.month,
@@ -2061,9 +2061,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         return True if self.contents == b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\x80\x00\xff' else False
 
     def decode(self) -> datetime.datetime:
-        year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
+        year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, _, _, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        deviation = deviation_highbyte*256 + deviation_lowbyte
+        deviation = int.from_bytes(self.contents[9:11], 'big', signed=True)
         return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
@@ -2071,15 +2071,15 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
                                  minute=minute if minute != 0xff else 0,
                                  second=second if second != 0xff else 0,
                                  microsecond=hundredths*10000 if hundredths != 0xff else 0,
-                                 tzinfo=datetime.timezone.utc if deviation == 0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
+                                 tzinfo=datetime.timezone.utc if deviation == -0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
 
     @property
     def time_zone(self) -> datetime.timezone | None:
         """ Return timezone from deviation """
-        deviation = self.contents[9]*256 + self.contents[10]
-        if deviation == 0x8000:
+        deviation = int.from_bytes(self.contents[9:11], 'big', signed=True)
+        if deviation == -0x8000:
             return None
-        elif -720 <= deviation >= 720:
+        elif -720 <= deviation <= 720:
             return datetime.timezone(datetime.timedelta(minutes=deviation))
         else:
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
-- 
2.43.0


From f8eb1db147171d4ec4d1d5f36c6e92a830062f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 025/140] fix: set the clock status of DateTime

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index db243a2..70b13e5 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2049,7 +2049,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def set_clock_status(self, value: str | int):
         """ now only set value """
-        self.contents = self.contents[:12] + int(value).to_bytes(1, 'big')
+        self.__dict__['contents'] = self.contents[:11] + int(value).to_bytes(1, 'big')
 
     def __str__(self):
         match unpack('>h', self.contents[9:11])[0]:
-- 
2.43.0


From 406001c0eb3de1eaecc774804aac452f2ddd5b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 026/140] fix: accept a weekday together with a wildcard day of
 month

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 70b13e5..3e99be0 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -806,7 +806,7 @@ class __Date(ABC):
             value[4:5].replace(b'\xff', b'\x01')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
-                value[2:3] not in b'\xfd\xfe\xff' and value[2:3] not in b'\xfd\xfe\xff':
+                value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
 
     @property
-- 
2.43.0


From abf938a11d6d490b2767a2a25825d65638a6a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 027/140] fix: find the end of a data value by its own length
 octets

---
 src/DLMS_SPODES/types/common_data_types.py | 31 +++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3e99be0..3d4c15c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -218,17 +218,36 @@ def get_common_data_type_from(tag: bytes) -> Type[CommonDataType]:
         raise ValueError(F'type with tag:{tag[:1]} is absence in Common Data Type')
 
 
+_fixed_sizes: dict[int, int] = {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4}
+""" contents sizes by tag """
+
+
+def get_encoding_end(value: bytes, start: int = 0) -> int:
+    """ return the end of the data value encoded from start. Length octets may be longer than necessary """
+    tag, end = value[start], start + 1
+    if (size := _fixed_sizes.get(tag)) is not None:
+        return end + size
+    length = value[end]
+    end += 1
+    if length & 0x80:
+        begin, end = end, end + (length & 0x7f)
+        length = int.from_bytes(value[begin:end], 'big')
+    match tag:
+        case 1 | 2:
+            for _ in range(length):
+                end = get_encoding_end(value, end)
+            return end
+        case 4: return end + ceil(length / 8)
+        case _: return end + length
+
+
 def get_instance_and_pdu(meta: Type[CommonDataType], value: bytes) -> tuple[CommonDataType, bytes]:
     instance = meta(value)
-    return instance, value[len(instance.encoding):]
+    return instance, value[get_encoding_end(value):]
 
 
 def get_instance_and_pdu_from_value(value: bytes | bytearray) -> tuple[CommonDataType, bytes]:
-    instance = get_common_data_type_from(value[:1])(value)
-    try:    # TODO: remove it in future
-        return instance, value[len(instance.encoding):]
-    except Exception as e:
-        print(F'{e.args}')
+    return get_instance_and_pdu(get_common_data_type_from(value[:1]), value)
 
 
 class SimpleDataType(CommonDataType, ABC):
-- 
2.43.0


From cd291f95a6f4e0c68dea4d2c14586f9932628a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 028/140] fix: leave an Array as it was when a set is refused

---
 src/DLMS_SPODES/types/common_data_types.py | 24 ++++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3d4c15c..5601f57 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1146,16 +1146,22 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
+        old_type, old_values = self.TYPE, tuple(self.values)
         self.clear()
-        if hasattr(self, 'cb_preset'):
-            self.cb_preset(value)
-        new_array = Array(value, type_=self.TYPE)
-        if self.TYPE is None and len(new_array) != 0:
-            self.set_type(new_array[0].__class__)
-        else:
-            """TYPE already initiated"""
-        for el in new_array:
-            self.append(self.TYPE(el))
+        try:
+            if hasattr(self, 'cb_preset'):
+                self.cb_preset(value)
+            new_array = Array(value, type_=self.TYPE)
+            if self.TYPE is None and len(new_array) != 0:
+                self.set_type(new_array[0].__class__)
+            else:
+                """TYPE already initiated"""
+            for el in new_array:
+                self.append(self.TYPE(el))
+        except Exception:
+            self.__dict__['TYPE'] = old_type
+            self.values[:] = old_values
+            raise
         if hasattr(self, 'cb_post_set'):
             self.cb_post_set()
 
-- 
2.43.0


From 9406178ff573169007eb27e8bce95633ea1f9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 029/140] fix: leave a Structure as it was when a set is
 refused

---
 src/DLMS_SPODES/types/common_data_types.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5601f57..91044da 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1313,8 +1313,13 @@ class Structure(ComplexDataType):
         self.__dict__["NAME"] = value
 
     def set(self, value: bytes | bytearray | tuple | list | None):
-        for index, el_value in enumerate(self.get_types()(value)):
-            self[index].set(el_value)
+        new_values = self.get_types()(value).values
+        if len(new_values) != len(self.values):
+            raise ValueError(F'Struct {self} got length:{len(new_values)}, expected length:{len(self.values)}')
+        for el, el_value in zip(self.values, new_values):
+            el.get_copy(el_value)  # check possible
+        for el, el_value in zip(self.values, new_values):
+            el.set(el_value)
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From e1a8984b4f259a64e075104783a811f30d8d7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 030/140] fix: hash scaled Digital values

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 91044da..afa8659 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -583,7 +583,7 @@ class Digital(ABC):
         return value, cursor_position
 
     def __hash__(self):
-        return self.decode()
+        return hash(self.decode())
 
 
 class Float(ABC):
-- 
2.43.0


From b506cec3bcd4e2302190a12bfcc14a12e9442b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 031/140] fix: decode the leap day of an unspecified year

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index afa8659..ae411aa 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2094,7 +2094,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, _, _, _ = self.contents
         year = year_highbyte*256+year_lowbyte
         deviation = int.from_bytes(self.contents[9:11], 'big', signed=True)
-        return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
+        return datetime.datetime(year=year if year != 0xffff else 4 if (month, day_of_month) == (2, 29) else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
                                  hour=hour if hour != 0xff else 0,
@@ -2204,7 +2204,7 @@ class Date(__DateTime, __Date, SimpleDataType):
     def decode(self) -> datetime.date:
         year_highbyte, year_lowbyte, month, day_of_month, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        return datetime.date(year=year if year != 0xffff else datetime.MINYEAR,
+        return datetime.date(year=year if year != 0xffff else 4 if (month, day_of_month) == (2, 29) else datetime.MINYEAR,
                              month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                              day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1)
 
-- 
2.43.0


From 1e3fea127648671dae209f1cd7614e8ea5160d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 032/140] fix: encode the octets amount of object identifier
 names

---
 src/DLMS_SPODES/types/common_data_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ae411aa..78c80f3 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1416,6 +1416,13 @@ class AXDR(ABC):
         else:
             return super(AXDR, self).contents
 
+    @property
+    def encoding(self) -> bytes:
+        if self.is_xdr:
+            return self.TAG + encode_length(len(self.contents)) + self.contents
+        else:
+            return super(AXDR, self).encoding
+
 
 class Boolean(SimpleDataType):
     """ boolean """
-- 
2.43.0


From 45fc489ea44f4dfed5cbb3ae094fa8b79097f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 033/140] fix: decode object identifier arcs of three octets

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 78c80f3..fc2e26e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1392,7 +1392,7 @@ class AXDR(ABC):
                             values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
-                                tmp = (tmp & 0b0111_1111) << 7
+                                tmp <<= 7
                                 if values_in[0] >= 0b1000_0000:
                                     tmp += values_in.popleft() & 0b0111_1111
                                 else:
-- 
2.43.0


From c0010b8aa36404ec79a8833d9899a42f79183d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 034/140] fix: refuse object identifier names with missing or
 extra arcs

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index fc2e26e..800296b 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1398,9 +1398,13 @@ class AXDR(ABC):
                                 else:
                                     tmp += values_in.popleft()
                                     # self._set_value(next(values_index), tmp)
-                                    i = next(values_index)
+                                    i = next(values_index, None)
+                                    if i is None:
+                                        raise ValueError(F"too many arcs in {xdr.hex()} for {self.__class__.__name__}")
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
+                            if None in values:
+                                raise ValueError(F"not enough arcs in {xdr.hex()} for {self.__class__.__name__}")
                             self.__dict__['values'] = tuple(values)
                         else:
                             raise ValueError(F"expected {self.TAG} type, got {TAG(encoding[:1])}")
-- 
2.43.0


From 18228cf957877b1c907f1a3bf1466c569c6069cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 035/140] fix: refuse a pdu length whose octets are cut off

---
 src/DLMS_SPODES/types/useful_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index d2ac86a..9e0e55f 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -41,6 +41,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'Length octets are cut off: {input_pdu.hex()}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From c8531266f18206d0cfaf64836f605eca192a64ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 036/140] fix: size of OctetString6

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 9e0e55f..319c15e 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -205,7 +205,7 @@ class OctetString5(ConstSizeMixin, OctetString):
 class OctetString6(ConstSizeMixin, OctetString):
     @classmethod
     def SIZE(cls) -> int:
-        return 5
+        return 6
 
 
 class OctetString8(ConstSizeMixin, OctetString):
-- 
2.43.0


From b200de1b7379d029f4c984acdd677c642c192469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 037/140] fix: build BOOLEAN from text

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 319c15e..695bbbf 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -483,9 +483,9 @@ class BOOLEAN(UT):
     @classmethod
     def from_str(cls, value: str):
         match value:
-            case "0", "False":
+            case "0" | "False":
                 return FALSE
-            case "1", "True":
+            case "1" | "True":
                 return TRUE
             case _:
                 raise ValueError(F"for {cls.__name__}.from_str got unknown {value=}")
-- 
2.43.0


From a60e10a79369ebd45d2a60a4cfc314d27c960f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 038/140] fix: keep the tag of Data elements that share a
 representation

---
 src/DLMS_SPODES/types/useful_types.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 695bbbf..42a8b73 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -349,6 +349,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -927,6 +930,21 @@ class CosemMethodDescriptor(Sequence):
     method_id: CosemObjectMethodId
 
 
+class Bcd(Integer8):
+    """ Data::bcd, keeps own tag """
+
+
+class Enum(Unsigned8):
+    """ Data::enum, keeps own tag """
+
+
+class DontCare(Null):
+    """ Data::dont-care, keeps own tag """
+    @classmethod
+    def from_contents(cls, value: bytes) -> Self:
+        return cls()
+
+
 class Data(Choice):
     ELEMENTS = (
         ChoiceElement(name="null-data",             tag=0,  type=Null),
@@ -939,7 +957,7 @@ class Data(Choice):
         ChoiceElement(name="octet-string", tag=9, type=OctetString),
         ChoiceElement(name="visible-string",        tag=10, type=VisibleString),
         ChoiceElement(name="utf8-string",           tag=12, type=UTF8String),
-        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
+        ChoiceElement(name="bcd",                   tag=13, type=Bcd),
         ChoiceElement(name="integer",               tag=15, type=Integer8),
         ChoiceElement(name="long",                  tag=16, type=Integer16),
         ChoiceElement(name="unsigned",              tag=17, type=Unsigned8),
@@ -947,11 +965,11 @@ class Data(Choice):
         # ChoiceElement(name="compact-array",         tag=19, type=...),
         ChoiceElement(name="long64",                tag=20, type=Integer64),
         ChoiceElement(name="long64-unsigned",       tag=21, type=Unsigned64),
-        ChoiceElement(name="enum",                  tag=22, type=Unsigned8),
+        ChoiceElement(name="enum",                  tag=22, type=Enum),
         # ChoiceElement(name="float32",               tag=23, IMPLICIT   OCTET STRING (SIZE(4)),
         # ChoiceElement(name="float64",               tag=24,  IMPLICIT   OCTET STRING (SIZE(8)),
         # ChoiceElement(name="date-time",             tag=25,  IMPLICIT   OCTET STRING (SIZE(12)),
         # ChoiceElement(name="date",                  tag=26,  IMPLICIT   OCTET STRING (SIZE(5)),
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
-        ChoiceElement(name="dont-care",             tag=255, type=Null)
+        ChoiceElement(name="dont-care",             tag=255, type=DontCare)
     )
-- 
2.43.0


From 8f744d71809652d2d088e4dae09113e187192f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 039/140] fix: compare octet strings of pdus by value

---
 src/DLMS_SPODES/types/useful_types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 42a8b73..d08ccd1 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -189,6 +189,12 @@ class OctetString(UT):
     def __bytes__(self):
         return self.value
 
+    def __eq__(self, other):
+        return isinstance(other, OctetString) and self.value == other.value
+
+    def __hash__(self):
+        return hash(self.value)
+
 
 class OctetString4(ConstSizeMixin, OctetString):
     @classmethod
-- 
2.43.0


From 275e2666e340ac6e4a936274ca0eb78e53c6e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 040/140] fix: encode absent and nested fields of a Sequence

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index d08ccd1..db48938 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -87,8 +87,8 @@ class Sequence(UT, ABC):
     @property
     def contents(self):
         data = bytearray()
-        for it in astuple(self, tuple_factory=iter):
-            data.extend(it.contents)
+        for f in fields(self):
+            data.extend(getattr(self, f.name).contents)
         return bytes(data)
 
     @classmethod
-- 
2.43.0


From 6f22c15bcc3f50f2db0b8fd6dcf3dae7b9735e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 041/140] fix: refuse other types and cut encodings for
 date/time in octet-string

---
 src/DLMS_SPODES/types/cosem_service_types.py | 23 ++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index 3713f4e..736e08f 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -90,14 +90,21 @@ class LogicalName(cdt.OctetString, size=6):
         return self.contents < other.contents
 
 
+def _get_contents(value: bytes, type_: type[cdt.CommonDataType], size: int) -> bytes:
+    """ contents of the octet-string encoding with constant size """
+    length, contents = cdt.get_length_and_pdu(value[1:])
+    if value[:1] != type_.TAG or length != size:
+        raise ValueError(F'in create {type_.__name__} got tag, size: {cdt.TAG(value[:1])} {length}, expected {type_.TAG} {size}')
+    return contents
+
+
 class OctetStringDateTime(cdt.DateTime, tag=9, size=12):
     """ type Time in OctetString(SIZE(12)) """
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date | datetime.time = b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'):
         match value:  # TODO: common for all OctetDateTimes
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
-            case _:                                super().__init__(value)
+            case bytes(): super().__init__(self.TAG+_get_contents(value, self.__class__, len(self)))
+            case _:       super().__init__(value)
 
     @property
     def encoding(self) -> bytes:
@@ -109,9 +116,8 @@ class OctetStringDate(cdt.Date, tag=9, size=5):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date = b'\x09\x05\x07\xe4\x01\x01\xff'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
-            case _:                                super().__init__(value)
+            case bytes(): super().__init__(self.TAG+_get_contents(value, self.__class__, len(self)))
+            case _:       super().__init__(value)
 
     @property
     def encoding(self) -> bytes:
@@ -123,9 +129,8 @@ class OctetStringTime(cdt.Time, tag=9, size=4):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.time = b'\x09\x04\x00\x00\x00\x00'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
-            case _:                                super().__init__(value)
+            case bytes(): super().__init__(self.TAG+_get_contents(value, self.__class__, len(self)))
+            case _:       super().__init__(value)
 
     @property
     def encoding(self) -> bytes:
-- 
2.43.0


From a8b0095eca1fca8f7ae74181d10376a5dbe9ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 042/140] fix: pop the last element of an Array by default

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 800296b..3de53d6 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -311,7 +311,7 @@ class __Array(ABC):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-        return self.values.pop(index)
+        return self.values.pop() if index is None else self.values.pop(index)
 
     def __len__(self):
         return len(self.values)
-- 
2.43.0


From 840a81e062c8eb40e67a6f98a61cd5a54ec133ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 043/140] fix: find the latest moment described by a DateTime

---
 src/DLMS_SPODES/types/common_data_types.py | 50 +++++++++++++---------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3de53d6..f299ee2 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -5,6 +5,7 @@ from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, TypeAlias, Self
 from collections import deque
 from math import log, ceil
+from calendar import monthrange
 import datetime
 import logging
 from ..config_parser import config
@@ -777,6 +778,14 @@ class __Date(ABC):
             case _ as weekday if 1 <= weekday <= 7: return weekday
             case _ as wrong_value:                  raise ValueError(F'got weekday={wrong_value} from {self.TAG} contents, must be: 1..7, ff')
 
+    def is_match(self, value: datetime.date) -> bool:
+        """ is the date described by self, not specified elements are described any """
+        match self.contents[3]:
+            case 0xfe: day = monthrange(value.year, value.month)[1]
+            case 0xfd: day = monthrange(value.year, value.month)[1] - 1
+            case _:    day = self.day
+        return self.year in (None, value.year) and self.month in (None, value.month) and day in (None, value.day) and self.weekday in (None, value.isoweekday())
+
     def set_year(self, value: int):
         """ set day """
         if (9999 >= value > 1) or value == 0xffff:
@@ -2127,36 +2136,35 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def get_left_nearest_date(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return date(datetime format) in left from point """
-        l_point: datetime.datetime = self.decode()
-        """ time in left from point """
-        months = range(point.month, 0, -1) if self.month is None else (self.month,)
-        """ months sequence from 12 to 1 with start from current month or self month """
-        days = range(point.day, 0, -1) if self.day is None else (self.day,)
-        """ days sequence from 31 to 1 with start from current day or self day """
-        for year in range(point.year, datetime.MINYEAR, -1) if self.year is None else (self.year, ):
-            l_point = l_point.replace(year=year)
-            for month in months:
-                l_point = l_point.replace(month=month)
-                for day in days:
-                    l_point = l_point.replace(day=day)
-                    if l_point > point:
-                        continue
-                    elif self.weekday is not None and self.weekday != (l_point.weekday() + 1):
-                        continue
-                    else:
+        point = self.__to_own_zone(point)
+        time = self.decode().time()
+        for year in range(point.year, datetime.MINYEAR-1, -1) if self.year is None else (self.year,):
+            for month in range(12, 0, -1) if self.month is None else (self.month,):
+                for day in range(monthrange(year, month)[1], 0, -1):
+                    l_point = datetime.datetime.combine(datetime.date(year, month, day), time, point.tzinfo)
+                    """ time in left from point """
+                    if l_point <= point and self.is_match(l_point):
                         return l_point
-                days = range(31, 0, -1) if self.day is None else point.day,
-            months = range(12, 0, -1) if self.month is None else point.month,
         return None
 
+    def __to_own_zone(self, point: datetime.datetime) -> datetime.datetime:
+        """ point in time zone of self. Without own deviation self is a local time of point """
+        if self.time_zone is None:
+            return point
+        elif point.tzinfo is None:
+            return point.replace(tzinfo=self.time_zone)
+        else:
+            return point.astimezone(self.time_zone)
+
     def get_left_nearest_datetime(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return datetime in left from point """
+        point = self.__to_own_zone(point)
         l_point: datetime.datetime = self.get_left_nearest_date(point)
         """ time in left from point """
-        is_this_day: bool = l_point.date() == point.date()
-        """ flag of points equaling """
         if l_point is None:
             return None
+        is_this_day: bool = l_point.date() == point.date()
+        """ flag of points equaling """
         for hour in range(point.hour if is_this_day else 23, -1, -1) if self.hour is None else (self.hour,):
             l_point = l_point.replace(hour=hour)
             for minute in range(point.minute if is_this_day and l_point.hour == point.hour else 59, -1, -1) if self.minute is None else (self.minute,):
-- 
2.43.0


From cbd132cb6f79adb1141d0cfcdac4d3ed3bc268cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 044/140] fix: match special days by their date pattern

---
 src/DLMS_SPODES/cosem_interface_classes/special_days_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index aa72f74..674fced 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -97,7 +97,7 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             current_date: datetime.date = server_time.date()
             for spec_day_entry in self.entries:
-                if spec_day_entry.specialday_date.decode() == current_date:
+                if spec_day_entry.specialday_date.is_match(current_date):
                     return spec_day_entry.day_id
             else:
                 return None
-- 
2.43.0


From 5ce79e3e8e54a8572edc0a076d19c4f1f4377270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 045/140] fix: take the host time once in
 Clock.get_current_time

---
 src/DLMS_SPODES/cosem_interface_classes/clock.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/clock.py b/src/DLMS_SPODES/cosem_interface_classes/clock.py
index 1172836..b0f8c6f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/clock.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/clock.py
@@ -137,8 +137,7 @@ class Clock(ic.COSEMInterfaceClasses):
             record_time = self.get_record_time(2).decode()
         except AttributeError:
             raise AttributeError('Record time for Clock not found')
-        TZ = datetime.timezone(datetime.datetime.now() - datetime.datetime.utcnow())
-        delta = datetime.datetime.now(TZ) - record_time
+        delta = datetime.datetime.now(datetime.timezone.utc) - record_time
         if self.time_zone is None:
             time_zone: datetime.timezone = self.time.time_zone
             if self.time.time_zone is None:
-- 
2.43.0


From 82eae5133b5cecd5497d63baeacf3027ec5975b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 046/140] fix: find the current season and an action that
 starts at midnight

---
 .../cosem_interface_classes/activity_calendar.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index a4aea9a..e65773f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -194,13 +194,13 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
     def get_current_season(self, server_time: datetime.datetime = None) -> Season:
         """ current server season by current time """
         server_time = self.collection.current_time if server_time is None else server_time
-        active_season: tuple[Season | None, datetime.datetime] = None, datetime.datetime(datetime.MINYEAR, 1, 1, tzinfo=datetime.timezone.utc)
+        active_season: tuple[Season | None, datetime.datetime | None] = None, None
         if self.season_profile_active is None:
             raise AttributeError(F'{self}: attribute Season profile is empty. Need receive it from server')
         for season in self.season_profile_active:
             season: Season
             left_point = season.season_start.get_left_nearest_datetime(server_time)
-            if active_season[1] < left_point:
+            if left_point is not None and (active_season[1] is None or active_season[1] < left_point):
                 active_season = season, left_point
         if active_season[0] is None:
             raise AttributeError('Season Not found in Activity calendar object')
@@ -237,11 +237,11 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         """ current server day action by current time """
         server_time = self.collection.current_time
         day = self.get_current_day(server_time)
-        active: tuple[DayProfileAction | None, datetime.time] = None, datetime.time(hour=0, minute=0, second=0)
+        active: tuple[DayProfileAction | None, datetime.time | None] = None, None
         for day_profile_action in day.day_schedule:
             day_profile_action: DayProfileAction
             left_point = day_profile_action.start_time.get_left_nearest_time(server_time.time())
-            if left_point is not None and active[1] < left_point:
+            if left_point is not None and (active[1] is None or active[1] < left_point):
                 active = day_profile_action, left_point
         if active[0] is None:
             raise AttributeError('Action Not found in Activity calendar object')
-- 
2.43.0


From 67e3b439940513b488dfe43b2ea5721bc2576fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 047/140] fix: validate the day of sunday in week profiles

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index e65773f..5e7918d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -293,7 +293,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
                     weeks.append(week_profile.week_profile_name)
                 else:
                     duplicates.add(week_profile.week_profile_name)
-                for i in range(1, 7):
+                for i in range(1, 8):
                     if week_profile[i] not in days:
                         raise ic.ObjectValidationError(
                             ln=self.logical_name,
-- 
2.43.0


From 863c625f5b5836ed268c6387420c262567c54069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 048/140] fix: copy of an array keeps the element type of the
 array

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f299ee2..9d6c9ac 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1146,6 +1146,9 @@ class Array(__Array, ComplexDataType):
     def get_type(self) -> Type[CommonDataType]:
         return self.TYPE
 
+    def copy(self) -> Self:
+        return self.__class__(self.encoding, type_=self.TYPE)
+
     def set_type(self, value: Type[CommonDataType]):
         """ set new type with clear array"""
         self.clear()
-- 
2.43.0


From e87e4140b10342cecf5f362918a1d2d36c47caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 049/140] fix: a collection copy does not share its attribute
 values with the origin

---
 src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index cc696c8..9e88e59 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -169,6 +169,7 @@ class COSEMInterfaceClasses(ABC):
                                                                                                                                                     index=i,
                                                                                                                                                     association_id=association_id):
                     # Todo: may be callbacks inits remove?
+                    value = value.copy()
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
                         self._cbs_attr_before_init.pop(i)
-- 
2.43.0


From 438c620382f94d0b393675e67e02808f41026fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 050/140] fix: access rights answers are not shared between
 collections and follow the current object list

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 32cb800..33e5a1f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1703,7 +1703,6 @@ class Collection:
         else:
             raise ValueError(F"absent association with {client_sap}")
 
-    @lru_cache(maxsize=1000)
     def is_readable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1715,7 +1714,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_writable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1727,7 +1725,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_accessible(self, ln: cst.LogicalName,
                       index: int,
                       association_id: int,
-- 
2.43.0


From ce469c1643a25e504db617e18b676269ebbd0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 051/140] fix: find class version by the current objects of
 this collection

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 33e5a1f..1364bb1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1404,7 +1404,6 @@ class Collection:
                 logger.warning(F'Dont remove with: {logical_name}')
                 return False
 
-    @lru_cache(maxsize=100)  # amount of all classID
     def find_version(self, class_id: CosemClassId) -> cdt.Unsigned:
         """use for add new object from profile_generic if absence in object list"""
         return next(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values())).VERSION
-- 
2.43.0


From 658723e4785057e752dd330cd89e755bab0357d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 052/140] fix: find association by client SAP in the current
 objects of this collection

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1364bb1..71e65f6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1691,7 +1691,6 @@ class Collection:
         else:
             raise ValueError(F"object with {ln} is not {ScriptTable.CLASS_ID}")
 
-    @lru_cache(4)
     def get_association_id(self, client_sap: enums.ClientSAP) -> int:
         """return id(association instance) from it client address without current"""
         for ass in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
-- 
2.43.0


From 02140ad66ada88a42c0d874e3b33ea236cdbc0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 053/140] fix: name and type of captured attribute follow the
 current objects of this collection

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 71e65f6..a2ae3b4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1736,7 +1736,6 @@ class Collection:
             m_id=m_id
         )
 
-    @lru_cache(maxsize=100)
     def get_name_and_type(self, value: structs.CaptureObjectDefinition) -> tuple[list[str], Type[cdt.CommonDataType]]:
         """ return names and type of element from collection"""
         names: list[str] = list()
-- 
2.43.0


From d9978b2f90eb68392df95a4989c7be89ab37bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 054/140] fix: collection properties follow the current objects
 of the collection

---
 .../cosem_interface_classes/collection.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a2ae3b4..2d49a85 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, cached_property, lru_cache
+from functools import reduce, lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1510,11 +1510,11 @@ class Collection:
         else:
             return obj
 
-    @cached_property
+    @property
     def LDN(self) -> impl.data.LDN:
         return self.__get_object(o.LDN)
 
-    @cached_property
+    @property
     def current_association(self) -> AssociationLN:
         return self.__get_object(o.CURRENT_ASSOCIATION)
 
@@ -1524,7 +1524,7 @@ class Collection:
     def getAssociationBySAP(self, SAP: enums.ClientSAP) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, self.get_association_id(SAP), 255)))
 
-    @cached_property
+    @property
     def PUBLIC_ASSOCIATION(self) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, 1, 255)))
 
@@ -1547,7 +1547,7 @@ class Collection:
     def getIECHDLCSetup(self, ch: int = 0) -> IECHDLCSetup:
         return self.__get_object(bytes((0, ch, 22, 0, 0, 255)))
 
-    @cached_property
+    @property
     def TCP_UDP_setup(self) -> TCPUDPSetup:
         return self.__get_object(bytes((0, 0, 25, 0, 0, 255)))
 
@@ -1574,7 +1574,7 @@ class Collection:
     def firmware_version(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 2, 255)))
 
-    @cached_property
+    @property
     def device_type(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 1, 255)))
 
-- 
2.43.0


From 308a6ade652386ee3024e0d9c9f1b5a30686aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 055/140] fix: filter objects without logical name patterns

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2d49a85..f1a9929 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2269,7 +2269,7 @@ def get_filtered(objects: list[InterfaceClass],
             continue
         elif media and get_media_id(obj.logical_name) not in media:
             continue
-        elif obj.logical_name not in patterns:
+        elif patterns and obj.logical_name not in patterns:
             continue
         new_list.append(obj)
     return new_list
-- 
2.43.0


From 223f2f96074a0a44f63e6be2c73935b224daf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 056/140] fix: filter objects by the media given

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index f1a9929..145ea40 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2247,7 +2247,7 @@ class LNPattern:
 def get_filtered(objects: list[InterfaceClass],
                  keys: tuple[CosemClassId | media_id.MediaId | LNPattern, ...]) -> list[InterfaceClass]:
     c_ids: list[CosemClassId] = list()
-    media: list[int] = list()
+    media: list[media_id.MediaId] = list()
     group: list[int] = list()
     patterns: list[LNPattern] = list()
     medias = tuple(m.subgroup for m in RelationGroups)
@@ -2256,7 +2256,7 @@ def get_filtered(objects: list[InterfaceClass],
             c_ids.append(k)
         elif isinstance(k, RelationGroup):
             if (s_g := k.subgroup) in medias:
-                media.append(s_g)
+                media.append(k)
             else:
                 group.append(s_g)
         elif isinstance(k, LNPattern):
-- 
2.43.0


From fb9acffe00f47fb38d1b3b6593d056c8cb96861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 057/140] fix: relation group of payment, twisted pair and gas
 objects

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 145ea40..ff3096c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2315,7 +2315,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 18 and ln.d == 0:
             return media_id.ARRAY_MANAGER_OBJECT
         elif ln.c == 19:
-            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or ln.d in (range(50, 60) and ln.e in (1, 2)):
+            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or (ln.d in range(50, 60) and ln.e in (1, 2)):
                 return media_id.PAYMENT_METERING_RELATED_OBJECTS
         elif ln.c == 20 and ln.d == 0 and ln.e in (0, 1):
             return media_id.IEC_LOCAL_PORT_SETUP_OBJECTS
@@ -2324,7 +2324,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 22 and ln.d == 0 and ln.e == 0:
             return media_id.IEC_HDLC_SETUP_OBJECTS
         elif ln.c == 23:
-            if (ln.d in 0, 1, 2 and ln.e == 0) or ln.d == 3:
+            if (ln.d in (0, 1, 2) and ln.e == 0) or ln.d == 3:
                 return media_id.IEC_TWISTED_PAIR_1_SETUP_OBJECTS
         elif ln.c == 24:
             if (ln.d in (0, 1, 4, 5, 6) and ln.e == 0) or (ln.d in (2, 8, 9)):
@@ -2611,11 +2611,11 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
         elif ln.c == 42 and ln.e == 0:
-            if ln.d in chain(0, 1, 2, 13, range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
+            if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in (0, 2, 3, 10, 11, 13, range(15, 92)) and ln.e == 0 and ln.f == 255:
+        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in chain((0, 2, 3, 10, 11, 13), range(15, 92)) and ln.e == 0 and ln.f == 255:
             return media_id.MEASURED_VALUES_GAS_PROCESS_VALUES
         elif ln.c in range(51, 56):
             if ln.d in (0, 2, 3, 10, 11) and ln.e in chain((0, 1), range(11, 29)) and ln.f == 255:
-- 
2.43.0


From da3f3fba0a1f8ae71030ae5cfcbfc5b04cb7edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 058/140] fix: append values to an array whose elements are a
 choice of types

---
 src/DLMS_SPODES/types/common_data_types.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9d6c9ac..e3ea87e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1117,11 +1117,12 @@ class Array(__Array, ComplexDataType):
 
     def append(self, element: CommonDataType | None | Any = None):
         """ append element to end """
-        match element:
-            case self.TYPE(): pass
-            case None:        element = self.new_element()
-            case _:           element = self.TYPE(element)
-            # case _:           raise ValueError(F'Types not equal. Must be {self.type.NAME} got {type(element).__name__}')
+        if element is None:
+            element = self.new_element()
+        elif not isinstance(self.TYPE, type):  # CHOICE
+            element = self.TYPE(element.encoding if isinstance(element, CommonDataType) else element)
+        elif not isinstance(element, self.TYPE):
+            element = self.TYPE(element)
         if self.unique and element in self.values:  # TODO: remove after full implement append_validate (see below)
             raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
         self.append_validate(element)
@@ -1169,7 +1170,7 @@ class Array(__Array, ComplexDataType):
             else:
                 """TYPE already initiated"""
             for el in new_array:
-                self.append(self.TYPE(el))
+                self.append(el.copy())
         except Exception:
             self.__dict__['TYPE'] = old_type
             self.values[:] = old_values
-- 
2.43.0


From 447c3ca67143a3f629d9642968ef8e08db9c79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 059/140] fix: keep thresholds of register monitor when its
 monitored value becomes known

---
 src/DLMS_SPODES/cosem_interface_classes/register_monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 7b6b9a4..bb8cd68 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -46,4 +46,6 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
         return self.get_attr(4)
 
     def __set_threshold_type(self):
-        self.thresholds.set_type(self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index)).__class__)
+        type_ = self.collection.get_object(self.monitored_value.logical_name).get_attr_data_type(int(self.monitored_value.attribute_index))
+        if len(self.thresholds) == 0:
+            self.thresholds.set_type(type_)
-- 
2.43.0


From 8c5c59742f93282c0c7630657ff878a2ccac9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 060/140] fix: text of an array whose elements are a choice of
 types

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e3ea87e..8ab6c46 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1113,7 +1113,7 @@ class Array(__Array, ComplexDataType):
             case _:                raise ValueError(F'Init {self.__class__} with Value: "{value}" not supported')
 
     def __str__(self):
-        return F"{self.TAG if self.TYPE is None else self.TYPE.TAG}[{len(self.values)}]"
+        return F"{self.TYPE.TAG if isinstance(self.TYPE, type) else self.TAG}[{len(self.values)}]"
 
     def append(self, element: CommonDataType | None | Any = None):
         """ append element to end """
-- 
2.43.0


From c0a33fc4070271bf6431d340b4e546551cbf8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 061/140] fix: search object type in C group by value group C

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index ff3096c..399cf8c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -559,7 +559,7 @@ def get_type(class_id: CosemClassId,
                 c_m = func_map.get((ln.contents[:5]), None)
                 if not c_m:
                     # try search in C group
-                    c_m = func_map.get((ln.contents[:1]+ln.contents[3:4]), common_interface_class_map)
+                    c_m = func_map.get((ln.contents[:1]+ln.contents[2:3]), common_interface_class_map)
     return get_interface_class(class_map=c_m,
                                c_id=class_id,
                                ver=version)
-- 
2.43.0


From 9d50b58065c4e323e43cb5aaa065f19827850e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 062/140] fix: GSM diagnostic version 1 tells its version

---
 src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
index b4b2ac4..cc1eff6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
@@ -27,6 +27,7 @@ class AdjacentCells(cdt.Array):
 
 
 class GSMDiagnostic(ver0.GSMDiagnostic):
+    VERSION = Version.V1
     A_ELEMENTS = (ver0.GSMDiagnostic.get_attr_element(2),
                   ver0.GSMDiagnostic.get_attr_element(3),
                   ver0.GSMDiagnostic.get_attr_element(4),
-- 
2.43.0


From f9d65c26172d73e37b7e580f963082829070e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 063/140] fix: copy a collection whose associations tell no
 objects or absent objects, and do not lose values of objects that wait for
 others

---
 .../cosem_interface_classes/collection.py     | 40 +++++++++----------
 .../cosem_interface_class.py                  |  9 ++---
 2 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 399cf8c..ac3d3f6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -619,29 +619,27 @@ class Collection:
             new_collection.__container[obj.logical_name.contents] = new_obj
             new_obj.collection = new_collection
             if obj.CLASS_ID == classID.ASSOCIATION_LN:
-                if max_ass is None or (obj.object_list and len(max_ass.object_list) < len(obj.object_list)):
+                if max_ass is None or len(max_ass.object_list or ()) < len(obj.object_list or ()):
                     max_ass = obj
-        obj_for_set = max_ass.get_objects()
-        ass_id: int = max_ass.logical_name.e
-        last_length = len(obj_for_set)
-        raise_count = None
+        ass_id: int | None
+        if max_ass is None or max_ass.object_list is None:
+            ass_id = None
+            obj_for_set = list(self.__container.values())
+        else:
+            ass_id = max_ass.logical_name.e
+            obj_for_set = [self.__container[ln] for el in max_ass.object_list if (ln := el.logical_name.contents) in self.__container]
         while len(obj_for_set) != 0:
-            obj = obj_for_set.pop(0)
-            try:
-                new_collection.__container.get(obj.logical_name.contents).copy(obj, ass_id)
-                raise_count = None
-            except Exception as e:
-                if last_length == len(obj_for_set):
-                    if not raise_count:
-                        raise_count = count(last_length, -1)
-                        continue
-                    else:
-                        next(raise_count)
-                        raise e
-                else:
-                    last_length = len(obj_for_set)
-                    logger.warning(F"can't set value. {e}. leftover {len(obj_for_set)} objects")
-                    obj_for_set.append(obj)
+            leftover = list()
+            for obj in obj_for_set:
+                try:
+                    new_collection.__container.get(obj.logical_name.contents).copy(obj, ass_id)
+                except Exception as e:
+                    logger.warning(F"can't set value. {e}. leftover {obj}")
+                    leftover.append(obj)
+            if len(leftover) == len(obj_for_set):
+                logger.error(F"values of {', '.join(map(str, leftover))} not copied")
+                break
+            obj_for_set = leftover
         return new_collection
 
     @property
diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 9e88e59..d54dff1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -158,16 +158,15 @@ class COSEMInterfaceClasses(ABC):
         cls.hash_ = next(_n_class)
         # print(cls.__name__)
 
-    def copy(self, source: Self, association_id: int = 3):
-        """copy object according by association"""
+    def copy(self, source: Self, association_id: int | None = 3):
+        """copy object according by association, without it(None) access rights is not used"""
         for i, value in source.get_index_with_attributes():
             el = self.get_attr_element(i)
             if i == 1 or value is None or (not isinstance(el.DATA_TYPE, ut.CHOICE) and el.classifier == Classifier.DYNAMIC):
                 continue
             else:
-                if source.collection is not None and self.get_attr_element(i).classifier == Classifier.STATIC and not source.collection.is_writable(ln=self.logical_name,
-                                                                                                                                                    index=i,
-                                                                                                                                                    association_id=association_id):
+                if source.collection is not None and association_id is not None and self.get_attr_element(i).classifier == Classifier.STATIC and \
+                        not source.collection.is_writable(ln=self.logical_name, index=i, association_id=association_id):
                     # Todo: may be callbacks inits remove?
                     value = value.copy()
                     if cb_func := self._cbs_attr_before_init.get(i, None):
-- 
2.43.0


From a75c6400f06a9bdbb70840c261ee0f6b07afa3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 064/140] fix: register monitor keeps the type of its
 thresholds when its monitored value is copied later

---
 src/DLMS_SPODES/cosem_interface_classes/register_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index bb8cd68..0d6d1f3 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -47,5 +47,5 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
 
     def __set_threshold_type(self):
         type_ = self.collection.get_object(self.monitored_value.logical_name).get_attr_data_type(int(self.monitored_value.attribute_index))
-        if len(self.thresholds) == 0:
+        if len(self.thresholds) == 0 and not isinstance(type_, ut.CHOICE):
             self.thresholds.set_type(type_)
-- 
2.43.0


From 618465c75129006c3341cc870a01d530554e7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 065/140] fix: copy of a collection keeps units of limiter
 thresholds when the limiter is listed before its register

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index ac3d3f6..2f06f2e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -628,6 +628,8 @@ class Collection:
         else:
             ass_id = max_ass.logical_name.e
             obj_for_set = [self.__container[ln] for el in max_ass.object_list if (ln := el.logical_name.contents) in self.__container]
+        obj_for_set.sort(key=lambda obj: obj.CLASS_ID not in (classID.DATA, classID.REGISTER, classID.EXT_REGISTER, classID.DEMAND_REGISTER))
+        """values are before the objects which refer to them"""
         while len(obj_for_set) != 0:
             leftover = list()
             for obj in obj_for_set:
-- 
2.43.0


From 6488eed3f136025b39443ee1261b939194b2194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 066/140] fix: copy of a not writable limiter threshold keeps
 its unit

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index d54dff1..7cb7201 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -169,6 +169,8 @@ class COSEMInterfaceClasses(ABC):
                         not source.collection.is_writable(ln=self.logical_name, index=i, association_id=association_id):
                     # Todo: may be callbacks inits remove?
                     value = value.copy()
+                    if isinstance(scaler_unit := getattr(self.__attributes[i-1], "SCALER_UNIT", None), cdt.ScalUnitType):
+                        value.SCALER_UNIT = scaler_unit
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
                         self._cbs_attr_before_init.pop(i)
-- 
2.43.0


From 86ccf6aa580546d0508776ced2654d525e540e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 067/140] fix: demand register tells expected type of the
 average values when it refuses other

---
 src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index c484bb5..273370a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -65,7 +65,7 @@ class DemandRegister(ic.COSEMInterfaceClasses):
         if self.current_average_value is not None and self.last_average_value is not None and self.current_average_value.TAG != self.last_average_value.TAG:
             self.clear_attr(attr_index)
             raise ValueError(F"got {self.get_attr_element(attr_index)} with: {attr_value=}, expected "
-                             F"{cdt.get_common_data_type_from(self.current_average_value.TAG if attr_index == 3 else self.last_average_value.TAG).NAME}")
+                             F"{cdt.get_common_data_type_from(self.current_average_value.TAG if attr_index == 3 else self.last_average_value.TAG).TAG}")
         match attr_value:
             case cdt.Array() | cdt.CompactArray() | cdt.Structure(): self.set_attr(4, cdt.ScalUnitType(b'\x02\x02\x0f\x00\x16\xff'))
             case cdt.Digital() | cdt.Float():                        attr_value.SCALER_UNIT = self.scaler_unit
-- 
2.43.0


From bc6ecff77e8998b2a134c5b3b7564698034ee7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 068/140] fix: compare authentication mechanisms for methods
 with authenticated access

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 9b4f304..17da70b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -494,7 +494,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             case pdu.MethodAccess.AUTHENTICATED_ACCESS:
                 if not m_id:
                     m_id = self.authentication_mechanism_name.mechanism_id_element
-                if m_id >= mechanism_id.LOW:
+                if int(m_id) >= int(mechanism_id.LOW):
                     return True
                 else:
                     return False
-- 
2.43.0


From 6cddb4d9de79d763b7622e072701c1068a5a6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 069/140] fix: encode an attribute that has a value gives the
 new value

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 7cb7201..b1f49e0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -231,7 +231,8 @@ class COSEMInterfaceClasses(ABC):
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
             ret = attr.copy()
-            return ret.set(value)
+            ret.set(value)
+            return ret
 
     def set_attr(self,
                  index: int,
-- 
2.43.0


From 3b391f4951be8c3e1116ec0c86188831b13025b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 070/140] fix: text of an enum value without names of elements

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8ab6c46..5b99dd2 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1927,7 +1927,7 @@ class Enum(SimpleDataType, ABC):
             case _: super().__setattr__(key, value)
 
     def __str__(self):
-        return self.ELEMENTS[self.contents]
+        return str(int(self)) if self.ELEMENTS is None else self.ELEMENTS[self.contents]
 
     @property
     def value(self) -> str:
-- 
2.43.0


From 96b616d519c949a8bdab3b697544dc3e8d3cf68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 071/140] fix: refuse wrong HDLC negotiation information as a
 whole

---
 .../cosem_interface_classes/iec_hdlc_setup/ver1.py  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index e16cf1c..3bd4237 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -81,16 +81,21 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
             info = info.removeprefix(b'\x81\x80')
             length, info = info[0], info[1:]
             if length == len(info):
+                new_values: list[tuple[int, cdt.CommonDataType]] = list()
                 while len(info) != 0:
+                    if len(info) < 2 or len(info) < 2 + info[1]:
+                        raise ValueError(F'HDLS negotiation parameter is cut: {info.hex(" ")}')
                     tag, value_length, info = info[:1], info[1], info[2:]
                     value, info = info[:value_length], info[value_length:]
                     match tag:
-                        case b'\x05': self.set_attr(5, cdt.LongUnsigned(int.from_bytes(value, 'big')))
+                        case b'\x05': new_values.append((5, cdt.LongUnsigned(int.from_bytes(value, 'big'))))
                                       # self.max_info_field_length_transmit.contents = (bytes(2)+value)[-2:]
-                        case b'\x06': self.set_attr(6, cdt.LongUnsigned(int.from_bytes(value, 'big')))
-                        case b'\x07': self.set_attr(3, cdt.Unsigned(int.from_bytes(value, 'big')))
-                        case b'\x08': self.set_attr(4, cdt.Unsigned(int.from_bytes(value, 'big')))
+                        case b'\x06': new_values.append((6, cdt.LongUnsigned(int.from_bytes(value, 'big'))))
+                        case b'\x07': new_values.append((3, cdt.Unsigned(int.from_bytes(value, 'big'))))
+                        case b'\x08': new_values.append((4, cdt.Unsigned(int.from_bytes(value, 'big'))))
                         case _:       raise ValueError(F'Invalid UA response. Got {tag.hex(" ")} from supported 05, 06, 07, 08')
+                for index, new_value in new_values:
+                    self.set_attr(index, new_value)
             else:
                 raise ValueError(F'HDLS negotiation length wrong, must be {length}, got {len(info)}')
         elif len(info) == 0:
-- 
2.43.0


From b6dcfc650d907e3a0b13eb4553d26c75e2efc37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 072/140] fix: set the unit of a register whose value is a real
 number

---
 src/DLMS_SPODES/types/common_data_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5b99dd2..229acf0 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -590,6 +590,7 @@ class Digital(ABC):
 class Float(ABC):
     contents: bytes
     TAG: TAG
+    SCALER_UNIT = None  # ScalerUnitType | None
 
     @abstractmethod
     def __len__(self):
-- 
2.43.0


From 7017c9a9973ffc4116685a7289eeae91f862bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 073/140] fix: save a collection whose server did not tell its
 version yet

---
 .../cosem_interface_classes/collection.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2f06f2e..aef9da2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -714,6 +714,14 @@ class Collection:
     def server_ver(self) -> dict[int, AppVersion]:
         return self.__server_ver
 
+    @property
+    def known_ver(self) -> dict[int, AppVersion]:
+        """server versions, the version of the collection is instead of one not told by server"""
+        if self.__collection_ver is None:
+            return self.__server_ver
+        else:
+            return {0: self.__collection_ver} | self.__server_ver
+
     def clear_server_ver(self):
         self.__server_ver.clear()
 
@@ -1140,9 +1148,9 @@ class Collection:
             ET.SubElement(objects, 'manufacturer').text = self.manufacturer.decode("utf-8")
         if self.server_type is not None:
             ET.SubElement(objects, 'server_type').text = self.server_type.encoding.hex()
-        for ver in self.server_ver:
+        for ver, value in self.known_ver.items():
             server_ver_node = ET.SubElement(objects, 'server_ver', attrib={"instance": str(ver)})
-            server_ver_node.text = str(self.server_ver[ver])
+            server_ver_node.text = str(value)
         return objects
 
     def to_xml(self, file_name: str,
@@ -1223,7 +1231,7 @@ class Collection:
         col = get(
             m=self.manufacturer,
             t=self.server_type,
-            ver=self.server_ver[0])
+            ver=self.known_ver[0])
         is_empty: bool = True
         for desc in col.getASSOCIATION(association_id).object_list:
             obj = self.get_object(desc)
@@ -1884,9 +1892,9 @@ def get_base_template_xml_element(collections: list[Collection], root_tag: str =
         manufacture_node.text = col.manufacturer.decode("utf-8")
         server_type_node = ET.SubElement(manufacture_node, 'server_type')
         server_type_node.text = col.server_type.encoding.hex()
-        for ver in col.server_ver:
+        for ver, value in col.known_ver.items():
             server_ver_node = ET.SubElement(server_type_node, 'server_ver', attrib={"instance": str(ver)})
-            server_ver_node.text = str(col.server_ver[ver])
+            server_ver_node.text = str(value)
     return objects
 
 
-- 
2.43.0


From 8af330436e3ed5bc592ed30c8c6914cc5ff1f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 074/140] fix: read attribute values of a saved device file

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index aef9da2..9adb037 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1118,7 +1118,7 @@ class Collection:
                         raise ValueError(F"got object with {ln=} not find in collection. Abort attribute setting")
                     else:
                         new_object = self.get_object(logical_name)
-                        for attr in obj.findall("attr"):
+                        for attr in obj.findall("attr") + obj.findall("attribute"):
                             index: int = int(attr.attrib.get("index"))
                             try:
                                 new_object.set_attr(index, bytes.fromhex(attr.text))
-- 
2.43.0


From cd5c0e9852f668ab784efd9a45f7a7d6c18d2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 075/140] fix: save attributes that are writable for the
 association given

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9adb037..8ee2edb 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1241,7 +1241,7 @@ class Collection:
                     """skip ln"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
-                elif not col.is_writable(obj.logical_name, i, 3):
+                elif not col.is_writable(obj.logical_name, i, association_id):
                     """skip not writable"""
                 elif col.get_object(obj.logical_name).get_attr(i) == attr:
                     """skip not changed attr value"""
-- 
2.43.0


From ee44d114aa319cabb04b6a4f272b4e7457b44b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 076/140] fix: read the verified flag of a template

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 8ee2edb..4fde619 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2035,7 +2035,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
-    return cols, used, bool(int(objects.findtext("verified", default="0")))
+    return cols, used, bool(int(objects.attrib.get("verified", "0")))
 
 
 if config is not None:
-- 
2.43.0


From a044e5179666b44af8a0404a91078cd632d14385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 077/140] fix: a template has one collection for each type,
 whatever instances of server version are known

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4fde619..31dddfa 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1985,6 +1985,8 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
     for manufacturer_node in objects.findall("manufacturer"):
         for server_type_node in manufacturer_node.findall("server_type"):
             for server_ver_node in server_type_node.findall("server_ver"):
+                if server_ver_node.attrib.get("instance", "0") != "0":
+                    continue
                 cols.append(get_collection(
                     manufacturer=manufacturer_node.text.encode("utf-8"),
                     server_type=cdt.get_instance_and_pdu_from_value(bytes.fromhex(server_type_node.text))[0],
-- 
2.43.0


From 56a06e21ee774f38782646f81619baaf5f874244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 078/140] fix: a failed save does not spoil the file saved
 before

---
 .../cosem_interface_classes/collection.py     | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 31dddfa..1e21914 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1220,8 +1220,7 @@ class Collection:
         xml_string = ET.tostring(objects, encoding='cp1251', method='xml')
         dom_xml = minidom.parseString(xml_string)
         str_ = dom_xml.toprettyxml(indent="  ", encoding='cp1251')
-        with open(file_name, "wb") as f:
-            f.write(str_)
+        write_file(file_name, str_)
 
     def to_xml2(self, file_name: str,
                 root_tag: str = TagsName.DEVICE_ROOT.value,
@@ -1257,8 +1256,7 @@ class Collection:
             xml_string = ET.tostring(objects, encoding='cp1251', method='xml')
             dom_xml = minidom.parseString(xml_string)
             str_ = dom_xml.toprettyxml(indent="  ", encoding='cp1251')
-            with open(file_name, "wb") as f:
-                f.write(str_)
+            write_file(file_name, str_)
         else:
             logger.warning("nothing save. all attributes according with origin collection")
         return not is_empty
@@ -1315,8 +1313,7 @@ class Collection:
         xml_string = ET.tostring(objects, encoding='cp1251', method='xml')
         dom_xml = minidom.parseString(xml_string)
         str_ = dom_xml.toprettyxml(indent="  ", encoding='cp1251')
-        with open(file_name, "wb") as f:
-            f.write(xml_string)
+        write_file(file_name, xml_string)
 
     def set_spec(self):
         """set functional map to specification by identification fields"""
@@ -1882,6 +1879,22 @@ class Collection:
     #             xml_declaration=True))
 
 
+def write_file(file_name: str, content: bytes):
+    """write the file as a whole: if it fails then the file is as before"""
+    path = os.path.realpath(file_name)
+    tmp = F"{os.path.splitext(path)[0]}~"
+    try:
+        with open(tmp, "wb") as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp, path)
+    except OSError:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
+
+
 def get_base_template_xml_element(collections: list[Collection], root_tag: str = TagsName.DEVICE_ROOT.value) -> ET.Element:
     objects = ET.Element(root_tag, attrib={'version': '4.1.0'})
     ET.SubElement(objects, 'dlms_ver').text = str(collections[0].dlms_ver)
@@ -1962,14 +1975,11 @@ def to_xml4(collections: list[Collection],
             break
     if len(used_copy) != 0:
         raise ValueError(F"failed decoding: {used_copy}")
-    with open(
-            file_name,
-            mode="wb") as f:
-        f.write(ET.tostring(
-            element=objects,
-            encoding="utf-8",
-            method="xml",
-            xml_declaration=True))
+    write_file(file_name, ET.tostring(
+        element=objects,
+        encoding="utf-8",
+        method="xml",
+        xml_declaration=True))
 
 
 def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
-- 
2.43.0


From 27c62b3d16cb134e8826f1af081926d413c3481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 079/140] fix: read the text of a unit shown with a scaler
 prefix

---
 src/DLMS_SPODES/types/common_data_types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 229acf0..da2f3af 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2324,6 +2324,12 @@ class Unit(Enum, elements=tuple(range(1, 256))):
                 else:
                     raise ValueError(F"unsupport scaler preset: {other} in Unit")
 
+    def from_str(self, value: str) -> bytes:
+        for contents, scaler in self.SCALERS.items():
+            if scaler != 0 and value == F"{self.SCALER_NAME.get(scaler)}{self.ELEMENTS[contents]}":
+                return contents
+        return super(Unit, self).from_str(value)
+
     def get_scaler(self) -> int:
         return self.SCALERS[self.contents]
 
-- 
2.43.0


From 3830f02c82a350d5c458b757dca0f2f0b758cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 080/140] fix: save a device some attributes of which have no
 value

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1e21914..7ff7fa1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1238,6 +1238,8 @@ class Collection:
             for i, attr in obj.get_index_with_attributes():
                 if i == 1:
                     """skip ln"""
+                elif attr is None:
+                    """skip without value"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
                 elif not col.is_writable(obj.logical_name, i, association_id):
-- 
2.43.0


From f15c8cd690c7ab976cae0f36bbf3ff93228fc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 081/140] fix: default value of an enum without names of
 elements

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index da2f3af..37e907e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1896,7 +1896,7 @@ class Enum(SimpleDataType, ABC):
 
     def from_none(self):
         """first key value"""
-        return next(iter(self.ELEMENTS))
+        return bytes(1) if self.ELEMENTS is None else next(iter(self.ELEMENTS))
 
     def validation(self):
         """ check value after inited. Maybe override """
-- 
2.43.0


From d5bc8943fba5d84007f67bdb982f6593d265922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 082/140] fix: save all elements of a value some of which are
 empty

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 7ff7fa1..e98d959 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1192,7 +1192,7 @@ class Collection:
                                     while stack:
                                         node, name, value_it = stack[-1]
                                         value = next(value_it, None)
-                                        if value:
+                                        if value is not None:
                                             if not isinstance(name, str):
                                                 name = next(name).NAME
                                             if isinstance(value, cdt.Array):
@@ -1949,7 +1949,7 @@ def to_xml4(collections: list[Collection],
                             while stack:
                                 node, name, value_it = stack[-1]
                                 value = next(value_it, None)
-                                if value:
+                                if value is not None:
                                     if not isinstance(name, str):
                                         name = next(name).NAME
                                     if isinstance(value, cdt.Array):
-- 
2.43.0


From 2a20063885e33ec5ce505c8e80b6a44a1b2061e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 083/140] fix: keep all used attributes of an object told by
 several collections of a template

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index e98d959..c7d267d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2014,7 +2014,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.warning(F"got object with {ln=} not find in collection: {col}")
                     else:
                         objs.append(col.get_object(logical_name))
-                used[logical_name] = set()
+                used.setdefault(logical_name, set())
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-- 
2.43.0


From 032a57932ac98f8ac03b4c80393e1aa54ba0c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 084/140] fix: a template fills each collection that takes the
 value

---
 .../cosem_interface_classes/collection.py     | 56 +++++++++----------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index c7d267d..0c9fb5f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2018,35 +2018,33 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-                    try:
-                        match attr.attrib.get("type", "simple"):
-                            case "simple":
-                                for new_object in objs:
-                                    new_object.set_attr(index, attr.text)
-                            case "array" | "struct":
-                                stack = [(list(), iter(attr))]
-                                while stack:
-                                    v1, v2 = stack[-1]
-                                    v = next(v2, None)
-                                    if v is None:
-                                        stack.pop()
-                                    elif v.tag == "simple":
-                                        v1.append(v.text)
-                                    else:
-                                        v1.append(list())
-                                        stack.append((v1[-1], iter(v)))
-                                for new_object in objs:
-                                    new_object.set_attr(index, v1)
-                    except exc.ITEApplication as e:
-                        logger.error(F"Can't fill {new_object} attr: {index}. {e}")
-                    except IndexError:
-                        logger.error(F'Object "{new_object}" not has attr: {index}')
-                    except TypeError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                    except ValueError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
-                    except AttributeError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
+                    value = attr.text
+                    match attr.attrib.get("type", "simple"):
+                        case "array" | "struct":
+                            stack = [(list(), iter(attr))]
+                            while stack:
+                                value, v2 = stack[-1]
+                                v = next(v2, None)
+                                if v is None:
+                                    stack.pop()
+                                elif v.tag == "simple":
+                                    value.append(v.text)
+                                else:
+                                    value.append(list())
+                                    stack.append((value[-1], iter(v)))
+                    for new_object in objs:
+                        try:
+                            new_object.set_attr(index, value)
+                        except exc.ITEApplication as e:
+                            logger.error(F"Can't fill {new_object} attr: {index}. {e}")
+                        except IndexError:
+                            logger.error(F'Object "{new_object}" not has attr: {index}')
+                        except TypeError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
+                        except ValueError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
+                        except AttributeError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
     return cols, used, bool(int(objects.attrib.get("verified", "0")))
-- 
2.43.0


From 2dc0ca39dff9ced06dc033bcfabd381175746806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 085/140] fix: skip folders of the type library which are not
 of manufacturers or types

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 0c9fb5f..224c0f0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2062,12 +2062,17 @@ def get_manufactures_container() -> dict[bytes, dict[bytes, dict[AppVersion, os.
     ret: dict[bytes, dict[bytes, dict[AppVersion, os.DirEntry]]] = dict()
     with os.scandir(__collection_path) as ms:
         for m in ms:
-            if len(m.name) == 3 and m.is_dir():
+            if len(m.name) == 3 and m.name.isascii() and m.is_dir():
                 ret[man := m.name.encode("ascii")] = dict()
                 with os.scandir(m) as ts:
                     for t in ts:
                         if t.is_dir():
-                            ret[man][server_type := bytes.fromhex(t.name)] = dict()
+                            try:
+                                server_type = bytes.fromhex(t.name)
+                            except ValueError:
+                                logger.warning(F"skip {t.path}, it is not a server type")
+                                continue
+                            ret[man][server_type] = dict()
                             with os.scandir(t) as vs:
                                 for ver in vs:
                                     if ver.is_file() and (v := ver.name.partition(".typ"))[1] == ".typ":
-- 
2.43.0


From b9090b7212f960676346bbe650cce6c1d32ba4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 086/140] fix: take only .typ files from the type library

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 224c0f0..af3ad56 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2075,8 +2075,8 @@ def get_manufactures_container() -> dict[bytes, dict[bytes, dict[AppVersion, os.
                             ret[man][server_type] = dict()
                             with os.scandir(t) as vs:
                                 for ver in vs:
-                                    if ver.is_file() and (v := ver.name.partition(".typ"))[1] == ".typ":
-                                        ret[man][server_type][AppVersion.from_str(v[0])] = ver
+                                    if ver.is_file() and ver.name.endswith(".typ"):
+                                        ret[man][server_type][AppVersion.from_str(ver.name.removesuffix(".typ"))] = ver
     return ret
 
 
-- 
2.43.0


From 222b1928b7115587667b9fce005709b69170cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 087/140] fix: tell of an unsupported server type of any data
 type

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index af3ad56..d59324c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2086,12 +2086,12 @@ def get_dir_entry(m: bytes, t: cdt.CommonDataType, ver: AppVersion) -> os.DirEnt
     if (man := get_manufactures_container().get(m)) is None:
         raise exc.NoConfig(F"no support manufacturer: {m.decode('utf-8', errors='strict')}")
     elif (type_ := man.get(t.encoding)) is None:
-        raise exc.NoConfig(F"no support type {t.to_str()}, with manufacturer: {m.decode('utf-8', errors='strict')}")
+        raise exc.NoConfig(F"no support type {t!r}, with manufacturer: {m.decode('utf-8', errors='strict')}")
     elif (f := type_.get(ver)) is None:
         if searched_version := ver.select_nearest(type_.keys()):
             return type_.get(searched_version)
         else:
-            raise exc.NoConfig(F"no support version {ver} with manufacturer: {m.decode('utf-8', errors='strict')}, type: {t.to_str()}")
+            raise exc.NoConfig(F"no support version {ver} with manufacturer: {m.decode('utf-8', errors='strict')}, type: {t!r}")
     logger.info(F"got collection from library by path: {f.path}")
     return f
 
-- 
2.43.0


From a352ba2757699c2638f077a2b0b281b7709b6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 088/140] fix: compare versions without a patch number

---
 src/DLMS_SPODES/version.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index eba8e65..dbad992 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -62,7 +62,7 @@ class AppVersion:
             return True
         elif self.__minor < other.minor:
             return False
-        if self.__patch is None:
+        if self.__patch is None or other.patch is None:
             return False
         elif self.__patch > other.patch:
             return True
@@ -78,7 +78,7 @@ class AppVersion:
             return True
         elif self.__minor < other.minor:
             return False
-        if self.__patch is None:
+        if self.__patch is None or other.patch is None:
             return True
         elif self.__patch > other.patch:
             return True
@@ -106,4 +106,4 @@ class AppVersion:
 
     def select_nearest(self, variants: list[AppVersion]) -> AppVersion | None:
         """ select left nearest from list in minor branch else return None """
-        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.patch <= self.__patch, variants), default=None)
+        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and self >= var, variants), default=None)
-- 
2.43.0


From c3659d7103578594e3b8ec76f4930e7ddc587833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 089/140] fix: take only decimal numbers in a version text

---
 src/DLMS_SPODES/version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index dbad992..e0d6d2f 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -18,7 +18,7 @@ class AppVersion:
     def from_str(cls, value: str):
         match value.split(sep='.', maxsplit=2):
             case (major, minor, patch):
-                match major.isdigit(), minor.isdigit(), patch.isdigit():
+                match major.isdecimal(), minor.isdecimal(), patch.isdecimal():
                     case True, True, True:                        return cls(int(major), int(minor), int(patch))
                     case True, True, False:
                         patch_seq = bytearray(patch, 'utf-8')
@@ -29,7 +29,7 @@ class AppVersion:
                         return cls(int(major), int(minor), int(patch_seq[:digit_pos]), patch_seq[digit_pos:].decode())
                     case _:                                      return cls(0, 0, 0)
             case (major, minor):
-                match major.isdigit(), minor.isdigit():
+                match major.isdecimal(), minor.isdecimal():
                     case True, True:                        return cls(int(major), int(minor))
                     case _:                                      return cls(0, 0)
             case _:                                              return cls(0, 0, 0)
-- 
2.43.0


From 8fb21635bd41c46c06dacebba9ff42a1d91d7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 090/140] fix: check a server version without a patch number

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d59324c..a17e293 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -731,7 +731,7 @@ class Collection:
         else:
             if value.major != self.__server_ver[instance].major or value.minor != self.__server_ver[instance].minor:
                 raise ValueError(F"attempt set server version[{instance}]: {value}, existed {self.__server_ver[instance]}. Execute search of type")
-            elif value.patch <= self.__server_ver[instance].patch:
+            elif not value > self.__server_ver[instance]:
                 """success validation"""
             else:
                 raise ValueError(F"got more hi patch: {value} expected before {self.__server_ver[instance].patch}")
-- 
2.43.0


From 3c9d3bf62e58ba563f154f07ac150b664fa03110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 091/140] fix: refuse an image that can not be cut into blocks

---
 .../cosem_interface_classes/image_transfer/ver0.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
index 08765f1..3bd21ef 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
@@ -96,6 +96,10 @@ class ImageTransfer(ic.COSEMInterfaceClasses):
     def set_image_for_update(self, value: bytes, identifier: bytearray):
         """ set to image_for_update from bytes and set to first block if identifier is new """
         block_size: int = self.image_block_size.decode()
+        if block_size == 0:
+            raise ValueError(F"can't cut image into blocks with size: {block_size}")
+        if len(value) == 0:
+            raise ValueError("got empty image")
         self.clear_image()
         while len(value) != 0:
             self.__blocks_for_update.append(bytearray(value[:block_size]))
-- 
2.43.0


From c3c0c6540e7b93f2ffd2ae52d486d284978a572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 092/140] fix: units of profile columns go in the order of the
 columns read

---
 .../cosem_interface_classes/profile_generic/ver1.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 702316f..112d4d6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -255,13 +255,15 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                 raise ValueError(F'Buffer of {scaler_profile} is empty')
             else:
                 unit_scaler_profile = scaler_profile.buffer[0]
-                for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
-                    for buffer_capture_object in self.buffer_capture_objects:
+                for buffer_capture_object in self.buffer_capture_objects:
+                    for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
                         if capture_object == buffer_capture_object:
                             match scaler_unit:
                                 case cdt.ScalUnitType(): result.append(scaler_unit)
                                 case _:                  result.append(None)
                             break
+                    else:
+                        result.append(None)
         else:
             for definition in self.buffer_capture_objects:
                 definition: structs.CaptureObjectDefinition
-- 
2.43.0


From 857c9532a2dd33dd386b27623cbf5ed1762fec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 093/140] fix: capture objects that come before the sort object
 are refused and taken later

---
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 112d4d6..1cb3e6c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -146,7 +146,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
     def __create_buffer_struct_type(self):
         """ TODO: more refactoring !!! """
         # rename CaptureObjectDefinition's and adding object if it absense in collection
-        if self.buffer.selective_access is None:
+        if self.buffer.selective_access is None and self.sort_object is not None:
             self.__create_selective_access_descriptor()
         if self.capture_objects is None:
             raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
-- 
2.43.0


From 272e1fcb8b298d5da12438789add0cee2619c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 094/140] fix: take capture objects before the sort object is
 known

---
 .../cosem_interface_classes/profile_generic/ver1.py           | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 1cb3e6c..f93cc70 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -170,9 +170,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                         self.buffer_capture_objects = self.capture_objects[from_selected_value:to_selected_value]
                     case _ as err:                                                raise ValueError(F'access_selection out of range, got {err}, must be (0..2)')
             case None:
-                self.clear_attr(CAPTURE_OBJECTS)
-                self._cbs_attr_post_init[CAPTURE_OBJECTS] = self.__create_buffer_struct_type
-                raise exc.EmptyObj(F"need set <sort_object> before for {self}")
+                self.buffer_capture_objects = self.capture_objects
         buffer_elements: list[cdt.StructElement] = list()
         for el_value in self.buffer_capture_objects:
             names, type_ = self.collection.get_name_and_type(el_value)
-- 
2.43.0


From 5aeb3cf7257923750509fc5e30254afa61d8a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 095/140] fix: tell all the flags of a network quality status

---
 src/DLMS_SPODES/cosem_interface_classes/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/events.py b/src/DLMS_SPODES/cosem_interface_classes/events.py
index 45f3498..97dcc29 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/events.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/events.py
@@ -9,7 +9,7 @@ match get_current_language():
 class FlagEvents(dict):
     """ special class for flag events indication """
     def get_report(self, value: int) -> str:
-        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(8)))))+F"({value})"
+        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(value.bit_length())))))+F"({value})"
 
 
 class Events(dict):
-- 
2.43.0


From d997967f6bdf5598695c3cc60e48b207b505420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 096/140] fix: a report does not end at an empty element

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index e659574..0aec4f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -32,7 +32,7 @@ def get_obj_report(
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
                 value = next(value_it, None)
-                if value:
+                if value is not None:
                     if not isinstance(name, str):
                         name = next(name).NAME
                     if isinstance(value, cdt.Array):
-- 
2.43.0


From ab82c2a23da96695495a6cbfafbddfc47950b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 097/140] fix: a report tells the names of elements of a
 structure attribute

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index 0aec4f2..f71356f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -27,7 +27,7 @@ def get_obj_report(
             ret += F"  {obj.get_attr_element(i)}: {value}\n"
         elif isinstance(value, cdt.ComplexDataType):
             ret += F"  [{obj.get_attr_element(i)}]\n"
-            stack: list = [("", iter(value))]
+            stack: list = [(iter(value.ELEMENTS) if isinstance(value, cdt.Structure) else "", iter(value))]
             while stack:
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
-- 
2.43.0


From a8e4c20b4cbc4d418a6ce67a8febd85744c68043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 098/140] fix: setting the interface of a channel number
 replaces the old interface

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 3403967..210bd10 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -118,7 +118,7 @@ class ChannelNumberValue(cdt.Unsigned):
 
     @interface.setter
     def interface(self, value: enu.Interface):
-        self.set((int(self) & 0b0001_1111) | (value << 3))
+        self.set((int(self) & 0b0000_0111) | (value << 3))
 
     def get_report(self, with_unit: bool = True) -> str:
         return F"Номер канала связи: {self.channel.name}, Тип интерфейса: {self.interface.name}"
-- 
2.43.0


From 5aa01a56e3234d3bf0798d99dcc53802cc3a7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 099/140] fix: names of script services go with their codes

---
 src/DLMS_SPODES/config.toml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/config.toml b/src/DLMS_SPODES/config.toml
index 79dcfe5..346af01 100644
--- a/src/DLMS_SPODES/config.toml
+++ b/src/DLMS_SPODES/config.toml
@@ -1492,8 +1492,8 @@ CertificateIdentificationType = [
     {e=1, v="Идентификация сертификата по серийному номеру"},
 ]
 ServiceId = [
-    {e=0, v="Запись в атрибут"},
-    {e=1, v="Выполнить конкретный метод"},
+    {e=1, v="Запись в атрибут"},
+    {e=2, v="Выполнить конкретный метод"},
 ]
 TYPE = [
     {e=1, v="Размер времени выполнения = 1; Подстановочный знак в дате разрешен"},
-- 
2.43.0


From c9d805a22eab0035915fc4ab0b1b28d7f6f32a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 100/140] fix: insert a special day with a new index

---
 src/DLMS_SPODES/cosem_interface_classes/special_days_table.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index 674fced..29be088 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -76,7 +76,6 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
     def __set_delete(self):
         try:
             self.delete.register_cb_preset(self.entries.validate_exist_index)
-            self.insert.index.register_cb_preset(self.entries.validate_exist_index)
         except KeyError:  # At init time
             print('set delete NO:')
 
-- 
2.43.0


From 580ccf791df541db688f3121e65de63093eac282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 101/140] fix: day id 255 is free for a new day profile too

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 5e7918d..af53105 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -105,7 +105,7 @@ class DayProfileTable(cdt.Array):
     def new_element(self) -> DayProfile:
         """return default DayProfile with vacant Day ID"""
         day_ids: list[int] = [int(el.day_id) for el in self.values]
-        for i in range(0xff):
+        for i in range(0x100):
             if i not in day_ids:
                 return DayProfile((i, None))
         raise ValueError(F'in {self} all days ID is busy')
-- 
2.43.0


From 04662e9977221b7792f90cb66e56af1a5235f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 102/140] fix: demand register has the method next_period

---
 .../cosem_interface_classes/demand_register/ver0.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index 273370a..2c96ecd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -15,7 +15,8 @@ class DemandRegister(ic.COSEMInterfaceClasses):
                   ic.ICAElement("start_time_current", cst.OctetStringDateTime, classifier=ic.Classifier.DYNAMIC),
                   ic.ICAElement("period", cdt.DoubleLongUnsigned, min=1),
                   ic.ICAElement("number_of_periods", cdt.LongUnsigned, min=1, default=1))
-    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
+    M_ELEMENTS = (ic.ICMElement("reset", integers.Only0),
+                  ic.ICMElement("next_period", integers.Only0))
     scaler_unit_not_settable: bool
 
     @property
-- 
2.43.0


From 0770600ba684b2c116ebe76de0aec777d65e9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 103/140] fix: use the configuration of the package when there
 is no own one

---
 src/DLMS_SPODES/config_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/config_parser.py b/src/DLMS_SPODES/config_parser.py
index 6ef84dd..afd59a3 100644
--- a/src/DLMS_SPODES/config_parser.py
+++ b/src/DLMS_SPODES/config_parser.py
@@ -38,9 +38,9 @@ def get_values2(*args: str) -> tuple[str, int]:
 
 
 if not os.path.isfile(path := ".//config.toml"):
-    path = F"{os.path.dirname(__file__)}{path}"
-elif not os.path.isfile(path):
-    logger.warning("NOT FIND CONFIGURATION: <config.toml>")
+    path = os.path.join(os.path.dirname(__file__), "config.toml")
+    if not os.path.isfile(path):
+        logger.warning("NOT FIND CONFIGURATION: <config.toml>")
 with open(path, "rb") as f:
     config = tomllib.load(f)
     logger.info(F"Find configuration <config.toml> with path: {f}")
-- 
2.43.0


From 8a324a0a80f625f26d4451a43ef49df5d4850c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 104/140] fix: objects with parts of the name not in the tables
 have a name too

---
 src/DLMS_SPODES/relation_to_OBIS.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index beb3ab7..c59dcd8 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -59,7 +59,8 @@ def get_harmonics_name(classification: int) -> str:
         case 126:                             return rn.ALL_HARMONICS
         case 127:                             return rn.ALL_HARMONICS_TO_NOMINAL_VALUE_RATIO
         case _ if 120 >= classification >= 1: return F"{rn.HARMONIC} {classification}"
-        case _: raise ValueError(F"for get harmonics unknown {classification=}")
+        case _ if 128 <= classification <= 254: return F"{rn.MANUFACTURER_SPECIFIC} {classification}"
+        case _: return F"{rn.RESERVED} {classification}"
 
 
 def get_processing_names(d: int) -> str:
@@ -124,7 +125,8 @@ def get_processing_names(d: int) -> str:
         case 129: return rn.RU_NEGATIVE_DEVIATION
         case 133: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.BILLING_PERIOD}"
         case 134: return rn.RU_CHANGE_LIMIT_LEVEL
-        case _:  raise ValueError(F'Unknown Processing of measurement values {d}')
+        case _ if 128 <= d <= 254: return F"{rn.MANUFACTURER_SPECIFIC} {d}"
+        case _:  return F"{rn.RESERVED} {d}"
 
 
 def get_rate(value: int) -> str:
@@ -407,7 +409,7 @@ def get_name(logical_name: cst.LogicalName) -> str:
             return F"{handle_B(b)}{rn.REACTIVE_FACTOR} {get_processing_names(d)}"
         case  1, 0, 147 as c, 133, 0: return F"{get_obj_names(c)} {rn.BILLING_PERIOD}"
         case  1, 0, 148, 36, 0: return F"{rn.OVER_VOLTAGE_COUNTER} {rn.BILLING_PERIOD}"
-        case 1, b, 81, 7, e if e < 78:
+        case 1, b, 81, 7, e if e < 78 and e % 10 < 8:
             angel_values = (rn.U_L1, rn.U_L2, rn.U_L3, rn.ERROR, rn.I_L1, rn.I_L2, rn.I_L3, rn.I_L0)
             to_, from_ = divmod(logical_name.e, 10)
             return F"{F'{rn.ANGLE_FROM} {angel_values[from_]} {rn.TO} {angel_values[to_]}'}{handle_B(b)}"
-- 
2.43.0


From c5d24d6040dff33af8ea90b1f28a773115b8f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 105/140] fix: names of parameter changes and operating
 statuses in english

---
 .../Values/EN/relation_to_obis_names.py       | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
index 73169fb..f639562 100644
--- a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
+++ b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
@@ -384,3 +384,23 @@ SPODES3_NOT_METROLOGICAL_FIRMWARE_ID = "RU. SPODES3. Not metrological firmware i
 # 7.2.4 Summary of rules for manufacturer, utility, consortia and country specific codes. Table 54
 # KPZ - Kurgansky Priborostroitelny Zavod
 KPZ_INTERFACE_LIST = "KPZ. Interface list"
+
+# Parameter changes, calibration and access
+NUMBER_OF_CONFIGURATION_PROGRAM_CHANGES = "Number of configuration program changes"
+DATE_A_OF_LAST_CONFIGURATION_PROGRAM_CHANGE = "Date of last configuration program change"
+DATE_A_OF_LAST_TIME_SWITCH_PROGRAM_CHANGE = "Date of last time switch program change"
+DATE_A_OF_LAST_RIPPLE_CONTROL_RECEIVER_PROGRAM_CHANGE = "Date of last ripple control receiver program change"
+STATUS_OF_SECURITY_SWITCHES = "Status of security switches"
+DATE_A_OF_LAST_CALIBRATION = "Date of last calibration"
+DATE_A_OF_NEXT_CONFIGURATION_PROGRAM_CHANGE = "Date of next configuration program change"
+DATE_A_OF_ACTIVATION_OF_THE_PASSIVE_CALENDAR = "Date of activation of the passive calendar"
+NUMBER_OF_PROTECTED_CONFIGURATION_PROGRAM_CHANGES = "Number of protected configuration program changes"
+DATE_A_OF_LAST_PROTECTED_CONFIGURATION_PROGRAM_CHANGE = "Date of last protected configuration program change"
+DATE_A_CORRECTED_OF_LAST_CLOCK_SYNCHRONIZATION_SETTING = "Date (corrected) of last clock synchronization / setting"
+DATE_OF_LAST_FIRMWARE_ACTIVATION = "Date of last firmware activation"
+# Internal operating status
+INTERNAL_OPERATING_STATUS_GLOBAL = "Internal operating status, global"
+INTERNAL_OPERATING_STATUS_1 = "Power quality status (profile of daily testimony)"
+INTERNAL_OPERATING_STATUS_2 = "Internal operating status 2"
+INTERNAL_OPERATING_STATUS_3 = "Internal operating status 3"
+INTERNAL_OPERATING_STATUS_4 = "Power quality status (power quality log)"
-- 
2.43.0


From 8332d7cff5fdecc4e657d6e07abc1b4d51adbb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:37 +0000
Subject: [PATCH 106/140] fix: daylight saving is the bit 7 of a clock status

---
 src/DLMS_SPODES/cosem_interface_classes/clock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/clock.py b/src/DLMS_SPODES/cosem_interface_classes/clock.py
index b0f8c6f..2f53511 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/clock.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/clock.py
@@ -18,7 +18,7 @@ class ClockStatus(cdt.Unsigned):
             ret += ' different clock base'
         if bool(value & 0b1000):
             ret += ' invalid clock status'
-        if bool(value & 0b1000000):
+        if bool(value & 0b1000_0000):
             ret += ' daylight saving active'
         if ret == '':
             ret = 'empty'
-- 
2.43.0


From b0e9eaeb9ac2c4ccfc1f5e2e5523a95866e3b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 107/140] fix: report device ids that are numbers

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index f71356f..03826c6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -18,7 +18,7 @@ def get_obj_report(
         value = obj.get_attr(i)
         if isinstance(value, cdt.SimpleDataType):
             match obj, i:
-                case collection.impl.data.DLMSDeviceIDObject(), 2: value = value.to_str()
+                case collection.impl.data.DLMSDeviceIDObject(), 2 if not isinstance(value, cdt.Digital): value = value.to_str()
                 case _: pass
             if isinstance(value, cdt.OctetString):
                 pass
-- 
2.43.0


From dae3dab2349d3b5ada7bc7086cf98ec5e582d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 108/140] fix: a text of octets shows its spaces

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 37e907e..86462a1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1677,8 +1677,8 @@ class OctetString(_String, SimpleDataType):
         """ decode to cp1251 by default, replace to '?' if unsupported """
         temp = list()
         for i in self.contents:
-            temp.append(i if i > 32 else 63)
-        return bytes(temp).decode(encoding)
+            temp.append(i if i >= 32 else 63)
+        return bytes(temp).decode(encoding, errors="replace")
 
     def __bytes__(self):
         return self.contents
-- 
2.43.0


From fc3341d7ffd20bba0e1b06a42817f05631af1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 109/140] fix: methods of security setup are told by their
 indexes

---
 .../cosem_interface_classes/security_setup/ver1.py    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
index 98cf732..97a5222 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
@@ -143,14 +143,17 @@ class SecuritySetup(ver0.SecuritySetup):
     def key_agreement(self) -> KeyAgreement:
         return self .get_meth(3)
 
-    def generate_certificate_request(self) -> KeyPair:
+    def generate_key_pair(self) -> KeyPair:
         return self .get_meth(4)
 
-    def import_certificate(self) -> cdt.OctetString:
+    def generate_certificate_request(self) -> KeyPair:
         return self .get_meth(5)
 
-    def export_certificate(self) -> CertificateIdentification:
+    def import_certificate(self) -> cdt.OctetString:
         return self .get_meth(6)
 
-    def remove_certificate(self) -> CertificateIdentification:
+    def export_certificate(self) -> CertificateIdentification:
         return self .get_meth(7)
+
+    def remove_certificate(self) -> CertificateIdentification:
+        return self .get_meth(8)
-- 
2.43.0


From 96827d92fdc887ac5db9b6fddfbe2351f0f8c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 110/140] fix: entries of a schedule know the indexes of their
 table

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index 332d2fb..ccc5b1f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -49,12 +49,9 @@ class Entries(cdt.Array):
     TYPE = ScheduleTableEntry
     unique = True
 
-    def __init__(self, value: bytes = None):
-        super(Entries, self).__init__(value)
-        # setting callback for validate schedule_table_entry index
-        for schedule_table_entry in self:
-            schedule_table_entry: ScheduleTableEntry
-            schedule_table_entry.index.set_callback(self.get_indexes)
+    def append_validate(self, element: ScheduleTableEntry):
+        """setting callback for validate schedule_table_entry index"""
+        element.index.set_callback(self.get_indexes)
 
     def get_indexes(self) -> list[int]:
         """ getter for callback Index """
@@ -140,8 +137,8 @@ class Schedule(ic.COSEMInterfaceClasses):
                   ic.ICMElement("delete", DataDelete))
 
     def characteristics_init(self):
-        self.set_attr(2, None)
         self._cbs_attr_post_init.update({2: self.__set_index_cbs})
+        self.set_attr(2, None)
 
     @property
     def entries(self) -> Entries:
-- 
2.43.0


From 46e2785c201ce4846ebe4fe84881511d4f7349da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 111/140] fix: the methods of a copied schedule know the
 indexes of its entries

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index ccc5b1f..a543a05 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -159,7 +159,9 @@ class Schedule(ic.COSEMInterfaceClasses):
     def __set_index_cbs(self):
         """ set callbacks to methods """
         try:
-            indexes: Callable = self.entries.get_indexes
+            def indexes() -> list[int]:
+                return self.entries.get_indexes()
+
             self.enable_disable.firstIndexA.set_callback(indexes)
             self.enable_disable.firstIndexB.set_callback(indexes)
             self.enable_disable.lastIndexA.set_callback(indexes)
-- 
2.43.0


From b0ec086fa622470ce3bc87bad7475332450b9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 112/140] fix: a special day to delete is looked up in the
 current entries

---
 src/DLMS_SPODES/cosem_interface_classes/special_days_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index 29be088..d2310e7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -75,7 +75,7 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
 
     def __set_delete(self):
         try:
-            self.delete.register_cb_preset(self.entries.validate_exist_index)
+            self.delete.register_cb_preset(lambda value: self.entries.validate_exist_index(value))
         except KeyError:  # At init time
             print('set delete NO:')
 
-- 
2.43.0


From 5ad1e160e1b74e2de4faae6a89b2d7ccc93edeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 113/140] fix: a special day keeps its index when it is set
 again

---
 .../cosem_interface_classes/special_days_table.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index d2310e7..1cceb74 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -25,11 +25,11 @@ class Entries(cdt.Array):
     def append_validate(self, element: SpecDayEntry):
         """validate and insert callback for validate change SpecDayEntry"""
         self.__check_index(element.index)
-        element.index.register_cb_preset(self.__check_index)
+        element.index.register_cb_preset(lambda value: self.__check_index(value, element))
 
-    def __check_index(self, value):
-        """validate day_id from DayProfile"""
-        if cdt.LongUnsigned(value) in (entry.index for entry in self.values):
+    def __check_index(self, value, owner: SpecDayEntry = None):
+        """validate index of entry, owner of index is not taken into account"""
+        if cdt.LongUnsigned(value) in (entry.index for entry in self.values if entry is not owner):
             raise ValueError(F'{cdt.LongUnsigned(value)} already exist in {self}')
         else:
             """validate OK"""
-- 
2.43.0


From 0a9d09b2f304e61ccecae2b8d4591771e633e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 114/140] fix: insert validates an element as append does

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 86462a1..d24c013 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -309,6 +309,9 @@ class __Array(ABC):
 
     def insert(self, index: int, element: CommonDataType):
         if isinstance(element, self.TYPE):
+            if self.unique and element in self.values:
+                raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
+            self.append_validate(element)
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-- 
2.43.0


From 2c7f4875e3e768937e76c2aba15117e80a9d7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 115/140] fix: tables of a copied activity calendar are linked
 with each other

---
 .../activity_calendar.py                      | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index af53105..d454609 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -1,5 +1,5 @@
 import datetime
-from typing import Callable, Iterator
+from typing import Callable, Iterator, Self
 from . import special_days_table as sdt
 from .__class_init__ import *
 from ..types.implementations import integers
@@ -145,11 +145,21 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         self.set_attr(ai.DAY_PROFILE_TABLE_PASSIVE, None)
         self.set_attr(ai.WEEK_PROFILE_TABLE_PASSIVE, None)
         self.set_attr(ai.SEASON_PROFILE_PASSIVE, None)
-
-        self.week_profile_table_active.cb_get_day_ids = self.day_profile_table_active.get_day_ids
-        self.week_profile_table_passive.cb_get_day_ids = self.day_profile_table_passive.get_day_ids
-        self.season_profile_active.cb_get_week_profile_names = self.week_profile_table_active.get_week_profile_names
-        self.season_profile_passive.cb_get_week_profile_names = self.week_profile_table_passive.get_week_profile_names
+        self.__link_tables()
+
+    def __link_tables(self):
+        """weeks refer to the days, seasons refer to the weeks of the own calendar"""
+        for seasons, weeks, days in ((self.season_profile_active, self.week_profile_table_active, self.day_profile_table_active),
+                                     (self.season_profile_passive, self.week_profile_table_passive, self.day_profile_table_passive)):
+            if weeks is not None and days is not None:
+                weeks.cb_get_day_ids = days.get_day_ids
+            if seasons is not None and weeks is not None:
+                seasons.cb_get_week_profile_names = weeks.get_week_profile_names
+
+    def copy(self, source: Self, association_id: int | None = 3):
+        """override common method, tables may be replaced by it"""
+        super(ActivityCalendar, self).copy(source, association_id)
+        self.__link_tables()
 
     @property
     def calendar_name_active(self) -> cdt.OctetString:
-- 
2.43.0


From 44958df98746a439dfa2e64c57c76b9614084fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 116/140] fix: values of all interface classes are copied
 between collections

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index b1f49e0..e1f1a1c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -288,7 +288,7 @@ class COSEMInterfaceClasses(ABC):
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
         self.__record_time[index-2] = cdt.DateTime(value)
 
-    def get_index_with_attributes(self) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
+    def get_index_with_attributes(self, in_init_order: bool = False) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
         """ if by initiation order is True then need override method for concrete class"""
         return iter(zip(range(1, self.get_attr_length()+1), self.__attributes))
 
-- 
2.43.0


From cd82d22d7d3b82fe97b4196cc22d07f8681df089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 117/140] fix: copying of collection values tells if all was
 written

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a17e293..f428ba1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, lru_cache
+from functools import lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1502,7 +1502,7 @@ class Collection:
     def copy_objects_attr_values_from(self, other: Collection) -> bool:
         """ Copy collections values and return True if all was writen """
         if len(other) != 0:
-            return bool(reduce(lambda a, b: a or b, map(self.copy_obj_attr_values_from, other.values())))
+            return all([self.copy_obj_attr_values_from(obj) for obj in other.values()])
         else:
             return False
 
-- 
2.43.0


From 3f11f067449df771484db37494eb550a17eefb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 118/140] fix: writable attributes are told when an association
 has no object list yet

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index f428ba1..7bfe070 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1477,7 +1477,7 @@ class Collection:
         """return all writable {obj.ln: {attribute_index}}"""
         ret: UsedAttributes = dict()
         for ass in filter(lambda it: it.logical_name.e != 0, self.get_objects_by_class_id(classID.ASSOCIATION_LN)):
-            for list_type in ass.object_list:
+            for list_type in ass.object_list or ():
                 for attr_access in list_type.access_rights.attribute_access:
                     if attr_access.access_mode.is_writable():
                         if ret.get(list_type.logical_name, None) is None:
-- 
2.43.0


From aacae352ae83a7a5d975a56cae4e8ea5b8a4ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 119/140] fix: the attribute tree has no empty branches

---
 .../cosem_interface_classes/collection.py     | 44 ++++++++-----------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 7bfe070..1393f81 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1781,21 +1781,16 @@ class Collection:
         filtered = self.filter_by_ass(ass_id)
         if obj_filter:
             filtered = get_filtered(filtered, obj_filter)
-        ret = get_object_tree(
-            objects=get_sorted(
-                objects=filtered,
-                mode=sort_mode),
-            mode=obj_mode)
-        stack = [(None, None, ret)]
-        while len(stack) != 0:
-            d, k, v = stack.pop()
-            if isinstance(d, dict):
-                for k_, v_ in tuple(d.items()):
-                    if len(v_) == 0:
-                        d.pop(k_)
-            if isinstance(v, list):
-                objects = dict()
-                for obj in v:
+
+        def reduce(node: dict | list) -> dict:
+            """objects with the indexes of attributes, without empty branches"""
+            ret = dict()
+            if isinstance(node, dict):
+                for k, v in node.items():
+                    if len(branch := reduce(v)) != 0:
+                        ret[k] = branch
+            else:
+                for obj in node:
                     indexes = list()
                     for i, attr in obj.get_index_with_attributes():
                         if without_ln and i == 1:
@@ -1807,17 +1802,14 @@ class Collection:
                         else:
                             indexes.append(i)
                     if len(indexes) != 0:
-                        objects[obj] = indexes
-                if len(objects) != 0:
-                    d[k] = objects
-                else:
-                    d.pop(k)
-            elif isinstance(v, dict):
-                for k_, v_ in v.items():
-                    stack.append((v, k_, v_))
-            else:
-                raise ValueError('not support')
-        return ret
+                        ret[obj] = indexes
+            return ret
+
+        return reduce(get_object_tree(
+            objects=get_sorted(
+                objects=filtered,
+                mode=sort_mode),
+            mode=obj_mode))
 
     # def decode(self, file_name: str,
     #            root_tag: str = TagsName.DEVICE_ROOT.value):
-- 
2.43.0


From d60cc88330f5aa34d6067725e9164f75194f7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 120/140] fix: a value whose objects were not known yet is
 finished when it is set again

---
 .../cosem_interface_class.py                  | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index e1f1a1c..c806cc3 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -141,6 +141,8 @@ class COSEMInterfaceClasses(ABC):
         """container with callbacks for post initial attribute by index"""
 
         self._cbs_attr_before_init = dict()
+        self.__not_finished: set[int] = set()
+        """indexes of attributes which post init callback was failed"""
         """container with callbacks for before initial attribute by index"""
 
         self.__record_time = [None] * len(self.A_ELEMENTS)
@@ -246,13 +248,20 @@ class COSEMInterfaceClasses(ABC):
                 cb_func(new_value)
                 self._cbs_attr_before_init.pop(index)
             self.__attributes[index-1] = new_value
-            if cb_func := self._cbs_attr_post_init.get(index, None):
-                cb_func()
-                self._cbs_attr_post_init.pop(index)
-            else:
-                """without callback post init"""
+            self.__post_init(index)
         else:
             self.__attributes[index-1].set(value)
+            if index in self.__not_finished:
+                self.__post_init(index)
+
+    def __post_init(self, index: int):
+        if cb_func := self._cbs_attr_post_init.get(index, None):
+            self.__not_finished.add(index)
+            cb_func()
+            self.__not_finished.discard(index)
+            self._cbs_attr_post_init.pop(index)
+        else:
+            """without callback post init"""
 
     def set_attr_link(self, index: int, link: cdt.CommonDataType):
         # self.__attributes[index - 1] = link  # TODO: without validate now for pass load_objects
-- 
2.43.0


From ba35a2002f8999accb9cab6ff3b5b95ed6788e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 121/140] fix: hundredths over 99 and weekdays outside of 1..7
 are refused

---
 src/DLMS_SPODES/types/common_data_types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d24c013..16453ed 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -823,6 +823,8 @@ class __Date(ABC):
             contents = bytearray(self.contents)
             contents[4] = value
             self.set(contents)
+        else:
+            raise ValueError(F'Week day out of range, got {value}, expected 1..7, 255')
 
     @abstractmethod
     def decode(self) -> datetime.datetime:
@@ -836,6 +838,8 @@ class __Date(ABC):
             value[0:2].replace(b'\xff\xff', b'\x01\x00') + \
             value[2:4].replace(b'\xff', b'\x01').replace(b'\xfe', b'\x01').replace(b'\xfd', b'\x01') + \
             value[4:5].replace(b'\xff', b'\x01')
+        if not 1 <= day_of_week <= 7:
+            raise ValueError(F'Week day out of range, got {day_of_week}, expected 1..7, 255')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
                 value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
@@ -998,7 +1002,8 @@ class __Time(ABC):
             case _ as wrong_value:                    raise ValueError(F"got hundredths={wrong_value} from {self.TAG} contents, must be: 0..99, ff")
 
     def check_time(self):
-        datetime.time(*tuple(self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')))
+        hour, minute, second, hundredths = self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')
+        datetime.time(hour, minute, second, hundredths * 10000)
 
     @property
     def strftime(self) -> str:
-- 
2.43.0


From 43c377b525dc3eb1602448270d20f16017fb9de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 122/140] fix: text of a float is validated as other simple
 types are

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 16453ed..9c38e72 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -655,7 +655,7 @@ class Float(ABC):
         # adding '0' for available set service symbols
         if value[-1] in '.-+exp':
             value += '0'
-        return SimpleDataType(self).validate_from(value, cursor_position)
+        return super().validate_from(value, cursor_position)
 
     def __str__(self):
         return str(self.decode())
-- 
2.43.0


From a370236ea76f033c18795972e93519246f01aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 123/140] fix: bits of a bit string stay numbers when they are
 changed

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index db48938..88de1fe 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -556,11 +556,11 @@ class BitString(UT):
         return ''.join(map(str, self.value))
 
     def __setitem__(self, key: int, value: int | bool):
-        self.value[key] = value
+        self.value[key] = int(value)
 
     def inverse(self, index: int):
         """ inverse one bit by index"""
-        self.value[index] = not self.value[index]
+        self.value[index] = int(not self.value[index])
 
     # def __lshift__(self, other):
     #     for i in range(other):
-- 
2.43.0


From b405d9f19ea69133a2b671591c65aff4b9538125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 124/140] fix: thresholds known already are kept when the
 monitored value is finished

---
 src/DLMS_SPODES/cosem_interface_classes/limiter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/limiter.py b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
index 017835b..28d3908 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/limiter.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
@@ -113,10 +113,11 @@ class Limiter(ic.COSEMInterfaceClasses):
             """monitored value"""
             if m_v is not None:
                 for index in (3, 4, 5):
-                    self.set_attr(index, m_v.encoding)
+                    if self.get_attr(index) is None:
+                        self.set_attr(index, m_v.encoding)
+                        self.get_attr(index).clear()
                     s_v: cdt.CommonDataTypes = self.get_attr(index)
                     """set value"""
-                    s_v.clear()
                     if self.monitored_value.class_id in (long_unsigneds.ClassIDCDT.REGISTER, long_unsigneds.ClassIDCDT.EXT_REGISTER):
                         s_v.SCALER_UNIT = m_o.scaler_unit
             else:
-- 
2.43.0


From bd252beb13af93c4fd7c3586b162ef66e83bb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:02 +0000
Subject: [PATCH 125/140] fix: dont-care told by a text keeps its tag

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 88de1fe..edc9813 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -950,6 +950,10 @@ class DontCare(Null):
     def from_contents(cls, value: bytes) -> Self:
         return cls()
 
+    @classmethod
+    def from_str(cls, value: str) -> Self:
+        return cls()
+
 
 class Data(Choice):
     ELEMENTS = (
-- 
2.43.0


From 13c1b6613df960b14f36725f2bc468292e4d894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:28 +0000
Subject: [PATCH 126/140] fix: dont-care of a pdu buffer told by a text keeps
 its tag

---
 src/DLMS_SPODES/types/cosem_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 5d1a7ea..cae3d0f 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -697,6 +697,9 @@ class Float32(OctetString4):
 
 class DontCare(NULL):
     """ Data::dont-care, keeps own tag """
+    @classmethod
+    def from_str(cls, value: str):
+        return cls(memoryview(b''))
 
 
 class Data(Choice):
-- 
2.43.0


From feceacc3f412b83a04f8dc8d8c8159abc10603e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:23 +0000
Subject: [PATCH 127/140] fix: a choice takes texts with spaces

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index edc9813..d032808 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -347,7 +347,7 @@ class Choice(UT):
 
     @classmethod
     def from_str(cls, value: str) -> Self:
-        tag, value2 = value.split(sep=" ")
+        tag, value2 = value.split(sep=" ", maxsplit=1)
         tag: str
         if not tag.isdigit():
             raise ValueError(F"in {value}, got {tag=}, expected is digit")
-- 
2.43.0


From 13149cdb928ecd12756cc5fa69ba74716226aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 128/140] fix: flags told by a text of more digits than flags
 are refused

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9c38e72..e22581d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -380,6 +380,8 @@ class FlagMixin(ABC):
             case _ as bit_error: raise ValueError(F'Unused bit set: {bin(bit_error)}')
 
     def from_str(self, value: str) -> bytes:
+        if len(value) > len(self):
+            raise ValueError(F'got {len(value)} flags, expected {len(self)}')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
-- 
2.43.0


From 8a9afd4321f4b2dcdb25d81b16311717d7f76621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:59 +0000
Subject: [PATCH 129/140] fix: a SPODES version of no numbers is refused

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 210bd10..3c4572e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -365,7 +365,7 @@ class SPODES3SPODESVersionValue(cdt.OctetString):
     def __init__(self, value="332e30"):
         super(SPODES3SPODESVersionValue, self).__init__(value)
         match AppVersion.from_str(self.contents.decode("utf-8")):
-            case AppVersion(0, 0, 0): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
+            case AppVersion(0, 0): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
             case AppVersion(_, _, None): """valid version"""
             case _: raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
 
-- 
2.43.0


From feac0b636067904eb510c39064e06979e94e2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 130/140] fix: key info of push protection is told by values as
 well

---
 src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
index 6ddf4b2..fccf49c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
@@ -66,7 +66,7 @@ class ConfirmationParameters(cdt.Structure):
 class KeyInfoElement(choices.StructureMixin, cdt.Structure):
     """Override several methods of cdt.Structure. It limited Structure."""
     key_info_type: enums.KeyInfoType
-    key_info_options: choices.KeyInfoOptions
+    key_info_options: choices.key_info_options
 
 
 class ProtectionOptions(cdt.Structure):
-- 
2.43.0


From be20f96d4190d08277d73d14c59d3eceda936ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:13 +0000
Subject: [PATCH 131/140] fix: octets without a character in string values are
 shown replaced

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e22581d..4549c14 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1705,7 +1705,7 @@ class VisibleString(_String, SimpleDataType):
         return bytes(str(value), 'cp1251')
 
     def __str__(self):
-        return bytes([char if char >= 0x20 else 63 for char in self.contents]).decode(encoding='cp1251')
+        return bytes([char if char >= 0x20 else 63 for char in self.contents]).decode(encoding='cp1251', errors='replace')
 
     def __len__(self):
         return len(self.contents)
@@ -1715,7 +1715,7 @@ class VisibleString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i >= 32 else 63)
-        return bytes(temp).decode(encoding)
+        return bytes(temp).decode(encoding, errors="replace")
 
     def to_str(self) -> str:
         return self.decode()
@@ -1732,7 +1732,7 @@ class Utf8String(_String, SimpleDataType):
         return bytes(str(value), "utf-8")
 
     def __str__(self):
-        return self.contents.decode("utf-8")
+        return self.contents.decode("utf-8", errors="replace")
 
     def __len__(self):
         return len(self.contents)
-- 
2.43.0


From b9a8a725155deff26451c81746c6c4584a43e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:45 +0000
Subject: [PATCH 132/140] fix: energy values, error registers and profiles of
 thermal meters are in their groups

---
 .../cosem_interface_classes/collection.py     | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1393f81..2bc27e5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2572,6 +2572,8 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.GENERAL_PURPOSE_OBJECTS_THERMAL
             elif ln.d == 9 and ln.e in (1, 2, 3):
                 return media_id.GENERAL_PURPOSE_OBJECTS_THERMAL
+        elif ln.c in range(1, 14) and ln.d in range(20, 26) and ln.e in range(10) and ln.f == 255:
+            return media_id.MEASURED_VALUES_THERMAL_ENERGY
         elif ln.c in range(1, 8):
             if ln.e in range(10):
                 if ln.d in (0, 1, 2, 3, 7) and ln.f == 255:
@@ -2580,22 +2582,19 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
                 elif ln.d in (1, 2, 4, 5, 12, 13, 14, 15) and ln.f in chain(range(100), range(100, 126)):
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
+                elif ln.d in (5, 15) and ln.f in __range100_and_101_125_and_255:
+                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
             elif ln.d == 6 and ln.e == 255 and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
-        elif ln.e in range(10):
-            if ln.f in __range100_and_101_125_and_255:
-                if ln.c in range(1, 8) and ln.d in (5, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.c in (8, 9) and ln.d in (1, 4, 5, 12, 13, 14, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(10, 14):
-                if ln.d == 0 and ln.f == 255:
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.d in (4, 5, 14, 15) and ln.f in chain(range(100), range(101, 126)):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.d in (6, 7, 10, 11) and ln.f == 255:
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(1, 14) and (ln.d in range(20, 26)) and ln.f == 255:
+        elif ln.c in (8, 9) and ln.e in range(10):
+            if ln.d in (1, 4, 5, 12, 13, 14, 15) and ln.f in __range100_and_101_125_and_255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+        elif ln.c in range(10, 14) and ln.e in range(10):
+            if ln.d == 0 and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.d in (4, 5, 14, 15) and ln.f in chain(range(100), range(101, 126)):
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.d in (6, 7, 10, 11) and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_ENERGY
         elif ln.c == 97 and ln.d == 97 and ln.e in (0, 1, 2):
             return media_id.ERROR_REGISTER_OBJECTS_THERMAL
-- 
2.43.0


From 4eeaf29ff9c2d2a288ccafa20461cf8fbe313bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 133/140] fix: a conformance of other than 24 bits is refused
 however it is told

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index e7ff596..a0818ea 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -52,6 +52,8 @@ class Conformance(cdt.BitString):
             case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
 
     def from_str(self, value: str) -> bytes:
+        if len(value) != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value)} bits, expected {len(self)}')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
@@ -60,8 +62,8 @@ class Conformance(cdt.BitString):
         return value
 
     def from_int(self, value: int) -> bytes:
-        if value < 0:
-            raise ValueError
+        if not 0 <= value < 1 << len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {value=}, expected {len(self)} bits')
         res = 0
         start_bit = 2 ** (len(self) - 1)
         for i in range(len(self)):
@@ -70,6 +72,8 @@ class Conformance(cdt.BitString):
         return res.to_bytes(len(self) // 8, byteorder='big')
 
     def from_bytearray(self, value: bytearray) -> bytes:
+        if len(value) << 3 != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value) << 3} bits, expected {len(self)}')
         return bytes(value)
 
     @classmethod
-- 
2.43.0


From 705ef8d3a17bc97c0c4879c4315e3c8c2ae72981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 134/140] fix: length of the HDLC information field is 128
 octets by default

---
 .../cosem_interface_classes/iec_hdlc_setup/ver1.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index 3bd4237..712a0c7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -10,8 +10,8 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
     A_ELEMENTS = (ic.ICAElement("comm_speed", CommSpeed, 0, 9, 5),
                   ic.ICAElement("windows_size_transmit", cdt.Unsigned, 1, 7, 1),
                   ic.ICAElement("windows_size_receive", cdt.Unsigned, 1, 7, 1),
-                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 128, 32, 2030),
-                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 128, 32, 2030),
+                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 32, 2030, 128),
+                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 32, 2030, 128),
                   ic.ICAElement("inter_octet_time_out", cdt.LongUnsigned, 20, 6000, 25),
                   ic.ICAElement("inactivity_time_out", cdt.LongUnsigned, 0, default=120),
                   ic.ICAElement("device_address", cdt.LongUnsigned, 0x0001, 0x3ffd, default=0x10))  # TODO: not according by BlueBook: need default, minimum is other
-- 
2.43.0


From 36dcfd0ea3420b216adbb724fb8e38be96aa27e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 135/140] fix: times of the preset adjusting are octet strings

---
 src/DLMS_SPODES/cosem_interface_classes/clock.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/clock.py b/src/DLMS_SPODES/cosem_interface_classes/clock.py
index 2f53511..5a6e784 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/clock.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/clock.py
@@ -36,11 +36,11 @@ class ClockBase(cdt.Enum, elements=(0, 1, 2, 3, 4, 5)):
 
 class PresetAdjustingTime(cdt.Structure):
     """ Presets the time to a new value (preset_time) and defines a validity_interval within which the new time can be activated """
-    DEFAULT = b'\x02\x03\x19\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff' \
-              b'\x19\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff\x19\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'
-    preset_time: cdt.DateTime
-    validity_interval_start: cdt.DateTime
-    validity_interval_end: cdt.DateTime
+    DEFAULT = b'\x02\x03\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff' \
+              b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'
+    preset_time: cst.OctetStringDateTime
+    validity_interval_start: cst.OctetStringDateTime
+    validity_interval_end: cst.OctetStringDateTime
 
 
 class ShiftTime(cdt.Long, min=-900, max=900):
-- 
2.43.0


From 0515e9f348efbaee82f10dc5d675642b86e86e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:56 +0000
Subject: [PATCH 136/140] fix: agreed identity of a meter with false value is
 changed later

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2bc27e5..24b0526 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -675,7 +675,7 @@ class Collection:
         return self.__country
 
     def set_country(self, value: CountrySpecificIdentifiers):
-        if not self.__country:
+        if self.__country is None:
             self.__country = value
         else:
             if value != self.__country:
@@ -702,7 +702,7 @@ class Collection:
         return self.__server_type
 
     def set_server_type(self, value: cdt.CommonDataTypes, force: bool = False):
-        if not self.__server_type or force:
+        if self.__server_type is None or force:
             self.__server_type = value
         else:
             if value != self.__server_type:
-- 
2.43.0


From c1e3ae9d46592d692759bcede04b8512f7ae1cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:14 +0000
Subject: [PATCH 137/140] fix: values with -- in them can not be saved with
 comments

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 24b0526..c5675ca 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -8,6 +8,7 @@ import copy
 from struct import pack
 import datetime
 from dataclasses import dataclass
+import re
 from itertools import count, chain
 from functools import lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
@@ -1210,7 +1211,8 @@ class Collection:
                             else:
                                 el_attrib: dict = {'index': str(index)}
                                 if with_comment:
-                                    object_node.append(ET.Comment(F'{el.NAME}: {attr}'))
+                                    note = "".join(c if c.isprintable() else "?" for c in F'{el.NAME}: {attr} ')
+                                    object_node.append(ET.Comment(re.sub("-(?=-)", "- ", note)))
                                 ET.SubElement(object_node, 'attribute', attrib=el_attrib).text = attr.encoding.hex()
                         case _:
                             logger.warning('PASS')
-- 
2.43.0


From 7123ebf96b36cc00d7a6cf1b8aee6e60242cb144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:03 +0000
Subject: [PATCH 138/140] fix: collections of different meter types are told
 the same

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index c5675ca..d4a1080 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -601,7 +601,10 @@ class Collection:
             ldn_obj.set_attr(2, ldn)
 
     def __eq__(self, other: Self):
-        return hash(self) == hash(other)
+        if not isinstance(other, Collection):
+            return NotImplemented
+        return ((self.__manufacturer, self.__server_type, self.__collection_ver)
+                == (other.__manufacturer, other.__server_type, other.__collection_ver))
 
     def __hash__(self):
         return hash((self.__manufacturer, self.__server_type, self.__collection_ver))
-- 
2.43.0


From 554c5c0149902aa05bc91edb25e11d8308203067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:17 +0000
Subject: [PATCH 139/140] fix: an attribute value encoded from text keeps the
 scaler and unit

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index c806cc3..9f24ae2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -233,6 +233,8 @@ class COSEMInterfaceClasses(ABC):
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
             ret = attr.copy()
+            if isinstance(scaler_unit := getattr(attr, "SCALER_UNIT", None), cdt.ScalUnitType):
+                ret.SCALER_UNIT = scaler_unit
             ret.set(value)
             return ret
 
-- 
2.43.0


From 9e214e59dce2814286077be88ebc216a57231550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:20 +0000
Subject: [PATCH 140/140] fix: a file of texts is written whatever characters
 the values hold

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d4a1080..4c539da 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1189,7 +1189,7 @@ class Collection:
                                     {"name": str(obj.get_attr_element(index)),
                                      "index": str(index)})
                                 if isinstance(attr, cdt.SimpleDataType):
-                                    attr_el.text = str(attr)
+                                    attr_el.text = get_xml_text(attr)
                                 elif isinstance(attr, cdt.ComplexDataType):
                                     attr_el.attrib["type"] = "array" if attr.TAG == b'\x01' else "struct"  # todo: make better
                                     stack: list = [(attr_el, "attr_el_name", iter(attr))]
@@ -1208,7 +1208,7 @@ class Collection:
                                             else:
                                                 ET.SubElement(node,
                                                               "simple",
-                                                              attrib={"name": name}).text = str(value)
+                                                              attrib={"name": name}).text = get_xml_text(value)
                                         else:
                                             stack.pop()
                             else:
@@ -1878,6 +1878,11 @@ class Collection:
     #             xml_declaration=True))
 
 
+def get_xml_text(value) -> str:
+    """text of value, characters which XML can't hold are told as ?"""
+    return re.sub("[^\\t\\n\\r\\x20-\\uD7FF\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]", "?", str(value))
+
+
 def write_file(file_name: str, content: bytes):
     """write the file as a whole: if it fails then the file is as before"""
     path = os.path.realpath(file_name)
-- 
2.43.0

