From 276f0d7b812edb18679e3b78076511f6c7394d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:16 +0000
Subject: [PATCH 01/29] fix: report an unknown binary header as a
 ConvertException

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..776e9c9 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -562,7 +562,7 @@ def parse_header_and_truncate_binary(
 
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
-- 
2.43.0


From d5a85e9e8205fafbea562f1f3ed3a309c0edea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:19 +0000
Subject: [PATCH 02/29] fix: refuse binary strings with characters other than 0
 and 1

---
 epcpy/utils/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 776e9c9..8e35103 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -558,6 +558,9 @@ def parse_header_and_truncate_binary(
     Returns:
         Tuple[Enum, str]: Scheme and truncated binary
     """
+    if not re.fullmatch("[01]*", binary_string):
+        raise ConvertException(message=f"Invalid binary string {binary_string}")
+
     header = binary_string[:8]
 
     try:
-- 
2.43.0


From 841f36b5d03f68acfc3863b342d195403c624fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:22 +0000
Subject: [PATCH 03/29] fix: report missing fields in short variable length
 tags as a ConvertException

---
 epcpy/utils/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 8e35103..a6f6ce3 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -90,6 +90,9 @@ def binary_to_int(binary: str) -> int:
     Returns:
         int: Integer value of binary string
     """
+    if len(binary) == 0:
+        raise ConvertException(message="Binary string too short")
+
     return int(binary, 2)
 
 
-- 
2.43.0


From c150bb42dd8696b48de33aecc65db2beeda0f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 04/29] fix: refuse malformed hexadecimal strings with a
 ConvertException

---
 epcpy/utils/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index a6f6ce3..c52f88f 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -143,6 +143,9 @@ def hex_to_binary(hex_string: str) -> str:
     Returns:
         str: Binary string
     """
+    if not re.fullmatch("[0-9a-fA-F]+", hex_string):
+        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
+
     return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
 
 
-- 
2.43.0


From b6841b0fd9c54d00bfeafb238dfc44ddcf475230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:27 +0000
Subject: [PATCH 05/29] fix: refuse malformed base64 strings with a
 ConvertException

---
 epcpy/utils/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index c52f88f..08fdfbf 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -119,7 +119,10 @@ def base64_to_hex(base64_string: str) -> str:
         str: Hexadecimal representation
     """
     # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    try:
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
 
 
 def hex_to_base64(hex_string: str) -> str:
-- 
2.43.0


From 4dc3e6d36ce0f0be426d684011951eb9ff5a27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:30 +0000
Subject: [PATCH 06/29] fix: refuse strings that are no URI in the generic URI
 parsers

---
 epcpy/utils/parsers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..7873b2d 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,6 +148,9 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
+    if not EPC_URI_REGEX.fullmatch(epc_pure_identity_uri):
+        raise ConvertException(message="Invalid EPC URI")
+
     identifier = epc_pure_identity_uri.split(":")[3]
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
@@ -317,6 +320,9 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
+    if not TAG_URI_REGEX.fullmatch(epc_tag_uri):
+        raise ConvertException(message="Invalid EPC tag URI")
+
     identifier = epc_tag_uri.split(":")[3].split("-")[0]
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
-- 
2.43.0


From 43a3a26d988bd39ffc2821822c14ee4a6357cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:33 +0000
Subject: [PATCH 07/29] fix: recognise percent escapes by exactly two
 hexadecimal digits

---
 epcpy/utils/common.py | 2 +-
 epcpy/utils/regex.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 08fdfbf..2af21e9 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -515,7 +515,7 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if len(g) == 0:
             continue
         elif g[0] != "%":
diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..8b415cc 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,7 +1,7 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
 NUMERIC_COMPONENT = "(0|[1-9]\d*)"
-GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
+GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
 PADDED_NUMERIC_COMPONENT = "\d+"
 PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
-- 
2.43.0


From 1da18868e03f7c2615870a29da6ba87c911b597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:36 +0000
Subject: [PATCH 08/29] fix: unescape lower case and other valid percent
 escapes in key and element strings

---
 epcpy/utils/common.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 2af21e9..c0b34c5 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -37,15 +37,7 @@ def replace_uri_escapes(uri: str) -> str:
     Returns:
         str: Escaped URI string
     """
-    return (
-        uri.replace("%22", '"')
-        .replace("%26", "&")
-        .replace("%2F", "/")
-        .replace("%3C", "<")
-        .replace("%3E", ">")
-        .replace("%3F", "?")
-        .replace("%25", "%")
-    )
+    return re.sub("%([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), uri)
 
 
 def revert_uri_escapes(uri: str) -> str:
-- 
2.43.0


From 5a7fe24d0d97af30a89ae378ce2842e166e1a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:39 +0000
Subject: [PATCH 09/29] fix: keep parentheses in serials when parsing SGTIN,
 SGLN and LGTIN element strings

---
 epcpy/epc_schemes/lgtin.py | 4 +++-
 epcpy/epc_schemes/sgln.py  | 4 +++-
 epcpy/epc_schemes/sgtin.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..346be84 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,7 +141,9 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(
+            f"\(.{{2}}\)", gs1_element_string, maxsplit=2
+        )
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..4eddc37 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,7 +192,9 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
+        _, digits, chars = re.split(
+            f"\(.{{3}}\)", gs1_element_string, maxsplit=2
+        )
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..7f61c67 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,7 +255,9 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(
+            f"\(.{{2}}\)", gs1_element_string, maxsplit=2
+        )
         chars = revert_uri_escapes(chars)
 
         return cls(
-- 
2.43.0


From c23e5161cb0e68cb46c17e4755bfa72f07227698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:41 +0000
Subject: [PATCH 10/29] fix: keep colons in the asset reference of a GIAI

---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From 464e966c61833ea6b2ec8d6713f0171b12b33e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:44 +0000
Subject: [PATCH 11/29] fix: validate the company prefix length of a UPUI

---
 epcpy/epc_schemes/upui.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..840272b 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,6 +50,11 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
+        if not (6 <= len(self._company_pref) <= 12):
+            raise ConvertException(
+                message=f"Invalid company prefix length {len(self._company_pref)}"
+            )
+
         if len(f"{self._company_pref}{self._item_ref}") != 13:
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
-- 
2.43.0


From bf3ff2d78a3cb89ba91943633ae44cfa8a949ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:46 +0000
Subject: [PATCH 12/29] fix: count an escaped character once when limiting
 GDTI, GRAI, GIAI and CPI lengths

---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..baab3e0 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..f927ea9 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..a40f18c 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..3622695 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From fe4487cebe1a27ea27ec5b154c77a2ede3c82381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:49 +0000
Subject: [PATCH 13/29] fix: check the lengths of the item, piece and total of
 an ITIP separately

---
 epcpy/epc_schemes/itip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..034a5f7 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -148,7 +148,9 @@ class ITIP(GS1Element, TagEncodable):
         verify_gs3a3_component(self._serial)
 
         if (
-            len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
+            len(f"{self._company_pref}{self._item_ref}") != 13
+            or len(self._piece) != 2
+            or len(self._total) != 2
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
         ):
-- 
2.43.0


From bf502c52232b8b8ef654d885204e84534887abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:52 +0000
Subject: [PATCH 14/29] fix: refuse to binary encode values the coding scheme
 cannot represent

---
 epcpy/epc_schemes/cpi.py   | 5 +++++
 epcpy/epc_schemes/gdti.py  | 5 +++++
 epcpy/epc_schemes/giai.py  | 5 +++++
 epcpy/epc_schemes/grai.py  | 5 +++++
 epcpy/epc_schemes/itip.py  | 5 +++++
 epcpy/epc_schemes/sgln.py  | 5 +++++
 epcpy/epc_schemes/sgtin.py | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index baab3e0..e334ea3 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -304,6 +304,11 @@ class CPI(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # The tag URI refuses values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index f927ea9..d944830 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -248,6 +248,11 @@ class GDTI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # The tag URI refuses values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index a40f18c..830c129 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -308,6 +308,11 @@ class GIAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # The tag URI refuses values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 3622695..5485343 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -243,6 +243,11 @@ class GRAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # The tag URI refuses values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 034a5f7..11ee857 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -246,6 +246,11 @@ class ITIP(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # The tag URI refuses values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index 4eddc37..ad5fab9 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -245,6 +245,11 @@ class SGLN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # The tag URI refuses values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 7f61c67..a344d45 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -309,6 +309,11 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # The tag URI refuses values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From f59a31d9a0d8f114a2de8f978f1bbb72b56b2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:55 +0000
Subject: [PATCH 15/29] fix: look for ADI terminators on 6-bit boundaries only

---
 epcpy/epc_schemes/adi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..80dff46 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,21 +200,22 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        groups = re.findall("." * 6, truncated_binary[50:])
+
+        if groups.count("000000") < 2:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_size = groups.index("000000")
+        part_number_binary = "".join(groups[:part_number_size])
+        serial_binary = "".join(groups[part_number_size + 1 :])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
         part_number_string = decode_string_six_bits(part_number_binary, 32)
 
-        serial_string = decode_string_six_bits(serial_binary_trimmed, 30)
+        serial_string = decode_string_six_bits(serial_binary, 30)
 
         return cls.from_tag_uri(
             f"{cls.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_string}.{cage_code_string}.{part_number_string}.{serial_string}"
-- 
2.43.0


From 670e3d8cea5f7b9c46432ab671f14df378985735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:59 +0000
Subject: [PATCH 16/29] fix: refuse tag URIs with trailing characters

---
 epcpy/epc_schemes/base_scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index c951c98..7171edc 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -183,7 +183,7 @@ class TagEncodable(EPCScheme):
         Returns:
             TagEncodable: Instance of TagEncodable class
         """
-        if not TagEncodable.TAG_URI_REGEX.match(epc_tag_uri):
+        if not TagEncodable.TAG_URI_REGEX.fullmatch(epc_tag_uri):
             raise ConvertException(message=f"Invalid EPC tag URI {epc_tag_uri}")
 
         epc_scheme = epc_tag_uri.split(":")[3]
-- 
2.43.0


From bf347e90cae6948d5d94f8748aa773f19c5ced2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:02 +0000
Subject: [PATCH 17/29] fix: accept ASCII digits only

---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index 8b415cc..36bba47 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From 0f7548ab85c26d4acd7ca90840fde06d3a7576a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:05 +0000
Subject: [PATCH 18/29] fix: refuse out of range references when decoding
 unpadded partitions

---
 epcpy/utils/common.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index c0b34c5..be8b021 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -352,13 +352,12 @@ def decode_partition_table(
     else:
         D = str(binary_to_int(D_bin)) if partition["K"] != 0 else ""
 
-    compare_D = not (
-        unpadded_partition or string_partition or six_bit_variable_partition
-    )
+    numeric_D = not (string_partition or six_bit_variable_partition)
+    compare_D = numeric_D and not unpadded_partition
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
-    if D != "" and compare_D and not int(D) < pow(10, partition["K"]):
+    if D != "" and numeric_D and not int(D) < pow(10, partition["K"]):
         raise ConvertException(message=f"Item reference length too large")
 
     return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
-- 
2.43.0


From e5c74c0ba863a457bfbfed418ff3a45dd6c50882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:08 +0000
Subject: [PATCH 19/29] fix: refuse variable length CPI tags with a truncated
 serial

---
 epcpy/epc_schemes/cpi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index e334ea3..21bdddf 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -369,7 +369,10 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            if len(serial_binary) < 40:
+                raise ConvertException(message="Invalid binary size, serial too short")
+
+            serial_binary = serial_binary[:40]
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
-- 
2.43.0


From 5b6b50163ffc0beb1b5d36c4e1ebeef247058ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:10 +0000
Subject: [PATCH 20/29] fix: refuse 7-bit strings that continue after their
 terminator

---
 epcpy/utils/common.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index be8b021..93b8d3d 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -261,14 +261,19 @@ def decode_string(binary: str) -> str:
     Returns:
         str: Decoded string
     """
-    return "".join(
-        list(
-            map(
-                decode_binary_char,
-                re.findall("." * 7, binary),
-            )
+    chars = list(
+        map(
+            decode_binary_char,
+            re.findall("." * 7, binary),
         )
     )
+    string = "".join(chars)
+
+    # Only empty characters may follow the first empty character
+    if string != "".join(chars[: chars.index("")] if "" in chars else chars):
+        raise ConvertException(message="Invalid characters after string terminator")
+
+    return string
 
 
 def encode_partition_table(
-- 
2.43.0


From 8fbe86f9c185b8d094efbff671de831e35474bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:13 +0000
Subject: [PATCH 21/29] fix: pass positional arguments of hex and base64 on to
 the encoder

---
 epcpy/epc_schemes/base_scheme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index 7171edc..d3249bf 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -109,7 +109,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The hexadecimal representation.
         """
-        binary = self.binary(**kwargs)
+        binary = self.binary(*args, **kwargs)
 
         padding = (16 - (len(binary) % 16)) % 16
         padded_binary = f"{binary:<0{len(binary) + padding}}"
@@ -122,7 +122,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The base64 representation.
         """
-        hex_string = self.hex(**kwargs)
+        hex_string = self.hex(*args, **kwargs)
 
         return hex_to_base64(hex_string)
 
-- 
2.43.0


From 3cab9abb905032b674eab17e69767877552f5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:16 +0000
Subject: [PATCH 22/29] fix: encode the largest fixed width integer that the
 decoder accepts

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 93b8d3d..e9b6e4f 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -420,7 +420,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) > (pow(10, int(bit_count * log(2) / log(10))) - 1):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From 08b1b7215f597cfd2637bcf64e89994fb6ddb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:31 +0000
Subject: [PATCH 23/29] fix: refuse percent characters in six bit strings
 instead of reading them as escapes

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index e9b6e4f..7ed5ebe 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -205,7 +205,7 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
     if len(res) > max_chars:
         raise ConvertException(message="Too many characters decoded!")
 
-    return res.replace("#", "%23").replace("/", "%2F")
+    return res.replace("%", "%25").replace("#", "%23").replace("/", "%2F")
 
 
 def encode_string_six_bits(string: str) -> str:
-- 
2.43.0


From d9f51796e768cd1abb7469cbb57f7cc606222e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:04 +0000
Subject: [PATCH 24/29] fix: do not pass the CPI tag URI through the object
 when returning it

---
 epcpy/epc_schemes/cpi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 21bdddf..b51a6ca 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -286,9 +286,7 @@ class CPI(GS1Element, TagEncodable):
         ):
             raise ConvertException(message=f"Invalid serial value {self._serial}")
 
-        self._tag_uri = f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
-
-        return self._tag_uri
+        return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
 
     def binary(
         self,
-- 
2.43.0


From d7be9925ccbd6eba5b959f9180d099b44926367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:02 +0000
Subject: [PATCH 25/29] fix: reject overlong GID and USDOD numbers instead of
 failing on the integer digit limit

---
 epcpy/epc_schemes/gid.py   | 10 ++++++----
 epcpy/epc_schemes/usdod.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/gid.py b/epcpy/epc_schemes/gid.py
index c5daa6f..02a9216 100644
--- a/epcpy/epc_schemes/gid.py
+++ b/epcpy/epc_schemes/gid.py
@@ -49,14 +49,16 @@ class GID(TagEncodable):
 
         self._manager, self._object, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._manager) >= pow(2, 28):
+        if len(self._manager) > 9 or int(self._manager) >= pow(2, 28):
             raise ConvertException(message=f"Manager out of range: (max: {pow(2, 28)})")
 
-        if int(self._object) >= pow(2, 24):
+        if len(self._object) > 8 or int(self._object) >= pow(2, 24):
             raise ConvertException(message=f"Object out of range: (max: {pow(2, 24)})")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
diff --git a/epcpy/epc_schemes/usdod.py b/epcpy/epc_schemes/usdod.py
index 119cd5f..a3aabb6 100644
--- a/epcpy/epc_schemes/usdod.py
+++ b/epcpy/epc_schemes/usdod.py
@@ -70,8 +70,10 @@ class USDOD(TagEncodable):
 
         self._cage_dodaac, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
-- 
2.43.0


From 19ae9acd788d814724b16af1bc36c20ad7e86fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:02 +0000
Subject: [PATCH 26/29] fix: refuse USDOD tags with a space inside the CAGE
 code instead of dropping it

---
 epcpy/utils/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 7ed5ebe..a7d5731 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -454,9 +454,11 @@ def decode_cage_code(binary: str) -> str:
     Returns:
         str: Decoded string
     """
-    return "".join(
+    chars = "".join(
         [chr(int(g, 2)) if g != "" else "" for g in re.split("([0-1]{8})", binary)]
-    ).replace(" ", "")
+    )
+
+    return chars[1:] if chars.startswith(" ") else chars
 
 
 def encode_cage_code(chars: str) -> str:
-- 
2.43.0


From ddaf1aa6dc4be0711a51c87754d8524b5130fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:06 +0000
Subject: [PATCH 27/29] fix: refuse ADI tags with an empty character inside the
 CAGE code

---
 epcpy/utils/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index a7d5731..aaf95f3 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -485,6 +485,9 @@ def decode_cage_code_six_bits(binary: str) -> str:
     if binary.startswith("100000"):
         binary = binary[6:]
 
+    if "000000" in re.findall("." * 6, binary):
+        raise ConvertException(message="Empty character in cage code")
+
     return decode_string_six_bits(binary, 6)
 
 
-- 
2.43.0


From ea0a2364a36854e13895b358ddf4b795a19a6997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:33 +0000
Subject: [PATCH 28/29] fix: refuse GIAI and GINC element strings with a dot
 inside the company prefix

---
 epcpy/epc_schemes/giai.py | 5 +++++
 epcpy/epc_schemes/ginc.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 830c129..008e814 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -254,6 +254,11 @@ class GIAI(TagEncodable, GS1Keyed):
         chars = gs1_element_string[6 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
+        if "." in digits:
+            raise ConvertException(
+                message=f"Invalid company prefix in GS1 element string {gs1_element_string}"
+            )
+
         return cls(f"urn:epc:id:giai:{digits}.{chars}")
 
     def tag_uri(
diff --git a/epcpy/epc_schemes/ginc.py b/epcpy/epc_schemes/ginc.py
index 175ef3d..eb340cb 100644
--- a/epcpy/epc_schemes/ginc.py
+++ b/epcpy/epc_schemes/ginc.py
@@ -102,4 +102,9 @@ class GINC(GS1Keyed):
         chars = gs1_element_string[5 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
+        if "." in digits:
+            raise ConvertException(
+                message=f"Invalid company prefix in GS1 element string {gs1_element_string}"
+            )
+
         return cls(f"urn:epc:id:ginc:{digits}.{chars}")
-- 
2.43.0


From 18d96bc578a41b7741cb3b11b829baf6da2da87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:39:08 +0000
Subject: [PATCH 29/29] fix: refuse a GTIN that is not all digits

The check digit place was cut off unexamined, so a letter there was accepted.
---
 epcpy/epc_schemes/sgtin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index a344d45..07d83be 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -187,6 +187,9 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             SGTIN: Instance of SGTIN class based on the provided data
         """
+        if not re.fullmatch("[0-9]+", gtin):
+            raise ConvertException(message="Invalid GTIN")
+
         gtin = gtin.zfill(14)
         return cls(
             f"urn:epc:id:sgtin:{gtin[1:1 + company_prefix_length]}.{gtin[0]}{gtin[1 + company_prefix_length:-1]}.{str(serial)}"
-- 
2.43.0

