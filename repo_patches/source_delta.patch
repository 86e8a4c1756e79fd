From 17082595645398ae4c86a0a2af9193a45294c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 1/8] fix: decode accepts text bitmap with whitespace in place
 of hex digits

bytes.fromhex skips whitespace, so a bitmap of fewer than 8 bytes was used.
---
 iso8583/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..01d730d 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,3 +1,4 @@
+import binascii
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
 
 __all__ = ["decode", "DecodeError"]
@@ -379,8 +380,9 @@ def _decode_bitmap(
             else decoded_field_data
         )
 
+        # Unlike bytes.fromhex, a2b_hex does not skip over whitespace.
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            bitmap = binascii.a2b_hex(decoded_field_data)
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
-- 
2.43.0


From c37ba7a0173f823ce58813a738007ccfd11d14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 2/8] fix: decode accepts field lengths that are not plain
 digits

int() takes "+5", " 5", "1_0", "-1" and digits of other scripts. A negative
length even moved the parser backwards.
---
 iso8583/decoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 01d730d..3e9517e 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -519,9 +519,9 @@ def _decode_field(
                     field_key,
                 ) from None
 
-            try:
-                enc_field_len = int(decoded_length)
-            except Exception:
+            # Only plain digits are a length. On its own, int() also takes
+            # signs, underscores, surrounding whitespace and other scripts.
+            if not (decoded_length.isascii() and decoded_length.isdigit()):
                 raise DecodeError(
                     "Failed to decode field length, non-numeric data",
                     s,
@@ -531,6 +531,8 @@ def _decode_field(
                     field_key,
                 ) from None
 
+            enc_field_len = int(decoded_length)
+
         if enc_field_len > field_spec["max_len"]:
             raise DecodeError(
                 f"Field data is {enc_field_len} {len_count}, larger than maximum {field_spec['max_len']}",
-- 
2.43.0


From 1813b6e3637e08fcf7d07cd519cf8ed48323f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 3/8] fix: decode accepts text field with odd number of nibbles

It took half a byte more than declared and the result could not be encoded.
---
 iso8583/decoder.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 3e9517e..025de33 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -576,6 +576,21 @@ def _decode_field(
             field_key,
         )
 
+    # Text is made of whole bytes. It cannot have odd number of nibbles.
+    if (
+        len_count == "nibbles"
+        and enc_field_len & 1
+        and field_spec["data_enc"] != "b"
+    ):
+        raise DecodeError(
+            f"Field data is {byte_field_len * 2} {len_count}, expecting {enc_field_len}",
+            s,
+            doc_dec,
+            doc_enc,
+            idx,
+            field_key,
+        )
+
     if field_spec["data_enc"] == "b":
         doc_dec[field_key] = doc_enc[field_key]["data"].hex().upper()
         if len_count == "nibbles" and enc_field_len & 1:
-- 
2.43.0


From a24b1fdf3c11436187faa7ce1c294268939e849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 4/8] fix: decode rejects lower-case hex pad

encode writes such a pad, but decode compared it to upper-case hex data.
---
 iso8583/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 025de33..0b97f2c 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -657,11 +657,11 @@ def _remove_pad_field(
         An error decoding ISO8583 bytearray.
     """
     pad: str = field_spec.get("left_pad", "")[:1]
-    if len(pad) > 0 and doc_dec[field_key][:1] == pad:
+    if len(pad) > 0 and doc_dec[field_key][:1] == pad.upper():
         return doc_dec[field_key][1:]
 
     pad = field_spec.get("right_pad", "")[:1]
-    if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
+    if len(pad) > 0 and doc_dec[field_key][-1:] == pad.upper():
         return doc_dec[field_key][:-1]
 
     raise DecodeError(
-- 
2.43.0


From 477c433258f412be55c82309369bf0785e8bd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 5/8] fix: field that specification does not define raises
 KeyError

A bitmap of a received message may announce any field and a dictionary to
encode may hold any field. Raise documented DecodeError and EncodeError.
---
 iso8583/decoder.py | 54 ++++++++++++++++++++++++++++++++++++++++++++--
 iso8583/encoder.py | 46 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 96 insertions(+), 4 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 0b97f2c..664c7da 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -133,7 +133,7 @@ def decode(
             doc_enc,
             idx,
             field,
-            spec[field],
+            _get_field_spec(s, doc_dec, doc_enc, idx, field, spec),
             64,
             False,
             fields,
@@ -156,7 +156,8 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
-        idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
+        field_spec = _get_field_spec(s, doc_dec, doc_enc, idx, field, spec)
+        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)
 
     if idx != len(s):
         raise DecodeError(
@@ -173,6 +174,55 @@ def decode(
 _FieldSpecDict = Mapping[str, Any]
 
 
+def _get_field_spec(
+    s: Union[bytes, bytearray],
+    doc_dec: DecodedDict,
+    doc_enc: EncodedDict,
+    idx: int,
+    field_key: str,
+    spec: SpecDict,
+) -> _FieldSpecDict:
+    r"""Get specification of a field announced by a bitmap.
+
+    Parameters
+    ----------
+    s : bytes or bytearray
+        Encoded ISO8583 data
+    doc_dec : dict
+        Dict containing decoded ISO8583 data
+    doc_enc : dict
+        Dict containing encoded ISO8583 data
+    idx : int
+        Current index in ISO8583 byte array
+    field_key : str
+        Field ID to get specification of
+    spec : dict
+        A Python dict defining ISO8583 specification.
+        See :mod:`iso8583.specs` module for examples.
+
+    Returns
+    -------
+    dict
+        Field specification
+
+    Raises
+    ------
+    DecodeError
+        Field is not in the specification.
+    """
+    try:
+        return spec[field_key]
+    except KeyError:
+        raise DecodeError(
+            "Field is not defined in specifications",
+            s,
+            doc_dec,
+            doc_enc,
+            idx,
+            field_key,
+        ) from None
+
+
 def _decode_header(
     s: Union[bytes, bytearray],
     doc_dec: DecodedDict,
diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..81d46c8 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -137,7 +137,7 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             doc_dec,
             doc_enc,
             "1",
-            spec["1"],
+            _get_field_spec(doc_dec, doc_enc, "1", spec),
             64,
             False,
             secondary_fields,
@@ -157,7 +157,8 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
-        s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
+        field_spec = _get_field_spec(doc_dec, doc_enc, field_key, spec)
+        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
 
     return s, doc_enc
 
@@ -169,6 +170,47 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
 _FieldSpecDict = Mapping[str, Any]
 
 
+def _get_field_spec(
+    doc_dec: DecodedDict,
+    doc_enc: EncodedDict,
+    field_key: str,
+    spec: SpecDict,
+) -> _FieldSpecDict:
+    r"""Get specification of a field to be encoded.
+
+    Parameters
+    ----------
+    doc_dec : dict
+        Dict containing decoded ISO8583 data
+    doc_enc : dict
+        Dict containing encoded ISO8583 data
+    field_key : str
+        Field ID to get specification of
+    spec : dict
+        A Python dict defining ISO8583 specification.
+        See :mod:`iso8583.specs` module for examples.
+
+    Returns
+    -------
+    dict
+        Field specification
+
+    Raises
+    ------
+    EncodeError
+        Field is not in the specification.
+    """
+    try:
+        return spec[field_key]
+    except KeyError:
+        raise EncodeError(
+            "Field is not defined in specifications",
+            doc_dec,
+            doc_enc,
+            field_key,
+        ) from None
+
+
 def _encode_header(
     doc_dec: DecodedDict,
     doc_enc: EncodedDict,
-- 
2.43.0


From ae8a160b7268e53e57e70138464b907f987ab279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 6/8] fix: encode takes numeric keys in any spelling for field
 numbers

Keys such as "02" were silently dropped when "2" was there too and raised
KeyError otherwise. Numeric keys that are not decimal raised ValueError.
---
 iso8583/encoder.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 81d46c8..e011828 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -93,15 +93,21 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_header(doc_dec, doc_enc, spec)
     s += _encode_type(doc_dec, doc_enc, spec)
 
-    try:
-        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
-    except AttributeError:
+    invalid_keys = [k for k in doc_dec.keys() if not isinstance(k, str)]
+    if not invalid_keys:
+        # E.g. "02" or "\u00b2" select no field and must not be mistaken for "2".
+        invalid_keys = [
+            k for k in doc_dec.keys() if k.isnumeric() and not _is_field_number(k)
+        ]
+    if invalid_keys:
         raise EncodeError(
-            f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
+            f"Dictionary contains invalid fields {invalid_keys}",
             doc_dec,
             doc_enc,
             "p",
-        ) from None
+        )
+
+    fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
 
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
@@ -170,6 +176,24 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
 _FieldSpecDict = Mapping[str, Any]
 
 
+def _is_field_number(key: str) -> bool:
+    r"""Determine if a numeric key is a number in its plain decimal spelling.
+
+    Parameters
+    ----------
+    key : str
+        Numeric key
+
+    Returns
+    -------
+    bool
+    """
+    try:
+        return str(int(key)) == key
+    except ValueError:
+        return False
+
+
 def _get_field_spec(
     doc_dec: DecodedDict,
     doc_enc: EncodedDict,
-- 
2.43.0


From 6a427afddea63268bc48cbbdeb7381c2b70a9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 7/8] fix: encode of binary field that is not a string raises
 TypeError

Or UnboundLocalError when the field is counted in nibbles. Raise EncodeError
as text fields do.
---
 iso8583/encoder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index e011828..8ffb9d8 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -613,13 +613,19 @@ def _encode_bindary_field(
     EncodeError
         An error encoding ISO8583 bytearray.
     """
+    data_to_encode = field_data
     try:
         # Odd length nibbles need to be padded because it's not possible to send half a byte
         if len_count == "nibbles" and len(field_data) & 1:
             data_to_encode = _add_pad_field(field_data, field_spec)
-        else:
-            data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
+    except TypeError:
+        raise EncodeError(
+            "Failed to encode field, invalid data",
+            doc_dec,
+            doc_enc,
+            field_key,
+        ) from None
     except Exception:
         if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
             raise EncodeError(
-- 
2.43.0


From 8ec9b3325e7f820d9f691a7b75d1963facfd7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 8/8] fix: decode of text length of thousands of digits raises
 ValueError

---
 iso8583/decoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 664c7da..4241f71 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -571,7 +571,11 @@ def _decode_field(
 
             # Only plain digits are a length. On its own, int() also takes
             # signs, underscores, surrounding whitespace and other scripts.
-            if not (decoded_length.isascii() and decoded_length.isdigit()):
+            try:
+                if not (decoded_length.isascii() and decoded_length.isdigit()):
+                    raise ValueError
+                enc_field_len = int(decoded_length)
+            except Exception:
                 raise DecodeError(
                     "Failed to decode field length, non-numeric data",
                     s,
@@ -581,8 +585,6 @@ def _decode_field(
                     field_key,
                 ) from None
 
-            enc_field_len = int(decoded_length)
-
         if enc_field_len > field_spec["max_len"]:
             raise DecodeError(
                 f"Field data is {enc_field_len} {len_count}, larger than maximum {field_spec['max_len']}",
-- 
2.43.0

