From e0126633626e312ffa71a83d0cab53a827325e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 1/9] fix: decode I256 values into Primitive::I256 rather than
 Primitive::U256

The tracing decoder already did this; the standard decoder lost the signedness.
---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..f9102c7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From dad940763dfe55d9e8eb50120b977a4908ca2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 2/9] fix: don't skip too far when a custom parser consumes
 non-ASCII input

The parser position was advanced by one char for each byte that a custom
parser consumed, so multi-byte chars led to subsequent input being skipped.
---
 src/string_impls/from_string.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..645bfbb 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -235,10 +235,9 @@ fn parse_value(
                     Ok(value) => {
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
-                        // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
-                            t.next();
-                        }
+                        // to preserve the full string and offsets. Tokens are chars, so compare
+                        // byte lengths rather than counting how many bytes were consumed.
+                        while t.remaining().len() > cursor.len() && t.next().is_some() {}
                         return Ok(value);
                     }
                     Err(e) => {
-- 
2.43.0


From 3bd0ee4d7bf24b817e4760fca55abbf6d8f43feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 3/9] fix: don't trust the encoded length of a sequence when
 allocating space for it

A handful of bytes claiming to be a very long sequence led to an attempt to
allocate hundreds of GB (and so to an abort) instead of a decode error.
---
 src/scale_impls/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f9102c7..e8e782a 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -72,10 +72,14 @@ where
     Ok(val)
 }
 
+// The length of a sequence comes from the (untrusted) bytes that we're decoding, so allocate
+// space for no more than this many items up front; we'll grow as needed beyond that.
+const MAX_PREALLOCATION: usize = 1024;
+
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        let mut vals = Vec::with_capacity($value.remaining().min(MAX_PREALLOCATION));
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
-- 
2.43.0


From f05150843793a2e5ac6d506d8e595656d7e8f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 4/9] fix: parse variants whose names begin with (or are) true
 or false

A variant like trueish (1) was printed with a bare name, which was then parsed
as the bool true, leaving the rest of the input unparsed. Bools are now only
parsed if no further ident chars follow, and variants named exactly true or
false are printed in the quoted form.
---
 src/string_impls/from_string.rs | 14 ++++++++++----
 src/string_impls/to_string.rs   |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 645bfbb..2e32981 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -383,12 +383,18 @@ fn parse_bit_sequence(t: &mut StrTokens) -> Result<BitSequence, Option<ParseErro
 
 // Parse a bool (`true` or `false`)
 fn parse_bool(t: &mut StrTokens) -> Option<bool> {
-    if t.tokens("true".chars()) {
-        Some(true)
+    let val = if t.tokens("true".chars()) {
+        true
     } else if t.tokens("false".chars()) {
-        Some(false)
+        false
     } else {
-        None
+        return None;
+    };
+
+    // If we're midway through an ident (eg `trueish (1)`) then it's not a bool.
+    match t.peek() {
+        Some(c) if c.is_alphanumeric() || c == '_' => None,
+        _ => Some(val),
     }
 }
 
diff --git a/src/string_impls/to_string.rs b/src/string_impls/to_string.rs
index 060afba..0ed75a9 100644
--- a/src/string_impls/to_string.rs
+++ b/src/string_impls/to_string.rs
@@ -431,7 +431,8 @@ fn fmt_variant<T, W: core::fmt::Write>(
     v: &Variant<T>,
     f: &mut Formatter<T, W>,
 ) -> core::fmt::Result {
-    if is_ident(&v.name) {
+    // "true" and "false" look like idents but would be parsed back into bools.
+    if is_ident(&v.name) && v.name != "true" && v.name != "false" {
         f.write_str(&v.name)?;
     } else {
         // If the variant name isn't a valid ident, we parse it into
-- 
2.43.0


From e6167722e59d56942a827b10b626befc869f0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 5/9] fix: encode chars into the char type

---
 src/scale_impls/encode.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5dcebee..f687c09 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -351,7 +351,7 @@ fn encode_primitive<R: TypeResolver>(
 ) -> Result<(), Error> {
     match value {
         Primitive::Bool(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::Char(val) => val.encode_as_type_to(type_id, types, bytes),
+        Primitive::Char(val) => encode_char(*val, type_id, types, bytes),
         Primitive::String(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::U128(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::I128(val) => val.encode_as_type_to(type_id, types, bytes),
@@ -360,6 +360,26 @@ fn encode_primitive<R: TypeResolver>(
     }
 }
 
+// `scale_encode` only knows how to encode chars into number types, so we handle the "char" type
+// (which has the same representation as a u32) here and leave everything else to it.
+fn encode_char<R: TypeResolver>(
+    value: char,
+    type_id: R::TypeId,
+    types: &R,
+    bytes: &mut Vec<u8>,
+) -> Result<(), Error> {
+    let (inner_type_id, _) = find_single_entry_with_same_repr::<R>(type_id.clone(), types);
+    let visitor = scale_type_resolver::visitor::new((), |_, _| false)
+        .visit_primitive(|_, primitive| primitive == scale_type_resolver::Primitive::Char);
+
+    if let Ok(true) = types.resolve_type(inner_type_id, visitor) {
+        (value as u32).encode_to(bytes);
+        Ok(())
+    } else {
+        value.encode_as_type_to(type_id, types, bytes)
+    }
+}
+
 fn encode_bitsequence<R: TypeResolver>(
     value: &Bits,
     type_id: R::TypeId,
-- 
2.43.0


From 6655b648ade88e6cd1963237790fdf2c9384a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 6/9] fix: encode nested newtype wrappers layer by layer

---
 src/scale_impls/encode.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index f687c09..5fabcbc 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -175,7 +175,23 @@ fn encode_composite<T, R: TypeResolver>(
         }
     }
 
-    // First, try and encode everything as-is, only writing to the output
+    // If the value and the type are both a single unnamed entry, then they line up exactly, so try
+    // encoding the one into the other. `scale_encode` would skip every newtype wrapper in the type
+    // but only one in the value, which leads to the wrong layer of the value being encoded if the
+    // innermost type is a list which can be encoded from either.
+    if let Composite::Unnamed(vals) = value {
+        if let ([val], Some(inner_type_id)) =
+            (&vals[..], find_single_unnamed_field::<R>(type_id.clone(), types))
+        {
+            let mut temp_out = Vec::new();
+            if let Ok(()) = val.encode_as_type_to(inner_type_id, types, &mut temp_out) {
+                out.extend_from_slice(&temp_out);
+                return Ok(());
+            }
+        }
+    }
+
+    // Next, try and encode everything as-is, only writing to the output
     // bytes if the encoding is actually successful. This means that if the
     // Value provided matches the structure of the TypeInfo exactly, things
     // should always work.
@@ -225,6 +241,20 @@ fn encode_composite<T, R: TypeResolver>(
     Err(original_error)
 }
 
+/// Return the type of the field of a composite or tuple with exactly one, unnamed, field.
+fn find_single_unnamed_field<R: TypeResolver>(
+    type_id: R::TypeId,
+    types: &R,
+) -> Option<R::TypeId> {
+    let visitor = scale_type_resolver::visitor::new((), |_, _| None)
+        .visit_tuple(|_, fields| if fields.len() == 1 { fields.next() } else { None })
+        .visit_composite(|_, _, fields| match fields.next() {
+            Some(field) if fields.len() == 0 && field.name.is_none() => Some(field.id),
+            _ => None,
+        });
+    types.resolve_type(type_id, visitor).unwrap_or(None)
+}
+
 /// Skip into the target type past any newtype wrapper like things.
 /// Also returns a bool indicating whether we skipped into something or not.
 /// This bool is true when the returned id is different from the id that was passed in.
-- 
2.43.0


From c4d8e6505c0c45ca31b1b81e16627caf8a7086da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 7/9] fix: give every custom parser all of the remaining text

---
 src/string_impls/from_string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 2e32981..81c45c2 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -227,9 +227,11 @@ fn parse_value(
     if !custom_parsers.is_empty() {
         let s = t.remaining();
         let start_offset = t.offset();
-        let cursor = &mut &*s;
 
         for parser in custom_parsers {
+            // Each parser starts from the same place, even if one before it
+            // advanced this but then declined to parse anything.
+            let cursor = &mut &*s;
             if let Some(res) = parser(cursor) {
                 match res {
                     Ok(value) => {
-- 
2.43.0


From fed83b0acb90660d178d77392c9680334f38fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:31 +0000
Subject: [PATCH 8/9] fix: don't trust size hints when allocating space for
 deserialized composites

Self-describing formats hand on the length that the data claims as the size
hint, so a few bytes could lead to a capacity overflow panic or an abort
instead of a value or an error.
---
 src/serde_impls/bitvec_helpers.rs | 4 ++--
 src/serde_impls/deserialize.rs    | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..2fcfb72 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -22,7 +22,7 @@
 //! it's up to the visitor to do its best to accept what it's handed, or reject it if it's simply
 //! not going to work out.
 
-use super::deserializer::DeserializerError;
+use super::{deserialize::MAX_PREALLOCATION, deserializer::DeserializerError};
 use crate::prelude::*;
 use crate::{BitSequence, Composite, ValueDef};
 use serde::{
@@ -88,7 +88,7 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0).min(MAX_PREALLOCATION));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..b633d04 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -83,6 +83,10 @@ impl<'de> Deserialize<'de> for Variant<()> {
     }
 }
 
+// Size hints come from the (untrusted) data that we're deserializing, so allocate space for
+// no more than this many items up front; we'll grow as needed beyond that.
+pub(super) const MAX_PREALLOCATION: usize = 1024;
+
 struct PrimitiveVisitor;
 
 macro_rules! visit_prim {
@@ -191,7 +195,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(MAX_PREALLOCATION));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +206,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0).min(MAX_PREALLOCATION));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
-- 
2.43.0


From 18e3fe84119df3b7d77343e4158edbb5f3160b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 9/9] fix: name variants in the place that a tracing error
 reports

The path with the variant's name was only used as a fallback, and so the
place of an error below a variant left the variant's name out.
---
 src/scale_impls/tracing_decoder/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..bea8fc0 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -283,7 +283,7 @@ where
     ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
         let variant_name = value.name();
         let path = self.path.at_variant(variant_name.to_owned());
-        let values = visit_composite(&self, value.fields());
+        let values = visit_composite(&self.at_path(path.clone()), value.fields());
         match values {
             Err(e) => {
                 let merged_error = e.with_outer_context(
-- 
2.43.0

