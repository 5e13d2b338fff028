From 5cd4bde358d5791ee465d500846c494a12cbdea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:58 +0000
Subject: [PATCH 01/25] fix: decode over-long and out-of-range varints instead
 of panicking

A varint of more than ten bytes overflowed the shift, and values outside the
declared 32-bit type (or above i64::MAX in packed unsigned arrays, or above 255
in packed bool arrays) hit an expect/unwrap. Values wider than the declared type
are truncated like the protobuf specification says.
---
 src/decode.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..8df1db8 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -178,11 +178,12 @@ impl Value
                 try_read_8_bytes(data).map(|b| Value::Double(f64::from_le_bytes(b)))
             }
             ValueType::Float => try_read_4_bytes(data).map(|b| Value::Float(f32::from_le_bytes(b))),
-            ValueType::Int32 => i32::from_signed_varint(data).map(Value::Int32),
+            ValueType::Int32 => i64::from_signed_varint(data).map(|v| Value::Int32(v as i32)),
             ValueType::Int64 => i64::from_signed_varint(data).map(Value::Int64),
-            ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
+            ValueType::UInt32 => u64::from_unsigned_varint(data).map(|v| Value::UInt32(v as u32)),
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
-            ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
+            ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
+                let u = u as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                 let magnitude = (u / 2) as i32 + sign_bit;
                 Value::SInt32(sign * magnitude)
@@ -279,26 +280,27 @@ impl Value
                 read_packed! { Float @ b = try_read_4_bytes(&mut array) => f32::from_le_bytes(b) }
             }
             ValueType::Int32 => {
-                read_packed! { Int32 @ b = i32::from_signed_varint(&mut array) => b }
+                read_packed! { Int32 @ b = i64::from_signed_varint(&mut array) => b as i32 }
             }
             ValueType::Int64 => {
                 read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_signed_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = u64::from_unsigned_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
-                read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
+                read_packed! { UInt64 @ b = u64::from_unsigned_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
+                read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
+                    let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
                 } }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
+                read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                     let magnitude = (b / 2) as i64 + sign_bit;
                     sign * magnitude
@@ -317,7 +319,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
@@ -677,7 +679,8 @@ where
         let mut result = 0u64;
         let mut idx = 0;
         loop {
-            if idx >= data.len() {
+            // A varint is at most 10 bytes long.
+            if idx >= data.len() || idx >= 10 {
                 return None;
             }
 
-- 
2.43.0


From c9ce87ee787c40b7addb9eb2059a5dfd962279bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 02/25] fix: zigzag encode and decode sint values over their
 full range

---
 src/decode.rs | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 8df1db8..af5158a 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -184,14 +184,10 @@ impl Value
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
             ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
                 let u = u as u32;
-                let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
+                Value::SInt32((u >> 1) as i32 ^ -((u & 1) as i32))
             }),
             ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
-                let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
+                Value::SInt64((u >> 1) as i64 ^ -((u & 1) as i64))
             }),
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
@@ -294,16 +290,12 @@ impl Value
             ValueType::SInt32 => {
                 read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
                     let b = b as u32;
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i32 ^ -((b & 1) as i32)
                 } }
             }
             ValueType::SInt64 => {
                 read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i64 ^ -((b & 1) as i64)
                 } }
             }
             ValueType::Fixed32 => {
@@ -367,14 +359,8 @@ impl Value
             Value::Int64(v) => BytesMut::from(v.into_signed_varint().as_ref()),
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
-            Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
-            Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
+            Value::SInt32(v) => (((*v << 1) ^ (*v >> 31)) as u32).into_unsigned_varint(),
+            Value::SInt64(v) => (((*v << 1) ^ (*v >> 63)) as u64).into_unsigned_varint(),
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::Fixed64(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::SFixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -468,16 +454,10 @@ impl PackedArray
                 write_packed!(v => |v| BytesMut::from(v.into_unsigned_varint().as_ref()))
             }
             PackedArray::SInt32(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((*v << 1) ^ (*v >> 31)) as u32).into_unsigned_varint())
             }
             PackedArray::SInt64(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((*v << 1) ^ (*v >> 63)) as u64).into_unsigned_varint())
             }
             PackedArray::Fixed32(v) => {
                 write_packed!( v => |v| BytesMut::from(v.to_le_bytes().as_ref()) )
-- 
2.43.0


From 0b9c9945224698e1deeb9ef25b3f0d23cf829200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 03/25] fix: consume the remaining data after an incomplete
 unknown value

---
 src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index af5158a..744c941 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -347,7 +347,7 @@ impl Value
 
         value
             .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+            .unwrap_or_else(|| return_incomplete(data, vt, original))
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From 522e37ccb7869ec808ffd76eeb299f0ab9755487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 04/25] fix: keep only the array's own bytes of a malformed
 packed array

---
 src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index 744c941..ad5e1d6 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -247,6 +247,9 @@ impl Value
         let mut array = &data[..length];
         *data = &data[length..];
 
+        // If the array turns out to be malformed, only its own bytes belong to the value.
+        let original = &original[..original.len() - data.len()];
+
         // Reading the packed arrays follows very similar format for each type.  The variances are
         // in how to read the data from the stream and what to do with the data to get the final
         // value.
-- 
2.43.0


From 47325e1f3ddee85e833bd8869f7ce96b0186870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 05/25] fix: encode the trailing garbage of a decoded message

---
 src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decode.rs b/src/decode.rs
index ad5e1d6..d9d15a4 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -620,6 +620,7 @@ impl MessageValue
                 field_data.extend_from_slice(&bytes);
                 field_data
             })
+            .chain(self.garbage.iter().flatten().copied())
             .collect()
     }
 }
-- 
2.43.0


From 00355584dd408731c345829181f457118e866b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 06/25] fix: decode repeated numeric fields in both packed and
 unpacked form

---
 src/decode.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index d9d15a4..fd359ff 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -485,6 +485,15 @@ impl PackedArray
     }
 }
 
+/// Checks whether values of the type can be decoded into a `PackedArray`.
+fn is_packable(vt: &ValueType) -> bool
+{
+    match vt {
+        ValueType::Enum(..) => false,
+        _ => vt.wire_type() != 2,
+    }
+}
+
 fn return_incomplete(data: &mut &[u8], vt: u8, original: &[u8]) -> Value
 {
     *data = &[];
@@ -580,12 +589,16 @@ impl MessageInfo
 
             let value = match self.get_field(number) {
                 Some(field) => {
-                    if field.multiplicity == Multiplicity::RepeatedPacked {
-                        if wire_type == 2 {
-                            Value::decode_packed(&mut data, wire_type, &field.field_type)
-                        } else {
-                            Value::decode_unknown(&mut data, wire_type)
+                    // Repeated numeric fields may arrive packed or unpacked no matter how they were
+                    // declared.
+                    let packed = match field.multiplicity {
+                        Multiplicity::Repeated | Multiplicity::RepeatedPacked => {
+                            wire_type == 2 && is_packable(&field.field_type)
                         }
+                        _ => false,
+                    };
+                    if packed {
+                        Value::decode_packed(&mut data, wire_type, &field.field_type)
                     } else if field.field_type.wire_type() == wire_type {
                         Value::decode(&mut data, wire_type, &field.field_type, ctx)
                     } else {
-- 
2.43.0


From 6216243ffd7aba174e3c9292878154b221ca933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:26 +0000
Subject: [PATCH 07/25] fix: limit the nesting depth of decoded messages to
 avoid stack overflow

---
 src/decode.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index fd359ff..1654d1b 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -8,6 +8,9 @@ use bytes::{Bytes, BytesMut};
 use std::convert::{TryFrom, TryInto};
 use std::fmt::Debug;
 
+/// Maximum number of messages nested within each other that are decoded.
+const RECURSION_LIMIT: usize = 100;
+
 impl Context
 {
     /// Decode a message.
@@ -170,7 +173,7 @@ pub struct FieldValue
 
 impl Value
 {
-    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context) -> Self
+    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context, depth: usize) -> Self
     {
         let original = *data;
         let opt = match vt {
@@ -210,6 +213,9 @@ impl Value
                     value: v,
                 })
             }),
+            ValueType::Message(..) if depth >= RECURSION_LIMIT => {
+                return Value::decode_unknown(data, vt_raw);
+            }
             ValueType::Message(mref) => usize::from_unsigned_varint(data).and_then(|length| {
                 if data.len() < length {
                     *data = original;
@@ -219,7 +225,8 @@ impl Value
                 *data = remainder;
 
                 Some(Value::Message(Box::new(
-                    ctx.resolve_message(*mref).decode(consumed, ctx),
+                    ctx.resolve_message(*mref)
+                        .decode_nested(consumed, ctx, depth + 1),
                 )))
             }),
         };
@@ -560,10 +567,18 @@ impl MessageInfo
 {
     /// Decode a message.
     ///
+    /// At most 100 messages nested within each other are decoded. Messages that are nested deeper
+    /// than that are kept as `UnknownValue::VariableLength`.
+    ///
     /// Will **panic** if the message defined by the `MessageRef` does not exist in this context.
     /// Such panic means the `MessageRef` came from a different context. The panic is not
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
-    pub fn decode(&self, mut data: &[u8], ctx: &Context) -> MessageValue
+    pub fn decode(&self, data: &[u8], ctx: &Context) -> MessageValue
+    {
+        self.decode_nested(data, ctx, 1)
+    }
+
+    fn decode_nested(&self, mut data: &[u8], ctx: &Context, depth: usize) -> MessageValue
     {
         let mut msg = MessageValue {
             msg_ref: self.self_ref,
@@ -600,7 +615,7 @@ impl MessageInfo
                     if packed {
                         Value::decode_packed(&mut data, wire_type, &field.field_type)
                     } else if field.field_type.wire_type() == wire_type {
-                        Value::decode(&mut data, wire_type, &field.field_type, ctx)
+                        Value::decode(&mut data, wire_type, &field.field_type, ctx, depth)
                     } else {
                         Value::decode_unknown(&mut data, wire_type)
                     }
-- 
2.43.0


From 37c7013c8e0933da8387a9ed5facef940d2bfdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 08/25] fix: keep the options of services and rpcs

---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..5c9d18a 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -664,7 +664,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -677,7 +677,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From 670b43da9d6ef1ad641ea84e18867043ac58fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 09/25] fix: accept empty statements at the top level of a file

---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..90cc0a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -52,6 +52,7 @@ impl PackageBuilder
                             Some(inner.into_inner().next().unwrap().as_str().to_string())
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From ba12750abf7602b033a3e641396283bc91f79bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:38 +0000
Subject: [PATCH 10/25] fix: read keywords, builtin types and constants as
 whole words

---
 src/proto.pest | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..15068f2 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -7,7 +7,8 @@ decimalDigit = { '0'..'9' }
 octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
-ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
+identChar = { letter | decimalDigit | "_" }
+ident = @{ letter ~ identChar* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
 enumName = { ident }
@@ -25,11 +26,12 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | special ) }
+special = @{ ( "inf" | "nan" ) ~ !( identChar | "." ) }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = { "true" | "false" }
+boolLit = @{ ( "true" | "false" ) ~ !( identChar | "." ) }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -51,16 +53,18 @@ syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 package = { "package" ~ fullIdent ~ ";" }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+optionKeyword = @{ "option" ~ !identChar }
+option = { &optionKeyword ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
+type_ = { builtinType | messageType | enumType }
+builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+    | "bool" | "string" | "bytes" ) ~ !identChar }
 fieldNumber = { intLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ !identChar }
+repeated = @{ "repeated" ~ !identChar }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -85,10 +89,10 @@ enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValue
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { "message" ~ messageName ~ messageBody }
-messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
+messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From f2b6c053440e0e43cd16242eed14bb1df8694ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 11/25] fix: parse floating point constants

---
 src/context/parse.rs | 8 +++++++-
 src/proto.pest       | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 90cc0a5..ccf8197 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -363,7 +363,13 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
 pub fn parse_float_literal(p: Pair<Rule>) -> f64
 {
     match p.as_rule() {
-        Rule::floatLit => p.as_str().parse::<f64>().unwrap(),
+        // The sign may be separated from the number.
+        Rule::floatLit => p
+            .into_inner()
+            .map(|part| part.as_str())
+            .collect::<String>()
+            .parse::<f64>()
+            .unwrap(),
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
diff --git a/src/proto.pest b/src/proto.pest
index 15068f2..d185a31 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -26,7 +26,8 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | special ) }
+floatLit = { sign? ~ ( floatNumber | special ) }
+floatNumber = @{ decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? }
 special = @{ ( "inf" | "nan" ) ~ !( identChar | "." ) }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
@@ -47,7 +48,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { intLit | floatLit | strLit | boolLit | fullIdent }
+constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From 495126655c2f24d3c6158f52bc34194c17a9b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 12/25] fix: accept quoted reserved names and reserved values
 in enums

---
 src/context/parse.rs | 1 +
 src/proto.pest       | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index ccf8197..ce895be 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -140,6 +140,7 @@ impl EnumBuilder
                     })
                 }
                 Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::reserved => {} // We don't need to care about reserved values.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
diff --git a/src/proto.pest b/src/proto.pest
index d185a31..e2d772b 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -82,10 +82,11 @@ keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
 range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
-fieldNames = { fieldName ~ ( "," ~ fieldName )* }
+fieldNames = { reservedName ~ ( "," ~ reservedName )* }
+reservedName = { fieldName | strLit }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( option | enumField | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( option | reserved | enumField | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-- 
2.43.0


From 38e950ad734b04fc37c9ddcb55a5e35297fdf28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 13/25] fix: report out of range number literals as errors
 instead of panicking

---
 src/context/parse.rs | 63 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index ce895be..8ad2edc 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -1,5 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
+use std::convert::TryFrom;
 use pest::{
+    error::{Error, ErrorVariant},
     iterators::{Pair, Pairs},
     Parser,
 };
@@ -38,6 +40,10 @@ impl PackageBuilder
             .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
             .context(SyntaxError {})?;
 
+        check_literals(pairs.clone())
+            .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
+            .context(SyntaxError {})?;
+
         let mut current_package = PackageBuilder::default();
         for pair in pairs {
             for inner in pair.into_inner() {
@@ -321,17 +327,49 @@ impl RpcArgBuilder
     }
 }
 
+/// Checks that all the number literals used as values fit their types.
+fn check_literals(pairs: Pairs<Rule>) -> Result<(), Error<Rule>>
+{
+    for p in pairs.flatten() {
+        let valid = match p.as_rule() {
+            Rule::fieldNumber => try_parse_uint_literal(p.clone()).is_some(),
+            Rule::enumField | Rule::constant => p
+                .clone()
+                .into_inner()
+                .filter(|value| value.as_rule() == Rule::intLit)
+                .all(|value| try_parse_int_literal(value).is_some()),
+            _ => true,
+        };
+
+        if !valid {
+            let message = "number out of range".to_string();
+            return Err(Error::new_from_span(
+                ErrorVariant::CustomError { message },
+                p.as_span(),
+            ));
+        }
+    }
+
+    Ok(())
+}
+
 pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+{
+    try_parse_uint_literal(p).expect("Literal was not validated")
+}
+
+fn try_parse_uint_literal(p: Pair<Rule>) -> Option<u64>
 {
     match p.as_rule() {
-        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
+        Rule::fieldNumber => try_parse_uint_literal(p.into_inner().next().unwrap()),
         Rule::intLit => {
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()).ok(),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).ok(),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).ok(),
+                Rule::sign => None,
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
         }
@@ -340,6 +378,11 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
 }
 
 pub fn parse_int_literal(p: Pair<Rule>) -> i64
+{
+    try_parse_int_literal(p).expect("Literal was not validated")
+}
+
+fn try_parse_int_literal(p: Pair<Rule>) -> Option<i64>
 {
     match p.as_rule() {
         Rule::intLit => {
@@ -350,12 +393,14 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
                 Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
                 _ => (1, sign),
             };
-            match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+            // The magnitude of the smallest value does not fit in i64.
+            let magnitude = match lit.as_rule() {
+                Rule::decimalLit => str::parse::<u64>(lit.as_str()),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
                 r => unreachable!("{:?}: {:?}", r, lit),
-            }
+            };
+            i64::try_from(sign * magnitude.ok()? as i128).ok()
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
-- 
2.43.0


From 84938456bd4fe608ad591958597982459eed800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 14/25] fix: do not panic on octal escapes larger than a byte

---
 src/context/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 8ad2edc..d17e3ed 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -495,8 +495,9 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
                 );
             }
             Rule::octEscape => {
+                // Three octal digits may exceed a byte. The excess bit is ignored.
                 output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap(),
+                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
                 );
             }
             Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
-- 
2.43.0


From 73da6f3837c96359eb3e429c01d3dfa5f98b0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 15/25] fix: report services used as field types as errors
 instead of panicking

---
 src/context/builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 5c9d18a..04e7a1b 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -499,14 +499,21 @@ impl FieldTypeBuilder
                 let t = cache
                     .resolve_type(&s, &self_data.full_name)
                     .ok_or_else(|| ParseError::TypeNotFound {
-                        name: s,
+                        name: s.clone(),
                         context: self_data.full_name.to_string(),
                     })?;
 
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    ItemType::Service => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: s,
+                            context: "field type",
+                            expected: ItemType::Message,
+                            actual: t.item_type,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From a472add8c224cf1b20000cf4c6e8c291514d55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 16/25] fix: reject a oneof that takes fields from another
 oneof

---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..df07797 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of another oneof.
+    FieldInOneof
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..cab6dd6 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -185,9 +185,13 @@ impl MessageInfo
 
         // Ensure none of the existing fields are part of oneofs.
         for f in &oneof.fields {
-            self.fields
+            let existing = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if existing.oneof.is_some() {
+                return Err(OneofInsertError::FieldInOneof { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From d3f68be40aa6e456dae10c34a120c764e768d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 17/25] fix: ignore white space and comments within package and
 type names

---
 src/context/parse.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index d17e3ed..11459a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -55,7 +55,7 @@ impl PackageBuilder
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
+                            Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
                     Rule::emptyStatement => {}
@@ -201,7 +201,7 @@ impl FieldBuilder
             }
             None => Multiplicity::Single,
         };
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap());
 
@@ -222,7 +222,7 @@ impl FieldBuilder
     pub fn parse_oneof(p: Pair<Rule>) -> Self
     {
         let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap());
 
@@ -265,6 +265,20 @@ impl OneofBuilder
     }
 }
 
+/// Parses a possibly absolute type name without the whitespace and comments within it.
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    match p.as_rule() {
+        Rule::type_ => parse_type_name(p.into_inner().next().unwrap()),
+        Rule::builtinType => p.as_str().to_string(),
+        _ => {
+            let root = if p.as_str().starts_with('.') { "." } else { "" };
+            let idents: Vec<_> = p.into_inner().map(|ident| ident.as_str()).collect();
+            format!("{}{}", root, idents.join("."))
+        }
+    }
+}
+
 fn parse_field_type(t: &str) -> FieldTypeBuilder
 {
     FieldTypeBuilder::Builtin(match t {
@@ -322,7 +336,7 @@ impl RpcArgBuilder
         let mut inner = p.into_inner();
         RpcArgBuilder {
             stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: inner.next().unwrap().as_str().to_string(),
+            message: parse_type_name(inner.next().unwrap()),
         }
     }
 }
-- 
2.43.0


From 45de1e8c2a5ed3e8ed3edfa6ff45bf6fbf4ecbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 18/25] fix: report map fields as unsupported instead of
 panicking

---
 src/context/parse.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 11459a5..e775e64 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -40,7 +40,7 @@ impl PackageBuilder
             .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
             .context(SyntaxError {})?;
 
-        check_literals(pairs.clone())
+        check_values(pairs.clone())
             .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
             .context(SyntaxError {})?;
 
@@ -108,7 +108,6 @@ impl MessageBuilder
                 }
                 Rule::option => options.push(ProtoOption::parse(p)),
                 Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
-                Rule::mapField => unimplemented!("Maps are not supported"),
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
@@ -341,27 +340,31 @@ impl RpcArgBuilder
     }
 }
 
-/// Checks that all the number literals used as values fit their types.
-fn check_literals(pairs: Pairs<Rule>) -> Result<(), Error<Rule>>
+/// Checks that all the number literals used as values fit their types and that there are no
+/// unsupported fields.
+fn check_values(pairs: Pairs<Rule>) -> Result<(), Error<Rule>>
 {
     for p in pairs.flatten() {
-        let valid = match p.as_rule() {
-            Rule::fieldNumber => try_parse_uint_literal(p.clone()).is_some(),
-            Rule::enumField | Rule::constant => p
-                .clone()
-                .into_inner()
-                .filter(|value| value.as_rule() == Rule::intLit)
-                .all(|value| try_parse_int_literal(value).is_some()),
-            _ => true,
+        let message = match p.as_rule() {
+            Rule::fieldNumber if try_parse_uint_literal(p.clone()).is_none() => {
+                "number out of range".to_string()
+            }
+            Rule::enumField | Rule::constant
+                if p.clone()
+                    .into_inner()
+                    .filter(|value| value.as_rule() == Rule::intLit)
+                    .any(|value| try_parse_int_literal(value).is_none()) =>
+            {
+                "number out of range".to_string()
+            }
+            Rule::mapField => "maps are not supported".to_string(),
+            _ => continue,
         };
 
-        if !valid {
-            let message = "number out of range".to_string();
-            return Err(Error::new_from_span(
-                ErrorVariant::CustomError { message },
-                p.as_span(),
-            ));
-        }
+        return Err(Error::new_from_span(
+            ErrorVariant::CustomError { message },
+            p.as_span(),
+        ));
     }
 
     Ok(())
-- 
2.43.0


From f4fe3b41e235f799abb243a0ce17588b920be8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 19/25] fix: limit the nesting depth of parsed messages to
 avoid stack overflow

---
 src/context/parse.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index e775e64..142846c 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -9,6 +9,12 @@ use pest::{
 use super::builder::*;
 use super::*;
 
+/// Maximum nesting depth of message definitions.
+///
+/// The definitions are processed recursively. Deeper nesting is reported as an error to avoid
+/// running out of stack.
+const NESTING_LIMIT: usize = 100;
+
 #[derive(pest_derive::Parser)]
 #[grammar = "proto.pest"]
 struct ProtoParser;
@@ -344,8 +350,21 @@ impl RpcArgBuilder
 /// unsupported fields.
 fn check_values(pairs: Pairs<Rule>) -> Result<(), Error<Rule>>
 {
+    // End positions of the messages enclosing the current pair.
+    let mut enclosing = vec![];
     for p in pairs.flatten() {
+        if p.as_rule() == Rule::message {
+            let span = p.as_span();
+            while enclosing.last().map_or(false, |end| *end <= span.start()) {
+                enclosing.pop();
+            }
+            enclosing.push(span.end());
+        }
+
         let message = match p.as_rule() {
+            Rule::message if enclosing.len() > NESTING_LIMIT => {
+                "messages are nested too deep".to_string()
+            }
             Rule::fieldNumber if try_parse_uint_literal(p.clone()).is_none() => {
                 "number out of range".to_string()
             }
-- 
2.43.0


From b869f5e517417b3cb8f8a90e7f0a08f4c137e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 20/25] fix: accept white space within dotted option constants
 that begin with a literal name

---
 src/proto.pest | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index e2d772b..b99766a 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -28,11 +28,11 @@ hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
 floatLit = { sign? ~ ( floatNumber | special ) }
 floatNumber = @{ decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? }
-special = @{ ( "inf" | "nan" ) ~ !( identChar | "." ) }
+special = @{ ( "inf" | "nan" ) ~ !identChar }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = @{ ( "true" | "false" ) ~ !( identChar | "." ) }
+boolLit = @{ ( "true" | "false" ) ~ !identChar }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -48,7 +48,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { floatLit | intLit | strLit | boolLit | fullIdent }
+constant = { !( ident ~ "." ) ~ ( floatLit | intLit | strLit | boolLit ) | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From 36ad3e94df75349a48fa6f91b8eaf97db9448a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 21/25] fix: read declaration keywords as whole words

---
 src/proto.pest | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index b99766a..f5cb7cf 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -50,11 +50,25 @@ emptyStatement = { ";" }
 
 constant = { !( ident ~ "." ) ~ ( floatLit | intLit | strLit | boolLit ) | fullIdent }
 
-syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
-import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-package = { "package" ~ fullIdent ~ ";" }
-
+// The keywords as whole words; for lookahead in rules that allow white space around them.
+syntaxKeyword = @{ "syntax" ~ !identChar }
+importKeyword = @{ "import" ~ !identChar }
+packageKeyword = @{ "package" ~ !identChar }
 optionKeyword = @{ "option" ~ !identChar }
+oneofKeyword = @{ "oneof" ~ !identChar }
+reservedKeyword = @{ "reserved" ~ !identChar }
+toKeyword = @{ "to" ~ !identChar }
+maxKeyword = @{ "max" ~ !identChar }
+enumKeyword = @{ "enum" ~ !identChar }
+messageKeyword = @{ "message" ~ !identChar }
+serviceKeyword = @{ "service" ~ !identChar }
+rpcKeyword = @{ "rpc" ~ !identChar }
+returnsKeyword = @{ "returns" ~ !identChar }
+
+syntax = { &syntaxKeyword ~ "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
+import = { &importKeyword ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
+package = { &packageKeyword ~ "package" ~ fullIdent ~ ";" }
+
 option = { &optionKeyword ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
@@ -72,32 +86,32 @@ field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOp
 fieldOptions = { fieldOption ~ ( "," ~ fieldOption )* }
 fieldOption = { optionName ~ "=" ~ constant }
 
-oneof = { "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
+oneof = { &oneofKeyword ~ "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
 oneofField = { type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 
 mapField = { "map" ~ "<" ~ keyType ~ "," ~ type_ ~ ">" ~ mapName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
           "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string" }
 
-reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
+reserved = { &reservedKeyword ~ "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
-range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
+range = { intLit ~ ( &toKeyword ~ "to" ~ ( intLit | &maxKeyword ~ "max" ) )? }
 fieldNames = { reservedName ~ ( "," ~ reservedName )* }
 reservedName = { fieldName | strLit }
 
-enum_ = { "enum" ~ enumName ~ enumBody }
+enum_ = { &enumKeyword ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( option | reserved | enumField | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-message = { "message" ~ messageName ~ messageBody }
+message = { &messageKeyword ~ "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
-service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
+service = { &serviceKeyword ~ "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
-rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
+rpc = { &rpcKeyword ~ "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ &returnsKeyword ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
 
 proto = { SOI ~ BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
 topLevelDef = { message | enum_ | service }
-- 
2.43.0


From 83c39ffb83392104b6a72f700ea1c2745c7fe362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 22/25] fix: require matching quotes around the syntax
 identifier

---
 src/proto.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index f5cb7cf..3aafb30 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -44,7 +44,7 @@ octByte = ${ octalDigit ~ octalDigit? ~ octalDigit? }
 charEscape = ${ "\\" ~ escapeChar }
 escapeChar = { "a" | "b" | "f" | "n" | "r" | "t" | "v" | "\\" | "'" | "\"" }
 anyChar = ${ ANY }
-quote = { "'" | "\"" }
+proto3Lit = @{ "'proto3'" | "\"proto3\"" }
 
 emptyStatement = { ";" }
 
@@ -65,7 +65,7 @@ serviceKeyword = @{ "service" ~ !identChar }
 rpcKeyword = @{ "rpc" ~ !identChar }
 returnsKeyword = @{ "returns" ~ !identChar }
 
-syntax = { &syntaxKeyword ~ "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
+syntax = { &syntaxKeyword ~ "syntax" ~ "=" ~ proto3Lit ~ ";" }
 import = { &importKeyword ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 package = { &packageKeyword ~ "package" ~ fullIdent ~ ";" }
 
-- 
2.43.0


From faa263dfa3a896479e5ae3ddf2565607d0cb2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 23/25] fix: encode unknown varints of more than 64 bits
 instead of panicking

---
 src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 1654d1b..f876901 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -712,13 +712,13 @@ where
     }
 }
 
-impl<T: Default + TryInto<u64>> ToUnsignedVarint for T
+impl<T: Default + TryInto<u128>> ToUnsignedVarint for T
 where
     T::Error: Debug,
 {
     fn into_unsigned_varint(self) -> BytesMut
     {
-        let mut value: u64 = self.try_into().unwrap();
+        let mut value: u128 = self.try_into().unwrap();
         let mut data: Vec<u8> = Vec::with_capacity(8);
         loop {
             let mut byte = (value & 0x7f) as u8;
-- 
2.43.0


From ccea94ab2488f35cd00a302da096203fed08b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 24/25] fix: list the fields of the oneofs of a message in one
 pass

---
 src/context/builder.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 04e7a1b..ee9b97c 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -364,7 +364,7 @@ impl MessageBuilder
             .map(|field| field.build(self_data, cache, None))
             .collect::<Result<_, _>>()?;
 
-        let mut oneofs: Vec<_> = self
+        let mut oneofs: Vec<Oneof> = self
             .oneofs
             .into_iter()
             .enumerate()
@@ -388,16 +388,10 @@ impl MessageBuilder
         // Sort the fields by number just for sanity.
         let fields: BTreeMap<u64, MessageField> =
             fields.into_iter().map(|f| (f.number, f)).collect();
-        for (idx, oneof) in oneofs.iter_mut().enumerate() {
-            oneof.fields = fields
-                .iter()
-                .filter_map(
-                    |(num, f)| match f.oneof == Some(OneofRef(InternalRef(idx))) {
-                        true => Some(*num),
-                        false => None,
-                    },
-                )
-                .collect();
+        for (num, field) in &fields {
+            if let Some(oneof_ref) = field.oneof {
+                oneofs[oneof_ref.0 .0].fields.push(*num);
+            }
         }
 
         let parent = cache.parent_type(&self_data.idx_path);
-- 
2.43.0


From c929ae973185918f8b479ef3b7683eeeac333ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 25/25] fix: services hid the types of outer scopes from fields

A service is not a type, so a field's type name continues in the outer scopes
as in protoc. Rpcs still stop at the service.
---
 src/context/builder.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index ee9b97c..acf0fbe 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -491,7 +491,7 @@ impl FieldTypeBuilder
             FieldTypeBuilder::Builtin(vt) => vt,
             FieldTypeBuilder::Unknown(s) => {
                 let t = cache
-                    .resolve_type(&s, &self_data.full_name)
+                    .resolve_field_type(&s, &self_data.full_name)
                     .ok_or_else(|| ParseError::TypeNotFound {
                         name: s.clone(),
                         context: self_data.full_name.to_string(),
@@ -757,6 +757,32 @@ struct CacheData
 
 impl BuildCache
 {
+    /// Resolves the type of a field.
+    ///
+    /// Services are not types, so unlike from rpcs they do not hide the types of outer scopes.
+    fn resolve_field_type(&self, relative_name: &str, current_path: &str) -> Option<&CacheData>
+    {
+        let found = self.resolve_type(relative_name, current_path)?;
+        if relative_name.contains('.') {
+            return Some(found);
+        }
+
+        let mut current = found;
+        while current.item_type == ItemType::Service && current.full_name != relative_name {
+            // Continue with the scope around the one of the service.
+            let outer = current.full_name.rsplitn(3, '.').nth(2).unwrap_or("");
+            current = match self.resolve_type(relative_name, outer) {
+                Some(outer_item) => outer_item,
+                None => break,
+            };
+        }
+
+        match current.item_type {
+            ItemType::Service => Some(found),
+            _ => Some(current),
+        }
+    }
+
     fn resolve_type(&self, relative_name: &str, mut current_path: &str) -> Option<&CacheData>
     {
         if let Some(absolute) = relative_name.strip_prefix('.') {
-- 
2.43.0

