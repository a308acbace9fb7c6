From 5e54851e257d8c020166287f2741f5262573635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 01/21] fix: parse_vlq_int reports values that do not fit an
 i64 instead of overflowing

---
 src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88d3368..a15a0f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -152,19 +152,26 @@ where
 pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     let (mut tail, mut v_int_value) = dbg_peek_hex(u8, "v_int")(input)?;
     let is_negative = v_int_value & 1 != 0;
-    let mut result: i64 = ((v_int_value >> 1) & 0x3f) as i64;
-    let mut bits: i64 = 6;
+    let mut result: i128 = ((v_int_value >> 1) & 0x3f) as i128;
+    let mut bits: u32 = 6;
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
         tail = new_tail;
-        result |= ((new_v_int_value as i64 & 0x7fi64) << bits) as i64;
+        result |= (new_v_int_value as i128 & 0x7fi128) << bits;
         v_int_value = new_v_int_value;
-        bits += 7;
+        // Anything at or above this bit is too large already, only zero padding is allowed.
+        bits = (bits + 7).min(118);
     }
     if is_negative {
         result = -result;
     }
-    Ok((tail, result))
+    match i64::try_from(result) {
+        Ok(result) => Ok((tail, result)),
+        Err(_) => Err(nom::Err::Error(nom::error::Error::new(
+            input,
+            nom::error::ErrorKind::TooLarge,
+        ))),
+    }
 }
 
 /// Transforms the details MPQ sector time utc and local offset into possibly chrono::NaiveDateTime
-- 
2.43.0


From 0e70bac43e921e54cb0444efbd7b117c9cd1c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 02/21] fix: parse_packed_int no longer overflows on 64 bit
 values

---
 src/bit_packed_decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_packed_decoder.rs b/src/bit_packed_decoder.rs
index 62c07a5..c8be94b 100644
--- a/src/bit_packed_decoder.rs
+++ b/src/bit_packed_decoder.rs
@@ -147,7 +147,8 @@ pub fn parse_packed_int(
     num_bits: usize,
 ) -> S2ProtoResult<(&[u8], usize), i64> {
     let (tail, num) = take_n_bits_into_i64(input, num_bits)?;
-    let res = offset + num;
+    // The value is in two's complement, for 64 bits it relies on wrapping around the offset.
+    let res = offset.wrapping_add(num);
     tracing::debug!("parse_packed_int: {}", res);
     Ok((tail, res))
 }
-- 
2.43.0


From 05537e78ed243568e060987fcdadeeee25c64f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 03/21] fix: optional bit packed fields start after their
 presence bit

m_sequence of the command manager state event (and the deprecated md5 data)
was read from the presence bit on: the value included that bit and one bit too
few was consumed.
---
 src/generator/decoder_type.rs     | 4 +++-
 src/versions/protocol87702/mod.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 929b990..cc561f0 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -875,7 +875,7 @@ impl DecoderType {
                     let array_size_bits =
                         (array_length.parse::<f32>().unwrap().log2() + 1.).floor() as usize;
                     type_impl_def.push_str(&format!(
-                        "let (tail, array_length) = take_n_bits_into_i64(input, {array_size_bits})?;\n\
+                        "let (tail, array_length) = take_n_bits_into_i64(tail, {array_size_bits})?;\n\
                         let array_length = array_length as usize;\n\
                          tracing::debug!(\"Reading array length: {array_length}\");\n\
                          "
@@ -897,6 +897,8 @@ impl DecoderType {
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
                     if field_value_parser.contains("input,") {
+                        // The value follows the bit that tells whether it is provided.
+                        let field_value_parser = field_value_parser.replace("input,", "tail,");
                         type_impl_def
                             .push_str(&format!("let (tail, res) = {field_value_parser}?;\n"));
                     } else {
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From 487c1b154048747b5535f0f455a4ba7094872f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 04/21] fix: strings inside bit packed structs are byte aligned

As in the string types, the content of a string field starts at the next byte
boundary after its length. The hotkey profile of the user options event was
read as '\x1c#ustom~' instead of '<custom>', and every field after a string
(bank events) was read from the wrong position.
---
 src/generator/decoder_type.rs     |  7 +++
 src/versions/protocol87702/mod.rs | 72 ++++++++++++++++++++-----------
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index cc561f0..87126bd 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -934,6 +934,13 @@ impl DecoderType {
                      tracing::debug!(\"Reading array length: {{array_length}}\");\n\
                      "
                 ));
+                if matches!(
+                    proto_field_type_info,
+                    "BlobType" | "AsciiStringType" | "StringType"
+                ) {
+                    // The content of blobs and strings is byte aligned.
+                    type_impl_def.push_str("let (mut tail, _) = byte_align(tail)?;\n");
+                }
                 type_impl_def.push_str(&format!(
                     " let mut array = vec![];\n\
                      for _ in 0..array_length {{\n\
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index cc0845a..0d8dceb 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6227,7 +6227,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_data(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7754,7 +7755,8 @@ pub mod bit_packed {
     impl GameSBankFileEvent {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7790,7 +7792,8 @@ pub mod bit_packed {
     impl GameSBankSectionEvent {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7828,7 +7831,8 @@ pub mod bit_packed {
     impl GameSBankKeyEvent {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7847,7 +7851,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_data(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7905,7 +7910,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7918,7 +7924,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_data(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -8147,7 +8154,8 @@ pub mod bit_packed {
         pub fn parse_m_hotkey_profile(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -8625,7 +8633,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -8640,7 +8649,8 @@ pub mod bit_packed {
         pub fn parse_m_description(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -11792,7 +11802,8 @@ pub mod bit_packed {
         pub fn parse_m_function_name(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12047,7 +12058,8 @@ pub mod bit_packed {
         pub fn parse_m_bookmark_name(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12129,7 +12141,8 @@ pub mod bit_packed {
         pub fn parse_m_conversation_line(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12144,7 +12157,8 @@ pub mod bit_packed {
         pub fn parse_m_alt_conversation_line(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12206,7 +12220,8 @@ pub mod bit_packed {
         pub fn parse_m_conversation_line(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12595,7 +12610,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_field(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12608,7 +12624,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_value(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -13740,7 +13757,8 @@ pub mod bit_packed {
     impl GameSThumbnail {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_file(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -13908,7 +13926,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14002,7 +14021,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_race(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14073,7 +14093,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_hero(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14261,7 +14282,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_title(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14274,7 +14296,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_difficulty(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14344,7 +14367,8 @@ pub mod bit_packed {
         pub fn parse_m_description(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 11)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 11)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
-- 
2.43.0


From 2d76b376b1f6c265bd18817cf6bb92b3dfde00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 05/21] fix: compare event loops without rounding them to 24
 bits

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..f3f81ca 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -694,7 +694,7 @@ impl Iterator for SC2EventIterator {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
                     // Both events are populated, compare the loop and return the lowest one
                     if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
+                        < (next_game_event_loop as f64 * TRACKER_SPEED_RATIO as f64) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From 849bd4f6a8f3a3d72827d3bf85a5527678eee20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 06/21] fix: tracker events precede game events of the same
 loop, as documented

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index f3f81ca..771b30d 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -694,7 +694,7 @@ impl Iterator for SC2EventIterator {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
                     // Both events are populated, compare the loop and return the lowest one
                     if next_tracker_event_loop
-                        < (next_game_event_loop as f64 * TRACKER_SPEED_RATIO as f64) as i64
+                        <= (next_game_event_loop as f64 * TRACKER_SPEED_RATIO as f64) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From ed153d0492188f6a8b4658e147c4f27a8c1c343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 07/21] fix: a max_events of n yields n events instead of n - 1

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 771b30d..7206597 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -716,10 +716,10 @@ impl Iterator for SC2EventIterator {
                 if iterator_item.shoud_skip_event(&iterator_item.event_type, filters) {
                     continue;
                 }
-                filters.decrease_allowed_event_counter();
                 if filters.is_max_event_reached() {
                     return None;
                 }
+                filters.decrease_allowed_event_counter();
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From fa81b3fd2b757013b7ce03e68f8878c2d9c74563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 08/21] fix: min_loop and max_loop apply to game events as well

---
 src/state/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 7206597..a745952 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -601,16 +601,18 @@ impl SC2EventIteratorItem {
     /// Returns true if the event should be skipped based on the filters
     #[tracing::instrument(level = "debug")]
     fn shoud_skip_event(&self, event: &SC2EventType, filters: &SC2ReplayFilters) -> bool {
+        let event_loop = match event {
+            SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
+            SC2EventType::Game { game_loop, .. } => *game_loop,
+        };
         if let Some(min_loop) = filters.min_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop < min_loop
+            && event_loop < min_loop
         {
             tracing::debug!("Skipping event below min_loop {min_loop}");
             return true;
         }
         if let Some(max_loop) = filters.max_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop > max_loop
+            && event_loop > max_loop
         {
             tracing::debug!("Skipping event above max_loop {max_loop}");
             return true;
-- 
2.43.0


From cdd50369e14ee24b9aa923729d38d21cfdbc8749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 09/21] fix: stealing units into a control group also takes
 them from the last group

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..513b266 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -340,7 +340,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -371,7 +371,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From 36b6074e73f10bc77eab817fda447b3c93909fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 10/21] fix: the target of a command is found by the index in
 its unit tag

---
 src/game_events/state.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 513b266..61924cb 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,10 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        sc2_state
+            .units
+            .get(&unit_tag_index(tu.m_tag.into()))
+            .cloned()
     } else {
         None
     };
@@ -160,25 +163,20 @@ pub fn handle_update_target_unit(
     target_unit: GameSCmdUpdateTargetUnitEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     // The TargetPoint does not contain the ability id or command index.
-    let registered_target_unit = match sc2_state.units.get(&target_unit.m_target.m_tag) {
+    let registered_target_unit = match sc2_state
+        .units
+        .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
+    {
         Some(x) => x.clone(),
         None => {
-            match sc2_state
-                .units
-                .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
-            {
-                Some(x) => x.clone(),
-                None => {
-                    tracing::warn!(
-                        "Unit not found for target unit: {}",
-                        target_unit.m_target.m_tag
-                    );
-                    return (
-                        ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
-                        UnitChangeHint::None,
-                    );
-                }
-            }
+            tracing::warn!(
+                "Unit not found for target unit: {}",
+                target_unit.m_target.m_tag
+            );
+            return (
+                ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
+                UnitChangeHint::None,
+            );
         }
     };
     let mut user_selected_unit_ids: Vec<u32> = vec![];
-- 
2.43.0


From 3fe66691dfb40d21853af9be98fc5f2a66dfbd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 11/21] fix: units that died leave the control groups and the
 selection

---
 src/tracker_events/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..69a28ff 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -247,9 +247,11 @@ pub fn handle_unit_died(
     unit_dead: UnitDiedEvent,
 ) -> (ReplayTrackerEvent, UnitChangeHint) {
     // Clean up the unit from previous groups where it was selected.
+    // The groups hold the unit tags of the game events.
+    let dead_tag = unit_tag(unit_dead.unit_tag_index, unit_dead.unit_tag_recycle);
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            state.control_groups[group_idx].retain(|&x| i64::from(x) != dead_tag);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From a8218b9db700690487f983c0830b921212b42c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 12/21] fix: a unit born remembers the ability that created it

---
 src/tracker_events/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 69a28ff..e7502c6 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -112,6 +112,7 @@ pub fn handle_unit_born(
             name: unit_born.unit_type_name.clone(),
             pos: Vec3D::new(unit_born.x as f32, unit_born.y as f32, 0.),
             init_game_loop: game_loop,
+            creator_ability_name: unit_born.creator_ability_name.clone(),
             tag_index: unit_born.unit_tag_index,
             player_name: get_player_name_by_tracker_control_player_id(
                 &sc2_state.user_state,
-- 
2.43.0


From 8a846c853381ba9934ca691e624d35616196db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 13/21] fix: a unit that changes while it is selected keeps the
 selected radius

---
 src/state/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index a745952..db48c17 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -96,7 +96,12 @@ impl SC2Unit {
     pub fn set_unit_props(&mut self, balance_units: &VersionedBalanceUnits) {
         let (radius, color) =
             get_unit_sized_color(&self.name, self.user_id.unwrap_or(0) as i64, balance_units);
-        self.radius = radius;
+        // A selected unit is shown with twice its radius.
+        self.radius = if self.is_selected {
+            radius * 2.0
+        } else {
+            radius
+        };
         self.color = color;
     }
 }
-- 
2.43.0


From a23f1a037c782321e218ba7a1d916383206f5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 14/21] fix: control group ids without a group no longer panic

---
 src/game_events/state.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 61924cb..2ce9ad5 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -301,9 +301,13 @@ pub fn handle_selection_delta(
         };
         updated_units.append(&mut marked_units);
     }
-    if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
-        state.control_groups[selection_delta.m_control_group_id as usize] =
-            selection_delta.m_delta.m_add_unit_tags.clone();
+    // The group id has 4 bits, there are less groups than that.
+    if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id)
+        && let Some(group) = state
+            .control_groups
+            .get_mut(selection_delta.m_control_group_id as usize)
+    {
+        group.clone_from(&selection_delta.m_delta.m_add_unit_tags);
     }
     updated_units.sort_unstable();
     updated_units.dedup();
@@ -322,6 +326,13 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        // The group index has 4 bits, there are less groups than that.
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::Selection(vec![]),
+        );
+    }
     let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
         UnitChangeHint::Selection(units) => units,
         _ => unreachable!(),
-- 
2.43.0


From 50112322496429b3ba113d7ca4459e51fd891898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 15/21] fix: units stay marked as selected when a control group
 other than the selection changes

---
 src/game_events/state.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 2ce9ad5..416e9a6 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -333,10 +333,7 @@ pub fn update_control_group(
             UnitChangeHint::Selection(vec![]),
         );
     }
-    let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
-        UnitChangeHint::Selection(units) => units,
-        _ => unreachable!(),
-    };
+    let mut updated_units = vec![];
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
@@ -393,6 +390,11 @@ pub fn update_control_group(
             }
         }
         GameEControlGroupUpdate::ERecall => {
+            // Only a recall changes what is selected.
+            updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
+                UnitChangeHint::Selection(units) => units,
+                _ => unreachable!(),
+            };
             let mut current_selected_units: Vec<u32> = vec![];
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
                 user_state.control_groups[ACTIVE_UNITS_GROUP_IDX] = user_state.control_groups
-- 
2.43.0


From 08917fea1a987619fba13ccf93ba4f2945e683cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 16/21] fix: selection changes report every unit once and in
 its state after the event

---
 src/game_events/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 416e9a6..6c60e5e 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -289,7 +289,6 @@ pub fn handle_selection_delta(
                 UnitChangeHint::Selection(units) => units,
                 _ => unreachable!(),
             };
-        updated_units.append(&mut unmarked_units);
         let mut marked_units = match mark_selected_units(
             sc2_state,
             game_loop,
@@ -299,6 +298,9 @@ pub fn handle_selection_delta(
             UnitChangeHint::Selection(units) => units,
             _ => unreachable!(),
         };
+        // A unit in both selections is reported once, as it is now.
+        unmarked_units.retain(|unit| !marked_units.contains(unit));
+        updated_units.append(&mut unmarked_units);
         updated_units.append(&mut marked_units);
     }
     // The group id has 4 bits, there are less groups than that.
@@ -407,6 +409,8 @@ pub fn update_control_group(
                     UnitChangeHint::Selection(units) => units,
                     _ => unreachable!(),
                 };
+            // A unit in both selections is reported once, as it is now.
+            updated_units.retain(|unit| !curr_units.contains(unit));
             updated_units.append(&mut curr_units);
         }
     }
-- 
2.43.0


From 9352f70933711ffef11cd2db677d83ad5e5b278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 17/21] fix: unit positions out of range no longer overflow

---
 src/tracker_events/unit_positions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tracker_events/unit_positions.rs b/src/tracker_events/unit_positions.rs
index b010c75..45d531e 100644
--- a/src/tracker_events/unit_positions.rs
+++ b/src/tracker_events/unit_positions.rs
@@ -39,9 +39,9 @@ impl UnitPositionsEvent {
         let mut unit_index = self.first_unit_index as i32;
         let mut res = vec![];
         for relative_unit_pos in self.items.chunks_exact(3) {
-            unit_index += relative_unit_pos[0];
-            let x = relative_unit_pos[1] * 4;
-            let y = relative_unit_pos[2] * 4;
+            unit_index = unit_index.saturating_add(relative_unit_pos[0]);
+            let x = relative_unit_pos[1].saturating_mul(4);
+            let y = relative_unit_pos[2].saturating_mul(4);
             res.push(UnitPosition {
                 tag: unit_index as u32,
                 x,
-- 
2.43.0


From 19f95feff9a1971a70dd5c8708a4c164eac20004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 18/21] fix: players get the name and clan of their own user,
 not of the user numbered like their slot

---
 src/details.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..efa11ba 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -201,6 +201,11 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     }
                 }
                 let slot_idx = slot_idx?;
+                // The initial data of the users is ordered by user id, not by slot.
+                let user = init.sync_lobby_state.lobby_state.slots[slot_idx]
+                    .user_id
+                    .and_then(|user_id| usize::try_from(user_id).ok())
+                    .and_then(|user_id| init.sync_lobby_state.user_initial_data.get(user_id));
                 Some(PlayerLobbyDetails {
                     title: details.title.clone(),
                     game_description: init.sync_lobby_state.game_description.clone(),
@@ -208,15 +213,8 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     player_details: player.clone(),
                     time_utc: details.time_utc,
                     time_local_offset: details.time_local_offset,
-                    user_init_data_name: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
-                        .map_or("".to_string(), |u| u.name.clone()),
-                    user_init_data_clan_tag: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
+                    user_init_data_name: user.map_or("".to_string(), |u| u.name.clone()),
+                    user_init_data_clan_tag: user
                         .map_or("".to_string(), |u| u.clan_tag.clone().unwrap_or_default()),
                     tracker_setup_player_id: None,
                     tracker_setup_slot_id: None,
-- 
2.43.0


From a5311ec0de74230bb2b5739b48eff62d9f815fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 19/21] fix: a short cache handle no longer panics the player
 flat row

---
 src/details.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index efa11ba..f05a720 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,17 +81,20 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
-            // 8 characters for the extension
-            let (ext_str, remaining) = cache_handle.split_at(8);
+            // 8 characters for the extension, 4 for the "0000" delimiter, 4 for the region and
+            // the rest is the hash.
+            let (Some(ext_str), Some(region_str), Some(cache_handle_hash)) = (
+                cache_handle.get(..8),
+                cache_handle.get(12..16),
+                cache_handle.get(16..),
+            ) else {
+                tracing::warn!("Skipping malformed cache handle: {cache_handle}");
+                continue;
+            };
             let extension = make_string_from_hex_chars(ext_str);
             if cache_handle_extension.is_none() {
                 cache_handle_extension = Some(extension.to_string());
             }
-            // skip the "0000" delimiter.
-            let remaining = &remaining[4..];
-
-            // 4 characters for the region
-            let (region_str, cache_handle_hash) = remaining.split_at(4);
             let region = make_string_from_hex_chars(region_str);
 
             if cache_handle_region.is_none() {
-- 
2.43.0


From 946617d905c8eb22d4ec5983058a69b0344808a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 20/21] fix: a map whose playable area begins outside of it is
 rejected

---
 src/cache_handles/map_info.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..4b7ece0 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -135,6 +135,22 @@ impl MapInfo {
             dbg_peek_hex(take(4usize), "read map cell_top, 4 bytes")(tail)?;
         let (_, cell_top) = i32(nom::number::Endianness::Little)(cell_top_bytes)?;
 
+        if cell_left < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "MapOrigin".to_string(),
+                0,
+                "MapInfoCellLeft".to_string(),
+                cell_left,
+            )));
+        }
+        if cell_bottom < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "MapOrigin".to_string(),
+                0,
+                "MapInfoCellBottom".to_string(),
+                cell_bottom,
+            )));
+        }
         if cell_left >= cell_right {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellLeft".to_string(),
-- 
2.43.0


From 4244e45f7e22c003b387efb0335443666a828e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 21/21] fix: parsing a document header returns the input after
 its fields

---
 src/cache_handles/document_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..4371124 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -176,7 +176,7 @@ impl DocumentHeader {
             new_tail = tail;
         }
 
-        Ok((tail, res))
+        Ok((new_tail, res))
     }
 }
 
-- 
2.43.0

