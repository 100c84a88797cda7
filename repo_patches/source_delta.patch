From fe995e8687c52a74ad657a75ef93d75ec64505f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 01/32] fix: decode the keys and values of a non-empty Map

---
 crates/sourisdb/src/values.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..4576817 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1147,7 +1147,7 @@ impl Value {
             FoundValue(Value),
             JsonNeeded,
             TimezoneNeeded,
-            Map(HashMap<String, Value>, usize, u8),
+            Map(HashMap<String, Value>, usize),
             FoundKey(String),
             FoundKeyValue(String, Value),
             Array(Vec<Value>, usize),
@@ -1156,7 +1156,7 @@ impl Value {
         enum ParseResult {
             Value(Value),
             NewArray(usize),
-            NewMap(usize, u8),
+            NewMap(usize),
             Json,
             Timezone,
         }
@@ -1247,7 +1247,7 @@ impl Value {
                 }
                 ValueTy::Map => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
-                    return Ok(ParseResult::NewMap(len, byte));
+                    return Ok(ParseResult::NewMap(len));
                 }
                 ValueTy::Array => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
@@ -1286,7 +1286,7 @@ impl Value {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1305,7 +1305,7 @@ impl Value {
                         }
                         Some(next_stack_frame) => {
                             match next_stack_frame {
-                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
+                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
                                 DeserialisationState::FoundKey(key) => {
                                     stack.push(DeserialisationState::FoundKeyValue(key, val));
                                 }
@@ -1345,18 +1345,28 @@ impl Value {
                     stack.push(DeserialisationState::Array(so_far, left));
                     stack.push(DeserialisationState::ValueNeeded);
                 }
-                DeserialisationState::Map(so_far, left, byte) => {
-                    let key = parse_string(byte, bytes, huffman)?;
-                    stack.push(DeserialisationState::Map(so_far, left, byte));
+                DeserialisationState::Map(so_far, left) => {
+                    let key_byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+                    let key_ty = ValueTy::try_from((key_byte & 0b1111_0000) >> 4)?;
+                    if key_ty != ValueTy::String {
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found: key_ty,
+                            expected: ValueTy::String,
+                        });
+                    }
+
+                    let key = parse_string(key_byte, bytes, huffman)?;
+                    stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
-                    if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
+                    if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
-                            stack.push(DeserialisationState::Map(so_far, left - 1, byte));
+                            stack.push(DeserialisationState::Map(so_far, left - 1));
                         }
                     } else {
                         return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::FoundKeyValueWithoutMap));
-- 
2.43.0


From 01ebd82b58cabf7fd536ec493cccb9d73026d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 02/32] fix: decode empty Arrays and Maps

---
 crates/sourisdb/src/values.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 4576817..46f1b02 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1285,6 +1285,8 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
+                        ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
                         ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
-- 
2.43.0


From a5da5c91b2eb657fd0b4512b6f0fd2588f590f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 03/32] fix: do not reserve space for more Array or Map items
 than there are bytes left

---
 crates/sourisdb/src/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 46f1b02..64464d2 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1287,8 +1287,8 @@ impl Value {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
+                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len.min(bytes.items_remaining())), len),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len.min(bytes.items_remaining())), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From 5403220591bcb2af5aa6854e7f0f2d1e6ba28419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 04/32] fix: give the only element of a one-element huffman
 tree a non-empty code

---
 crates/sourisdb/src/utilities/huffman.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..531ecda 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -361,7 +361,12 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     ) {
         match node {
             Node::Leaf(ch) => {
-                to_bits.insert(ch.clone(), bits_so_far);
+                let mut bits = bits_so_far;
+                if bits.is_empty() {
+                    //if there's only one distinct element, it still needs one bit per occurrence
+                    bits.push(true);
+                }
+                to_bits.insert(ch.clone(), bits);
             }
             Node::Branch { left, right } => {
                 let mut left_bits = bits_so_far.clone();
@@ -421,7 +426,14 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                Node::Leaf(t) => {
+                    //only the root can be a leaf here, when there is only one distinct element
+                    if !next_direction {
+                        return Err(HuffmanSerError::UnableToCode);
+                    }
+                    result.push(t.clone());
+                    new_node = &self.root;
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
-- 
2.43.0


From ef15cfbc692a80f1ca8192d6d546fd5089b1c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 05/32] fix: do not underflow on a huffman leaf encoded as zero

---
 crates/sourisdb/src/utilities/huffman.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 531ecda..91b34d2 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -198,8 +198,11 @@ impl Node<char> {
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            let Some(ch) = ch.checked_sub(1) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
+            };
+            let Ok(ch) = char::try_from(ch) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
-- 
2.43.0


From d0fec4f651a3024b047d0c730862e02f14d86a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 06/32] fix: bound the recursion when deserialising a huffman
 tree

---
 crates/sourisdb/src/utilities/huffman.rs | 28 ++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 91b34d2..b6e5da8 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -88,6 +88,9 @@ pub struct Huffman<T: Hash + Eq + Clone> {
 }
 //I tested tree traversal both ways, and in the end it made encoding like 2000% slower (300 nano -> 7 milli), but encoding like 90% faster (1 milli -> 100 nano), so that's the cause for the split approach
 
+///The deepest node tree which can be deserialised. The weights of a tree are summed in a [`usize`] and the least frequent nodes are always joined first, so a tree we created is never deeper than around 90 levels.
+const MAX_TREE_DEPTH: usize = 256;
+
 ///A binary tree structure for use in creating the huffman encoding
 #[derive(Debug, Eq, PartialEq, Hash)]
 enum Node<T> {
@@ -152,14 +155,21 @@ impl Node<u8> {
     }
 
     pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_at_depth(cursor, 0)
+    }
+
+    fn deser_at_depth(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let left = Box::new(Self::deser_at_depth(cursor, depth + 1)?);
+                let right = Box::new(Self::deser_at_depth(cursor, depth + 1)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -187,13 +197,20 @@ impl Node<char> {
     }
 
     fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_at_depth(cursor, 0)
+    }
+
+    fn deser_at_depth(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let left = Box::new(Self::deser_at_depth(cursor, depth + 1)?);
+            let right = Box::new(Self::deser_at_depth(cursor, depth + 1)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
@@ -227,6 +244,8 @@ pub enum HuffmanSerError {
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
     UnableToCreateNodeTree,
+    ///The node tree was nested deeper than any tree we could have serialised
+    TreeTooDeep,
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -260,6 +279,7 @@ impl Display for HuffmanSerError {
             HuffmanSerError::UnableToCreateNodeTree => {
                 write!(f, "Unable to create node tree with empty input")
             }
+            HuffmanSerError::TreeTooDeep => write!(f, "Node tree is nested too deeply"),
         }
     }
 }
-- 
2.43.0


From 541f7922f6cd8c41952a8288a62123a227266131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 07/32] fix: read exactly as many bytes as Bits were serialised
 into

---
 crates/sourisdb/src/utilities/bits.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..177f0b8 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -154,14 +154,9 @@ impl Bits {
     /// # Errors
     /// - [`IntegerSerError`] if we cannot find the number of valid bits
     /// - [`IntegerSerError::NotEnoughBytes`] if we do not have enough bytes
-    #[allow(
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss,
-        clippy::cast_precision_loss
-    )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
+        let to_be_read = valid_bits.div_ceil(8);
         let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
-- 
2.43.0


From 75228d72abbeb4ae9f71f46d20d5ed88df89119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 08/32] fix: ignore the padding after the last valid bit of
 Bits

---
 crates/sourisdb/src/utilities/bits.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index 177f0b8..70d3272 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -118,7 +118,7 @@ impl Bits {
             return self.backing.clone();
         }
 
-        let to_be_anded = (0..=interior_index).fold(0, |acc, i| acc | (1 << i));
+        let to_be_anded = (0..interior_index).fold(0, |acc, i| acc | (1 << i));
 
         let mut bytes = self.backing.clone();
         bytes[self.backing.len() - 1] &= to_be_anded;
@@ -161,10 +161,13 @@ impl Bits {
             return Err(IntegerSerError::NotEnoughBytes);
         };
 
-        Ok(Self {
+        let mut bits = Self {
             backing,
             valid_bits,
-        })
+        };
+        bits.backing = bits.get_proper_bytes(); //the other methods rely on the padding bits being unset
+
+        Ok(bits)
     }
 }
 
-- 
2.43.0


From fc7e6339c33cc32bd19bd905b13b473e6fc6f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 09/32] fix: return an error for an impossible length of
 repeated bytes

---
 crates/sourisdb/src/types/binary/huffman.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/huffman.rs b/crates/sourisdb/src/types/binary/huffman.rs
index bd6193d..6781891 100644
--- a/crates/sourisdb/src/types/binary/huffman.rs
+++ b/crates/sourisdb/src/types/binary/huffman.rs
@@ -44,7 +44,13 @@ pub fn un_huffman(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, HuffmanSerError> {
                 .next()
                 .copied()
                 .ok_or(HuffmanSerError::NotEnoughBytes)?;
-            vec![element; count]
+
+            let mut output = vec![];
+            output
+                .try_reserve_exact(count)
+                .map_err(|_| HuffmanSerError::UnableToCode)?;
+            output.resize(count, element);
+            output
         }
         _ => {
             let huffman = Huffman::<u8>::deser(cursor)?;
-- 
2.43.0


From e073d1a07aeee709e2c7813ab2829f40f4981c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 10/32] fix: do not trust an impossible length of LZ-compressed
 bytes

---
 crates/sourisdb/src/types/binary/lz.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..290be4c 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -35,11 +35,16 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         return Ok(vec![]);
     }
 
-    let compressed_len = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
+    let compressed_len: usize = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
     let compressed = cursor
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
+    //one byte can never expand into more than 255, and the length is used to allocate the output
+    if input_len.div_ceil(255) > compressed_len {
+        return Err(BinarySerError::NotEnoughBytes);
+    }
+
     Ok(decompress(compressed, input_len)?)
 }
 
-- 
2.43.0


From 6ddd03073974c7d0addd16ff3ab6868c980808bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 11/32] fix: compare and hash Integers by their value, so that
 all zeroes are equal

---
 crates/sourisdb/src/types/integer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..5a59d00 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -75,9 +75,8 @@ pub struct Integer {
 
 impl PartialEq for Integer {
     fn eq(&self, other: &Self) -> bool {
-        if self.content[0..self.number_of_bytes_used]
-            != other.content[0..other.number_of_bytes_used]
-        {
+        //the unused bytes always extend the number, so they don't need to be cut off
+        if self.content != other.content {
             return false;
         }
 
@@ -99,8 +98,7 @@ impl Hash for Integer {
             SignedState::SignedPositive
         };
         ss_to_be_hashed.hash(state);
-        self.content[0..self.number_of_bytes_used].hash(state);
-        self.number_of_bytes_used.hash(state);
+        self.content.hash(state);
     }
 }
 
-- 
2.43.0


From dd1bb95fb84c9f875a14c51806b3b3c60d1ee7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 12/32] fix: reject numbers which only fit a signed type by
 changing sign

---
 crates/sourisdb/src/types/integer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 5a59d00..cd54078 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -279,7 +279,13 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let n = <$t>::from_le_bytes(out);
+                if (n < 0) != (i.signed_state == SignedState::SignedNegative) {
+                    //the sign bit was needed for the magnitude
+                    return Err(IntegerSerError::TooBigToFit);
+                }
+
+                Ok(n)
             }
         }
         )+
-- 
2.43.0


From b564c2b12e66ae87da80ca0fd0619fb4cfd54729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 13/32] fix: do not round negative decimals down when
 converting f64s to Integers

---
 crates/sourisdb/src/types/integer.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index cd54078..bdb57f1 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -416,22 +416,22 @@ impl TryFrom<f64> for Integer {
         if !value.is_finite() {
             return Err(FloatToIntegerConversionError::NotFinite);
         }
-        if value.fract() > f64::EPSILON {
+        if value.fract().abs() > f64::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 value.fract(),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > BiggestIntButSigned::MIN as f64 {
-                Ok((floored as BiggestIntButSigned).into())
+        let truncated = value.trunc();
+        if truncated < 0.0 {
+            if truncated >= BiggestIntButSigned::MIN as f64 {
+                Ok((truncated as BiggestIntButSigned).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored < BiggestInt::MAX as f64 {
-                Ok((floored as BiggestInt).into())
+            if truncated < BiggestInt::MAX as f64 {
+                Ok((truncated as BiggestInt).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
-- 
2.43.0


From 72ebb0127fb0c4513f2ba9695432d4fd63cc7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 14/32] fix: convert f32s to Integers within the bounds, rather
 than outside of them

---
 crates/sourisdb/src/types/integer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index bdb57f1..7c8b8e1 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -448,22 +448,25 @@ impl TryFrom<f32> for Integer {
         clippy::cast_sign_loss
     )]
     fn try_from(value: f32) -> Result<Self, Self::Error> {
-        if value.fract() > f32::EPSILON {
+        if !value.is_finite() {
+            return Err(FloatToIntegerConversionError::NotFinite);
+        }
+        if value.fract().abs() > f32::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 f64::from(value.fract()),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > i128::MIN as f32 {
-                Ok((floored as i128).into())
+        let truncated = value.trunc();
+        if truncated < 0.0 {
+            if truncated >= i128::MIN as f32 {
+                Ok((truncated as i128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored > u128::MAX as f32 {
-                Ok((floored as u128).into())
+            if truncated < u128::MAX as f32 {
+                Ok((truncated as u128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
-- 
2.43.0


From 88b8ddab7b97c2bf1a82c92b15fcc1cb5b613fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 15/32] fix: hash equal Values to the same hash

---
 crates/sourisdb/src/types/imaginary.rs |  4 ++--
 crates/sourisdb/src/values.rs          | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index c4c7e2e..254716a 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -53,7 +53,7 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                modulus.to_le_bytes().hash(state);
+                (modulus + 0.0).to_le_bytes().hash(state); //-0.0 is equal to 0.0
 
                 match argument.classify() {
                     FpCategory::Nan => 0,
@@ -63,7 +63,7 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                argument.to_le_bytes().hash(state);
+                (argument + 0.0).to_le_bytes().hash(state);
             }
         }
     }
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 64464d2..ad41195 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -248,13 +248,14 @@ impl Hash for Value {
                 v.hash(state);
             }
             Value::JSON(j) => {
-                j.to_string().hash(state);
+                j.hash(state);
             }
             Value::Map(m) => {
-                for k in m.keys() {
+                //equal maps can have different iteration orders
+                let mut entries: Vec<_> = m.iter().collect();
+                entries.sort_unstable_by_key(|(k, _)| *k);
+                for (k, v) in entries {
                     k.hash(state);
-                }
-                for v in m.values() {
                     v.hash(state);
                 }
             }
@@ -272,7 +273,7 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                (f + 0.0).to_le_bytes().hash(state); //-0.0 is equal to 0.0
             }
             Value::Null(()) => {}
             Value::Timezone(tz) => {
@@ -293,7 +294,7 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                (f + 0.0).to_le_bytes().hash(state); //-0.0 is equal to 0.0
             }
         }
     }
-- 
2.43.0


From 5f1a9684ef7651fd92af48476a6f791c620163b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 16/32] fix: decode every leap second a Timestamp can hold

---
 crates/sourisdb/src/values.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index ad41195..b558af3 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1217,7 +1217,8 @@ impl Value {
                     let sec = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
                     let ns = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
 
-                    let time = NaiveTime::from_hms_nano_opt(hour, min, sec, ns)
+                    let time = NaiveTime::from_hms_opt(hour, min, sec)
+                        .and_then(|time| time.with_nanosecond(ns)) //leap seconds don't have to be at the end of a minute
                         .ok_or(ValueSerError::InvalidDateOrTime)?;
 
                     Value::Timestamp(NaiveDateTime::new(date, time))
-- 
2.43.0


From a8d920c13ef3d1fccc94ed667c676bdc9376e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 17/32] fix: read back the Timestamps which were written to
 JSON

---
 crates/sourisdb/src/values.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index b558af3..ae7d35f 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -811,7 +811,10 @@ impl Value {
                             }
                             ValueTy::Timestamp => {
                                 if let Some(SJValue::String(timestamp)) = obj.get("timestamp") {
-                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp) {
+                                    //displaying uses a space, but parsing expects a 'T'
+                                    if let Ok(timestamp) =
+                                        NaiveDateTime::from_str(&timestamp.replacen(' ', "T", 1))
+                                    {
                                         Ok(Value::Timestamp(timestamp))
                                     } else {
                                         Err(ValueSerError::InvalidSourisType {
-- 
2.43.0


From 2e664e41c43d809657d033c6529b82d996d0d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 18/32] fix: keep the key of a map stored as "JSON" when
 converting a Store to JSON

---
 crates/sourisdb/src/store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/store.rs b/crates/sourisdb/src/store.rs
index 46dbac0..42ce862 100644
--- a/crates/sourisdb/src/store.rs
+++ b/crates/sourisdb/src/store.rs
@@ -163,7 +163,8 @@ impl Store {
     ///fails if integer out of range, or float is NaN or infinite
     #[must_use]
     pub fn to_json(mut self, add_souris_types: bool) -> Option<SJValue> {
-        if self.len() == 1 {
+        //a map is its own store when converted back, so only other values can be unwrapped
+        if self.len() == 1 && !self.0.values().any(Value::is_map) {
             if let Some(v) = self.0.remove("JSON") {
                 return v.convert_to_json(add_souris_types);
             }
-- 
2.43.0


From 6fc59432db1779a6ed1b5a791c98e785210d9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 19/32] fix: report CREATED only if adding contents made a new
 database

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..b8e07c9 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -89,7 +89,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
-- 
2.43.0


From 07792da074045d701177af69ef6f5e0f03e932ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 20/32] fix: invalidate the cached bytes of a database while
 holding the lock

---
 crates/sourisd/src/v1_routes/state.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b8e07c9..1fa6e12 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -86,8 +86,8 @@ impl SourisState {
         overwrite_existing: bool,
         contents: Store,
     ) -> StatusCode {
-        self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await; //must hold the lock, or else get_db could cache the old contents again
 
         let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
@@ -109,9 +109,8 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await; //must hold the lock, or else get_db could cache the old contents again
 
         if let SEntry::Occupied(mut e) = dbs.entry(name) {
             e.insert(Store::default());
@@ -125,9 +124,8 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await; //must hold the lock, or else get_db could cache the old contents again
 
         if !dbs.contains_key(&name) {
             return Err(SourisError::DatabaseNotFound);
@@ -170,9 +168,8 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> CreationResult {
-        self.db_cache.invalidate(&db_name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await; //must hold the lock, or else get_db could cache the old contents again
         match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
@@ -220,8 +217,8 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await; //must hold the lock, or else get_db could cache the old contents again
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
-- 
2.43.0


From 3e38ae5a76cfe5c574131c7d000df712dae1b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 21/32] fix: do not remove the file of a database which was
 created after the removal

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 1fa6e12..7634786 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -132,8 +132,8 @@ impl SourisState {
         }
 
         dbs.remove(&name);
-        drop(dbs);
 
+        //keep the lock so that a database with the same name can't be saved before its file is removed
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
         if let Err(e) = tokio::fs::remove_file(file_name).await {
-- 
2.43.0


From 8ad71f052f9ee8e6c2192f1c6a0452e369798abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 22/32] fix: replace saved files atomically and wait for the
 writes to finish

---
 crates/sourisd/src/v1_routes/state.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 7634786..5ba932b 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
     sync::Mutex,
 };
@@ -357,7 +357,12 @@ async fn write_to_file(
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    //write to a different file first, so that the previous contents survive if this fails midway
+    let path = path.as_ref();
+    let mut tmp_path = path.as_os_str().to_os_string();
+    tmp_path.push(".tmp");
+
+    let mut file = match File::create(&tmp_path).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -365,7 +370,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&tmp_path).await?
             } else {
                 return Err(e.into());
             }
@@ -373,6 +378,10 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.sync_all().await?;
+    drop(file);
+
+    rename(&tmp_path, path).await?;
 
     Ok(())
 }
-- 
2.43.0


From 5873e49df51f15666f68efe49f35f00d99353e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 23/32] fix: do not forget a database if one save of it fails

---
 crates/sourisd/src/v1_routes/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 5ba932b..2df823f 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -338,9 +338,9 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
             }
+            //even if it couldn't be written this time, an earlier save can still be there
+            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
-- 
2.43.0


From 4a070a24ce9e782f7ad58f8960a8573219c8118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 24/32] fix: reject database names which would be saved outside
 of the base location or over the meta database

---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 ++--
 crates/sourisd/src/v1_routes/state.rs | 34 ++++++++++++++++++++-------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..97e621e 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, not equal to `meta` and usable as file names"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 2df823f..14efe2f 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -32,6 +32,17 @@ use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
+///Whether a database can have the given name - it's also used for the name of the file the database is saved in, so it can't be the name of another file or be anywhere other than directly in the base location.
+fn is_valid_db_name(name: &str) -> bool {
+    ///The longest file name on most file systems, without the extensions we add
+    const MAX_LEN: usize = 255 - ".sdb.tmp".len();
+
+    name != "meta"
+        && name.is_ascii()
+        && name.len() <= MAX_LEN
+        && !name.contains(['/', '\\', '\0'])
+}
+
 #[derive(Clone, Debug)]
 #[allow(clippy::module_name_repetitions)]
 pub struct SourisState {
@@ -48,14 +59,14 @@ impl SourisState {
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, the name is `meta` or the name cannot be used as the name of a file.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
+        if !is_valid_db_name(&name) {
             return Err(SourisError::InvalidDatabaseName);
         }
 
@@ -85,7 +96,11 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        if !is_valid_db_name(&name) {
+            return Err(SourisError::InvalidDatabaseName);
+        }
+
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&name).await; //must hold the lock, or else get_db could cache the old contents again
 
@@ -100,9 +115,9 @@ impl SourisState {
         }
 
         if created_new {
-            StatusCode::CREATED
+            Ok(StatusCode::CREATED)
         } else {
-            StatusCode::OK
+            Ok(StatusCode::OK)
         }
     }
 
@@ -167,10 +182,10 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await; //must hold the lock, or else get_db could cache the old contents again
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -190,6 +205,9 @@ impl SourisState {
             }
             SEntry::Vacant(vac) => {
                 if create_new_database {
+                    if !is_valid_db_name(vac.key()) {
+                        return Err(SourisError::InvalidDatabaseName);
+                    }
                     let db = vac.insert(Store::default());
                     db.insert(key, v);
                     CreationResult::InsertedKeyIntoNewDB
@@ -197,7 +215,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From cec7affd927e60521d35b1d701fc14e4450e7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 25/32] fix: send the name of the store to get as a query
 parameter

---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From 983036dcff5a06c58eefa5f8e57550020d5c4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 26/32] fix: make a SingleFloat when a SingleFloat was chosen

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From e37c803696b125584106d9787ef9a43bf016ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 27/32] fix: seek relative to the start, end or current
 position of a Cursor as asked

---
 crates/sourisdb/src/utilities/cursor.rs | 47 ++++++++-----------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/crates/sourisdb/src/utilities/cursor.rs b/crates/sourisdb/src/utilities/cursor.rs
index 34d8dd4..377a7bf 100644
--- a/crates/sourisdb/src/utilities/cursor.rs
+++ b/crates/sourisdb/src/utilities/cursor.rs
@@ -208,42 +208,23 @@ impl<'a, T> core::iter::Iterator for Cursor<'a, T> {
 
 #[cfg(feature = "std")]
 impl<'a, T> std::io::Seek for Cursor<'a, T> {
-    #[allow(
-        clippy::collapsible_if,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Current(offset) => {
-                if offset > 0 {
-                    if !self.move_forwards(offset as usize) {
-                        return Err(std::io::Error::new(
-                            std::io::ErrorKind::NotFound,
-                            "Goes out of bounds".to_string(),
-                        ));
-                    }
-                }
-            }
-            std::io::SeekFrom::End(offset) => {
-                if offset > 0 || !self.move_backwards((-offset) as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
-            }
-            std::io::SeekFrom::Start(offset) => {
-                if !self.move_backwards(offset as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+        let (start, offset) = match pos {
+            std::io::SeekFrom::Start(offset) => (0, i128::from(offset)),
+            std::io::SeekFrom::Current(offset) => (self.pos, i128::from(offset)),
+            std::io::SeekFrom::End(offset) => (self.backing.len(), i128::from(offset)),
+        };
+
+        match usize::try_from(start as i128 + offset) {
+            Ok(new_pos) if new_pos <= self.backing.len() => {
+                self.pos = new_pos;
+                Ok(new_pos as u64)
             }
+            _ => Err(std::io::Error::new(
+                std::io::ErrorKind::NotFound,
+                "Goes out of bounds".to_string(),
+            )),
         }
-
-        Ok(self.pos as u64)
     }
 }
 
-- 
2.43.0


From c67b7c8ac133d113a78abb33709c211e228b2fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 28/32] fix: limit how deeply deserialised Values can be nested

---
 crates/sourisdb/src/values.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index ae7d35f..7ffb539 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -496,7 +496,9 @@ enum InvalidDeserialisationStateError {
     ///We found a state that should come after a value without a value
     ShouldOnlyComeAfterFoundValue,
     ///The stack was empty at the end of processing rather than yielding a value
-    EmptyStack
+    EmptyStack,
+    ///The value was nested too deeply to be able to process it later on
+    TooDeep,
 }
 
 impl From<InvalidDeserialisationStateError> for ValueSerError {
@@ -1283,9 +1285,15 @@ impl Value {
             }))
         }
 
+        ///An array needs one place on the stack, and a map needs two. Everything else which can be done with a [`Value`], including dropping it, is recursive and so a limit is needed.
+        const MAX_DESERIALISATION_STACK: usize = 256;
+
         let mut stack: Vec<DeserialisationState> = vec![DeserialisationState::ValueNeeded];
 
         while let Some(state) = stack.pop() {
+            if stack.len() > MAX_DESERIALISATION_STACK {
+                return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::TooDeep));
+            }
             match state {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
-- 
2.43.0


From 5513ae754903b11bf2ed0dc44811afa4724bfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 29/32] fix: report errors from writing before replacing the
 old file

---
 crates/sourisd/src/v1_routes/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 14efe2f..074a561 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -396,6 +396,7 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.flush().await?; //an error from writing is only reported by the next write or flush, and not by syncing
     file.sync_all().await?;
     drop(file);
 
-- 
2.43.0


From c18205ac9851977ec07d9548675178f0211ed34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 30/32] fix: keep the lock until the list of databases is saved

---
 crates/sourisd/src/v1_routes/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 074a561..e255bf3 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -350,7 +350,9 @@ impl SourisState {
     pub async fn save(&self) -> color_eyre::Result<()> {
         let mut names = vec![];
 
-        for (name, db) in self.dbs.lock().await.iter() {
+        //keep the lock until everything is written, so that the list of databases agrees with the files
+        let dbs = self.dbs.lock().await;
+        for (name, db) in dbs.iter() {
             let file_name = self.base_location.join(format!("{name}.sdb"));
             let bytes = db.ser();
 
-- 
2.43.0


From fde28676a79c9e0af3499d8f26d0515d47e40b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 31/32] fix: return an error status of get_all_dbs as an error
 in the async client

---
 crates/sourisdb/src/client/async_client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..16838f1 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -92,16 +92,17 @@ impl AsyncClient {
     /// - [`reqwest::Error`] if there is an error with the HTTP request, or we cannot get the raw bytes out
     /// - [`ClientError::HttpErrorCode`] if an HTTP Error status code is encountered.
     pub async fn get_all_dbs(&self) -> Result<Vec<String>, ClientError> {
-        Ok(self
+        let rsp = self
             .client
             .get(&format!(
                 "http://{}:{}/v1/get_all_db_names",
                 self.path, self.port
             ))
             .send()
-            .await?
-            .json()
-            .await?)
+            .await?;
+        rsp.error_for_status_to_client_error()?;
+
+        Ok(rsp.json().await?)
     }
 
     ///Creates a new [`Store`] in the connected database with the given name. Returns whether a new database had to be created.
-- 
2.43.0


From 88bc85925addd4fe755ec16d1ffee8477b531eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 32/32] fix: give 0+0i an argument which is a number in polar
 form

---
 crates/sourisdb/src/types/imaginary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index 254716a..70c61e4 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -180,7 +180,7 @@ impl Imaginary {
     /// assert!((argument - expected_argument).abs() < f64::EPSILON);
     pub fn polar_from_cartesian(real: f64, imaginary: f64) -> Self {
         let modulus = real.hypot(imaginary);
-        let phi = (imaginary.abs() / real.abs()).atan();
+        let phi = imaginary.abs().atan2(real.abs());
         let argument = match (real.is_sign_negative(), imaginary.is_sign_negative()) {
             (true, true) => -PI + phi,
             (true, false) => PI - phi,
-- 
2.43.0

