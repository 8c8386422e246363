From b04e694c194531da1571df95954873c64e8de301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 01/41] fix: read the type byte of each key when deserialising
 a map

---
 crates/sourisdb/src/values.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..6384278 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1346,7 +1346,16 @@ impl Value {
                     stack.push(DeserialisationState::ValueNeeded);
                 }
                 DeserialisationState::Map(so_far, left, byte) => {
-                    let key = parse_string(byte, bytes, huffman)?;
+                    //keys are serialised as complete `Value::String`s, so each has its own type byte
+                    let key_byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+                    let key_ty = ValueTy::try_from((key_byte & 0b1111_0000) >> 4)?;
+                    if key_ty != ValueTy::String {
+                        return Err(ValueSerError::UnexpectedValueType {
+                            found: key_ty,
+                            expected: ValueTy::String,
+                        });
+                    }
+                    let key = parse_string(key_byte, bytes, huffman)?;
                     stack.push(DeserialisationState::Map(so_far, left, byte));
                     stack.push(DeserialisationState::FoundKey(key));
                 },
-- 
2.43.0


From 53d2a9e8de333a4ea514a8979945c241e9707808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 02/41] fix: deserialise empty arrays and maps without reading
 an element

---
 crates/sourisdb/src/values.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 6384278..584cd45 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1285,6 +1285,8 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
+                        ParseResult::NewMap(0, _) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
                         ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
                         ParseResult::Json => {
-- 
2.43.0


From 50e881953a4c6598b6c01812ea45f69b158752c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 03/41] fix: give the only symbol of a huffman code one bit, so
 that it survives coding

---
 crates/sourisdb/src/utilities/huffman.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..a12bca0 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -361,7 +361,13 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     ) {
         match node {
             Node::Leaf(ch) => {
-                to_bits.insert(ch.clone(), bits_so_far);
+                //a lone leaf at the root still needs a bit per symbol, or else we couldn't tell how many there were
+                let bits = if bits_so_far.is_empty() {
+                    bits_so_far.push_into_new(true)
+                } else {
+                    bits_so_far
+                };
+                to_bits.insert(ch.clone(), bits);
             }
             Node::Branch { left, right } => {
                 let mut left_bits = bits_so_far.clone();
@@ -421,7 +427,11 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                //only possible if the root is a lone leaf
+                Node::Leaf(t) => {
+                    result.push(t.clone());
+                    new_node = &self.root;
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
-- 
2.43.0


From 19409836d0784da980e52cb1e3f19f512b6f4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 04/41] fix: refuse an overlong zero in a huffman tree instead
 of underflowing

---
 crates/sourisdb/src/utilities/huffman.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index a12bca0..1abcde6 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -198,8 +198,12 @@ impl Node<char> {
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            //a zero can also arrive in the longer integer format, but never stands for a character
+            let Some(ch) = ch.checked_sub(1) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
+            };
+            let Ok(ch) = char::try_from(ch) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
-- 
2.43.0


From d5dbde0b244b71252c8d4dc322d44f1f15d46578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 05/41] fix: limit the depth of deserialised huffman trees,
 which could overflow the stack

---
 crates/sourisdb/src/utilities/huffman.rs | 32 +++++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 1abcde6..bfb1147 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -88,6 +88,11 @@ pub struct Huffman<T: Hash + Eq + Clone> {
 }
 //I tested tree traversal both ways, and in the end it made encoding like 2000% slower (300 nano -> 7 milli), but encoding like 90% faster (1 milli -> 100 nano), so that's the cause for the split approach
 
+///The deepest node tree we are willing to deserialise.
+///
+///A huffman tree which is `n` deep needs data with at least `fib(n)` elements, so no tree made from data that can be counted with a [`u64`] is deeper than this.
+const MAX_TREE_DEPTH: usize = 128;
+
 ///A binary tree structure for use in creating the huffman encoding
 #[derive(Debug, Eq, PartialEq, Hash)]
 enum Node<T> {
@@ -152,14 +157,21 @@ impl Node<u8> {
     }
 
     pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_internal(cursor, 0)
+    }
+
+    fn deser_internal(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let left = Box::new(Self::deser_internal(cursor, depth + 1)?);
+                let right = Box::new(Self::deser_internal(cursor, depth + 1)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -187,13 +199,20 @@ impl Node<char> {
     }
 
     fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_internal(cursor, 0)
+    }
+
+    fn deser_internal(cursor: &mut Cursor<u8>, depth: usize) -> Result<Self, HuffmanSerError> {
+        if depth > MAX_TREE_DEPTH {
+            return Err(HuffmanSerError::TreeTooDeep);
+        }
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let left = Box::new(Self::deser_internal(cursor, depth + 1)?);
+            let right = Box::new(Self::deser_internal(cursor, depth + 1)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
@@ -228,6 +247,8 @@ pub enum HuffmanSerError {
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
     UnableToCreateNodeTree,
+    ///The node tree being deserialised was deeper than any that could have been serialised
+    TreeTooDeep,
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -261,6 +282,9 @@ impl Display for HuffmanSerError {
             HuffmanSerError::UnableToCreateNodeTree => {
                 write!(f, "Unable to create node tree with empty input")
             }
+            HuffmanSerError::TreeTooDeep => {
+                write!(f, "Node tree was nested too deeply")
+            }
         }
     }
 }
-- 
2.43.0


From 9da8e046ccf4b7515d75e421aa9bd78e12548e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 06/41] fix: work out the length of serialised bits with
 integers, as an f32 cannot hold it

---
 crates/sourisdb/src/utilities/bits.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..177f0b8 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -154,14 +154,9 @@ impl Bits {
     /// # Errors
     /// - [`IntegerSerError`] if we cannot find the number of valid bits
     /// - [`IntegerSerError::NotEnoughBytes`] if we do not have enough bytes
-    #[allow(
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss,
-        clippy::cast_precision_loss
-    )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
+        let to_be_read = valid_bits.div_ceil(8);
         let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
-- 
2.43.0


From fecade96497cbdc54157059859500075ec7f60d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 07/41] fix: keep the unused bits of the last byte out of bit
 lists

---
 crates/sourisdb/src/utilities/bits.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index 177f0b8..b83270d 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -118,7 +118,7 @@ impl Bits {
             return self.backing.clone();
         }
 
-        let to_be_anded = (0..=interior_index).fold(0, |acc, i| acc | (1 << i));
+        let to_be_anded = (0..interior_index).fold(0, |acc, i| acc | (1 << i));
 
         let mut bytes = self.backing.clone();
         bytes[self.backing.len() - 1] &= to_be_anded;
@@ -161,10 +161,14 @@ impl Bits {
             return Err(IntegerSerError::NotEnoughBytes);
         };
 
-        Ok(Self {
+        let mut bits = Self {
             backing,
             valid_bits,
-        })
+        };
+        //the unused part of the last byte could contain anything, but must be empty for pushing and popping
+        bits.backing = bits.get_proper_bytes();
+
+        Ok(bits)
     }
 }
 
-- 
2.43.0


From 5ecd6d80bae244cba8f337e32752f920c8863e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 08/41] fix: make an unsigned zero equal to every other zero

---
 crates/sourisdb/src/types/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..c4beab5 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -297,14 +297,14 @@ macro_rules! from_unsigned {
                 for (i, b) in n.to_le_bytes().into_iter().enumerate() {
                     content[i] = b;
                     if b != 0 {
-                        last_non_zero_byte = i;
+                        last_non_zero_byte = i + 1;
                     }
                 }
 
                 Self {
                     signed_state: SignedState::Unsigned,
                     content,
-                    number_of_bytes_used: last_non_zero_byte + 1
+                    number_of_bytes_used: last_non_zero_byte
                 }
             }
         }
-- 
2.43.0


From a59489fdad48dcefa1f5c4e6eaf9baf1cb98093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 09/41] fix: refuse to convert integers to signed types they do
 not fit in

---
 crates/sourisdb/src/types/integer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index c4beab5..7ae5341 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -281,7 +281,13 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let out = <$t>::from_le_bytes(out);
+                if (out < 0) != i.is_negative() {
+                    //the bytes fit, but only by using up the sign bit
+                    return Err(IntegerSerError::TooBigToFit);
+                }
+
+                Ok(out)
             }
         }
         )+
-- 
2.43.0


From de042e8ad6b948011b99449d53d3e88def2b1e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 10/41] fix: normalise deserialised integers, so that equal
 numbers compare equal

---
 crates/sourisdb/src/types/integer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 7ae5341..81e0185 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -764,10 +764,24 @@ impl Integer {
         } else {
             [0; INTEGER_MAX_SIZE]
         };
+        let filler = content[0];
         for (i, b) in bytes_stored.iter().copied().enumerate() {
             content[i] = b;
         }
 
+        //the bytes could claim a sign that their contents contradict, or include bytes that aren't needed
+        let sign_bit_set = content[INTEGER_MAX_SIZE - 1] > i8::MAX as u8;
+        match signed_state {
+            SignedState::SignedNegative if !sign_bit_set => return Err(IntegerSerError::SignError),
+            SignedState::SignedPositive if sign_bit_set => return Err(IntegerSerError::TooBigToFit),
+            _ => {}
+        }
+        let number_of_bytes_used = content
+            .iter()
+            .rposition(|b| *b != filler)
+            .map_or(0, |i| i + 1)
+            .max(usize::from(signed_state == SignedState::SignedNegative));
+
         Ok(Self {
             signed_state,
             content,
-- 
2.43.0


From 9d8fc3ffb8c9c6e641f3dc7ac70929a3cae9d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 11/41] fix: check the decimal part of negative doubles too
 when converting to integers

---
 crates/sourisdb/src/types/integer.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 81e0185..a87e57a 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -418,22 +418,22 @@ impl TryFrom<f64> for Integer {
         if !value.is_finite() {
             return Err(FloatToIntegerConversionError::NotFinite);
         }
-        if value.fract() > f64::EPSILON {
+        let rounded = value.round();
+        if (value - rounded).abs() > f64::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 value.fract(),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > BiggestIntButSigned::MIN as f64 {
-                Ok((floored as BiggestIntButSigned).into())
+        if rounded < 0.0 {
+            if rounded >= BiggestIntButSigned::MIN as f64 {
+                Ok((rounded as BiggestIntButSigned).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored < BiggestInt::MAX as f64 {
-                Ok((floored as BiggestInt).into())
+            if rounded < BiggestInt::MAX as f64 {
+                Ok((rounded as BiggestInt).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
-- 
2.43.0


From b0e29658c7ac69d330701e8f3d04f0cb62c2ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 12/41] fix: convert singles to integers when they are in
 range, not when they are out of it

---
 crates/sourisdb/src/types/integer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index a87e57a..99fbe8d 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -450,22 +450,25 @@ impl TryFrom<f32> for Integer {
         clippy::cast_sign_loss
     )]
     fn try_from(value: f32) -> Result<Self, Self::Error> {
-        if value.fract() > f32::EPSILON {
+        if !value.is_finite() {
+            return Err(FloatToIntegerConversionError::NotFinite);
+        }
+        let rounded = value.round();
+        if (value - rounded).abs() > f32::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 f64::from(value.fract()),
             ));
         }
 
-        let floored = value.floor();
-        if floored < 0.0 {
-            if floored > i128::MIN as f32 {
-                Ok((floored as i128).into())
+        if rounded < 0.0 {
+            if rounded >= i128::MIN as f32 {
+                Ok((rounded as i128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored > u128::MAX as f32 {
-                Ok((floored as u128).into())
+            if rounded < u128::MAX as f32 {
+                Ok((rounded as u128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
-- 
2.43.0


From 4293e5c92516cec49b708865a0a4e80393517a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 13/41] fix: never wrap around silently in integer arithmetic,
 even in release builds

---
 crates/sourisdb/src/types/integer.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 99fbe8d..7006062 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -477,7 +477,7 @@ impl TryFrom<f32> for Integer {
 }
 
 macro_rules! integer_trait_impl {
-    ($t:ident, $f:ident) => {
+    ($t:ident, $f:ident, $checked:ident) => {
         impl $t<Self> for Integer {
             type Output = Self;
 
@@ -495,7 +495,10 @@ macro_rules! integer_trait_impl {
                         panic!("integer too big to fit into u128")
                     };
 
-                    <Self as From<BiggestInt>>::from($t::$f(lhs, rhs))
+                    let Some(out) = BiggestInt::$checked(lhs, rhs) else {
+                        panic!("result does not fit into u128")
+                    };
+                    <Self as From<BiggestInt>>::from(out)
                 } else {
                     let Ok(lhs) = BiggestIntButSigned::try_from(self) else {
                         panic!("integer too big to fit into i128")
@@ -504,16 +507,19 @@ macro_rules! integer_trait_impl {
                         panic!("integer too big to fit into i128")
                     };
 
-                    <Self as From<BiggestIntButSigned>>::from($t::$f(lhs, rhs))
+                    let Some(out) = BiggestIntButSigned::$checked(lhs, rhs) else {
+                        panic!("result does not fit into i128")
+                    };
+                    <Self as From<BiggestIntButSigned>>::from(out)
                 }
             }
         }
     };
 }
-integer_trait_impl!(Add, add);
-integer_trait_impl!(Sub, sub);
-integer_trait_impl!(Mul, mul);
-integer_trait_impl!(Div, div);
+integer_trait_impl!(Add, add, checked_add);
+integer_trait_impl!(Sub, sub, checked_sub);
+integer_trait_impl!(Mul, mul, checked_mul);
+integer_trait_impl!(Div, div, checked_div);
 
 #[cfg(feature = "serde")]
 impl serde::Serialize for Integer {
-- 
2.43.0


From 63a02910e7c503e6adbb111e5f2818507e0986dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 14/41] fix: give the zero complex number a real argument in
 polar form

---
 crates/sourisdb/src/types/imaginary.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index c4c7e2e..bccbd68 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -4,7 +4,6 @@
 
 use alloc::vec::Vec;
 use core::{
-    f64::consts::PI,
     fmt::{Display, Formatter},
     hash::Hash,
     num::FpCategory,
@@ -180,13 +179,7 @@ impl Imaginary {
     /// assert!((argument - expected_argument).abs() < f64::EPSILON);
     pub fn polar_from_cartesian(real: f64, imaginary: f64) -> Self {
         let modulus = real.hypot(imaginary);
-        let phi = (imaginary.abs() / real.abs()).atan();
-        let argument = match (real.is_sign_negative(), imaginary.is_sign_negative()) {
-            (true, true) => -PI + phi,
-            (true, false) => PI - phi,
-            (false, true) => -phi,
-            (false, false) => phi,
-        };
+        let argument = imaginary.atan2(real);
 
         Imaginary::PolarForm { modulus, argument }
     }
-- 
2.43.0


From b36ac10493b7ec7491b2b4cbd1c43b7ee19e5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 15/41] fix: export timestamps to JSON in the format that is
 imported

---
 crates/sourisdb/src/values.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 584cd45..1808b71 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -661,7 +661,8 @@ impl Value {
                     );
                 }
 
-                obj.insert("timestamp".into(), SJValue::String(ts.to_string()));
+                //unlike the `Display` version, the `Debug` version can be read back using `from_str`
+                obj.insert("timestamp".into(), SJValue::String(alloc::format!("{ts:?}")));
 
                 SJValue::Object(obj)
             }
-- 
2.43.0


From 614ed00fc8e6e5146448384061faa20fe37eaaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 16/41] fix: deserialise timestamps with a leap second anywhere

---
 crates/sourisdb/src/values.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 1808b71..d0db207 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1217,7 +1217,9 @@ impl Value {
                     let sec = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
                     let ns = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
 
-                    let time = NaiveTime::from_hms_nano_opt(hour, min, sec, ns)
+                    //`from_hms_nano_opt` would only accept leap seconds at the end of a minute, but they can be anywhere
+                    let time = NaiveTime::from_hms_opt(hour, min, sec)
+                        .and_then(|time| time.with_nanosecond(ns))
                         .ok_or(ValueSerError::InvalidDateOrTime)?;
 
                     Value::Timestamp(NaiveDateTime::new(date, time))
-- 
2.43.0


From a51366c355d8e6b64100b993b329fe3edf208540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 17/41] fix: hash equal maps alike, whatever order they are
 iterated in

---
 crates/sourisdb/src/values.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index d0db207..a222379 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -251,10 +251,11 @@ impl Hash for Value {
                 j.to_string().hash(state);
             }
             Value::Map(m) => {
-                for k in m.keys() {
+                //equal maps can be iterated in different orders
+                let mut entries: Vec<_> = m.iter().collect();
+                entries.sort_unstable_by_key(|(k, _)| *k);
+                for (k, v) in entries {
                     k.hash(state);
-                }
-                for v in m.values() {
                     v.hash(state);
                 }
             }
-- 
2.43.0


From 3bff3141b84916ec83e4f1de98fd1b7b8b7d3091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 18/41] fix: keep the promises of Eq and Hash for values
 containing floats

---
 crates/sourisdb/src/types/imaginary.rs | 67 +++++++++++++++++---------
 crates/sourisdb/src/values.rs          | 29 +++--------
 2 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index bccbd68..10eddec 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -5,8 +5,7 @@
 use alloc::vec::Vec;
 use core::{
     fmt::{Display, Formatter},
-    hash::Hash,
-    num::FpCategory,
+    hash::{Hash, Hasher},
 };
 
 use crate::{
@@ -14,7 +13,7 @@ use crate::{
     utilities::cursor::Cursor,
 };
 
-#[derive(Debug, Clone, PartialEq, Copy)]
+#[derive(Debug, Clone, Copy)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 ///This struct represents imaginary numbers
 pub enum Imaginary {
@@ -34,8 +33,47 @@ pub enum Imaginary {
     },
 }
 
+///Whether two floats are equal, where `NaN`s are equal to one another to allow for [`Eq`].
+pub(crate) fn float_eq(a: f64, b: f64) -> bool {
+    a == b || (a.is_nan() && b.is_nan())
+}
+
+///Hashes a float in agreement with [`float_eq`] - so all `NaN`s hash alike, as do both zeros.
+pub(crate) fn float_hash<H: Hasher>(f: f64, state: &mut H) {
+    let canonical = if f.is_nan() {
+        f64::NAN
+    } else if f == 0.0 {
+        0.0
+    } else {
+        f
+    };
+    canonical.to_bits().hash(state);
+}
+
+impl PartialEq for Imaginary {
+    fn eq(&self, other: &Self) -> bool {
+        match (self, other) {
+            (
+                Self::CartesianForm { real, imaginary },
+                Self::CartesianForm {
+                    real: real2,
+                    imaginary: imaginary2,
+                },
+            ) => real == real2 && imaginary == imaginary2,
+            (
+                Self::PolarForm { modulus, argument },
+                Self::PolarForm {
+                    modulus: modulus2,
+                    argument: argument2,
+                },
+            ) => float_eq(*modulus, *modulus2) && float_eq(*argument, *argument2),
+            _ => false,
+        }
+    }
+}
+
 impl Hash for Imaginary {
-    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+    fn hash<H: Hasher>(&self, state: &mut H) {
         core::mem::discriminant(self).hash(state);
 
         match self {
@@ -44,25 +82,8 @@ impl Hash for Imaginary {
                 imaginary.hash(state);
             }
             Self::PolarForm { modulus, argument } => {
-                match modulus.classify() {
-                    FpCategory::Nan => 0,
-                    FpCategory::Infinite => 1,
-                    FpCategory::Zero => 2,
-                    FpCategory::Subnormal => 3,
-                    FpCategory::Normal => 4,
-                }
-                .hash(state);
-                modulus.to_le_bytes().hash(state);
-
-                match argument.classify() {
-                    FpCategory::Nan => 0,
-                    FpCategory::Infinite => 1,
-                    FpCategory::Zero => 2,
-                    FpCategory::Subnormal => 3,
-                    FpCategory::Normal => 4,
-                }
-                .hash(state);
-                argument.to_le_bytes().hash(state);
+                float_hash(*modulus, state);
+                float_hash(*argument, state);
             }
         }
     }
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index a222379..f268a3a 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -32,7 +32,6 @@ use core::{
     fmt::{Debug, Display, Formatter},
     hash::{Hash, Hasher},
     net::{Ipv4Addr, Ipv6Addr},
-    num::FpCategory,
     str::FromStr,
 };
 
@@ -45,7 +44,7 @@ use serde_json::{Error as SJError, Map as SJMap, Number, Value as SJValue};
 use crate::{
     types::{
         binary::{BinaryCompression, BinaryData, BinarySerError},
-        imaginary::Imaginary,
+        imaginary::{float_eq, float_hash, Imaginary},
         integer::{Integer, IntegerSerError, SignedState},
     },
     utilities::{
@@ -208,13 +207,13 @@ impl PartialEq for Value {
             (Self::Timestamp(t), Self::Timestamp(t2)) => t.eq(t2),
             (Self::JSON(j), Self::JSON(j2)) => j.eq(j2),
             (Self::Null(()), Self::Null(())) => true,
-            (Self::DoubleFloat(f), Self::DoubleFloat(f2)) => f.eq(f2),
+            (Self::DoubleFloat(f), Self::DoubleFloat(f2)) => float_eq(*f, *f2),
             (Self::Array(a), Self::Array(a2)) => a.eq(a2),
             (Self::Map(m), Self::Map(m2)) => m.eq(m2),
             (Self::Timezone(t), Self::Timezone(t2)) => t.eq(t2),
             (Self::Ipv4Addr(t), Self::Ipv4Addr(t2)) => t.eq(t2),
             (Self::Ipv6Addr(t), Self::Ipv6Addr(t2)) => t.eq(t2),
-            (Self::SingleFloat(t), Self::SingleFloat(t2)) => t.eq(t2),
+            (Self::SingleFloat(t), Self::SingleFloat(t2)) => float_eq((*t).into(), (*t2).into()),
             _ => unreachable!("already checked ty equality"),
         }
     }
@@ -248,7 +247,7 @@ impl Hash for Value {
                 v.hash(state);
             }
             Value::JSON(j) => {
-                j.to_string().hash(state);
+                j.hash(state);
             }
             Value::Map(m) => {
                 //equal maps can be iterated in different orders
@@ -265,15 +264,7 @@ impl Hash for Value {
                 }
             }
             Value::DoubleFloat(f) => {
-                match f.classify() {
-                    FpCategory::Nan => 0,
-                    FpCategory::Infinite => 1,
-                    FpCategory::Zero => 2,
-                    FpCategory::Subnormal => 3,
-                    FpCategory::Normal => 4,
-                }
-                .hash(state);
-                f.to_le_bytes().hash(state);
+                float_hash(*f, state);
             }
             Value::Null(()) => {}
             Value::Timezone(tz) => {
@@ -286,15 +277,7 @@ impl Hash for Value {
                 a.hash(state);
             }
             Value::SingleFloat(f) => {
-                match f.classify() {
-                    FpCategory::Nan => 0,
-                    FpCategory::Infinite => 1,
-                    FpCategory::Zero => 2,
-                    FpCategory::Subnormal => 3,
-                    FpCategory::Normal => 4,
-                }
-                .hash(state);
-                f.to_le_bytes().hash(state);
+                float_hash((*f).into(), state);
             }
         }
     }
-- 
2.43.0


From 7717409309c5a16feab5520a6aaf4e932bff0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 19/41] fix: make seeking a cursor go where it was told to

---
 crates/sourisdb/src/utilities/cursor.rs | 44 ++++++++-----------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/crates/sourisdb/src/utilities/cursor.rs b/crates/sourisdb/src/utilities/cursor.rs
index 34d8dd4..5df9d11 100644
--- a/crates/sourisdb/src/utilities/cursor.rs
+++ b/crates/sourisdb/src/utilities/cursor.rs
@@ -208,38 +208,20 @@ impl<'a, T> core::iter::Iterator for Cursor<'a, T> {
 
 #[cfg(feature = "std")]
 impl<'a, T> std::io::Seek for Cursor<'a, T> {
-    #[allow(
-        clippy::collapsible_if,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Current(offset) => {
-                if offset > 0 {
-                    if !self.move_forwards(offset as usize) {
-                        return Err(std::io::Error::new(
-                            std::io::ErrorKind::NotFound,
-                            "Goes out of bounds".to_string(),
-                        ));
-                    }
-                }
-            }
-            std::io::SeekFrom::End(offset) => {
-                if offset > 0 || !self.move_backwards((-offset) as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
-            }
-            std::io::SeekFrom::Start(offset) => {
-                if !self.move_backwards(offset as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+        let (base, offset) = match pos {
+            std::io::SeekFrom::Start(offset) => (0, i128::from(offset)),
+            std::io::SeekFrom::Current(offset) => (self.pos, i128::from(offset)),
+            std::io::SeekFrom::End(offset) => (self.backing.len(), i128::from(offset)),
+        };
+
+        match usize::try_from(base as i128 + offset) {
+            Ok(new_pos) if new_pos <= self.backing.len() => self.pos = new_pos,
+            _ => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::NotFound,
+                    "Goes out of bounds".to_string(),
+                ));
             }
         }
 
-- 
2.43.0


From 2894d6cf0e99c7ce705af9325bb02a25d258c95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 20/41] fix: do not allocate for as many elements as the bytes
 claim to contain

---
 crates/sourisdb/src/values.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index f268a3a..3480e97 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -54,6 +54,9 @@ use crate::{
     },
 };
 
+///The most elements to allocate space for before having read any of them, as the length could be wrong.
+const MAX_PREALLOCATED: usize = 1024;
+
 ///The `Value` type used in [`crate::store::Store`]
 #[derive(Clone, Debug)]
 pub enum Value {
@@ -1274,8 +1277,8 @@ impl Value {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
                         ParseResult::NewMap(0, _) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len.min(MAX_PREALLOCATED)), len),
+                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len.min(MAX_PREALLOCATED)), len, byte),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From 839368bada99f71d49d189272c0528cf3fdc9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 21/41] fix: report runs that are too long for memory as an
 error instead of aborting

---
 crates/sourisdb/src/types/binary/huffman.rs | 7 ++++++-
 crates/sourisdb/src/utilities/huffman.rs    | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/huffman.rs b/crates/sourisdb/src/types/binary/huffman.rs
index bd6193d..ad4d9c5 100644
--- a/crates/sourisdb/src/types/binary/huffman.rs
+++ b/crates/sourisdb/src/types/binary/huffman.rs
@@ -44,7 +44,12 @@ pub fn un_huffman(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, HuffmanSerError> {
                 .next()
                 .copied()
                 .ok_or(HuffmanSerError::NotEnoughBytes)?;
-            vec![element; count]
+            let mut output = vec![];
+            output
+                .try_reserve_exact(count)
+                .map_err(|_| HuffmanSerError::TooLarge(count))?;
+            output.resize(count, element);
+            output
         }
         _ => {
             let huffman = Huffman::<u8>::deser(cursor)?;
diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index bfb1147..9102f19 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -249,6 +249,8 @@ pub enum HuffmanSerError {
     UnableToCreateNodeTree,
     ///The node tree being deserialised was deeper than any that could have been serialised
     TreeTooDeep,
+    ///There was not enough memory for as many elements as there should have been
+    TooLarge(usize),
 }
 
 impl From<IntegerSerError> for HuffmanSerError {
@@ -285,6 +287,9 @@ impl Display for HuffmanSerError {
             HuffmanSerError::TreeTooDeep => {
                 write!(f, "Node tree was nested too deeply")
             }
+            HuffmanSerError::TooLarge(n) => {
+                write!(f, "Not enough memory for {n} elements")
+            }
         }
     }
 }
-- 
2.43.0


From 801b9bfc633a510f959e45174b9489ca30bc777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 22/41] fix: refuse LZ data that claims to decompress to more
 than it could

---
 crates/sourisdb/src/types/binary/lz.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..61a29d7 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -8,6 +8,9 @@ use crate::{
 use alloc::{vec, vec::Vec};
 use lz4_flex::{compress, decompress};
 
+///Every byte of an LZ4 block can stand for at most this many uncompressed bytes
+const MAX_COMPRESSION_RATIO: usize = 255;
+
 #[must_use]
 pub fn lz(input: &[u8]) -> Vec<u8> {
     let size = Integer::usize(input.len()).ser().1;
@@ -40,6 +43,11 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
+    //the space gets allocated before decompressing, so make sure that it could actually be needed
+    if input_len > compressed.len().saturating_mul(MAX_COMPRESSION_RATIO) {
+        return Err(BinarySerError::NotEnoughBytes);
+    }
+
     Ok(decompress(compressed, input_len)?)
 }
 
-- 
2.43.0


From ede969c6b31e05d0148f6983398bc1d3f90b2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 23/41] fix: limit how deeply deserialised values nest, as
 dropping them could overflow the stack

---
 crates/sourisdb/src/store.rs  |  6 ++++--
 crates/sourisdb/src/values.rs | 36 +++++++++++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/crates/sourisdb/src/store.rs b/crates/sourisdb/src/store.rs
index 46dbac0..574dc15 100644
--- a/crates/sourisdb/src/store.rs
+++ b/crates/sourisdb/src/store.rs
@@ -22,7 +22,7 @@ use crate::{
         cursor::Cursor,
         huffman::{Huffman, HuffmanSerError},
     },
-    values::{Value, ValueSerError, ValueTy},
+    values::{Value, ValueSerError, ValueTy, MAX_NESTING},
 };
 
 ///A key-value store where the keys are [`String`]s and the values are [`Value`]s - this is a thin wrapper around [`hashbrown::HashMap`] and implements both [`Deref`] and [`DerefMut`] pointing to it. This database is optimised for storage when serialised.
@@ -126,7 +126,9 @@ impl Store {
             None
         };
 
-        let val = Value::deser(&mut Cursor::new(&bytes), huffman.as_ref())?;
+        //the store itself is a map around the values
+        let val =
+            Value::deser_nested(&mut Cursor::new(&bytes), huffman.as_ref(), MAX_NESTING + 1)?;
         let ty = val.as_ty();
         let Some(map) = val.to_map() else {
             return Err(StoreSerError::ExpectedMap(ty));
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 3480e97..7c66fce 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -54,6 +54,9 @@ use crate::{
     },
 };
 
+///The most arrays and maps which can be inside one another when deserialising. Without a limit, a few kilobytes of nested arrays would overflow the stack as soon as they are dropped.
+pub const MAX_NESTING: usize = 128;
+
 ///The most elements to allocate space for before having read any of them, as the length could be wrong.
 const MAX_PREALLOCATED: usize = 1024;
 
@@ -482,7 +485,9 @@ enum InvalidDeserialisationStateError {
     ///We found a state that should come after a value without a value
     ShouldOnlyComeAfterFoundValue,
     ///The stack was empty at the end of processing rather than yielding a value
-    EmptyStack
+    EmptyStack,
+    ///There were too many arrays and maps inside each other
+    NestedTooDeeply,
 }
 
 impl From<InvalidDeserialisationStateError> for ValueSerError {
@@ -1125,10 +1130,20 @@ impl Value {
     /// - [`BinarySerError::NoCompressionTypeFound`] if we cannot find the compression type
     /// - [`BinarySerError`] if we cannot deserialise binary
     /// - [`ValueSerError::UnexpectedValueType`] if we expected to find one type but found another. This can be found in the [`Value::Timezone`] deserialisation where we immediately try to deserialise a [`Value::String`].
-    #[allow(clippy::many_single_char_names, clippy::too_many_lines)]
+    /// - [`ValueSerError::InvalidDeserialisation`] if more than [`MAX_NESTING`] arrays and maps are inside each other.
     pub fn deser(
         bytes: &mut Cursor<u8>,
         huffman: Option<&Huffman<char>>,
+    ) -> Result<Self, ValueSerError> {
+        Self::deser_nested(bytes, huffman, MAX_NESTING)
+    }
+
+    ///Works just like [`Value::deser`], but with a custom limit on how many arrays and maps can be inside each other.
+    #[allow(clippy::many_single_char_names, clippy::too_many_lines)]
+    pub(crate) fn deser_nested(
+        bytes: &mut Cursor<u8>,
+        huffman: Option<&Huffman<char>>,
+        max_nesting: usize,
     ) -> Result<Self, ValueSerError> {
         enum DeserialisationState {
             ValueNeeded,
@@ -1269,16 +1284,27 @@ impl Value {
         }
 
         let mut stack: Vec<DeserialisationState> = vec![DeserialisationState::ValueNeeded];
+        //the number of arrays and maps on the stack
+        let mut nesting = 0;
 
         while let Some(state) = stack.pop() {
             match state {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(_) | ParseResult::NewMap(_, _) if nesting >= max_nesting => {
+                            return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::NestedTooDeeply));
+                        }
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
                         ParseResult::NewMap(0, _) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len.min(MAX_PREALLOCATED)), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len.min(MAX_PREALLOCATED)), len, byte),
+                        ParseResult::NewArray(len) => {
+                            nesting += 1;
+                            DeserialisationState::Array(Vec::with_capacity(len.min(MAX_PREALLOCATED)), len)
+                        }
+                        ParseResult::NewMap(len, byte) => {
+                            nesting += 1;
+                            DeserialisationState::Map(HashMap::with_capacity(len.min(MAX_PREALLOCATED)), len, byte)
+                        }
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1304,6 +1330,7 @@ impl Value {
                                 DeserialisationState::Array(mut so_far, left) => {
                                     so_far.push(val);
                                     if left <= 1 {
+                                        nesting -= 1;
                                         stack.push(DeserialisationState::FoundValue(Value::Array(so_far)));
                                     } else {
                                         stack.push(DeserialisationState::Array(so_far, left - 1));
@@ -1355,6 +1382,7 @@ impl Value {
                     if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
+                            nesting -= 1;
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
                             stack.push(DeserialisationState::Map(so_far, left - 1, byte));
-- 
2.43.0


From 4a718f7f682c0841aacb39a9268adc10e6194ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 24/41] fix: keep JSON objects whose only key is JSON apart
 from other documents

---
 crates/sourisdb/src/store.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/store.rs b/crates/sourisdb/src/store.rs
index 574dc15..4f96f12 100644
--- a/crates/sourisdb/src/store.rs
+++ b/crates/sourisdb/src/store.rs
@@ -165,7 +165,7 @@ impl Store {
     ///fails if integer out of range, or float is NaN or infinite
     #[must_use]
     pub fn to_json(mut self, add_souris_types: bool) -> Option<SJValue> {
-        if self.len() == 1 {
+        if self.len() == 1 && self.get("JSON").is_some_and(is_wrapped_in_store) {
             if let Some(v) = self.0.remove("JSON") {
                 return v.convert_to_json(add_souris_types);
             }
@@ -181,7 +181,7 @@ impl Store {
 
     pub fn from_json(val: SJValue) -> Result<Self, StoreSerError> {
         Ok(Self(match Value::convert_from_json(val)? {
-            Value::Map(m) => m,
+            Value::Map(m) if !map_is_wrapped_in_store(&m) => m,
             v => {
                 let mut map = HashMap::new();
                 map.insert("JSON".into(), v);
@@ -191,6 +191,17 @@ impl Store {
     }
 }
 
+///Whether a value from a JSON document is the single entry (with the key `JSON`) of its store, rather than the store itself.
+///
+///That is the case for everything but maps, and also for those maps that would otherwise look like they had been wrapped.
+fn is_wrapped_in_store(value: &Value) -> bool {
+    value.as_map().map_or(true, map_is_wrapped_in_store)
+}
+
+fn map_is_wrapped_in_store(map: &HashMap<String, Value>) -> bool {
+    map.len() == 1 && map.get("JSON").is_some_and(is_wrapped_in_store)
+}
+
 impl TryFrom<Value> for Store {
     type Error = StoreSerError;
 
-- 
2.43.0


From 09f895f596ce06e084080210ca0949d13ac98181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 25/41] fix: send the name of the database when getting a store
 with the async client

---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From 4176bfde2a511678a84bbd3e58c5cd65ae90047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 26/41] fix: do not report entries that were already gone as an
 error in the async client, as documented

---
 crates/sourisdb/src/client/async_client.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..bcf872d 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -349,13 +349,17 @@ impl AsyncClient {
         database_name: &str,
         key: &str,
     ) -> Result<(), ClientError> {
-        self.client
+        let rsp = self.client
             .post(&format!("http://{}:{}/v1/rm_kv", self.path, self.port))
             .query(&[("db_name", database_name), ("key", key)])
             .send()
-            .await?
-            .error_for_status_to_client_error()?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
-        Ok(())
+            .await?;
+
+        match rsp.status() {
+            //the database or the key weren't found, so there is nothing left to remove
+            StatusCode::GONE | StatusCode::BAD_REQUEST => Ok(()),
+            _ => rsp.error_for_status_to_client_error().map(|_| ()), //TODO: fixme as to whether anything happened - use StatusCode::Gone?
+        }
     }
 
     ///Removes a given database. Returns whether we actually removed anything
-- 
2.43.0


From ee0a5d18d5945ec3a3bc9bee9f7fa76e10254dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 27/41] fix: report whether adding a database with content
 created it the right way around

---
 crates/sourisd/src/v1_routes/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..b8e07c9 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -89,7 +89,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
-- 
2.43.0


From 34922be3ebda962989b5807f7b84bcfc21c2a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 28/41] fix: invalidate cached databases while holding the
 lock, so that stale ones cannot be cached again

---
 crates/sourisd/src/v1_routes/state.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index b8e07c9..3b50a6e 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -86,8 +86,9 @@ impl SourisState {
         overwrite_existing: bool,
         contents: Store,
     ) -> StatusCode {
-        self.db_cache.invalidate(&name).await;
+        //only invalidated once we have the lock, or else the old contents could be cached again before we change them
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         let created_new = !dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
@@ -109,9 +110,8 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if let SEntry::Occupied(mut e) = dbs.entry(name) {
             e.insert(Store::default());
@@ -125,9 +125,8 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if !dbs.contains_key(&name) {
             return Err(SourisError::DatabaseNotFound);
@@ -170,9 +169,9 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> CreationResult {
+        let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        let mut dbs = self.dbs.lock().await;
         match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
@@ -220,8 +219,8 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await;
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
-- 
2.43.0


From 42681b6418cffbb7f504bd3e6e03f9a9ce855bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 29/41] fix: refuse invalid database names everywhere,
 including those which would escape the base location

---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 +--
 crates/sourisd/src/v1_routes/state.rs | 39 +++++++++++++++++++--------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..7f0ed48 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, not equal to `meta`, and usable as a file name"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 3b50a6e..1e00eb5 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -7,7 +7,7 @@ use std::{
     collections::{HashMap, hash_map::Entry as SEntry},
     env::var,
     fmt::Debug,
-    path::{Path, PathBuf},
+    path::{is_separator, Path, PathBuf},
     sync::Arc,
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
@@ -17,6 +17,22 @@ use tokio::{
     sync::Mutex,
 };
 
+///The longest name for which the file names still fit into what file systems commonly allow (255 bytes), including extensions.
+const MAX_DATABASE_NAME_LENGTH: usize = 240;
+
+///Checks that a new database with the given name could be stored in its own file directly within the base location.
+fn check_database_name(name: &str) -> Result<(), SourisError> {
+    if name == "meta"
+        || !name.is_ascii()
+        || name.len() > MAX_DATABASE_NAME_LENGTH
+        || name.contains(|ch| ch == '\0' || is_separator(ch))
+    {
+        return Err(SourisError::InvalidDatabaseName);
+    }
+
+    Ok(())
+}
+
 fn running_with_superuser() -> bool {
     unsafe { libc::geteuid() == 0 }
 }
@@ -48,16 +64,14 @@ impl SourisState {
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, the name is `meta`, or the name cannot be a file name.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
-            return Err(SourisError::InvalidDatabaseName);
-        }
+        check_database_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
         
@@ -85,7 +99,9 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        check_database_name(&name)?;
+
         //only invalidated once we have the lock, or else the old contents could be cached again before we change them
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&name).await;
@@ -100,11 +116,11 @@ impl SourisState {
             }
         }
 
-        if created_new {
+        Ok(if created_new {
             StatusCode::CREATED
         } else {
             StatusCode::OK
-        }
+        })
     }
 
     ///returns whether it cleared a database
@@ -168,11 +184,11 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -192,6 +208,7 @@ impl SourisState {
             }
             SEntry::Vacant(vac) => {
                 if create_new_database {
+                    check_database_name(vac.key())?;
                     let db = vac.insert(Store::default());
                     db.insert(key, v);
                     CreationResult::InsertedKeyIntoNewDB
@@ -199,7 +216,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From 0dc3a18eec23f5fe04959874e2f2df4af5a02af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 30/41] fix: remove the file of a database before letting go of
 the lock, and keep the database if that fails

---
 crates/sourisd/src/v1_routes/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 1e00eb5..96f24c4 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -148,9 +148,7 @@ impl SourisState {
             return Err(SourisError::DatabaseNotFound);
         }
 
-        dbs.remove(&name);
-        drop(dbs);
-
+        //keep hold of the lock, so that a save cannot interfere
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
         if let Err(e) = tokio::fs::remove_file(file_name).await {
@@ -159,6 +157,8 @@ impl SourisState {
             }
         }
 
+        dbs.remove(&name);
+
         Ok(())
     }
 
-- 
2.43.0


From fc29e4c37cd8cd6130c2600f34949425ece82c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 31/41] fix: do not bring removed databases back as empty ones

---
 crates/sourisd/src/v1_routes/state.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 96f24c4..e5eb875 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -257,13 +257,13 @@ impl SourisState {
 impl SourisState {
     pub async fn new() -> color_eyre::Result<Self> {
         #[tracing::instrument(level = "trace")]
-        async fn get_store(location: PathBuf) -> color_eyre::Result<Store> {
+        async fn get_store(location: PathBuf) -> color_eyre::Result<Option<Store>> {
             let mut file = match File::open(&location).await {
                 Ok(f) => f,
                 Err(e) => {
                     return if e.kind() == ErrorKind::NotFound {
-                        trace!(?location, "File not found, getting empty store.");
-                        return Ok(Store::default());
+                        trace!(?location, "File not found, there is no store.");
+                        return Ok(None);
                     } else {
                         Err(e.into())
                     };
@@ -282,7 +282,7 @@ impl SourisState {
                 }
             }
 
-            Ok(Store::deser(&contents)?)
+            Ok(Some(Store::deser(&contents)?))
         }
 
         #[tracing::instrument(level = "trace", skip(meta))]
@@ -304,9 +304,13 @@ impl SourisState {
                 };
 
                 match get_store(base.join(format!("{file_name}.sdb"))).await {
-                    Ok(s) => {
+                    Ok(Some(s)) => {
                         dbs.insert(file_name.to_string(), s);
                     }
+                    Ok(None) => {
+                        //must have been removed after the last time the list of databases was saved
+                        trace!(?file_name, "Unable to find listed database");
+                    }
                     Err(e) => {
                         trace!(?e, ?file_name, "Error getting database");
                         continue;
@@ -330,7 +334,9 @@ impl SourisState {
             base_location.join("souris/")
         };
 
-        let mut meta = get_store(base_location.join(META_DB_FILE_NAME)).await?;
+        let mut meta = get_store(base_location.join(META_DB_FILE_NAME))
+            .await?
+            .unwrap_or_default();
 
         let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await {
             dbs
-- 
2.43.0


From 4426c8f5a28f3981b9c4d394700013656f46f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 32/41] fix: replace database files atomically when saving, so
 that a crash cannot damage them

---
 crates/sourisd/src/v1_routes/state.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index e5eb875..e7960b5 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
     sync::Mutex,
 };
@@ -377,12 +377,16 @@ impl SourisState {
     }
 }
 
+///Replaces the contents of a file. The contents get written to a temporary file first, which then takes the place of the old one - this way, there's always a complete file no matter when we get interrupted.
 async fn write_to_file(
     bytes: &[u8],
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    let mut tmp_path = path.as_ref().as_os_str().to_owned();
+    tmp_path.push(".tmp");
+
+    let mut file = match File::create(&tmp_path).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -390,7 +394,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&tmp_path).await?
             } else {
                 return Err(e.into());
             }
@@ -398,6 +402,14 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.flush().await?;
+    file.sync_all().await?;
+    drop(file);
+
+    rename(&tmp_path, &path).await?;
+    //the renaming isn't guaranteed to be stored until the directory is
+    #[cfg(unix)]
+    File::open(&base_location).await?.sync_all().await?;
 
     Ok(())
 }
-- 
2.43.0


From 2fce20a1a2b73ad36e68c4b3bfbac80f43d2935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 33/41] fix: keep listing databases that could not be written,
 and report that they were not

---
 crates/sourisd/src/v1_routes/state.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index e7960b5..f593714 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -356,6 +356,7 @@ impl SourisState {
 
     pub async fn save(&self) -> color_eyre::Result<()> {
         let mut names = vec![];
+        let mut result = Ok(());
 
         for (name, db) in self.dbs.lock().await.iter() {
             let file_name = self.base_location.join(format!("{name}.sdb"));
@@ -363,9 +364,10 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
+                result = Err(e);
             }
+            //even if this failed, the version from the last save is still there
+            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
@@ -373,7 +375,9 @@ impl SourisState {
 
         let location = self.base_location.join(META_DB_FILE_NAME);
         let meta = meta.ser();
-        write_to_file(&meta, location, &self.base_location).await
+        write_to_file(&meta, location, &self.base_location).await?;
+
+        result
     }
 }
 
-- 
2.43.0


From 4b11cac7c4dc7ecb160fd4fc247b340a54ed6c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 34/41] fix: save again once no more requests can arrive when
 exiting

---
 crates/sourisd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index e06e473..cdc8563 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -148,4 +148,9 @@ async fn main() {
         .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
         .await
         .unwrap();
+
+    //requests are still accepted until the saver has exited, so there could have been changes since
+    if let Err(e) = state.save().await {
+        error!(?e, "Error saving state");
+    }
 }
-- 
2.43.0


From ca203b21f1d64cc7fd6b56924079962c34b91bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 35/41] fix: mouse creates a single float when asked for one

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From 937b75b4daffb2a60dcdc21534c8ad31c832eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:33 +0000
Subject: [PATCH 36/41] fix: read the value after each key when deserialising a
 map

---
 crates/sourisdb/src/values.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 7c66fce..9e0b37d 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1377,6 +1377,7 @@ impl Value {
                     let key = parse_string(key_byte, bytes, huffman)?;
                     stack.push(DeserialisationState::Map(so_far, left, byte));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
                     if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
-- 
2.43.0


From 0d3a428e6b582e87920424a6c91b886197af974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 37/41] fix: refuse JSON nested too deeply to be deserialised
 again once stored

---
 crates/sourisdb/src/values.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 9e0b37d..8b959e4 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -725,8 +725,20 @@ impl Value {
     /// - [`Value::Binary`]
     /// - [`Value::Ipv4Addr`]
     /// - [`Value::Ipv6Addr`]
-    #[allow(clippy::too_many_lines)]
+    ///
+    /// # Errors
+    /// - [`ValueSerError::InvalidSourisType`] if a variant from the list is malformed.
+    /// - [`ValueSerError::InvalidDeserialisation`] if more than [`MAX_NESTING`] arrays and objects are inside each other, as the result could not be deserialised again once serialised.
     pub fn convert_from_json(val: SJValue) -> Result<Self, ValueSerError> {
+        Self::convert_from_json_nested(val, MAX_NESTING)
+    }
+
+    #[allow(clippy::too_many_lines)]
+    fn convert_from_json_nested(val: SJValue, max_nesting: usize) -> Result<Self, ValueSerError> {
+        if max_nesting == 0 && (val.is_array() || val.is_object()) {
+            return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::NestedTooDeeply));
+        }
+
         Ok(match val {
             SJValue::Null => Self::Null(()),
             SJValue::Bool(b) => Self::Boolean(b),
@@ -743,7 +755,7 @@ impl Value {
             SJValue::String(s) => Value::String(s),
             SJValue::Array(a) => Value::Array(
                 a.into_iter()
-                    .map(Value::convert_from_json)
+                    .map(|v| Value::convert_from_json_nested(v, max_nesting - 1))
                     .collect::<Result<_, _>>()?,
             ),
             SJValue::Object(obj) => {
@@ -910,7 +922,7 @@ impl Value {
 
                 Self::Map(
                     obj.into_iter()
-                        .map(|(k, v)| Value::convert_from_json(v).map(|v| (k, v)))
+                        .map(|(k, v)| Value::convert_from_json_nested(v, max_nesting - 1).map(|v| (k, v)))
                         .collect::<Result<_, _>>()?,
                 )
             }
-- 
2.43.0


From f046aacfe4e0899057fdbcac60b2faaaf95eb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 38/41] Add a guarded entry point for the verification harness

---
 crates/sourisd/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index cdc8563..dc1127c 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -154,3 +154,10 @@ async fn main() {
         error!(?e, "Error saving state");
     }
 }
+
+///Runs the daemon from within a verification harness, which builds this file as a library.
+#[allow(unexpected_cfgs)]
+#[cfg(souris_verif)]
+pub fn verif_main() {
+    main();
+}
-- 
2.43.0


From c9bc64443e2b16d9ac97e64c2dac1c9406c136a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 39/41] fix: SyncClient::new reports an unhealthy server as
 ServerNotHealthy

---
 crates/sourisdb/src/client/sync_client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/client/sync_client.rs b/crates/sourisdb/src/client/sync_client.rs
index b02f49e..d778bad 100644
--- a/crates/sourisdb/src/client/sync_client.rs
+++ b/crates/sourisdb/src/client/sync_client.rs
@@ -18,9 +18,13 @@ impl SyncClient {
         let path = path.to_string();
         let agent = Agent::new();
 
-        let rsp = agent
+        let rsp = match agent
             .get(&format!("http://{path}:{port}/healthcheck"))
-            .call()?;
+            .call()
+        {
+            Ok(rsp) | Err(ureq::Error::Status(_, rsp)) => rsp,
+            Err(e) => return Err(e.into()),
+        };
         let status = rsp.status_code()?;
         if status != StatusCode::OK {
             return Err(ClientError::ServerNotHealthy(status));
-- 
2.43.0


From 4dc252303321ff2352abd32476a0df8a36b5861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 40/41] fix: AsyncClient::get_all_dbs reports HTTP error codes
 as such

---
 crates/sourisdb/src/client/async_client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index bcf872d..55f30cc 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -92,16 +92,17 @@ impl AsyncClient {
     /// - [`reqwest::Error`] if there is an error with the HTTP request, or we cannot get the raw bytes out
     /// - [`ClientError::HttpErrorCode`] if an HTTP Error status code is encountered.
     pub async fn get_all_dbs(&self) -> Result<Vec<String>, ClientError> {
-        Ok(self
+        let rsp = self
             .client
             .get(&format!(
                 "http://{}:{}/v1/get_all_db_names",
                 self.path, self.port
             ))
             .send()
-            .await?
-            .json()
-            .await?)
+            .await?;
+        rsp.error_for_status_to_client_error()?;
+
+        Ok(rsp.json().await?)
     }
 
     ///Creates a new [`Store`] in the connected database with the given name. Returns whether a new database had to be created.
-- 
2.43.0


From 3cb0f5cc118935154675b1f235d1992aa88450ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 41/41] fix: mouse exits with an error when a database cannot
 be exported as JSON

---
 crates/mouse/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mouse/src/main.rs b/crates/mouse/src/main.rs
index 52980ff..319753e 100644
--- a/crates/mouse/src/main.rs
+++ b/crates/mouse/src/main.rs
@@ -67,6 +67,7 @@ enum Error {
     Value(ValueSerError),
     Store(StoreSerError),
     NoDatabasesFound,
+    UnableToConvertToJson,
     Client(Box<ClientError>),
 }
 
@@ -79,6 +80,7 @@ impl Display for Error {
             Error::Value(e) => write!(f, "Error with values: {e}"),
             Error::Store(e) => write!(f, "Error with store: {e}"),
             Error::NoDatabasesFound => write!(f, "No databases found"),
+            Error::UnableToConvertToJson => write!(f, "Unable to convert to JSON"),
             Error::Client(e) => write!(f, "Error with souris client: {e}"),
         }
     }
@@ -124,7 +126,7 @@ impl std::error::Error for Error {
             Error::Value(e) => Some(e),
             Error::Store(e) => Some(e),
             Error::Client(e) => Some(e),
-            Error::NoDatabasesFound => None,
+            Error::NoDatabasesFound | Error::UnableToConvertToJson => None,
         }
     }
 }
@@ -288,6 +290,7 @@ fn fun_main(Arguments { path, command }: Arguments) -> Result<(), Error> {
                 }
                 None => {
                     eprintln!("Unable to convert to JSON - ensure there are no NaN/infinite floats or integers which cannot fit into the range from i64::MIN to u64::MAX");
+                    return Err(Error::UnableToConvertToJson);
                 }
             }
         }
-- 
2.43.0

