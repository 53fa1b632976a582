From 3b89228a9080fc8693969c235540caa9fc589fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 01/19] fix: indented heredocs no longer panic on short or less
 indented lines

Lines shorter than the indentation of the end marker (blank lines included),
and lines whose first non-space character is multi-byte, made
unindent_heredoc slice out of bounds.
---
 lib/src/parser/string.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/src/parser/string.rs b/lib/src/parser/string.rs
index 3844d28..67ed24d 100644
--- a/lib/src/parser/string.rs
+++ b/lib/src/parser/string.rs
@@ -64,17 +64,14 @@ fn unindent_heredoc(string: &str, indentation: usize) -> Cow<str> {
 
     let mut result = String::with_capacity(string.len());
     for line in string.split('\n') {
-        // Trim spaces at the beginning first
-        // Let's find a start index up to `indentation` to slice away
-        let mut beginning = line.char_indices().take(indentation);
-        let all_spaces = beginning.all(|(_, c)| c == ' ');
-        let rest = if all_spaces {
-            &line[indentation..]
-        } else {
-            let (start, _) = beginning.next().expect("to not be None");
-            &line[start - 1..]
-        };
-        result.push_str(rest);
+        // Trim spaces at the beginning, up to `indentation` of them. Lines can be shorter or
+        // less indented than the end marker.
+        let spaces = line
+            .bytes()
+            .take(indentation)
+            .take_while(|b| *b == b' ')
+            .count();
+        result.push_str(&line[spaces..]);
         result.push('\n');
     }
     // Remove the last `\n`
-- 
2.43.0


From 7d6427f046e31758c9d26ff5dc000446518d984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 02/19] fix: null values are scalars and no longer panic when
 measured

len, is_empty, len_scalar, is_merged and is_unmerged hit unreachable!() on
any value that is or contains null.
---
 lib/src/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 2cc2b48..b5c4fb3 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -91,7 +91,11 @@ impl<'a> Value<'a> {
 
     pub fn is_scalar(&self) -> bool {
         match self {
-            Value::Integer(_) | Value::Float(_) | Value::Boolean(_) | Value::String(_) => true,
+            Value::Null
+            | Value::Integer(_)
+            | Value::Float(_)
+            | Value::Boolean(_)
+            | Value::String(_) => true,
             _ => false,
         }
     }
-- 
2.43.0


From bf46a10805f44b3681a7b18a89ed21993fad70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 03/19] fix: indexing blocks keeps those not adjacent to others
 of their type

group_by only groups consecutive elements, so with two blocks of one type
separated by a block of another type, the later group replaced the earlier.
---
 lib/src/parser/block.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8679c65..95b00f7 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -197,11 +197,10 @@ impl<'a> Blocks<'a> {
         let mut hashmap = HashMap::new();
         for (block_type, blocks) in blocks
             .into_iter()
-            .group_by(|block| block.r#type.clone())
-            .into_iter()
+            .map(|block| (block.r#type, (block.labels, block.body)))
+            .into_group_map()
         {
-            let blocks = BlockBody::from_iter(blocks.map(|block| (block.labels, block.body)));
-            hashmap.insert(block_type, blocks);
+            hashmap.insert(block_type, BlockBody::from_iter(blocks));
         }
         Self { blocks: hashmap }
     }
-- 
2.43.0


From 53d6065f4fafb83831dd64c57395f9bf733d34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 04/19] fix: indexing a block under a new label keeps its
 remaining labels

---
 lib/src/parser/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 95b00f7..a1b3e52 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -429,7 +429,9 @@ impl<'a> BlockBody<'a> {
                     let label = labels.drain(0..1).next().expect("to be some");
                     match hashmap.entry(label) {
                         Entry::Vacant(vacant) => {
-                            vacant.insert(BlockBody::Body(vec![body]));
+                            let mut new_body = BlockBody::default();
+                            new_body.append(labels, body);
+                            vacant.insert(new_body);
                         }
                         Entry::Occupied(mut occupied) => {
                             occupied.get_mut().append(labels, body);
-- 
2.43.0


From b79621860b4714b97d12dc1cd58889a3dc92de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 05/19] fix: uniform label length counts the label levels

label_lens_uniform answered Some(0) whatever the number of labels, while
label_lens on the same blocks answered with their real lengths.
---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index a1b3e52..8540e2c 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -644,7 +644,7 @@ impl<'a> BlockBody<'a> {
                             return None;
                         }
                     }
-                    initial
+                    initial.map(|len| len + 1)
                 }
             }
         }
-- 
2.43.0


From 5188fd739949612f6f7bbcc31575e9f27e20c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 06/19] fix: a label is the same label whether it is quoted or
 not

BlockLabel hashes and borrows as its string, but compared its variant too:
an index with both spellings of a label held two entries for it and which
one a lookup found depended on the hash seed.
---
 lib/src/parser/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8540e2c..24bafb8 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -57,7 +57,7 @@ impl<'a> Block<'a> {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, Eq)]
 pub enum BlockLabel<'a> {
     StringLiteral(StringLiteral),
     Identifier(Identifier<'a>),
@@ -82,6 +82,13 @@ impl<'a> Hash for BlockLabel<'a> {
     }
 }
 
+// Labels are hashed and borrowed as strings, so they must be compared as strings too
+impl<'a> PartialEq for BlockLabel<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_str() == other.as_str()
+    }
+}
+
 impl<'a, S> PartialEq<S> for BlockLabel<'a>
 where
     S: AsRef<str>,
-- 
2.43.0


From 3b2ce4f069063cb4dd570c7191bae01cd5709b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 07/19] fix: a map key is the same key whether it is quoted or
 not

Key hashes and borrows as its string, but compared its variant too: merging
accepted a = 1 and "a" = 2 as different keys, and which one a lookup found
depended on the hash seed.
---
 lib/src/parser/literals/key.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/literals/key.rs b/lib/src/parser/literals/key.rs
index 7d66739..35b3f78 100644
--- a/lib/src/parser/literals/key.rs
+++ b/lib/src/parser/literals/key.rs
@@ -9,7 +9,7 @@ use nom::{alt_complete, call, named};
 pub use self::serde::*;
 
 /// A "key" in a map
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Eq, Debug, Clone)]
 pub enum Key<'a> {
     Identifier(Cow<'a, str>),
     String(Cow<'a, str>),
@@ -88,6 +88,13 @@ impl<'a> Borrow<str> for Key<'a> {
     }
 }
 
+// Keys are hashed and borrowed as strings, so they must be compared as strings too
+impl<'a> PartialEq for Key<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
 impl<'a> Hash for Key<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.deref().hash(state);
-- 
2.43.0


From 907f41bcb7e2ce60a5b48fcccea6c4c5bcabe068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 08/19] fix: merging blocks with the same labels is an error

MergeBehaviour::Error documents an error on duplicate labels between blocks
with the same identifier, but the last such block silently replaced the
others.
---
 lib/src/value.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index b5c4fb3..d87635e 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -621,12 +621,16 @@ impl<'a> Block<'a> {
         K: IntoIterator<Item = S>,
         S: ToString,
     {
-        let mut merged = HashMap::default();
+        let mut merged: HashMap<Vec<String>, _> = HashMap::default();
         for (key, value) in iter {
-            let _ = merged.insert(
-                key.into_iter().map(|s| s.to_string()).collect(),
-                value.merge()?,
-            );
+            let key: Vec<String> = key.into_iter().map(|s| s.to_string()).collect();
+            if merged.contains_key(&key) {
+                return Err(Error::IllegalMultipleEntries {
+                    key: key.join(" "),
+                    variant: BLOCK,
+                });
+            }
+            let _ = merged.insert(key, value.merge()?);
         }
         Ok(KeyValuePairs::Merged(merged))
     }
@@ -826,7 +830,15 @@ impl<'a> MapValues<'a> {
                             let value = value;
                             // Check that the incoming value is also a Block
                             if let Value::Block(incoming) = value {
-                                block.extend(incoming);
+                                for (labels, body) in incoming {
+                                    if block.get_single(&labels).is_some() {
+                                        return Err(Error::IllegalMultipleEntries {
+                                            key: format!("{} {}", key, labels.join(" ")),
+                                            variant: BLOCK,
+                                        });
+                                    }
+                                    block.extend(std::iter::once((labels, body)));
+                                }
                             } else {
                                 return Err(Error::ErrorMergingKeys {
                                     key,
-- 
2.43.0


From af5f3672ea96970da1ed113099d63b66fac05642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 09/19] fix: integers above i64::MAX deserialize into unsigned
 types

is_signed is true for every number that is not a float, so the unsigned
branch was never reached.
---
 lib/src/serde/de.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 403b3da..f5ed9ee 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -150,10 +150,15 @@ where
 {
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
-    } else if number.is_signed() {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
     } else {
-        visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+        match number.as_i64() {
+            Ok(signed) => visitor.visit_i64(signed),
+            // Might still fit in an `u64`
+            Err(_) if number.is_unsigned() => {
+                visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+            }
+            Err(e) => Err(Error::ParseIntError(e).into()),
+        }
     }
 }
 
-- 
2.43.0


From 3154aec644e00b4c8471a315e3907b3858aecfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 10/19] fix: an attribute and a block with the same name do not
 panic in serde

The document decides this, so it is a duplicate key error, not a bug.
---
 lib/src/serde/de/body.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 216b26b..f927263 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -143,11 +143,10 @@ impl<'de> de::MapAccess<'de> for MapAccess<'de> {
                 seed.deserialize(ident.into_deserializer()).map(Some)
             }
             (block_type, blk @ BodyValue::Block(_)) => {
-                // If this key has been seen before, we have a bug
-                assert!(
-                    self.seen.insert(block_type.clone()),
-                    "bug in block merging code"
-                );
+                // Blocks of the same type have been merged, so this is also an attribute
+                if !self.seen.insert(block_type.clone()) {
+                    return Err(Error::BodyDuplicateKey(block_type.to_string()).into());
+                }
                 self.value = Some(blk);
                 seed.deserialize(block_type.into_deserializer()).map(Some)
             }
-- 
2.43.0


From 518fcec70c2d64d35119228d0faed0f33760a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 11/19] fix: labelled blocks are a deserialization error, not a
 panic

A document chose to panic the process: deserializing one from any input with
labels hit unimplemented!().
---
 lib/src/serde/de/block.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 698fd66..d7cccf3 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -7,7 +7,7 @@ use serde::forward_to_deserialize_any;
 use crate::parser::block::{BlockBody, BlockLabel};
 use crate::parser::body::Body;
 use crate::serde::de::body::Deserializer as BodyDeserializer;
-use crate::serde::de::Compat;
+use crate::serde::de::{Compat, Error};
 
 fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V::Value, Compat>
 where
@@ -29,6 +29,10 @@ where
     BodyDeserializer::new(body).deserialize_map(visitor)
 }
 
+fn labels_unsupported() -> Compat {
+    Error::Custom("Deserializing blocks with labels is not supported yet".to_string()).into()
+}
+
 /// Possible states of `BlockBody`:
 /// - Empty: Single Body => Deserialize Map/Struct
 /// - Empty: Multiple Bodies => Seq
@@ -63,7 +67,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(labels_unsupported())
             }
         }
     }
@@ -95,7 +99,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(labels_unsupported())
             }
         }
     }
-- 
2.43.0


From 186083c174ab46314a480dfc206445b25436c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 12/19] fix: object expression keys are a deserialization
 error, not a panic

---
 lib/src/serde/de/object.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/serde/de/object.rs b/lib/src/serde/de/object.rs
index 5ace7e2..44e2c56 100644
--- a/lib/src/serde/de/object.rs
+++ b/lib/src/serde/de/object.rs
@@ -40,7 +40,16 @@ impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
             None => return Ok(None),
             Some((key, value)) => (key, value),
         };
-        let key = key.as_str();
+        let key = match key {
+            ObjectElementIdentifier::Identifier(ident) => ident,
+            ObjectElementIdentifier::Expression(expr) => {
+                return Err(Error::Custom(format!(
+                    "Deserializing the expression {} as a key is not supported yet",
+                    expr
+                ))
+                .into())
+            }
+        };
 
         if !self.seen_keys.insert(key.clone()) {
             return Err(Error::ObjectDuplicateKey(key.to_string()).into());
-- 
2.43.0


From e1d08afccd3c9aca8566329a7cad36a396bd9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 13/19] fix: malformed nested maps no longer take exponential
 time

Two of the attribute alternatives tried the same map expression again after
it had failed, at every level: 60 bytes of unclosed braces took hours.
---
 lib/src/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index de64508..c050f52 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -112,17 +112,17 @@ named!(
                 >> value: call!(single_value)
                 >> (key, value)
             )
-            | do_parse!(
-                identifier: call!(identifier::identifier)
-                >> complete!(opt!(char!('=')))
-                >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::from(values))
-            )
+            // Map expressions have to be attempted by one alternative only: attempting them again
+            // when they are not valid takes time exponential in how deep they are nested
             | do_parse!(
                 identifier: call!(identifier::identifier)
                 >> keys: many0!(string::string_literal)
                 >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::Block(vec![(keys, values)].into_iter().collect()))
+                >> (Key::Identifier(identifier), if keys.is_empty() {
+                    Value::from(values)
+                } else {
+                    Value::Block(vec![(keys, values)].into_iter().collect())
+                })
             )
         )
     )
-- 
2.43.0


From 8d9a4b392b1bd957a16790cba279dd5070ea9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 14/19] fix: the smallest signed integers can be made into
 numbers

From<i8> and its relatives took the absolute value, which overflows for the
smallest integer of the type and panics in debug builds.
---
 lib/src/parser/number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 4772bf7..8774a43 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -74,7 +74,8 @@ macro_rules! from_int {
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
                 let input = Cow::Owned(n.to_string());
-                let whole = Some(Cow::Owned(n.abs().to_string()));
+                // The absolute value of the smallest integer does not fit in its type
+                let whole = Some(Cow::Owned(n.to_string().trim_start_matches('-').to_string()));
                 Self::new(input, n >= 0, whole, None, None)
             }
         }
-- 
2.43.0


From 0260900e716cb08727b6f17e2a1933435ec0d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 15/19] fix: numbers of opposite sign are not equal

Equality of floating point numbers compared absolute values, so that 1.5 and
-1.5 were equal.
---
 lib/src/parser/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 8774a43..91aa5a2 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -167,8 +167,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 return false;
             }
 
-            let us = us.unwrap().abs();
-            let them = them.unwrap().abs();
+            let us = us.unwrap();
+            let them = them.unwrap();
             let diff = (us - them).abs();
 
             if us == them {
@@ -179,7 +179,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 diff < (std::f64::EPSILON * std::f64::MIN_POSITIVE)
             } else {
                 // Use relative error.
-                (diff / f64::min(us + them, std::f64::MAX)) < std::f64::EPSILON
+                (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
         } else if self.is_unsigned() && other.is_unsigned() {
             // Unsigned
-- 
2.43.0


From 263809302ef65bb2229becaff2b83617b0aea158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 16/19] fix: integers of any size equal themselves

Integers too large for 128 bits were never equal, not even to themselves, and
comparing them printed to standard output.
---
 lib/src/parser/number.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 91aa5a2..0c3860f 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -55,6 +55,14 @@ impl<'a> Number<'a> {
     pub fn is_float(&self) -> bool {
         !self.is_signed()
     }
+
+    /// The digits of the whole number part without leading zeros
+    fn significant_digits(&self) -> &str {
+        self.whole
+            .as_ref()
+            .map(|whole| whole.trim_start_matches('0'))
+            .unwrap_or("")
+    }
 }
 
 macro_rules! from_uint {
@@ -181,24 +189,11 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 // Use relative error.
                 (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
-        } else if self.is_unsigned() && other.is_unsigned() {
-            // Unsigned
-            let us = self.as_u128();
-            let them = other.as_u128();
-            if us.is_err() || them.is_err() {
-                println!("Error converting to unsigned!");
-                return false;
-            }
-            us.unwrap().eq(&them.unwrap())
         } else {
-            // Signed
-            let us = self.as_i128();
-            let them = other.as_i128();
-            if us.is_err() || them.is_err() {
-                println!("Error converting to signed!");
-                return false;
-            }
-            us.unwrap().eq(&them.unwrap())
+            // Integers can have any number of digits, so their digits are compared
+            let us = self.significant_digits();
+            let them = other.significant_digits();
+            us == them && (us.is_empty() || self.positive == other.positive)
         }
     }
 }
-- 
2.43.0


From 1714652ef0024c1738a51c6d76db9f74e0cdaf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 17/19] fix: object element identifiers hash as the strings
 they borrow as

Looking one up in a hash map by its text never found it.
---
 lib/src/parser/object.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/object.rs b/lib/src/parser/object.rs
index eb1865f..26e02be 100644
--- a/lib/src/parser/object.rs
+++ b/lib/src/parser/object.rs
@@ -11,6 +11,7 @@
 //! objectelem = (Identifier | Expression) "=" Expression;
 //! ```
 use std::borrow::{Borrow, Cow};
+use std::hash::{Hash, Hasher};
 
 use nom::types::CompleteStr;
 use nom::{alt, call, char, do_parse, named, peek, recognize, tag, terminated, IResult};
@@ -20,7 +21,7 @@ use crate::parser::identifier::{identifier, Identifier};
 use crate::parser::whitespace::newline;
 
 // TODO: Dealing with expressions and ambiguity. See reference
-#[derive(Debug, Clone, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ObjectElementIdentifier<'a> {
     /// A literal attribute name
     Identifier(Identifier<'a>),
@@ -62,6 +63,14 @@ where
     }
 }
 
+// Identifiers are borrowed as strings, so they must be hashed as strings too
+impl<'a> Hash for ObjectElementIdentifier<'a> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let s: &str = self.borrow();
+        s.hash(state)
+    }
+}
+
 impl<'a> Borrow<str> for ObjectElementIdentifier<'a> {
     fn borrow(&self) -> &str {
         match self {
-- 
2.43.0


From 853158423f0c50990254108cd41266ae909e51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:39 +0000
Subject: [PATCH 18/19] fix: elements a struct, tuple or newtype has no place
 for are an error, not dropped

---
 lib/src/serde/de/block.rs      | 58 +++++++++++++++++++++++++++++++---
 lib/src/serde/de/expression.rs | 21 +++++++++++-
 2 files changed, 74 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index d7cccf3..64f0688 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -104,17 +104,67 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
         }
     }
 
-    // Tuple
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self {
+            // Bodies beyond the length of the tuple would be dropped
+            BlockBody::Body(ref bodies) if bodies.len() > 1 && bodies.len() != len => {
+                Err(Error::InvalidTupleLength {
+                    expected: len,
+                    actual: bodies.len(),
+                }
+                .into())
+            }
+            other => other.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_tuple_struct<V>(
+        self,
+        _name: &'static str,
+        len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_tuple(len, visitor)
+    }
+
+    fn deserialize_struct<V>(
+        self,
+        _name: &'static str,
+        fields: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        let len = std::cmp::min(self.len_blocks(), fields.len());
+        self.deserialize_tuple(len, visitor)
+    }
+
     // map - mapaccess `"labels" = rest`
-    // struct
     // enum
     // identifier = probably enum
 
     // Many of these types cannot be deserialized from BlockBody
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct newtype_struct tuple
-        tuple_struct map struct enum identifier ignored_any
+        bytes byte_buf unit unit_struct map enum identifier ignored_any
     }
 }
 
diff --git a/lib/src/serde/de/expression.rs b/lib/src/serde/de/expression.rs
index 442cc8b..67c824f 100644
--- a/lib/src/serde/de/expression.rs
+++ b/lib/src/serde/de/expression.rs
@@ -67,12 +67,31 @@ impl<'de> de::Deserializer<'de> for Expression<'de> {
         self.deserialize_tuple(len, visitor)
     }
 
+    fn deserialize_struct<V>(
+        self,
+        _name: &'static str,
+        fields: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self {
+            // Elements beyond the fields would be dropped
+            Expression::Tuple(tuple) => {
+                let len = std::cmp::min(tuple.len(), fields.len());
+                deserialize_tuple(tuple, visitor, Some(len))
+            }
+            other => other.deserialize_any(visitor),
+        }
+    }
+
     // TODO: Enum Unit Variant from String
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
         bytes byte_buf unit unit_struct seq
-        map struct enum identifier ignored_any
+        map enum identifier ignored_any
     }
 }
 
-- 
2.43.0


From c9e3e279620d413c926086b040782fb413b16c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:01 +0000
Subject: [PATCH 19/19] fix: whole numbers beyond 64 bits load into the types
 that hold them

Expressions holding a whole number that fits neither into i64 nor into u64
could not be loaded into f32, f64, i128 or u128 although the number has a value
there, so Expression::from(1e300) did not load as a f64.
---
 lib/src/serde/de/expression.rs | 55 +++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/lib/src/serde/de/expression.rs b/lib/src/serde/de/expression.rs
index 67c824f..25d60be 100644
--- a/lib/src/serde/de/expression.rs
+++ b/lib/src/serde/de/expression.rs
@@ -2,10 +2,23 @@ use serde::de::{self, IntoDeserializer, Visitor};
 use serde::forward_to_deserialize_any;
 
 use crate::parser::expression::Expression;
+use crate::parser::number::Number;
 use crate::serde::de::{
     deserialize_number, deserialize_object, deserialize_string, deserialize_tuple, Compat,
 };
 
+/// The number in the expression, if it is whole and does not fit into 64 bits
+fn wide_number<'a, 'de>(expression: &'a Expression<'de>) -> Option<&'a Number<'de>> {
+    match expression {
+        Expression::Number(number)
+            if !number.is_float() && number.as_i64().is_err() && number.as_u64().is_err() =>
+        {
+            Some(number)
+        }
+        _ => None,
+    }
+}
+
 impl<'de> de::Deserializer<'de> for Expression<'de> {
     type Error = Compat;
 
@@ -86,10 +99,50 @@ impl<'de> de::Deserializer<'de> for Expression<'de> {
         }
     }
 
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match wide_number(&self).map(Number::as_i128) {
+            Some(Ok(i)) => visitor.visit_i128(i),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match wide_number(&self).map(Number::as_u128) {
+            Some(Ok(u)) => visitor.visit_u128(u),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match wide_number(&self).map(Number::as_f32) {
+            Some(Ok(f)) => visitor.visit_f32(f),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match wide_number(&self).map(Number::as_f64) {
+            Some(Ok(f)) => visitor.visit_f64(f),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     // TODO: Enum Unit Variant from String
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bool i8 i16 i32 i64 u8 u16 u32 u64 char str string
         bytes byte_buf unit unit_struct seq
         map enum identifier ignored_any
     }
-- 
2.43.0

