From 943578315140d069b16d55b53684563bb36e2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 01/18] fix: keep nested group matches rewindable by the
 enclosing group

When a group nested inside another group matched, the elements it had
consumed were dropped from the snapshot stack, so a later failure of the
enclosing group could not put them back.
---
 src/validate.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..d781b19 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, hand the matched elements over
+        // to it: they will need to be restored if the enclosing group fails.
+        // Otherwise they are no longer needed.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, hand the matched elements over
+        // to it: they will need to be restored if the enclosing group fails.
+        // Otherwise they are no longer needed.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From 988b1dd3428741e9792a3a835a4ce4e66c3a1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 02/18] fix: restore the array or map when an unwrapped member
 only partly matches

Unwrapping did not take a snapshot, so a partial match of the unwrapped
members lost elements that should be offered to the next alternative.
---
 src/validate.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index d781b19..a14c0fa 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -598,11 +598,18 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // If some of the members match but a later one doesn't, put the
+            // consumed elements back (the same as for a Group).
+            working_array.snapshot();
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -873,11 +880,19 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
-            // Recurse into each member of the unwrapped array.
+            // If some of the members match but a later one doesn't, put the
+            // consumed entries back, and forget any MapCut error (the same as
+            // for a Group).
+            working_map.snapshot();
+            // Recurse into each member of the unwrapped map.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    return Err(e.erase_mapcut());
+                }
             }
-            // All array members validated Ok.
+            // All map members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From 296d2b98c60c34361c0a1b309984bb624693f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 03/18] fix: an occurrence with an upper limit of zero matches
 nothing

The limit was only tested after the first match, so '0*0 int' and '*0 int'
accepted one element.
---
 src/validate.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index a14c0fa..1870cdb 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -626,7 +626,7 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    while count < upper_limit {
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -641,10 +641,6 @@ fn validate_array_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         return Err(mismatch(format!("more array element [{}]", occur)));
@@ -908,7 +904,7 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    while count < upper_limit {
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -923,10 +919,6 @@ fn validate_map_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From ecb79e68e3c55516b5f8cf9c40f5cba969704f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 04/18] fix: stop repeating a member that matches without
 consuming anything

'[* (? int)]', '{* ()}' and the like looped forever.
---
 src/validate.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 1870cdb..dfbfc9b 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -627,6 +627,7 @@ fn validate_array_occur(
     let mut count: usize = 0;
 
     while count < upper_limit {
+        let len_before = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -640,6 +641,12 @@ fn validate_array_occur(
                 return Err(e);
             }
         }
+        if working_array.array.len() == len_before {
+            // The member matched without consuming anything, so it could go
+            // on to do that forever.  That satisfies any lower limit.
+            count = upper_limit;
+            break;
+        }
         count += 1;
     }
     if count < lower_limit {
@@ -905,6 +912,7 @@ fn validate_map_occur(
     let mut count: usize = 0;
 
     while count < upper_limit {
+        let len_before = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -918,6 +926,12 @@ fn validate_map_occur(
                 return Err(e);
             }
         }
+        if working_map.map.len() == len_before {
+            // The member matched without consuming anything, so it could go
+            // on to do that forever.  That satisfies any lower limit.
+            count = upper_limit;
+            break;
+        }
         count += 1;
     }
     if count < lower_limit {
-- 
2.43.0


From cf1c83d1b152720ba651df94bd88a0242a474942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 05/18] fix: report fatal errors found while searching for a
 map key

A missing rule or other schema error in a key type was treated as
"key not found".
---
 src/validate.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index dfbfc9b..2f3bcd3 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -430,9 +430,17 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => {
+                return Ok((key.clone(), value));
+            }
+            Err(e) => {
+                // Only fail if the error is considered fatal.
+                // Otherwise, we'll keep trying other keys.
+                if e.is_fatal() {
+                    return Err(e);
+                }
+            }
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From 96cc51904d1b1335ca89f5483c07ecb7841eb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 06/18] fix: a map member with a type key may match any entry,
 not just the first

When several keys match the key type, an entry whose value doesn't match
no longer hides one whose value does, so the verdict doesn't depend on how
the keys happen to sort.
---
 src/validate.rs | 58 +++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 2f3bcd3..4944c2e 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -345,14 +345,21 @@ fn validate(value: &Value, node: &Node, ctx: &Context) -> ValidateResult {
 // Perform map key search.
 // Some keys (literal values) can be found with a fast search, while
 // others may require a linear search.
-fn validate_map_key<'a>(
-    value_map: &'a mut WorkingMap,
-    node: &Node,
+//
+// If a matching key is found, return that key plus the result of validating
+// the corresponding value.
+fn validate_map_key(
+    value_map: &WorkingMap,
+    kv: &KeyValue,
     ctx: &Context,
-) -> TempResult<(Value, &'a Value)> {
-    match node {
-        Node::Literal(l) => map_search_literal(l, value_map),
-        _ => map_search(node, value_map, ctx),
+) -> TempResult<(Value, ValidateResult)> {
+    match kv.key.as_ref() {
+        Node::Literal(l) => {
+            let (key, value) = map_search_literal(l, value_map)?;
+            let result = validate(value, &kv.value, ctx);
+            Ok((key, result))
+        }
+        _ => map_search(kv, value_map, ctx),
     }
 }
 
@@ -409,7 +416,7 @@ fn validate_literal(literal: &Literal, value: &Value) -> ValidateResult {
 // Find a specific key in the map and return that key plus a reference to its value.
 fn map_search_literal<'a>(
     literal: &Literal,
-    working_map: &'a mut WorkingMap,
+    working_map: &'a WorkingMap,
 ) -> TempResult<(Value, &'a Value)> {
     let search_key = Value::from(literal);
     match working_map.peek_at(&search_key) {
@@ -422,18 +429,24 @@ fn map_search_literal<'a>(
 }
 
 // Iterate over each key in the working map, looking for a match.
-// If we find a match, return a copy of the key, and a reference to the value.
+// If we find a match, return a copy of the key, and the result of validating
+// the value.  Several keys may match, so prefer one whose value matches too.
 // This is less efficient than map_search_literal.
-fn map_search<'a>(
-    node: &Node,
-    working_map: &'a mut WorkingMap,
+fn map_search(
+    kv: &KeyValue,
+    working_map: &WorkingMap,
     ctx: &Context,
-) -> TempResult<(Value, &'a Value)> {
+) -> TempResult<(Value, ValidateResult)> {
+    let mut key_match = None;
     for (key, value) in &working_map.map {
-        match validate(key, node, ctx) {
-            Ok(()) => {
-                return Ok((key.clone(), value));
-            }
+        match validate(key, &kv.key, ctx) {
+            Ok(()) => match validate(value, &kv.value, ctx) {
+                Err(e) if !e.is_fatal() => {
+                    // Remember this key, but keep trying other keys.
+                    key_match.get_or_insert_with(|| (key.clone(), Err(e)));
+                }
+                result => return Ok((key.clone(), result)),
+            },
             Err(e) => {
                 // Only fail if the error is considered fatal.
                 // Otherwise, we'll keep trying other keys.
@@ -443,8 +456,8 @@ fn map_search<'a>(
             }
         }
     }
-    // We searched all the keys without finding a match.  Validation fails.
-    Err(mismatch(format!("map{{{}}}", node)))
+    // If we searched all the keys without finding a match, validation fails.
+    key_match.ok_or_else(|| mismatch(format!("map{{{}}}", kv.key)))
 }
 
 // Note `ty` is passed by value because clippy says it's only 1 byte.
@@ -968,15 +981,12 @@ fn validate_map_keyvalue(
     // If we're using "non-cut" semantics, a partial match will leave the
     // key-value pair in place, in the hope it may match something else.
 
-    let key_node = &kv.key;
-    let val_node = &kv.value;
     let cut = kv.cut;
 
     // If we fail to validate a key, exit now with an error.
-    let (working_key, working_val) = validate_map_key(working_map, key_node, ctx)?;
+    let (working_key, value_result) = validate_map_key(working_map, kv, ctx)?;
 
-    // Match the value that was returned.
-    match validate(working_val, val_node, ctx) {
+    match value_result {
         Ok(()) => {
             working_map.remove(&working_key);
             Ok(())
-- 
2.43.0


From 7c4d148817afe1fc827b73680bacac62dd3653fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 07/18] fix: .cbor treats bytes that aren't one CBOR item as a
 mismatch

Undecodable bytes were a fatal error, so '(bytes .cbor uint) / bytes' failed
on them; bytes with trailing data after the first item were accepted.
---
 src/validate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 4944c2e..a5997cd 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1117,8 +1117,14 @@ fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) ->
 
     match value {
         Value::Bytes(bytes) => {
-            let cbor_value: CBOR_Value = ciborium::from_reader(bytes.as_slice())
-                .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+            // If the bytes aren't a single well-formed CBOR data item, then
+            // they don't match; some other choice might.
+            let mut reader = bytes.as_slice();
+            let cbor_value: CBOR_Value = ciborium::from_reader(&mut reader)
+                .map_err(|e| mismatch(format!("CBOR encoded bytes: {}", e)))?;
+            if !reader.is_empty() {
+                return Err(mismatch("CBOR encoded bytes: trailing data"));
+            }
 
             let nested_value = Value::try_from(cbor_value)?;
 
-- 
2.43.0


From 9550678eb8afd66f93d43764babf7fc565db8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 08/18] fix: validate_cbor_bytes reports data after the end of
 the CBOR item

The trailing bytes were silently ignored.
---
 src/cbor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index 2ed61e1..484983d 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -143,8 +143,12 @@ pub fn validate_cbor_bytes(name: &str, cddl: &str, cbor: &[u8]) -> ValidateResul
         .ok_or_else(|| ValidateError::MissingRule(name.into()))?;
 
     // Deserialize the CBOR bytes
-    let cbor_value: CBOR_Value =
-        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    let mut reader = cbor;
+    let cbor_value: CBOR_Value = ciborium::from_reader(&mut reader)
+        .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    if !reader.is_empty() {
+        return Err(ValidateError::ValueError("trailing data".into()));
+    }
 
     // Convert the CBOR tree into a Value tree for validation
     let value = Value::try_from(cbor_value)?;
-- 
2.43.0


From e72d17e283b618ec1228eba23c0a7b88b6ced87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 09/18] fix: allow all characters up to U+10FFFD in text and
 byte strings

A missing digit in the upper limit excluded everything above U+10FFD, for
example emoji.
---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e52fe05..4d9b6d1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -387,7 +387,7 @@ fn is_unescaped_bchar(c: char) -> bool {
         (0x20 ..= 0x26),
         (0x28 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
@@ -489,7 +489,7 @@ fn is_unescaped_schar(c: char) -> bool {
         (0x20 ..= 0x21),
         (0x23 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
-- 
2.43.0


From 97d8cb12c7aa8b4bdae384b4ac63de1c8a72ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 10/18] fix: accept quote characters in quoted byte strings

'\'' (an escaped single quote) and '"' (a bare double quote) are valid in
byte strings, but the JSON unescaping rules rejected both.
---
 src/parser/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4d9b6d1..0200017 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -416,6 +416,28 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// The escape8259 crate follows the JSON rules: a double quote must be escaped
+// and a single quote must not be.  In a CDDL byte string it's the other way
+// around, so switch those two to the JSON form first.
+fn unescape_bchar(s: &str) -> Result<String, CowParseError> {
+    let mut json = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '"' => json.push_str("\\\""),
+            '\\' => match chars.next() {
+                Some('\'') => json.push('\''),
+                escaped => {
+                    json.push(c);
+                    json.extend(escaped);
+                }
+            },
+            _ => json.push(c),
+        }
+    }
+    unescape(json).map_err(|_| parse_error(ErrorKind::MalformedText, s))
+}
+
 // This is basically identical to `text_literal` except that
 // it uses single-quotes.
 #[rustfmt::skip]
@@ -426,9 +448,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
         tag("'")
     );
 
-    map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
-    })
+    map_res_fail(f, unescape_bchar)
     (input)
 }
 
-- 
2.43.0


From 57a62c403428eef2e144fb8e12ed275194bd4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 11/18] fix: accept the integer literal -9223372036854775808

---
 src/parser/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0200017..c25b038 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -316,10 +316,11 @@ fn parse_int(raw: RawInt) -> Result<Value, CowParseError> {
         .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
 
     if raw.neg {
-        // i64 has a larger positive range than negative range, so if we
-        // survive the conversion to i64 then unary `-` must succeed.
-        let negint: i64 = try_into_int(posint, raw.slice)?;
-        Ok(Value::Nint(-negint))
+        // i64 has a larger negative range than positive range, so subtract
+        // instead of converting to i64 first.
+        0i64.checked_sub_unsigned(posint)
+            .map(Value::Nint)
+            .ok_or_else(|| parse_error(ErrorKind::MalformedInteger, raw.slice))
     } else {
         Ok(Value::Uint(posint))
     }
-- 
2.43.0


From 899aa51391ec316e682ae1a0e23e9f52e5cc1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 12/18] fix: reject a plus sign in a \u escape

"\u+041" was accepted as "A".
---
 src/parser/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c25b038..719919a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -32,9 +32,9 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_while1},
     character::complete::{
-        anychar, char as charx, digit0, digit1, hex_digit1, multispace1, not_line_ending, one_of,
+        char as charx, digit0, digit1, hex_digit1, multispace1, none_of, not_line_ending, one_of,
     },
-    combinator::{all_consuming, map, map_res, opt, recognize, value as valuex},
+    combinator::{all_consuming, map, map_res, not, opt, recognize, value as valuex},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
@@ -528,8 +528,17 @@ fn unescaped_schar(input: &str) -> JResult<&str, &str> {
 #[rustfmt::skip]
 fn sesc(input: &str) -> JResult<&str, &str> {
     // FIXME: allow only (%x20-7E / %x80-10FFFD)
-    preceded(charx('\\'), recognize(anychar))
-    (input)
+    preceded(
+        charx('\\'),
+        recognize(
+            alt((
+                // The hex digits of \uXXXX are decoded by `unescape`, which
+                // would take a plus sign there for part of the number.
+                terminated(charx('u'), not(charx('+'))),
+                none_of("u"),
+            ))
+        )
+    )(input)
 }
 
 // Zero or more text characters
-- 
2.43.0


From f003d5f33f1ddff8ff4fb24bca59b3c32f77088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 13/18] fix: unwrap follows a rule that is an alias of an array
 or map

---
 src/validate.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index a5997cd..1ff2fd4 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -633,6 +633,11 @@ fn validate_array_unwrap(
             working_array.commit();
             Ok(())
         }
+        Node::Rule(r) => {
+            // The name may stand for another name.
+            let answer = ctx.lookup_rule(r)?;
+            validate_array_unwrap(answer.node, working_array, &answer.ctx)
+        }
         _ => Err(mismatch("unwrap array")),
     }
 }
@@ -919,6 +924,11 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
             working_map.commit();
             Ok(())
         }
+        Node::Rule(r) => {
+            // The name may stand for another name.
+            let answer = ctx.lookup_rule(r)?;
+            validate_map_unwrap(answer.node, working_map, &answer.ctx)
+        }
         _ => Err(mismatch("unwrap map")),
     }
 }
-- 
2.43.0


From e78bca7b5ea9ce9ac9ce7a487b10fa4a3c46ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 14/18] fix: a rule's text does not include the blanks and
 comments after it

---
 src/parser/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 719919a..07814b5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -668,7 +668,8 @@ fn assemble_basic_member(key: Type1, value: Type) -> Result<Member, CowParseErro
 fn grpent_member(input: &str) -> JResult<&str, Member> {
 
     // The leading Type1 is required for this parser.
-    let (input, first_type1) = terminated(type1, ws)(input)?;
+    let (after_type1, first_type1) = type1(input)?;
+    let (input, _) = ws(after_type1)?;
 
     // If the type1 matches is a plain value or typename (aka id), then we may
     // be looking at a memberkey followed by a ":".  That syntax isn't allowed
@@ -714,14 +715,16 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
 
     // grpent without memberkey
     // should return a Member, with key: None and value: Type containing Vec<Type1>
-    // This is a lot like the fn `ty` but we will concatenate this with first_type1
+    // This is a lot like the fn `ty` but we will concatenate this with first_type1.
+    // Start over right after first_type1, because the blanks that follow it
+    // belong to this member only if there is another type.
 
     if let Ok((input, mut ty1s)) = many0(
         preceded(
             delimited(ws, tag("/"), ws),
             type1
         )
-    )(input) {
+    )(after_type1) {
         // insert the first type1 (from the top of this function)
         ty1s.insert(0, first_type1);
         let member = Member {
-- 
2.43.0


From 536e918abb7d173f5f3f9ed79c65b13e12f38155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 15/18] fix: parse what is inside the parentheses of a group
 entry only once

Trying a parenthesised type first and a parenthesised group afterwards
took 2^N steps for N nested parentheses, as in [([([(1, 1)], 1)], 1)].
---
 src/parser/mod.rs | 110 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 80 insertions(+), 30 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 07814b5..4b3d0fb 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -668,7 +668,13 @@ fn assemble_basic_member(key: Type1, value: Type) -> Result<Member, CowParseErro
 fn grpent_member(input: &str) -> JResult<&str, Member> {
 
     // The leading Type1 is required for this parser.
-    let (after_type1, first_type1) = type1(input)?;
+    let (input, first_type1) = type1(input)?;
+    grpent_member_tail(first_type1, input)
+}
+
+// The rest of a grpent_member, after its leading Type1.
+#[rustfmt::skip]
+fn grpent_member_tail(first_type1: Type1, after_type1: &str) -> JResult<&str, Member> {
     let (input, _) = ws(after_type1)?;
 
     // If the type1 matches is a plain value or typename (aka id), then we may
@@ -750,12 +756,52 @@ fn grpent_parens(input: &str) -> JResult<&str, Group> {
     )(input)
 }
 
+// grpent_val, where it starts with a parenthesis:
+//
+//   member_type1 that begins with "(" S type S ")"
+//   "(" S group S ")"
+//
+// Trying one after the other would parse whatever is inside the parentheses
+// twice, which is the 2^N iterations problem again.  So parse the first group
+// entry, which is common to both, and then look at what comes next.
+#[rustfmt::skip]
+fn grpent_val_parens(input: &str) -> JResult<&str, GrpEntVal> {
+    let (input, _) = pair(charx('('), ws)(input)?;
+    let (input, first) = opt(grpent)(input)?;
+    let close = |i| preceded(ws, charx(')'))(i);
+
+    let (input, choice) = match first {
+        // A lone member without an occurrence or a key is a type.
+        Some(GrpEnt {
+            occur: None,
+            val: GrpEntVal::Member(Member { key: None, value }),
+        }) if close(input).is_ok() => {
+            let (input, _) = close(input)?;
+            let (input, first_type1) = type1_tail(Type2::Parethesized(value), input)?;
+            let (input, member) = grpent_member_tail(first_type1, input)?;
+            return Ok((input, GrpEntVal::Member(member)));
+        }
+        // Anything else is a group; parse the rest of it.
+        Some(first) => {
+            let (input, mut choice) = preceded(optcom, grpchoice)(input)?;
+            choice.0.insert(0, first);
+            (input, choice)
+        }
+        None => (input, GrpChoice(Vec::new())),
+    };
+    let (input, mut choices) = terminated(group_tail, close)(input)?;
+    choices.insert(0, choice);
+    Ok((input, GrpEntVal::Parenthesized(Group(choices))))
+}
+
 #[rustfmt::skip]
 fn grpent_val(input: &str) -> JResult<&str, GrpEntVal> {
+    if input.starts_with('(') {
+        return grpent_val_parens(input);
+    }
     alt((
         map(grpent_member, GrpEntVal::Member),
         map(ident, |s| GrpEntVal::Groupname(s.into())),
-        map(grpent_parens, GrpEntVal::Parenthesized),
     ))
     (input)
 }
@@ -848,14 +894,7 @@ fn group(input: &str) -> JResult<&str, Group> {
 
     let f = pair(
         grpchoice,
-        many0(preceded(
-            delimited(
-                ws,
-                tag("//"),
-                ws,
-            ),
-            grpchoice
-        ))
+        group_tail
     );
 
     map(f, |(first, mut rest)| {
@@ -866,6 +905,20 @@ fn group(input: &str) -> JResult<&str, Group> {
     })(input)
 }
 
+// The part of a group that follows its first grpchoice.
+#[rustfmt::skip]
+fn group_tail(input: &str) -> JResult<&str, Vec<GrpChoice>> {
+    many0(preceded(
+        delimited(
+            ws,
+            tag("//"),
+            ws,
+        ),
+        grpchoice
+    ))
+    (input)
+}
+
 // "(" S type S ")"
 #[rustfmt::skip]
 fn type2_parens(input: &str) -> JResult<&str, Type> {
@@ -944,15 +997,7 @@ fn type2_choiceify_inline(input: &str) -> JResult<&str, Group> {
         tag("&"),
         preceded(
             ws,
-            delimited(
-                charx('('),
-                delimited(
-                    ws,
-                    group,
-                    ws,
-                ),
-                charx(')')
-            )
+            grpent_parens
         )
     )
     (input)
@@ -1015,16 +1060,21 @@ fn range_or_control_op(input: &str) -> JResult<&str, (&str, Type2)> {
 // type1 = type2 [S (rangeop / ctlop) S type2]
 #[rustfmt::skip]
 fn type1(input: &str) -> JResult<&str, Type1> {
-    let f = pair(
-        type2,
-        opt(
-            preceded(
-                ws,
-                range_or_control_op
-            )
+    let (input, ty2) = type2(input)?;
+    type1_tail(ty2, input)
+}
+
+// The rest of a type1, after its leading type2.
+#[rustfmt::skip]
+fn type1_tail(ty2: Type2, input: &str) -> JResult<&str, Type1> {
+    let (input, tail) = opt(
+        preceded(
+            ws,
+            range_or_control_op
         )
-    );
-    map(f, |ty1| match ty1 {
+    )(input)?;
+
+    let ty1 = match (ty2, tail) {
         (ty2, None) => Type1::Simple(ty2),
         (start, Some(("..", end))) => Type1::Range(TypeRange {
             start,
@@ -1041,8 +1091,8 @@ fn type1(input: &str) -> JResult<&str, Type1> {
             op: op.into(),
             arg,
         }),
-    })
-    (input)
+    };
+    Ok((input, ty1))
 }
 
 // type = type1 [ / type1 ... ]  (skipping over type1 for now)
-- 
2.43.0


From 084b0497844cfc5cadbc2363e748a15e76835949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 16/18] fix: a float that starts a group entry may exceed the
 integer range

[18446744073709551616.0] was refused, because the number was converted
as an occurrence limit before looking for the "*" that makes it one.
---
 src/parser/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4b3d0fb..3441a94 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -34,7 +34,7 @@ use nom::{
     character::complete::{
         char as charx, digit0, digit1, hex_digit1, multispace1, none_of, not_line_ending, one_of,
     },
-    combinator::{all_consuming, map, map_res, not, opt, recognize, value as valuex},
+    combinator::{all_consuming, map, map_res, not, opt, peek, recognize, value as valuex},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
@@ -820,11 +820,16 @@ where
 //       / "?"
 #[rustfmt::skip]
 fn occur_star(input: &str) -> JResult<&str, Occur> {
-    let f = tuple((
-        opt(uint_u64),
-        tag("*"),
-        opt(uint_u64),
-    ));
+    let f = preceded(
+        // A number without the "*" may be too big for an integer, because it
+        // may turn out to be the start of a float.
+        peek(pair(opt(uint), tag("*"))),
+        tuple((
+            opt(uint_u64),
+            tag("*"),
+            opt(uint_u64),
+        ))
+    );
     // FIXME: it's really not the parser's business to be inventing an upper
     // limit here.  Plus, the use of usize::MAX is kind of gross.
     // The parser should leave these as Option and leave it to others to
-- 
2.43.0


From e308751d09a024add1fb94587b57f59b9453c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 17/18] fix: name a malformed literal in the value of a member,
 too

---
 src/parser/mod.rs | 62 ++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3441a94..a8b1184 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -685,13 +685,17 @@ fn grpent_member_tail(first_type1: Type1, after_type1: &str) -> JResult<&str, Me
         Type1::Simple(Type2::Value(_)) |
         Type1::Simple(Type2::Typename(_)) => {
             // Next, try to match ":" ws ty
-            if let Ok((input, tail_type)) = grpent_memberkey_tail(input) {
-                let member = assemble_basic_member(first_type1, tail_type);
-                match member {
-                    Ok(member) => return Ok((input, member)),
-                    Err(e) => return Err(nom::Err::Failure(e)),
+            match grpent_memberkey_tail(input) {
+                Ok((input, tail_type)) => {
+                    let member = assemble_basic_member(first_type1, tail_type);
+                    match member {
+                        Ok(member) => return Ok((input, member)),
+                        Err(e) => return Err(nom::Err::Failure(e)),
+                    }
                 }
-
+                // A malformed literal in the value.
+                Err(nom::Err::Failure(e)) => return Err(nom::Err::Failure(e)),
+                Err(_) => {}
             }
         }
         // "X:Y" isn't allowed when X is some other Type1 variant.
@@ -702,21 +706,26 @@ fn grpent_member_tail(first_type1: Type1, after_type1: &str) -> JResult<&str, Me
     // should return a Member, with key: Some(MemberKey{val, cut})
     // and value: Type
 
-    if let Ok((input, matched_tuple)) = tuple((
+    match tuple((
         opt(terminated(tag("^"), ws)),
         tag("=>"),
         ws,
         ty,
     ))(input) {
-        let (cut, _, _, val) = matched_tuple;
-        let member = Member {
-            key: Some(MemberKey {
-                val: MemberKeyVal::Type1(first_type1),
-                cut: cut.is_some(),
-            }),
-            value: val,
-        };
-        return Ok((input, member));
+        Ok((input, matched_tuple)) => {
+            let (cut, _, _, val) = matched_tuple;
+            let member = Member {
+                key: Some(MemberKey {
+                    val: MemberKeyVal::Type1(first_type1),
+                    cut: cut.is_some(),
+                }),
+                value: val,
+            };
+            return Ok((input, member));
+        }
+        // A malformed literal in the value.
+        Err(nom::Err::Failure(e)) => return Err(nom::Err::Failure(e)),
+        Err(_) => {}
     }
 
     // grpent without memberkey
@@ -725,22 +734,19 @@ fn grpent_member_tail(first_type1: Type1, after_type1: &str) -> JResult<&str, Me
     // Start over right after first_type1, because the blanks that follow it
     // belong to this member only if there is another type.
 
-    if let Ok((input, mut ty1s)) = many0(
+    let (input, mut ty1s) = many0(
         preceded(
             delimited(ws, tag("/"), ws),
             type1
         )
-    )(after_type1) {
-        // insert the first type1 (from the top of this function)
-        ty1s.insert(0, first_type1);
-        let member = Member {
-            key: None,
-            value: Type(ty1s),
-        };
-        return Ok((input, member));
-    }
-
-    Err(nom::Err::Error(parse_error(ErrorKind::Unparseable, "grpent_member")))
+    )(after_type1)?;
+    // insert the first type1 (from the top of this function)
+    ty1s.insert(0, first_type1);
+    let member = Member {
+        key: None,
+        value: Type(ty1s),
+    };
+    Ok((input, member))
 }
 
 #[rustfmt::skip]
-- 
2.43.0


From 32769b047acbe455d15e12dad4845d9037aa94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 18/18] fix: an occurrence with too few matches puts back what
 it consumed

An Occur inside another Occur, a Choice or a generic argument (a rule
tree built by a program) kept the elements it had matched when there
were fewer of them than its lower limit.
---
 src/validate.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 1ff2fd4..9764842 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -648,6 +648,23 @@ fn validate_array_occur(
     occur: &Occur,
     working_array: &mut WorkingArray,
     ctx: &Context,
+) -> ValidateResult {
+    // If there are some matches, but not enough of them, put the consumed
+    // elements back (the same as for a Group).
+    working_array.snapshot();
+    let result = validate_array_repeat(occur, working_array, ctx);
+    match result {
+        Ok(()) => working_array.commit(),
+        Err(_) => working_array.rewind(),
+    }
+    result
+}
+
+/// Match an occurrence as many times as it allows.
+fn validate_array_repeat(
+    occur: &Occur,
+    working_array: &mut WorkingArray,
+    ctx: &Context,
 ) -> ValidateResult {
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
@@ -938,6 +955,23 @@ fn validate_map_occur(
     occur: &Occur,
     working_map: &mut WorkingMap,
     ctx: &Context,
+) -> ValidateResult {
+    // If there are some matches, but not enough of them, put the consumed
+    // entries back (the same as for a Group).
+    working_map.snapshot();
+    let result = validate_map_repeat(occur, working_map, ctx);
+    match result {
+        Ok(()) => working_map.commit(),
+        Err(_) => working_map.rewind(),
+    }
+    result
+}
+
+/// Match an occurrence as many times as it allows.
+fn validate_map_repeat(
+    occur: &Occur,
+    working_map: &mut WorkingMap,
+    ctx: &Context,
 ) -> ValidateResult {
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
-- 
2.43.0

