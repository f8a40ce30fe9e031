From d2ea421b9eb612030a704ec7cae9058c681dc15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 01/13] fix: keep consumed elements in the enclosing snapshot
 when a nested group commits

---
 src/validate.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..993431d 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it may still be rewound, so it
+        // needs to remember these values.  Otherwise they were successfully
+        // matched and are no longer needed.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it may still be rewound, so it
+        // needs to remember these values.  Otherwise they were successfully
+        // matched and are no longer needed.
+        if let Some(snap) = self.snaps.back_mut() {
+            snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From 1932b20c0c99f5ba2a00f38cafbae95d748b55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 02/13] fix: put back what a failed unwrap consumed

---
 src/validate.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 993431d..263dd3f 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -598,11 +598,19 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // Like a group, the unwrapped members match together or not at
+            // all, so roll back to this point if one of them fails.
+            working_array.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -873,11 +881,19 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
-            // Recurse into each member of the unwrapped array.
+            // Like a group, the unwrapped members match together or not at
+            // all, so roll back to this point if one of them fails.
+            working_map.snapshot();
+
+            // Recurse into each member of the unwrapped map.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    return Err(e);
+                }
             }
-            // All array members validated Ok.
+            // All map members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From e2bbe10eee5e5dc9cad734f416d28e167b8d3472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 03/13] fix: put back what a failed occurrence consumed

---
 src/validate.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 263dd3f..021ca41 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -627,6 +627,10 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If we don't reach the lower limit, we will need to put back whatever
+    // the earlier repetitions consumed.
+    working_array.snapshot();
+
     loop {
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
@@ -638,6 +642,7 @@ fn validate_array_occur(
                 // The error is something serious (e.g. MissingRule or
                 // Unsupported).  We should fail now and propagate that
                 // error upward.
+                working_array.rewind();
                 return Err(e);
             }
         }
@@ -648,8 +653,10 @@ fn validate_array_occur(
         }
     }
     if count < lower_limit {
+        working_array.rewind();
         return Err(mismatch(format!("more array element [{}]", occur)));
     }
+    working_array.commit();
     Ok(())
 }
 
@@ -909,6 +916,10 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If we don't reach the lower limit, we will need to put back whatever
+    // the earlier repetitions consumed.
+    working_map.snapshot();
+
     loop {
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
@@ -920,6 +931,7 @@ fn validate_map_occur(
                 // Either we got a MapCut error, or it's something even more
                 // serious (e.g. MissingRule or Unsupported).  We should fail
                 // now and propagate that error upward.
+                working_map.rewind();
                 return Err(e);
             }
         }
@@ -933,8 +945,10 @@ fn validate_map_occur(
         // Read this format string as "{{" then "{}" then "}}"
         // The first and last print a single brace; the value is in the
         // middle, e.g "{foo}".
+        working_map.rewind();
         return Err(mismatch(format!("map{{{}}}]", occur)));
     }
+    working_map.commit();
     Ok(())
 }
 
-- 
2.43.0


From 9e50d56e3469e88071edf8135380a1d0575c2dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 04/13] fix: stop repeating an occurrence that matches without
 consuming anything

---
 src/validate.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 021ca41..e9960a1 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -632,6 +632,7 @@ fn validate_array_occur(
     working_array.snapshot();
 
     loop {
+        let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -646,6 +647,12 @@ fn validate_array_occur(
                 return Err(e);
             }
         }
+        if working_array.array.len() == remaining {
+            // We matched without consuming anything.  That would succeed
+            // again any number of times, so don't keep repeating it.
+            count = upper_limit;
+            break;
+        }
         count += 1;
         if count >= upper_limit {
             // Stop matching; we've consumed the maximum number of this key.
@@ -921,6 +928,7 @@ fn validate_map_occur(
     working_map.snapshot();
 
     loop {
+        let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -935,6 +943,12 @@ fn validate_map_occur(
                 return Err(e);
             }
         }
+        if working_map.map.len() == remaining {
+            // We matched without consuming anything.  That would succeed
+            // again any number of times, so don't keep repeating it.
+            count = upper_limit;
+            break;
+        }
         count += 1;
         if count >= upper_limit {
             // Stop matching; we've consumed the maximum number of this key.
-- 
2.43.0


From 1972ec30577dead92f8825d7328ecf949d05e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 05/13] fix: do not match an occurrence whose upper limit is
 zero

---
 src/validate.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index e9960a1..f6e43ba 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -631,7 +631,7 @@ fn validate_array_occur(
     // the earlier repetitions consumed.
     working_array.snapshot();
 
-    loop {
+    while count < upper_limit {
         let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
@@ -654,10 +654,6 @@ fn validate_array_occur(
             break;
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         working_array.rewind();
@@ -927,7 +923,7 @@ fn validate_map_occur(
     // the earlier repetitions consumed.
     working_map.snapshot();
 
-    loop {
+    while count < upper_limit {
         let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
@@ -950,10 +946,6 @@ fn validate_map_occur(
             break;
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From ddf3d8a05e60945a290ef40dd34ae8bf50589a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 06/13] fix: report fatal errors found while searching for a
 map key

---
 src/validate.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index f6e43ba..a691ba0 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -430,9 +430,17 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => {
+                return Ok((key.clone(), value));
+            }
+            Err(e) => {
+                // Only fail if the error is considered fatal.
+                // Otherwise, we'll keep trying other keys.
+                if e.is_fatal() {
+                    return Err(e);
+                }
+            }
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From 86692f1a583cfef1a054adb0b69fa6c1b97a1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 07/13] fix: keep counting recursion depth when substituting a
 generic argument

---
 src/validate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index a691ba0..1879567 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -77,8 +77,13 @@ impl<'a> Context<'a> {
             // If we stored a past_ctx along with the generic args, then pass that
             // context along with the node that is substituting for this generic
             // parameter name.  Otherwise, return a new blank Context.
+            // The recursion depth must carry over; otherwise generic arguments
+            // would be a way to evade the recursion limit.
             let ctx = match self.generic_map.past_ctx {
-                Some(ctx) => ctx.clone(),
+                Some(ctx) => Context {
+                    depth: self.depth,
+                    ..ctx.clone()
+                },
                 None => self.blank()?,
             };
             return Ok(NodeContext { node, ctx });
-- 
2.43.0


From 4854cca15f946c1e649ba363cc8d1ab3dd4657fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 08/13] fix: accept every unicode scalar value in text and byte
 string literals

---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e52fe05..4d9b6d1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -387,7 +387,7 @@ fn is_unescaped_bchar(c: char) -> bool {
         (0x20 ..= 0x26),
         (0x28 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
@@ -489,7 +489,7 @@ fn is_unescaped_schar(c: char) -> bool {
         (0x20 ..= 0x21),
         (0x23 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
-- 
2.43.0


From 6f0e8075aa0d6912c933b5bf9578d02163d03046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 09/13] fix: reject CBOR input with trailing data

---
 src/cbor.rs     | 8 ++++++--
 src/validate.rs | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index 2ed61e1..db7ab6b 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -143,8 +143,12 @@ pub fn validate_cbor_bytes(name: &str, cddl: &str, cbor: &[u8]) -> ValidateResul
         .ok_or_else(|| ValidateError::MissingRule(name.into()))?;
 
     // Deserialize the CBOR bytes
-    let cbor_value: CBOR_Value =
-        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    let mut reader = cbor;
+    let cbor_value: CBOR_Value = ciborium::from_reader(&mut reader)
+        .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    if !reader.is_empty() {
+        return Err(ValidateError::ValueError("trailing CBOR data".into()));
+    }
 
     // Convert the CBOR tree into a Value tree for validation
     let value = Value::try_from(cbor_value)?;
diff --git a/src/validate.rs b/src/validate.rs
index 1879567..659fad5 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1127,8 +1127,12 @@ fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) ->
 
     match value {
         Value::Bytes(bytes) => {
-            let cbor_value: CBOR_Value = ciborium::from_reader(bytes.as_slice())
+            let mut reader = bytes.as_slice();
+            let cbor_value: CBOR_Value = ciborium::from_reader(&mut reader)
                 .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+            if !reader.is_empty() {
+                return Err(ValidateError::ValueError("trailing CBOR data".into()));
+            }
 
             let nested_value = Value::try_from(cbor_value)?;
 
-- 
2.43.0


From d371e0319d8e5a9369a8d988adbb9b4e8afd3233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 10/13] fix: accept quotation marks and escaped apostrophes in
 byte string text

BCHAR allows an unescaped " in '...' literals and \' is the way to write an
apostrophe there, but the contents were unescaped by the rules of double-quoted
text, which refuse both.
---
 src/parser/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4d9b6d1..5b5101d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -427,11 +427,32 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
+        unescape(requote(s)).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
 
+// `unescape` expects the contents of a double-quoted string: there, a double
+// quote must be escaped and a single quote must not be.
+fn requote(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    let mut escaped = false;
+    for c in s.chars() {
+        match (escaped, c) {
+            (true, '\'') => out.push(c),
+            (true, _) => {
+                out.push('\\');
+                out.push(c);
+            }
+            (false, '"') => out.push_str("\\\""),
+            (false, '\\') => {}
+            (false, _) => out.push(c),
+        }
+        escaped = !escaped && c == '\\';
+    }
+    out
+}
+
 // This doesn't check that only the right characters are used;
 // that will be done later during parsing of the string.
 #[rustfmt::skip]
-- 
2.43.0


From 9d7be051d9d9e9abd52a7cb270748d31beb1b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:33 +0000
Subject: [PATCH 11/13] fix: accept -(2^63) as an integer literal

i64 holds -9223372036854775808, but the parser converted the magnitude
before negating it and refused the literal.
---
 src/parser/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5b5101d..5c22310 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -316,10 +316,10 @@ fn parse_int(raw: RawInt) -> Result<Value, CowParseError> {
         .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
 
     if raw.neg {
-        // i64 has a larger positive range than negative range, so if we
-        // survive the conversion to i64 then unary `-` must succeed.
-        let negint: i64 = try_into_int(posint, raw.slice)?;
-        Ok(Value::Nint(-negint))
+        // i64 has a larger negative range than positive range, so negate
+        // in a wider type before converting to i64.
+        let negint: i64 = try_into_int(-i128::from(posint), raw.slice)?;
+        Ok(Value::Nint(negint))
     } else {
         Ok(Value::Uint(posint))
     }
-- 
2.43.0


From e3b0d245e96b26f1ca26e5f44c91bcead76f8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 12/13] fix: refuse a sign among the hex digits of a \u escape

---
 src/parser/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5c22310..51f1577 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -427,11 +427,28 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
+        if has_signed_escape(s) {
+            return Err(parse_error(ErrorKind::MalformedText, s));
+        }
         unescape(requote(s)).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
 
+// `unescape` takes "\u+041" for "\u0041", but a sign is not a hex digit.
+fn has_signed_escape(s: &str) -> bool {
+    let mut escaped = false;
+    let mut unicode = false;
+    for c in s.chars() {
+        if unicode && c == '+' {
+            return true;
+        }
+        unicode = escaped && c == 'u';
+        escaped = !escaped && c == '\\';
+    }
+    false
+}
+
 // `unescape` expects the contents of a double-quoted string: there, a double
 // quote must be escaped and a single quote must not be.
 fn requote(s: &str) -> String {
@@ -555,6 +572,9 @@ fn text_literal(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
+        if has_signed_escape(s) {
+            return Err(parse_error(ErrorKind::MalformedText, s));
+        }
         unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
-- 
2.43.0


From 25e673be7e2777b59d79e894c513146120e06cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:09 +0000
Subject: [PATCH 13/13] fix: refuse CBOR maps with duplicate keys

---
 src/cbor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index db7ab6b..108eb65 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -97,7 +97,12 @@ impl TryFrom<&CBOR_Value> for Value {
                         Ok((Value::try_from(k)?, Value::try_from(v)?))
                     })
                     .collect();
-                Value::Map(map?)
+                let map = map?;
+                if map.len() != m.len() {
+                    // Two entries had the same key, so one of them was lost.
+                    return Err(ValidateError::ValueError("duplicate map key".into()));
+                }
+                Value::Map(map)
             }
             _ => {
                 // cbor::Value has a few hidden internal variants.  We should
-- 
2.43.0

