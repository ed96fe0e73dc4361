From 20a5df790ae00e9e1eadcc43ffeafd1a98be90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 01/27] fix: clamp slice start one past the relevant end, as
 RFC 9535 normalises it

---
 crates/jsonpath_rfc9535_iter/src/selector.rs          | 11 +++++++++--
 crates/jsonpath_rfc9535_locations/src/selector.rs     |  4 ++--
 crates/jsonpath_rfc9535_serde/src/ast.rs              | 11 +++++++++--
 .../src/selector.rs                                   |  4 ++--
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 594295c..57092fc 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -74,9 +74,16 @@ pub fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(
+                    i,
+                    if n_step < 0 {
+                        array_length - 1
+                    } else {
+                        array_length
+                    },
+                )
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 9e3c6bf..645a118 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -149,9 +149,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f2df9f5..862f903 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -705,9 +705,16 @@ fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(
+                    i,
+                    if n_step < 0 {
+                        array_length - 1
+                    } else {
+                        array_length
+                    },
+                )
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 4567474..7455976 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -186,9 +186,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
-- 
2.43.0


From 8935f3241f8db334bc84d83dcaf09ac9880ebdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 02/27] fix: compare integers greater than i64::MAX instead of
 panicking

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 3 ++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 7 ++++---
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 3 ++-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 7 ++++---
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c46c11c..a88496a 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -259,7 +259,8 @@ impl<'v> FilterExpressionResult<'v> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // An integer greater than i64::MAX.
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 28b75f3..6968183 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -251,10 +251,11 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    // A float, or an integer greater than i64::MAX.
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 862f903..6f6d9b3 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -78,7 +78,8 @@ impl<'a> FilterExpressionResult<'a> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // An integer greater than i64::MAX.
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 28b75f3..6968183 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -251,10 +251,11 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    // A float, or an integer greater than i64::MAX.
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
-- 
2.43.0


From 35238150607395f1a0681ec45118d50dfb2a39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 03/27] fix: compare numbers inside arrays and objects by value

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 22 +++++++++++++++++--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 22 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 22 +++++++++++++++++--
 .../src/filter.rs                             | 22 +++++++++++++++++--
 4 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index a88496a..fb4393a 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -351,12 +351,30 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => value_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => value_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, with numbers compared by value, so `1` and `1.0` are equal.
+fn value_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_eq(l, r)))
+        }
+        (Value::Number(l), Value::Number(r)) => {
+            l == r || ((l.is_f64() || r.is_f64()) && l.as_f64() == r.as_f64())
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 6968183..09f085d 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -346,12 +346,30 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => value_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => value_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, with numbers compared by value, so `1` and `1.0` are equal.
+fn value_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_eq(l, r)))
+        }
+        (Value::Number(l), Value::Number(r)) => {
+            l == r || ((l.is_f64() || r.is_f64()) && l.as_f64() == r.as_f64())
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 6f6d9b3..7399655 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -843,12 +843,30 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => value_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => value_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, with numbers compared by value, so `1` and `1.0` are equal.
+fn value_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_eq(l, r)))
+        }
+        (Value::Number(l), Value::Number(r)) => {
+            l == r || ((l.is_f64() || r.is_f64()) && l.as_f64() == r.as_f64())
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 6968183..09f085d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -346,12 +346,30 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => value_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => value_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, with numbers compared by value, so `1` and `1.0` are equal.
+fn value_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_eq(l, r)))
+        }
+        (Value::Number(l), Value::Number(r)) => {
+            l == r || ((l.is_f64() || r.is_f64()) && l.as_f64() == r.as_f64())
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
-- 
2.43.0


From e916aa3aaa274192c10da3ba2d9f416b1c1d3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 04/27] fix: match whole strings, exclude CR from dot and drop
 class operators in i-regexp patterns

---
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 4 files changed, 136 insertions(+), 172 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..f476587 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to the equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match `\n` or `\r`.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // There are no set operations, like `&&`, in i-regexp character classes.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..963e25b 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to the equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match `\n` or `\r`.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // There are no set operations, like `&&`, in i-regexp character classes.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..980b8ff 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to the equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match `\n` or `\r`.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // There are no set operations, like `&&`, in i-regexp character classes.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..963e25b 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map i-regexp pattern to the equivalent pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match `\n` or `\r`.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // There are no set operations, like `&&`, in i-regexp character classes.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
-- 
2.43.0


From 4aaa68f87076858fbfd415af9e978fe264147c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 05/27] fix: escape member names in normalized paths

---
 crates/jsonpath_rfc9535_iter/src/node.rs      |  4 +++-
 crates/jsonpath_rfc9535_iter/src/unescape.rs  | 21 +++++++++++++++++++
 crates/jsonpath_rfc9535_locations/src/node.rs |  4 ++--
 .../src/unescape.rs                           | 21 +++++++++++++++++++
 crates/jsonpath_rfc9535_serde/src/ast.rs      |  3 ++-
 crates/jsonpath_rfc9535_serde/src/unescape.rs | 21 +++++++++++++++++++
 .../src/node.rs                               |  4 ++--
 .../src/unescape.rs                           | 21 +++++++++++++++++++
 8 files changed, 93 insertions(+), 6 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/node.rs b/crates/jsonpath_rfc9535_iter/src/node.rs
index 9c523f2..13a83b8 100644
--- a/crates/jsonpath_rfc9535_iter/src/node.rs
+++ b/crates/jsonpath_rfc9535_iter/src/node.rs
@@ -2,6 +2,8 @@ use std::rc::Rc;
 
 use serde_json::Value;
 
+use crate::unescape::quote;
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct Node<'a> {
     pub value: &'a Value,
@@ -12,7 +14,7 @@ impl<'a> Node<'a> {
     pub fn new_child_member(&self, value: &'a Value, loc: &str) -> Rc<Self> {
         Rc::new(Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}[{}]", self.location, quote(loc)),
         })
     }
 
diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index d38c16d..bae1421 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -101,3 +101,24 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// The single quoted form of a member name, as it appears in a normalized path.
+pub fn quote(name: &str) -> String {
+    let mut rv = String::with_capacity(name.len() + 2);
+    rv.push('\'');
+    for c in name.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_locations/src/node.rs b/crates/jsonpath_rfc9535_locations/src/node.rs
index 4830840..76aa8a0 100644
--- a/crates/jsonpath_rfc9535_locations/src/node.rs
+++ b/crates/jsonpath_rfc9535_locations/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, unescape::quote};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("[{}]", quote(s)),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index d38c16d..bae1421 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -101,3 +101,24 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// The single quoted form of a member name, as it appears in a normalized path.
+pub fn quote(name: &str) -> String {
+    let mut rv = String::with_capacity(name.len() + 2);
+    rv.push('\'');
+    for c in name.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 7399655..35c4e41 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -15,6 +15,7 @@ use std::{
 
 use crate::{
     env::Environment, errors::JSONPathError, function::ExpressionType, parser::JSONPathParser,
+    unescape::quote,
 };
 
 lazy_static! {
@@ -34,7 +35,7 @@ impl<'a> Node<'a> {
     fn new_child_member(&self, value: &'a Value, loc: &str) -> Self {
         Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}[{}]", self.location, quote(loc)),
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index d38c16d..bae1421 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -101,3 +101,24 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// The single quoted form of a member name, as it appears in a normalized path.
+pub fn quote(name: &str) -> String {
+    let mut rv = String::with_capacity(name.len() + 2);
+    rv.push('\'');
+    for c in name.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/node.rs b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
index 4830840..76aa8a0 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/node.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, unescape::quote};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("[{}]", quote(s)),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index d38c16d..bae1421 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -101,3 +101,24 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// The single quoted form of a member name, as it appears in a normalized path.
+pub fn quote(name: &str) -> String {
+    let mut rv = String::with_capacity(name.len() + 2);
+    rv.push('\'');
+    for c in name.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
-- 
2.43.0


From c947cd001b91d5ac9714315c5521ead58cb1444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 06/27] fix: loop instead of recursing for every value rejected
 by a filter in the lazy iterator

---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 38 ++++++++----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..f4b4468 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -57,15 +57,11 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            match self.it.next() {
+                Some(v) => return Some(v),
+                None => self.it = Box::new(self.selectors.next()?),
+            }
         }
     }
 }
@@ -200,15 +196,11 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (index, value) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                return Some(self.parent.new_child_element(value, index));
             }
-            None => None,
         }
     }
 }
@@ -242,15 +234,11 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (k, v) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                return Some(self.parent.new_child_member(v, k));
             }
-            None => None,
         }
     }
 }
-- 
2.43.0


From d12457ab41b694864337936b101d3ed37f4284d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 07/27] fix: convert node lists to booleans for logical
 function parameters

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index fb4393a..3898caa 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -392,8 +392,10 @@ fn unpack_result<'v>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'v> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 09f085d..2fbaba5 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -387,8 +387,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 35c4e41..74024e4 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -885,8 +885,10 @@ fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> Result<FilterExpressionResult<'a>, JSONPathError> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return Ok(rv);
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return Ok(rv),
+        ExpressionType::Logical => return Ok(FilterExpressionResult::Bool(is_truthy(rv))),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 09f085d..2fbaba5 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -387,8 +387,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
-- 
2.43.0


From 65d3bdfb7eedaddda6c7a91b01ace6e8319a846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 08/27] fix: resolve root queries nested in relative queries
 against the document root

---
 crates/jsonpath_rfc9535_iter/src/filter.rs        |  2 +-
 crates/jsonpath_rfc9535_iter/src/iter.rs          | 12 +++++++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs   |  2 +-
 crates/jsonpath_rfc9535_locations/src/query.rs    | 12 +++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs          | 15 +++++++++++----
 .../src/filter.rs                                 |  2 +-
 .../src/query.rs                                  | 12 +++++++++++-
 7 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 3898caa..42187b4 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -111,7 +111,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => FilterExpressionResult::Nodes(
-                QueryIter::new(env, current, *query.clone()).collect(),
+                QueryIter::new_from(env, root, current, *query.clone()).collect(),
             ),
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(QueryIter::new(env, root, *query.clone()).collect())
diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index f4b4468..0665463 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -29,10 +29,20 @@ impl<'v> Iterator for QueryIter<'v> {
 
 impl<'v> QueryIter<'v> {
     pub fn new(env: &'static Environment, root: &'v Value, query: Query) -> Self {
+        Self::new_from(env, root, root, query)
+    }
+
+    /// Apply a query to `current`, which might not be the root of the document.
+    pub(crate) fn new_from(
+        env: &'static Environment,
+        root: &'v Value,
+        current: &'v Value,
+        query: Query,
+    ) -> Self {
         let init = SegmentIter {
             selectors: vec![].into_iter(),
             it: Box::new(iter::once(Rc::new(Node {
-                value: root,
+                value: current,
                 location: String::from("$"),
             }))),
         };
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 2fbaba5..9c6c702 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 0f2c651..19f7558 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// Apply this query to `value`, a node in the document with the given `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 74024e4..cc91410 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -109,8 +109,15 @@ impl Query {
         value: &'a Value,
         env: &'b Environment,
     ) -> Result<NodeList<'a>, JSONPathError> {
-        let context = QueryContext { root: value, env };
+        self.find_from(value, &QueryContext { root: value, env })
+    }
 
+    /// Apply this query to `value`, which might not be the root of the document.
+    fn find_from<'a>(
+        &self,
+        value: &'a Value,
+        context: &QueryContext<'a, '_>,
+    ) -> Result<NodeList<'a>, JSONPathError> {
         let root_node = Node {
             value,
             location: String::from("$"),
@@ -119,7 +126,7 @@ impl Query {
         self.segments
             .iter()
             .try_fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, &context)
+                segment.resolve(nodes, context)
             })
     }
 
@@ -585,10 +592,10 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(current, context.env)?,
+                query.find_from(current, context)?,
             )),
             FilterExpression::RootQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(context.root, context.env)?,
+                query.find_from(context.root, context)?,
             )),
             FilterExpression::Function { name, args } => {
                 let fn_ext = context.env.function_register.get(name).ok_or_else(|| {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 2fbaba5..9c6c702 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 0f2c651..19f7558 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// Apply this query to `value`, a node in the document with the given `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
-- 
2.43.0


From 6987b6418954ef45ad3c3721d87c7fe7dea7bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 09/27] fix: parse negative zero fractions and large number
 literals exactly

---
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 55 ++++++-------------
 .../jsonpath_rfc9535_locations/src/parser.rs  | 55 ++++++-------------
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 55 ++++++-------------
 .../src/parser.rs                             | 55 ++++++-------------
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 55 ++++++-------------
 .../src/parser.rs                             | 55 ++++++-------------
 6 files changed, 108 insertions(+), 222 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9b77877..7ea0110 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -286,48 +286,29 @@ impl JSONPathParser {
             return Ok(FilterExpression::Int { value: 0 });
         }
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let n = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = n.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // TODO: change pest grammar to indicate positive or negative exponent?
+        let is_float = expr.into_inner().any(|pair| match pair.as_rule() {
+            Rule::frac => true,
+            Rule::exp => pair.as_str().contains('-'),
+            _ => false,
+        });
+
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // Integers that don't fit in an `i64` are floats too.
+        if is_float || value.abs() >= 2_f64.powi(63) {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9b77877..7ea0110 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -286,48 +286,29 @@ impl JSONPathParser {
             return Ok(FilterExpression::Int { value: 0 });
         }
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let n = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = n.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // TODO: change pest grammar to indicate positive or negative exponent?
+        let is_float = expr.into_inner().any(|pair| match pair.as_rule() {
+            Rule::frac => true,
+            Rule::exp => pair.as_str().contains('-'),
+            _ => false,
+        });
+
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // Integers that don't fit in an `i64` are floats too.
+        if is_float || value.abs() >= 2_f64.powi(63) {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1497595..9b27be3 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -338,48 +338,29 @@ impl JSONPathParser {
             return Ok(FilterExpression::Int { value: 0 });
         }
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.starts_with('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let n = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.starts_with('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = n.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // TODO: change pest grammar to indicate positive or negative exponent?
+        let is_float = expr.into_inner().any(|pair| match pair.as_rule() {
+            Rule::frac => true,
+            Rule::exp => pair.as_str().contains('-'),
+            _ => false,
+        });
+
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // Integers that don't fit in an `i64` are floats too.
+        if is_float || value.abs() >= 2_f64.powi(63) {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 4cd4dc1..88b582e 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -357,48 +357,29 @@ impl JSONPathParser {
             return Ok(FilterExpression::Int { value: 0 });
         }
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let n = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = n.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // TODO: change pest grammar to indicate positive or negative exponent?
+        let is_float = expr.into_inner().any(|pair| match pair.as_rule() {
+            Rule::frac => true,
+            Rule::exp => pair.as_str().contains('-'),
+            _ => false,
+        });
+
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // Integers that don't fit in an `i64` are floats too.
+        if is_float || value.abs() >= 2_f64.powi(63) {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 58a0513..7896eed 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -283,48 +283,29 @@ impl JSONPathParser {
             return Ok(FilterExpression::Int { value: 0 });
         }
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let n = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = n.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // TODO: change pest grammar to indicate positive or negative exponent?
+        let is_float = expr.into_inner().any(|pair| match pair.as_rule() {
+            Rule::frac => true,
+            Rule::exp => pair.as_str().contains('-'),
+            _ => false,
+        });
+
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // Integers that don't fit in an `i64` are floats too.
+        if is_float || value.abs() >= 2_f64.powi(63) {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index b12afa0..8225c03 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -305,48 +305,29 @@ impl JSONPathParser {
             return Ok(FilterExpression::Int { value: 0 });
         }
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let n = expr.as_str();
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
+        if let Ok(value) = n.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        // TODO: change pest grammar to indicate positive or negative exponent?
+        let is_float = expr.into_inner().any(|pair| match pair.as_rule() {
+            Rule::frac => true,
+            Rule::exp => pair.as_str().contains('-'),
+            _ => false,
+        });
+
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // Integers that don't fit in an `i64` are floats too.
+        if is_float || value.abs() >= 2_f64.powi(63) {
+            Ok(FilterExpression::Float { value })
         } else {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
         }
     }
-- 
2.43.0


From 2d5b9fd16a6e67d96394102d3f5d1c62ebe057bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 10/27] fix: decode escaped control characters and adjacent
 unicode escapes

---
 crates/jsonpath_rfc9535_iter/src/unescape.rs     | 16 ++++++----------
 .../jsonpath_rfc9535_locations/src/unescape.rs   | 16 ++++++----------
 crates/jsonpath_rfc9535_pest/src/parser.rs       |  3 +--
 .../src/parser.rs                                |  3 +--
 crates/jsonpath_rfc9535_serde/src/unescape.rs    | 16 ++++++----------
 .../src/unescape.rs                              | 16 ++++++----------
 6 files changed, 26 insertions(+), 44 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index bae1421..dbaf237 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index bae1421..dbaf237 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 9b27be3..d14bd53 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -674,8 +674,7 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 88b582e..6e00baf 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -690,8 +690,7 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index bae1421..dbaf237 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index bae1421..dbaf237 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
-- 
2.43.0


From 7d3d37538fb42ed73ef552b37615433e0fce516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 11/27] fix: parse nested function calls once, and comparisons
 as function arguments

---
 crates/jsonpath_rfc9535_iter/src/jsonpath.pest   | 16 +++++++++-------
 crates/jsonpath_rfc9535_iter/src/parser.rs       |  8 ++++++++
 .../jsonpath_rfc9535_locations/src/jsonpath.pest | 16 +++++++++-------
 crates/jsonpath_rfc9535_locations/src/parser.rs  |  8 ++++++++
 crates/jsonpath_rfc9535_pest/src/jsonpath.pest   | 16 +++++++++-------
 crates/jsonpath_rfc9535_pest/src/parser.rs       |  8 ++++++++
 .../src/jsonpath.pest                            | 16 +++++++++-------
 .../src/parser.rs                                |  8 ++++++++
 crates/jsonpath_rfc9535_serde/src/jsonpath.pest  | 16 +++++++++-------
 crates/jsonpath_rfc9535_serde/src/parser.rs      |  8 ++++++++
 .../src/jsonpath.pest                            | 16 +++++++++-------
 .../src/parser.rs                                |  8 ++++++++
 12 files changed, 102 insertions(+), 42 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index e1f7edb..3726ec7 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -85,20 +85,24 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// An expression starting with a function call is either a comparison or a test
+// expression. It has a rule of its own so as to parse the function call just once.
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -109,9 +113,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +153,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 7ea0110..c66661d 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -195,6 +195,14 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic_expr => {
+                let mut it = expr.clone().into_inner();
+                let function_expr = it.next().unwrap();
+                match it.next() {
+                    Some(_) => self.parse_comparison_expression(expr),
+                    None => self.parse_function_expression(function_expr),
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index e1f7edb..3726ec7 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -85,20 +85,24 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// An expression starting with a function call is either a comparison or a test
+// expression. It has a rule of its own so as to parse the function call just once.
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -109,9 +113,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +153,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 7ea0110..c66661d 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -195,6 +195,14 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic_expr => {
+                let mut it = expr.clone().into_inner();
+                let function_expr = it.next().unwrap();
+                match it.next() {
+                    Some(_) => self.parse_comparison_expression(expr),
+                    None => self.parse_function_expression(function_expr),
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index e1f7edb..3726ec7 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -85,20 +85,24 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// An expression starting with a function call is either a comparison or a test
+// expression. It has a rule of its own so as to parse the function call just once.
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -109,9 +113,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +153,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index d14bd53..7e9f61e 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -247,6 +247,14 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic_expr => {
+                let mut it = expr.clone().into_inner();
+                let function_expr = it.next().unwrap();
+                match it.next() {
+                    Some(_) => self.parse_comparison_expression(expr),
+                    None => self.parse_function_expression(function_expr),
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index e1f7edb..3726ec7 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -85,20 +85,24 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// An expression starting with a function call is either a comparison or a test
+// expression. It has a rule of its own so as to parse the function call just once.
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -109,9 +113,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +153,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 6e00baf..d8c4c4b 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -268,6 +268,14 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic_expr => {
+                let mut it = expr.clone().into_inner();
+                let function_expr = it.next().unwrap();
+                match it.next() {
+                    Some(_) => self.parse_comparison_expression(expr),
+                    None => self.parse_function_expression(function_expr),
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index e1f7edb..3726ec7 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -85,20 +85,24 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// An expression starting with a function call is either a comparison or a test
+// expression. It has a rule of its own so as to parse the function call just once.
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -109,9 +113,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +153,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 7896eed..06ee79a 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -192,6 +192,14 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic_expr => {
+                let mut it = expr.clone().into_inner();
+                let function_expr = it.next().unwrap();
+                match it.next() {
+                    Some(_) => self.parse_comparison_expression(expr),
+                    None => self.parse_function_expression(function_expr),
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 26df850..8a6aac2 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -88,20 +88,24 @@ logical_or_expr         =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr
 logical_and_expr        =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 singular_query_selector =  { (root_identifier ~ singular_query_segments) | implicit_root_singular_query_segments }
 
+// An expression starting with a function call is either a comparison or a test
+// expression. It has a rule of its own so as to parse the function call just once.
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -112,9 +116,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -161,9 +165,7 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
-  | logical_expr
-  | function_expr
+    logical_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 8225c03..17644f7 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -214,6 +214,14 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic_expr => {
+                let mut it = expr.clone().into_inner();
+                let function_expr = it.next().unwrap();
+                match it.next() {
+                    Some(_) => self.parse_comparison_expression(expr),
+                    None => self.parse_function_expression(function_expr),
+                }
+            }
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
-- 
2.43.0


From ea1abd7f08af5870562143d8673ae9409f4a169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 12/27] fix: reject negated and combined function results that
 are not compared

---
 crates/jsonpath_rfc9535_iter/src/parser.rs          | 13 ++++++++++---
 crates/jsonpath_rfc9535_locations/src/parser.rs     | 13 ++++++++++---
 crates/jsonpath_rfc9535_pest/src/parser.rs          | 13 ++++++++++---
 .../jsonpath_rfc9535_pest_recursive/src/parser.rs   | 13 ++++++++++---
 crates/jsonpath_rfc9535_serde/src/parser.rs         | 13 ++++++++++---
 .../src/parser.rs                                   | 13 ++++++++++---
 6 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index c66661d..209dd47 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -141,6 +141,8 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        // Only a function argument on its own can be of a 'Value' type.
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -168,6 +170,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -325,9 +328,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index c66661d..209dd47 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -141,6 +141,8 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        // Only a function argument on its own can be of a 'Value' type.
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -168,6 +170,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -325,9 +328,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 7e9f61e..cf6ca47 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -193,6 +193,8 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        // Only a function argument on its own can be of a 'Value' type.
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -220,6 +222,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -377,9 +380,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index d8c4c4b..befe621 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -214,6 +214,8 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        // Only a function argument on its own can be of a 'Value' type.
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -241,6 +243,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -396,9 +399,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 06ee79a..713ca82 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -138,6 +138,8 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        // Only a function argument on its own can be of a 'Value' type.
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -165,6 +167,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -322,9 +325,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 17644f7..f4a7183 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -160,6 +160,8 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        // Only a function argument on its own can be of a 'Value' type.
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -187,6 +189,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.clone().count() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -344,9 +347,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
-- 
2.43.0


From c43a4110a4347b1503a30bac2067dc46540b283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 13/27] fix: accept any logical expression for logical
 parameters and nothing else in parentheses

---
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 30 +++++++++++++------
 .../jsonpath_rfc9535_locations/src/parser.rs  | 30 +++++++++++++------
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 30 +++++++++++++------
 .../src/parser.rs                             | 30 +++++++++++++------
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 30 +++++++++++++------
 .../src/parser.rs                             | 30 +++++++++++++------
 6 files changed, 126 insertions(+), 54 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 209dd47..97c3c48 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -379,11 +379,28 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
-        let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
+        let args: Result<Vec<_>, _> = it
+            .clone()
+            .map(|ex| self.parse_function_argument(ex))
+            .collect();
+        let args = self.assert_well_typed(name, args?)?;
+
+        // A parenthesized expression is always of a 'Logical' type.
+        for (idx, typ) in self.functions[name].param_types.iter().enumerate() {
+            let arg = it.next().unwrap();
+            let grouped = arg.as_rule() == Rule::logical_or_expr && arg.as_str().starts_with('(');
+            if grouped && !matches!(typ, ExpressionType::Logical) {
+                return Err(JSONPathError::typ(format!(
+                    "argument {} of {}() must not be a 'Logical' type",
+                    idx + 1,
+                    name
+                )));
+            }
+        }
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args,
         })
     }
 
@@ -534,13 +551,8 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    // Anything but a literal or a function that returns a value.
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 209dd47..97c3c48 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -379,11 +379,28 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
-        let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
+        let args: Result<Vec<_>, _> = it
+            .clone()
+            .map(|ex| self.parse_function_argument(ex))
+            .collect();
+        let args = self.assert_well_typed(name, args?)?;
+
+        // A parenthesized expression is always of a 'Logical' type.
+        for (idx, typ) in self.functions[name].param_types.iter().enumerate() {
+            let arg = it.next().unwrap();
+            let grouped = arg.as_rule() == Rule::logical_or_expr && arg.as_str().starts_with('(');
+            if grouped && !matches!(typ, ExpressionType::Logical) {
+                return Err(JSONPathError::typ(format!(
+                    "argument {} of {}() must not be a 'Logical' type",
+                    idx + 1,
+                    name
+                )));
+            }
+        }
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args,
         })
     }
 
@@ -534,13 +551,8 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    // Anything but a literal or a function that returns a value.
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index cf6ca47..849e1db 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -431,11 +431,28 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
-        let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
+        let args: Result<Vec<_>, _> = it
+            .clone()
+            .map(|ex| self.parse_function_argument(ex))
+            .collect();
+        let args = self.assert_well_typed(name, args?)?;
+
+        // A parenthesized expression is always of a 'Logical' type.
+        for (idx, typ) in self.functions[name].param_types.iter().enumerate() {
+            let arg = it.next().unwrap();
+            let grouped = arg.as_rule() == Rule::logical_or_expr && arg.as_str().starts_with('(');
+            if grouped && !matches!(typ, ExpressionType::Logical) {
+                return Err(JSONPathError::typ(format!(
+                    "argument {} of {}() must not be a 'Logical' type",
+                    idx + 1,
+                    name
+                )));
+            }
+        }
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args,
         })
     }
 
@@ -586,13 +603,8 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    // Anything but a literal or a function that returns a value.
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index befe621..3f25b90 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -448,11 +448,28 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
-        let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
+        let args: Result<Vec<_>, _> = it
+            .clone()
+            .map(|ex| self.parse_function_argument(ex))
+            .collect();
+        let args = self.assert_well_typed(name, args?)?;
+
+        // A parenthesized expression is always of a 'Logical' type.
+        for (idx, typ) in self.function_signatures[name].param_types.iter().enumerate() {
+            let arg = it.next().unwrap();
+            let grouped = arg.as_rule() == Rule::logical_or_expr && arg.as_str().starts_with('(');
+            if grouped && !matches!(typ, ExpressionType::Logical) {
+                return Err(JSONPathError::typ(format!(
+                    "argument {} of {}() must not be a 'Logical' type",
+                    idx + 1,
+                    name
+                )));
+            }
+        }
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args,
         })
     }
 
@@ -602,13 +619,8 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    // Anything but a literal or a function that returns a value.
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 713ca82..2fd9285 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -376,11 +376,28 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
-        let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
+        let args: Result<Vec<_>, _> = it
+            .clone()
+            .map(|ex| self.parse_function_argument(ex))
+            .collect();
+        let args = self.assert_well_typed(name, args?)?;
+
+        // A parenthesized expression is always of a 'Logical' type.
+        for (idx, typ) in self.functions[name].param_types.iter().enumerate() {
+            let arg = it.next().unwrap();
+            let grouped = arg.as_rule() == Rule::logical_or_expr && arg.as_str().starts_with('(');
+            if grouped && !matches!(typ, ExpressionType::Logical) {
+                return Err(JSONPathError::typ(format!(
+                    "argument {} of {}() must not be a 'Logical' type",
+                    idx + 1,
+                    name
+                )));
+            }
+        }
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args,
         })
     }
 
@@ -531,13 +548,8 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    // Anything but a literal or a function that returns a value.
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index f4a7183..c585efe 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -398,11 +398,28 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
-        let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
+        let args: Result<Vec<_>, _> = it
+            .clone()
+            .map(|ex| self.parse_function_argument(ex))
+            .collect();
+        let args = self.assert_well_typed(name, args?)?;
+
+        // A parenthesized expression is always of a 'Logical' type.
+        for (idx, typ) in self.functions[name].param_types.iter().enumerate() {
+            let arg = it.next().unwrap();
+            let grouped = arg.as_rule() == Rule::logical_or_expr && arg.as_str().starts_with('(');
+            if grouped && !matches!(typ, ExpressionType::Logical) {
+                return Err(JSONPathError::typ(format!(
+                    "argument {} of {}() must not be a 'Logical' type",
+                    idx + 1,
+                    name
+                )));
+            }
+        }
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args,
         })
     }
 
@@ -553,13 +570,8 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    // Anything but a literal or a function that returns a value.
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
-- 
2.43.0


From 76c2382a2c79dc37081f280868b068c5d7766f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 14/27] fix: escape names and parenthesize negated comparisons
 when printing a query

---
 crates/jsonpath_rfc9535/src/query.rs          | 32 +++++++++++++++++--
 crates/jsonpath_rfc9535_iter/src/filter.rs    |  7 +++-
 crates/jsonpath_rfc9535_iter/src/selector.rs  |  4 +--
 .../jsonpath_rfc9535_locations/src/filter.rs  |  7 +++-
 .../src/selector.rs                           |  3 +-
 crates/jsonpath_rfc9535_pest/src/ast.rs       | 32 +++++++++++++++++--
 .../src/ast.rs                                | 32 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      |  9 ++++--
 .../src/filter.rs                             |  7 +++-
 .../src/selector.rs                           |  3 +-
 10 files changed, 121 insertions(+), 15 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1d7dd05..6c27850 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -132,7 +132,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -289,7 +289,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
@@ -340,3 +345,26 @@ impl fmt::Display for FilterExpression {
         }
     }
 }
+
+/// The single quoted form of a member name, with special characters escaped.
+fn quote(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len() + 2);
+    rv.push('\'');
+    for c in value.chars() {
+        match c {
+            '\'' | '\\' => {
+                rv.push('\\');
+                rv.push(c);
+            }
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 42187b4..7dbf880 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -144,7 +144,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 57092fc..97d8788 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -5,7 +5,7 @@ use std::{
 
 use serde_json::Value;
 
-use crate::filter::FilterExpression;
+use crate::{filter::FilterExpression, unescape::quote};
 
 #[derive(Debug, Clone)]
 pub enum Selector {
@@ -29,7 +29,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 9c6c702..240676b 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -142,7 +142,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 645a118..0e348e2 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -9,6 +9,7 @@ use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
     node::{Location, Node, NodeList},
+    unescape::quote,
 };
 
 #[derive(Debug)]
@@ -91,7 +92,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index dc3779a..562c6da 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -119,7 +119,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -244,7 +244,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
@@ -295,3 +300,26 @@ impl fmt::Display for FilterExpression {
         }
     }
 }
+
+/// The single quoted form of a member name, with special characters escaped.
+fn quote(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len() + 2);
+    rv.push('\'');
+    for c in value.chars() {
+        match c {
+            '\'' | '\\' => {
+                rv.push('\\');
+                rv.push(c);
+            }
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 5242985..21f6e52 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -178,7 +178,7 @@ impl fmt::Display for Segment {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -212,7 +212,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
@@ -267,3 +272,26 @@ impl fmt::Display for ComparisonOperator {
         }
     }
 }
+
+/// The single quoted form of a member name, with special characters escaped.
+fn quote(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len() + 2);
+    rv.push('\'');
+    for c in value.chars() {
+        match c {
+            '\'' | '\\' => {
+                rv.push('\\');
+                rv.push(c);
+            }
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index cc91410..815bb06 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -421,7 +421,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -624,7 +624,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 9c6c702..240676b 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -142,7 +142,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 7455976..d854b1e 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -9,6 +9,7 @@ use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
     node::{Location, Node, NodeList},
+    unescape::quote,
     Query,
 };
 
@@ -127,7 +128,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
-- 
2.43.0


From 60008dd8d851bc4424c3d7ca79b2e82725b68e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 15/27] fix: keep track of brackets, filters and parentheses in
 one stack in the lexer

---
 crates/jsonpath_rfc9535/src/lexer.rs | 50 +++++++++++++---------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f0e7828..22c778c 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -108,6 +108,13 @@ enum State {
     LexInsideDoubleQuotedFilterString,
 }
 
+#[derive(Debug, PartialEq)]
+enum Context {
+    Bracket,
+    Filter,
+    Paren,
+}
+
 /// A lexer for JSONPath expressions.
 struct Lexer<'q> {
     query: &'q str,
@@ -117,8 +124,8 @@ struct Lexer<'q> {
     start: usize,
     pos: usize,
 
-    filter_depth: u32,
-    paren_stack: Vec<u32>,
+    // The brackets, filters and parentheses we're currently inside of, innermost last.
+    contexts: Vec<Context>,
 }
 
 impl<'q> Lexer<'q> {
@@ -129,8 +136,7 @@ impl<'q> Lexer<'q> {
             start: 0,
             pos: 0,
             chars: query.char_indices(),
-            filter_depth: 0,
-            paren_stack: Vec::new(),
+            contexts: Vec::new(),
         }
     }
 
@@ -301,8 +307,9 @@ fn lex_segment(l: &mut Lexer) -> State {
         }
     } else if l.accept('[') {
         l.emit(TokenType::LBracket);
+        l.contexts.push(Context::Bracket);
         State::LexInsideBracketedSegment
-    } else if l.filter_depth > 0 {
+    } else if !l.contexts.is_empty() {
         State::LexInsideFilter
     } else if l.peek() == EOQ {
         l.next();
@@ -323,6 +330,7 @@ fn lex_descendant_segment(l: &mut Lexer) -> State {
         State::LexSegment
     } else if l.accept('[') {
         l.emit(TokenType::LBracket);
+        l.contexts.push(Context::Bracket);
         State::LexInsideBracketedSegment
     } else if l.accept_if(is_name_first) {
         l.accept_run(is_name_char);
@@ -371,11 +379,8 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         ']' => {
             l.next();
             l.emit(TokenType::RBracket);
-            if l.filter_depth > 0 {
-                State::LexInsideFilter
-            } else {
-                State::LexSegment
-            }
+            l.contexts.pop();
+            State::LexSegment
         }
         '*' => {
             l.next();
@@ -385,7 +390,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         '?' => {
             l.next();
             l.emit(TokenType::Filter);
-            l.filter_depth += 1;
+            l.contexts.push(Context::Filter);
             State::LexInsideFilter
         }
         ',' => {
@@ -446,8 +451,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
     match l.peek() {
         EOQ => l.error(String::from("unclosed bracketed selection")),
         ']' => {
-            l.filter_depth -= 1;
-            if l.paren_stack.len() == 1 {
+            if l.contexts.pop() == Some(Context::Paren) {
                 l.error(String::from("unbalanced parentheses"))
             } else {
                 State::LexInsideBracketedSegment
@@ -458,10 +462,10 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.emit(TokenType::Comma);
             // If we have unbalanced parens, we are inside a function call and a
             // comma separates arguments. Otherwise a comma separates selectors.
-            if !l.paren_stack.is_empty() {
+            if l.contexts.last() == Some(&Context::Paren) {
                 State::LexInsideFilter
             } else {
-                l.filter_depth -= 1;
+                l.contexts.pop();
                 State::LexInsideBracketedSegment
             }
         }
@@ -476,22 +480,15 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
         '(' => {
             l.next();
             l.emit(TokenType::LParen);
-            // Are we in a function call? If so, a function argument contains parens.
-            if let Some(i) = l.paren_stack.last_mut() {
-                *i += 1;
-            }
+            l.contexts.push(Context::Paren);
             State::LexInsideFilter
         }
         ')' => {
             l.next();
             l.emit(TokenType::RParen);
             // Are we closing a function call or a parenthesized expression?
-            if !l.paren_stack.is_empty() {
-                if *l.paren_stack.last().unwrap() == 1 {
-                    l.paren_stack.pop();
-                } else {
-                    *l.paren_stack.last_mut().unwrap() -= 1;
-                }
+            if l.contexts.last() == Some(&Context::Paren) {
+                l.contexts.pop();
             }
             State::LexInsideFilter
         }
@@ -505,7 +502,6 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.emit(TokenType::Current);
             State::LexSegment
         }
-        '.' => State::LexSegment,
         '!' => {
             l.next();
             if l.accept('=') {
@@ -579,7 +575,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
                     _ => {
                         if l.peek() == '(' {
                             // a function call
-                            l.paren_stack.push(1);
+                            l.contexts.push(Context::Paren);
                             l.emit(TokenType::Function {
                                 name: l.boxed_value(),
                             });
-- 
2.43.0


From 4dd7f22f9aeba6df712e89fba6a79f6a3f538b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 16/27] fix: don't treat a null byte as the end of the query

---
 crates/jsonpath_rfc9535/src/lexer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 22c778c..e061983 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -202,6 +202,11 @@ impl<'q> Lexer<'q> {
         self.start = self.pos;
     }
 
+    /// Have we consumed the whole query? `peek` can't tell the end of the query from a null byte.
+    fn at_end(&self) -> bool {
+        self.pos == self.query.len()
+    }
+
     fn peek(&mut self) -> char {
         if let Some((_, ch)) = self.chars.clone().next() {
             ch
@@ -294,7 +299,7 @@ fn lex_root(l: &mut Lexer) -> State {
 }
 
 fn lex_segment(l: &mut Lexer) -> State {
-    if l.ignore_whitespace() && l.peek() == EOQ {
+    if l.ignore_whitespace() && l.at_end() {
         return l.error(String::from("unexpected trailing whitespace"));
     }
 
@@ -311,8 +316,7 @@ fn lex_segment(l: &mut Lexer) -> State {
         State::LexInsideBracketedSegment
     } else if !l.contexts.is_empty() {
         State::LexInsideFilter
-    } else if l.peek() == EOQ {
-        l.next();
+    } else if l.at_end() {
         l.emit(TokenType::Eoq);
         State::EndOfQuery
     } else {
-- 
2.43.0


From f4129c27d1912523cdadd2522b6d1f88acddf099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 17/27] fix: reject leading zeros, accept an upper case
 exponent and keep big integer literals exact

---
 crates/jsonpath_rfc9535/src/lexer.rs  |  9 +++++++--
 crates/jsonpath_rfc9535/src/parser.rs | 28 +++++++++++++++++++++------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index e061983..50afde1 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -649,6 +649,11 @@ fn lex_number(l: &mut Lexer) -> State {
         return l.error(msg);
     }
 
+    let digits = l.value().trim_start_matches('-');
+    if digits.len() > 1 && digits.starts_with('0') {
+        return l.error(format!("unexpected leading zero in `{}`", l.value()));
+    }
+
     if l.accept('.') {
         // a float
         if !l.accept_run(is_digit) {
@@ -658,7 +663,7 @@ fn lex_number(l: &mut Lexer) -> State {
         }
 
         // exponent
-        if l.accept('e') {
+        if l.accept('e') || l.accept('E') {
             l.accept_if(|ch| ch == '+' || ch == '-');
             if !l.accept_run(is_digit) {
                 return l.error(String::from("at least one exponent digit is required"));
@@ -670,7 +675,7 @@ fn lex_number(l: &mut Lexer) -> State {
         });
     } else {
         // exponent
-        if l.accept('e') {
+        if l.accept('e') || l.accept('E') {
             if l.accept('-') {
                 // emit a float if exponent is negative
                 if !l.accept_run(is_digit) {
diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5df9a7d..8836d04 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -683,15 +683,31 @@ impl Parser {
                 kind: Int { value },
                 span,
             } => {
-                let i = value.parse::<f64>().map_err(|_| {
+                if let Ok(i) = value.parse::<i64>() {
+                    let token = it.next();
+                    return Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: i,
+                    });
+                }
+
+                // An integer with an exponent, or one that might not fit in an i64.
+                let f = value.parse::<f64>().map_err(|_| {
                     JSONPathError::syntax(String::from("invalid integer literal"), *span)
-                })? as i64;
+                })?;
 
                 let token = it.next();
-                Ok(FilterExpression::Int {
-                    span: token.span,
-                    value: i,
-                })
+                if f.abs() < 2_f64.powi(63) {
+                    Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: f as i64,
+                    })
+                } else {
+                    Ok(FilterExpression::Float {
+                        span: token.span,
+                        value: f,
+                    })
+                }
             }
             Token { kind: Null, .. } => {
                 let token = it.next();
-- 
2.43.0


From 7ec65318be24f3c4fa94c3c9eb16f3dba5c50c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 18/27] fix: require commas and colons between selectors, slice
 parts and arguments, and nothing after them

---
 crates/jsonpath_rfc9535/src/parser.rs | 105 ++++++++++----------------
 1 file changed, 40 insertions(+), 65 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 8836d04..eef3fbe 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -37,7 +37,7 @@
 //!
 //! [standard functions]: https://datatracker.ietf.org/doc/html/rfc9535#name-function-extensions
 use crate::{
-    errors::{JSONPathError, JSONPathErrorType},
+    errors::JSONPathError,
     lexer::lex,
     query::{ComparisonOperator, FilterExpression, LogicalOperator, Query, Segment, Selector},
     token::{Token, TokenType},
@@ -260,9 +260,11 @@ impl Parser {
 
         loop {
             match it.peek() {
-                Token { kind: RBracket, .. } => {
-                    it.next();
-                    break;
+                Token { kind: RBracket, .. } if selectors.is_empty() => {
+                    return Err(JSONPathError::syntax(
+                        String::from("empty bracketed selection"),
+                        token.span,
+                    ));
                 }
                 Token {
                     kind: Index { .. } | Colon,
@@ -315,28 +317,12 @@ impl Parser {
                 }
             }
 
-            #[cfg(debug_assertions)]
-            debug_assert!(
-                matches!(
-                    it.peek(),
-                    Token {
-                        kind: Comma | TokenType::RBracket,
-                        ..
-                    }
-                ),
-                "expected a comma or the end of a bracketed selection"
-            );
-
             // expect a comma or closing bracket
-            match it.peek() {
-                Token { kind: RBracket, .. } => continue,
-                Token { kind: Comma, .. } => {
-                    // eat comma
-                    it.next();
-                }
+            match it.next() {
+                Token { kind: RBracket, .. } => break,
+                Token { kind: Comma, .. } => (),
                 token => {
-                    return Err(JSONPathError::new(
-                        JSONPathErrorType::SyntaxError,
+                    return Err(JSONPathError::syntax(
                         format!("expected a comma or closing bracket, found {}", token.kind),
                         token.span,
                     ));
@@ -344,14 +330,6 @@ impl Parser {
             }
         }
 
-        if selectors.is_empty() {
-            return Err(JSONPathError::new(
-                JSONPathErrorType::SyntaxError,
-                String::from("empty bracketed selection"),
-                token.span,
-            ));
-        }
-
         Ok(selectors)
     }
 
@@ -386,28 +364,26 @@ impl Parser {
                 it.next(); // eat colon
             }
 
-            // 1 or 1: or : or ?
-            if matches!(it.peek().kind, Index { .. } | Colon) {
-                if let Token {
-                    kind: Index { ref value },
-                    span,
-                } = it.next()
-                {
-                    stop = Some(self.parse_i_json_int(value, span)?);
-                    if it.peek().kind == Colon {
-                        it.next(); // eat colon
-                    }
-                }
+            // 1 or ?
+            if let Token {
+                kind: Index { value },
+                span,
+            } = it.peek()
+            {
+                stop = Some(self.parse_i_json_int(value, *span)?);
+                it.next();
             }
 
-            // 1 or ?
-            if matches!(it.peek().kind, Index { .. }) {
+            // : or :1 or ?
+            if it.peek().kind == Colon {
+                it.next(); // eat colon
                 if let Token {
-                    kind: Index { ref value },
+                    kind: Index { value },
                     span,
-                } = it.next()
+                } = it.peek()
                 {
-                    step = Some(self.parse_i_json_int(value, span)?);
+                    step = Some(self.parse_i_json_int(value, *span)?);
+                    it.next();
                 }
             }
 
@@ -757,7 +733,8 @@ impl Parser {
         let token = it.next();
         let mut arguments: Vec<FilterExpression> = Vec::new();
 
-        while it.peek().kind != RParen {
+        let mut more = it.peek().kind != RParen;
+        while more {
             let mut expr = self.parse_basic_expression(it)?;
 
             while matches!(it.peek().kind, Eq | Ge | Gt | Le | Lt | Ne | And | Or) {
@@ -766,24 +743,22 @@ impl Parser {
 
             arguments.push(expr);
 
-            match it.peek() {
-                Token { kind: RParen, .. } => {
-                    break;
-                }
-                Token { kind: Comma, .. } => {
-                    it.next(); // eat comma
-                }
-                _ => (),
+            more = it.peek().kind == Comma;
+            if more {
+                it.next(); // eat comma
             }
         }
 
-        #[cfg(debug_assertions)]
-        debug_assert!(
-            matches!(it.peek(), Token { kind: RParen, .. }),
-            "expected closing paren"
-        );
-
-        it.next(); // eat closing paren
+        // eat closing paren
+        match it.next() {
+            Token { kind: RParen, .. } => (),
+            token => {
+                return Err(JSONPathError::syntax(
+                    format!("expected a comma or closing paren, found {}", token.kind),
+                    token.span,
+                ));
+            }
+        }
 
         if let Function { ref name } = &token.kind {
             let function_name = name.to_string();
-- 
2.43.0


From e55e3825b3545dfab1400d306c2aef3b6928f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 19/27] fix: check the types of tests, negated and
 parenthesized expressions

---
 crates/jsonpath_rfc9535/src/parser.rs | 157 ++++++++++++++++----------
 1 file changed, 95 insertions(+), 62 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index eef3fbe..00cf231 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -424,32 +424,7 @@ impl Parser {
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOWEST)?;
 
-        match expr {
-            FilterExpression::Function { ref name, span, .. } => {
-                if let Some(FunctionSignature {
-                    return_type: ExpressionType::Value,
-                    ..
-                }) = self.functions.get(name)
-                {
-                    return Err(JSONPathError::typ(
-                        format!("result of {}() must be compared", name),
-                        span,
-                    ));
-                }
-            }
-            FilterExpression::True { span, .. }
-            | FilterExpression::False { span, .. }
-            | FilterExpression::Null { span, .. }
-            | FilterExpression::String { span, .. }
-            | FilterExpression::Int { span, .. }
-            | FilterExpression::Float { span, .. } => {
-                return Err(JSONPathError::typ(
-                    String::from("filter expression literals must be compared"),
-                    span,
-                ));
-            }
-            _ => (),
-        }
+        self.assert_test(&expr)?;
 
         Ok(Selector::Filter {
             span: token.span,
@@ -462,7 +437,16 @@ impl Parser {
         it: &mut TokenStream,
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
+
+        if it.peek().kind == Not {
+            return Err(JSONPathError::syntax(
+                String::from("expected a query, function call or parenthesized expression"),
+                it.peek().span,
+            ));
+        }
+
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
+        self.assert_test(&expr)?;
         Ok(FilterExpression::Not {
             span: token.span,
             expression: Box::new(expr),
@@ -476,38 +460,36 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
+
+        if precedence == PRECEDENCE_RELATIONAL && it.peek().kind == LParen {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                it.peek().span,
+            ));
+        }
+
         let right = self.parse_filter_expression(it, precedence)?;
 
         match op_token.kind {
             And => {
-                if left.is_literal() || right.is_literal() {
-                    Err(JSONPathError::syntax(
-                        String::from("filter expression literals must be compared"),
-                        left.span(),
-                    ))
-                } else {
-                    Ok(FilterExpression::Logical {
-                        span: left.span(),
-                        left: Box::new(left),
-                        operator: LogicalOperator::And,
-                        right: Box::new(right),
-                    })
-                }
+                self.assert_test(&left)?;
+                self.assert_test(&right)?;
+                Ok(FilterExpression::Logical {
+                    span: left.span(),
+                    left: Box::new(left),
+                    operator: LogicalOperator::And,
+                    right: Box::new(right),
+                })
             }
             Or => {
-                if left.is_literal() || right.is_literal() {
-                    Err(JSONPathError::syntax(
-                        String::from("filter expression literals must be compared"),
-                        left.span(),
-                    ))
-                } else {
-                    Ok(FilterExpression::Logical {
-                        span: left.span(),
-                        left: Box::new(left),
-                        operator: LogicalOperator::Or,
-                        right: Box::new(right),
-                    })
-                }
+                self.assert_test(&left)?;
+                self.assert_test(&right)?;
+                Ok(FilterExpression::Logical {
+                    span: left.span(),
+                    left: Box::new(left),
+                    operator: LogicalOperator::Or,
+                    right: Box::new(right),
+                })
             }
             Eq => {
                 self.assert_comparable(&left, left.span())?;
@@ -615,6 +597,15 @@ impl Parser {
         );
 
         it.next(); // eat closing paren
+        self.assert_test(&expr)?;
+
+        if self.precedence(&it.peek().kind) == PRECEDENCE_RELATIONAL {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                it.peek().span,
+            ));
+        }
+
         Ok(expr)
     }
 
@@ -732,9 +723,11 @@ impl Parser {
     fn parse_function_call(&self, it: &mut TokenStream) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
         let mut arguments: Vec<FilterExpression> = Vec::new();
+        let mut grouped: Vec<bool> = Vec::new();
 
         let mut more = it.peek().kind != RParen;
         while more {
+            grouped.push(it.peek().kind == LParen);
             let mut expr = self.parse_basic_expression(it)?;
 
             while matches!(it.peek().kind, Eq | Ge | Gt | Le | Lt | Ne | And | Or) {
@@ -762,7 +755,7 @@ impl Parser {
 
         if let Function { ref name } = &token.kind {
             let function_name = name.to_string();
-            self.assert_well_typed(&function_name, &arguments, &token)?;
+            self.assert_well_typed(&function_name, &arguments, &grouped, &token)?;
             Ok(FilterExpression::Function {
                 span: token.span,
                 name: function_name,
@@ -839,6 +832,34 @@ impl Parser {
                     ))
                 }
             }
+            FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => Err(JSONPathError::syntax(
+                String::from("logical expressions are not comparable"),
+                span,
+            )),
+            _ => Ok(()),
+        }
+    }
+
+    /// Literals and values are not tests, they must be compared.
+    fn assert_test(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
+        if expr.is_literal() {
+            return Err(JSONPathError::syntax(
+                String::from("filter expression literals must be compared"),
+                expr.span(),
+            ));
+        }
+
+        match expr {
+            FilterExpression::Function { name, span, .. }
+                if matches!(self.return_type(name), Some(ExpressionType::Value)) =>
+            {
+                Err(JSONPathError::typ(
+                    format!("result of {}() must be compared", name),
+                    *span,
+                ))
+            }
             _ => Ok(()),
         }
     }
@@ -847,6 +868,7 @@ impl Parser {
         &self,
         func_name: &str,
         args: &[FilterExpression],
+        grouped: &[bool],
         token: &Token,
     ) -> Result<(), JSONPathError> {
         let signature = self.functions.get(func_name).ok_or_else(|| {
@@ -876,7 +898,7 @@ impl Parser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Value' type",
@@ -888,13 +910,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Logical' type",
@@ -906,7 +922,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Nodes' type",
@@ -949,6 +965,23 @@ impl Parser {
         }
     }
 
+    fn return_type(&self, name: &str) -> Option<&ExpressionType> {
+        self.functions.get(name).map(|f| &f.return_type)
+    }
+
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.return_type(name),
+                    Some(ExpressionType::Logical | ExpressionType::Nodes)
+                )
+            }
+            _ => !expr.is_literal(),
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
-- 
2.43.0


From c58a79e6a3376b4b4caa4da457d9aeb23fbceed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 20/27] fix: only combine surrogate pairs and reject malformed
 unicode escapes

---
 crates/jsonpath_rfc9535/src/parser.rs | 155 ++++++++------------------
 1 file changed, 44 insertions(+), 111 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 00cf231..c84a559 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -1026,125 +1026,58 @@ impl Parser {
 }
 
 fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, JSONPathError> {
-    let chars = value.chars().collect::<Vec<char>>();
-    let length = chars.len();
-    let mut rv = String::new();
-    let mut index: usize = 0;
-
-    while index < length {
-        let start_index = token_span.0 + index; // for error reporting
-
-        match chars[index] {
-            '\\' => {
-                if index + 1 >= length {
-                    return Err(JSONPathError::syntax(
-                        String::from("invalid escape"),
-                        (start_index, index + 1),
-                    ));
-                }
-
-                index += 1;
-
-                match chars[index] {
-                    '"' => rv.push('"'),
-                    '\\' => rv.push('\\'),
-                    '/' => rv.push('/'),
-                    'b' => rv.push('\x08'),
-                    'f' => rv.push('\x0C'),
-                    'n' => rv.push('\n'),
-                    'r' => rv.push('\r'),
-                    't' => rv.push('\t'),
-                    'u' => {
-                        // expect four hex digits
-                        if index + 4 >= length {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, length),
-                            ));
-                        }
-
-                        index += 1;
-
-                        let digits = chars
-                            .get(index..index + 4)
-                            .unwrap()
-                            .iter()
-                            .collect::<String>();
-
-                        let mut codepoint = u32::from_str_radix(&digits, 16).map_err(|_| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 4),
-                            )
-                        })?;
-
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+    let error = |msg: &str| JSONPathError::syntax(msg.to_string(), *token_span);
+    let mut chars = value.chars();
+    let mut rv = String::with_capacity(value.len());
+
+    while let Some(ch) = chars.next() {
+        let unescaped = match ch {
+            '\\' => match chars.next() {
+                Some('"') => '"',
+                Some('\\') => '\\',
+                Some('/') => '/',
+                Some('b') => '\x08',
+                Some('f') => '\x0C',
+                Some('n') => '\n',
+                Some('r') => '\r',
+                Some('t') => '\t',
+                Some('u') => {
+                    let codepoint = match unescape_code_unit(&mut chars) {
+                        Some(high) if (0xD800..=0xDBFF).contains(&high) => {
                             // expect a surrogate pair
-                            if index + 9 >= length {
-                                return Err(JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, length),
-                                ));
-                            }
-
-                            let digits = &chars
-                                .get(index + 6..index + 10)
-                                .unwrap()
-                                .iter()
-                                .collect::<String>();
-
-                            let low_surrogate = u32::from_str_radix(digits, 16).map_err(|_| {
-                                JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, index + 10),
-                                )
-                            })?;
-
-                            codepoint =
-                                0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF));
-
-                            index += 6;
+                            let escaped = chars.next() == Some('\\') && chars.next() == Some('u');
+                            unescape_code_unit(&mut chars)
+                                .filter(|low| escaped && (0xDC00..=0xDFFF).contains(low))
+                                .map(|low| 0x10000 + (((high & 0x03FF) << 10) | (low & 0x03FF)))
                         }
+                        code_unit => code_unit,
+                    };
 
-                        let unescaped = char::from_u32(codepoint).ok_or_else(|| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 3),
-                            )
-                        })?;
-
-                        if unescaped as u32 <= 0x1F {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid character"),
-                                (start_index, start_index + 1),
-                            ));
-                        }
+                    let unescaped = codepoint
+                        .and_then(char::from_u32)
+                        .ok_or_else(|| error("invalid \\uXXXX escape"))?;
 
-                        rv.push(unescaped);
-                        index += 3;
+                    if unescaped as u32 <= 0x1F {
+                        return Err(error("invalid character"));
                     }
-                    _ => {
-                        return Err(JSONPathError::syntax(
-                            String::from("invalid escape"),
-                            (start_index, index + 1),
-                        ));
-                    }
-                }
-            }
-            c => {
-                if c as u32 <= 0x1F {
-                    return Err(JSONPathError::syntax(
-                        String::from("invalid character"),
-                        (start_index, index + 1),
-                    ));
+
+                    unescaped
                 }
-                rv.push(c);
-            }
-        }
+                _ => return Err(error("invalid escape")),
+            },
+            c if c as u32 <= 0x1F => return Err(error("invalid character")),
+            c => c,
+        };
 
-        index += 1;
+        rv.push(unescaped);
     }
 
     Ok(rv)
 }
+
+/// Decode the four hex digits following `\u`.
+fn unescape_code_unit(chars: &mut std::str::Chars) -> Option<u32> {
+    (0..4).try_fold(0, |code_unit, _| {
+        Some((code_unit << 4) | chars.next()?.to_digit(16)?)
+    })
+}
-- 
2.43.0


From cabedcdfb1fcc31a17d32418b81cf4a10a76bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 21/27] fix: don't recurse over the segments of a query when
 printing, checking or dropping it

---
 .../src/ast.rs                                | 75 +++++++++++++------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 21f6e52..9e79ea3 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -113,16 +113,40 @@ impl Query {
 impl Segment {
     // Returns `true` if this query can resolve to at most one node, or `false` otherwise.
     pub fn is_singular(&self) -> bool {
+        // Queries can have more segments than we have stack frames.
+        let mut segment = self;
+        loop {
+            match segment {
+                Segment::Child { left, selectors } => {
+                    if !matches!(
+                        selectors.as_slice(),
+                        [Selector::Name { .. } | Selector::Index { .. }]
+                    ) {
+                        return false;
+                    }
+                    segment = left;
+                }
+                Segment::Recursive { .. } => return false,
+                Segment::Root {} => return true,
+            }
+        }
+    }
+
+    fn take_left(&mut self) -> Option<Segment> {
         match self {
-            Segment::Child { left, selectors } => {
-                selectors.len() == 1
-                    && selectors.first().is_some_and(|selector| {
-                        matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    })
-                    && left.is_singular()
+            Segment::Child { left, .. } | Segment::Recursive { left, .. } => {
+                Some(std::mem::replace(&mut **left, Segment::Root {}))
             }
-            Segment::Recursive { .. } => false,
-            Segment::Root {} => true,
+            Segment::Root {} => None,
+        }
+    }
+}
+
+impl Drop for Segment {
+    fn drop(&mut self) {
+        let mut left = self.take_left();
+        while let Some(mut segment) = left {
+            left = segment.take_left();
         }
     }
 }
@@ -149,29 +173,32 @@ impl fmt::Display for Query {
 
 impl fmt::Display for Segment {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        match self {
-            Segment::Child { left, selectors } => write!(
-                f,
-                "{}[{}]",
-                left,
-                selectors
-                    .iter()
-                    .map(|s| s.to_string())
-                    .collect::<Vec<String>>()
-                    .join(", ")
-            ),
-            Segment::Recursive { left, selectors } => write!(
+        let mut segments = Vec::new();
+        let mut segment = self;
+        while let Segment::Child { left, selectors } | Segment::Recursive { left, selectors } =
+            segment
+        {
+            let dots = match segment {
+                Segment::Recursive { .. } => "..",
+                _ => "",
+            };
+            segments.push((dots, selectors));
+            segment = left;
+        }
+
+        for (dots, selectors) in segments.into_iter().rev() {
+            write!(
                 f,
-                "{}..[{}]",
-                left,
+                "{dots}[{}]",
                 selectors
                     .iter()
                     .map(|s| s.to_string())
                     .collect::<Vec<String>>()
                     .join(", ")
-            ),
-            Segment::Root {} => Ok(()),
+            )?;
         }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 0a435d86c1462e7a9ccf8d29ef5b68a23f4ab523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 22/27] fix: a keyword followed by a left parenthesis is a
 function call in the handcrafted lexer

---
 crates/jsonpath_rfc9535/src/lexer.rs | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 50afde1..6f40d04 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -572,22 +572,20 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             } else if l.accept_run(is_function_name_first) {
                 // function name or keyword
                 l.accept_run(is_function_name_char);
-                match l.value() {
-                    "true" => l.emit(TokenType::True),
-                    "false" => l.emit(TokenType::False),
-                    "null" => l.emit(TokenType::Null),
-                    _ => {
-                        if l.peek() == '(' {
-                            // a function call
-                            l.contexts.push(Context::Paren);
-                            l.emit(TokenType::Function {
-                                name: l.boxed_value(),
-                            });
-                            l.next();
-                            l.ignore(); // discard the left paren
-                        } else {
-                            return l.error(format!("unknown keyword `{}`", l.value()));
-                        }
+                if l.peek() == '(' {
+                    // a function call
+                    l.contexts.push(Context::Paren);
+                    l.emit(TokenType::Function {
+                        name: l.boxed_value(),
+                    });
+                    l.next();
+                    l.ignore(); // discard the left paren
+                } else {
+                    match l.value() {
+                        "true" => l.emit(TokenType::True),
+                        "false" => l.emit(TokenType::False),
+                        "null" => l.emit(TokenType::Null),
+                        _ => return l.error(format!("unknown keyword `{}`", l.value())),
                     }
                 }
             } else {
-- 
2.43.0


From 42499e998f7a19182fa1b73b55c6e02124fb6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 23/27] fix: comparisons do not recurse on chained comparison
 operators in the handcrafted parser

---
 crates/jsonpath_rfc9535/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index c84a559..26a5663 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -468,7 +468,12 @@ impl Parser {
             ));
         }
 
-        let right = self.parse_filter_expression(it, precedence)?;
+        // Comparisons don't associate, so a comparison's right-hand side stops at the next operator.
+        let right = if precedence == PRECEDENCE_RELATIONAL {
+            self.parse_filter_expression(it, precedence + 1)?
+        } else {
+            self.parse_filter_expression(it, precedence)?
+        };
 
         match op_token.kind {
             And => {
-- 
2.43.0


From 53546fbebe973e2c65ad4fecbd43eda068c37f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 24/27] fix: escape string literals when printing filter
 expressions

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 3 ++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 2 +-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 ++++--
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 7dbf880..2d07ef2 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -4,6 +4,7 @@ use serde_json::Value;
 
 use crate::{
     env::Environment, function::ExpressionType, iter::QueryIter, node::NodeList, query::Query,
+    unescape::quote,
 };
 
 #[derive(Debug, Clone)]
@@ -141,7 +142,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 240676b..22e1aee 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -2,7 +2,9 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment, function::ExpressionType, node::NodeList, unescape::quote, Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +141,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 815bb06..9fbb49c 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -621,7 +621,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 240676b..22e1aee 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -2,7 +2,9 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment, function::ExpressionType, node::NodeList, unescape::quote, Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +141,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
-- 
2.43.0


From 4f110b2c6e02c6d0ad8c7fbcc750b4e9bcb02317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 25/27] fix: print float literals out of range of f64 as valid
 number literals

---
 crates/jsonpath_rfc9535/src/query.rs                    | 4 ++++
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 4 ++++
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 4 ++++
 crates/jsonpath_rfc9535_pest/src/ast.rs                 | 4 ++++
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs       | 4 ++++
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 4 ++++
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 6c27850..9f92b18 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -288,6 +288,10 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
+            // A literal out of range for an `f64`. "inf" is not a valid number literal.
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                f.write_str(if *value > 0.0 { "1e999" } else { "-1e999" })
+            }
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 2d07ef2..da49e01 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -144,6 +144,10 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
+            // A literal out of range for an `f64`. "inf" is not a valid number literal.
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                f.write_str(if *value > 0.0 { "1e999" } else { "-1e999" })
+            }
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 22e1aee..d2fa147 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -143,6 +143,10 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
+            // A literal out of range for an `f64`. "inf" is not a valid number literal.
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                f.write_str(if *value > 0.0 { "1e999" } else { "-1e999" })
+            }
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 562c6da..73a22c9 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -243,6 +243,10 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
+            // A literal out of range for an `f64`. "inf" is not a valid number literal.
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                f.write_str(if *value > 0.0 { "1e999" } else { "-1e999" })
+            }
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 9e79ea3..4202219 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -238,6 +238,10 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
+            // A literal out of range for an `f64`. "inf" is not a valid number literal.
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                f.write_str(if *value > 0.0 { "1e999" } else { "-1e999" })
+            }
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 9fbb49c..c234042 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -623,6 +623,10 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
+            // A literal out of range for an `f64`. "inf" is not a valid number literal.
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                f.write_str(if *value > 0.0 { "1e999" } else { "-1e999" })
+            }
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 22e1aee..d2fa147 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -143,6 +143,10 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
+            // A literal out of range for an `f64`. "inf" is not a valid number literal.
+            FilterExpression::Float { value, .. } if value.is_infinite() => {
+                f.write_str(if *value > 0.0 { "1e999" } else { "-1e999" })
+            }
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
-- 
2.43.0


From c9cdcdbbc857c2bc44579ecc4be311169a9a2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 26/27] fix: the end of input is no segment for is_empty and
 is_singular

---
 crates/jsonpath_rfc9535_iter/src/query.rs              | 7 +++++--
 crates/jsonpath_rfc9535_locations/src/query.rs         | 7 +++++--
 crates/jsonpath_rfc9535_pest/src/ast.rs                | 7 +++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs               | 7 +++++--
 crates/jsonpath_rfc9535_singular_selector/src/query.rs | 7 +++++--
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/query.rs b/crates/jsonpath_rfc9535_iter/src/query.rs
index ef17568..e600df5 100644
--- a/crates/jsonpath_rfc9535_iter/src/query.rs
+++ b/crates/jsonpath_rfc9535_iter/src/query.rs
@@ -23,7 +23,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -34,7 +36,8 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            // The end of a query is not a segment.
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 19f7558..8501e33 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -55,7 +55,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -66,7 +68,8 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            // The end of a query is not a segment.
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 73a22c9..315bfc0 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -30,7 +30,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -41,7 +43,8 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            // The end of a query is not a segment.
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index c234042..343c17f 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -151,7 +151,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -162,7 +164,8 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            // The end of a query is not a segment.
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 19f7558..8501e33 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -55,7 +55,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -66,7 +68,8 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            // The end of a query is not a segment.
+            matches!(segment, Segment::Eoi)
         })
     }
 }
-- 
2.43.0


From 31240109a17fa89993a82b34fc448fcbed1c50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 27/27] fix: the smallest i64 is an index like any other

Negating it overflowed when the index range of the parser was widened to
include it.
---
 crates/jsonpath_rfc9535_iter/src/selector.rs | 2 +-
 crates/jsonpath_rfc9535_serde/src/ast.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 97d8788..7992de3 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -131,7 +131,7 @@ pub fn slice<'a>(
 }
 
 pub fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length >= index.unsigned_abs() as usize {
         (length as i64 + index) as usize
     } else {
         index as usize
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 343c17f..3cc3b9b 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -923,7 +923,7 @@ fn unpack_result<'a>(
 }
 
 fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length >= index.unsigned_abs() as usize {
         (length as i64 + index) as usize
     } else {
         index as usize
-- 
2.43.0

