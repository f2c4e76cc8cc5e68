From fb61adf29eed3cf3d579c87669e64860aabce944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 01/21] fix: check the padding is present before skipping it

read_bytes() only compared the unpadded length with the remaining bytes and
then advanced past the padding too, panicking on input truncated inside it.
---
 src/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index bd6e379..c770487 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -133,8 +133,8 @@ pub mod xdr {
 
         /// Try to read an opaque XDR array with a fixed length and padded modulo 4.
         fn read_bytes(&mut self, n: usize) -> Result<Self::Sliced, Error> {
-            // Validate the buffer contains enough data
-            if self.remaining() < n {
+            // Validate the buffer contains enough data, including any padding
+            if self.remaining() < n || self.remaining() - n < pad_length(n) {
                 return Err(Error::InvalidLength);
             }
 
-- 
2.43.0


From c25d1ec4c3951f08341e1f06d8a5862db6616772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 02/21] fix: do not allocate array capacity from the count on
 the wire

A 4 byte message could make read_variable_array() reserve memory for 2^32
elements. The Vec now grows with the elements actually decoded.
---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index c770487..df8c1b2 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -160,7 +160,7 @@ pub mod xdr {
 
             // Try and decode n instances of T.
             let mut sum = 0;
-            let mut out = Vec::with_capacity(n);
+            let mut out = Vec::new();
             for _ in 0..n {
                 let t = T::try_from(self.clone())?;
                 if self.remaining() < t.wire_size() {
-- 
2.43.0


From 8e10a34a43777379ae4409e1ba55e020bf1e078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 03/21] fix: check the array padding is present before skipping
 it

---
 src/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index df8c1b2..84e7d7f 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -171,6 +171,9 @@ pub mod xdr {
                 out.push(t);
             }
 
+            if self.remaining() < pad_length(sum) {
+                return Err(Error::InvalidLength);
+            }
             self.advance(pad_length(sum));
 
             Ok(out)
-- 
2.43.0


From b24f396457713ff3dce2a5cab9e09b95fea829fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 04/21] fix: count the length prefix of opaque<> fields in
 wire_size()

The 4 byte prefix was missing, so an array of structs containing opaque data
was stepped over by the wrong number of bytes.
---
 src/impls/wire_size.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3395dde..e4edb5d 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -22,6 +22,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                                 r#" pad_length(self.{}.wire_size()) +"#,
                                 SafeName(&f.field_name)
                             )?;
+
+                            // Counted opaques carry a length prefix
+                            if let ArrayType::VariableSize(..) = f.field_value {
+                                writeln!(w, " 4 +")?;
+                            }
                         }
                     }
 
-- 
2.43.0


From 79b9d651c83a7bb37a0c3c5a7d10ceb1314c1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 05/21] fix: do not count a length prefix for fixed opaque
 typedefs in wire_size()

---
 src/impls/wire_size.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index e4edb5d..651a40f 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -95,9 +95,13 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "self.0.wire_size()")?;
 
                         // If the target is opaque, it needs padding, and a
-                        // length prefix adding.
+                        // length prefix adding unless it has a fixed length.
                         if let BasicType::Opaque = v.target {
-                            writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                            write!(w, "+ pad_length(self.0.wire_size())")?;
+                            match v.alias {
+                                ArrayType::FixedSize(..) => writeln!(w)?,
+                                _ => writeln!(w, " + 4")?,
+                            }
                         }
 
                         Ok(())
-- 
2.43.0


From cc32dbfbb73a3398fb81de5fb9f05cd50543cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 06/21] fix: honour the declared maximum of opaque and string
 typedefs

---
 src/ast/typedef.rs |  5 -----
 src/impls/from.rs  | 14 +++++++-------
 src/impls/types.rs |  6 ++++++
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 1ca7ad8..e612394 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -25,11 +25,6 @@ impl Typedef {
             match vs.remove(0) {
                 Node::ArrayFixed(s) => ArrayType::FixedSize(alias, ArraySize::from(s)),
 
-                // Typedefs to opaque types include a variable array identifier so the
-                // caller knows to read the length prefix bytes. This is already handled
-                // by the opaque reader however, so map this to a "no array" wrapper.
-                Node::ArrayVariable(_) if target.is_opaque() => ArrayType::None(alias),
-
                 Node::ArrayVariable(s) => ArrayType::VariableSize(
                     alias,
                     match s.trim() {
diff --git a/src/impls/from.rs b/src/impls/from.rs
index d3194ef..83e9d77 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -307,17 +307,17 @@ where
 
     // Print a length-prefixed variable sized array, or a string with a maximum value.
     let print_variable = |w: &mut W, t: &BasicType, size: Option<u32>| -> Result<()> {
-        let mut type_str = t.to_string();
+        let mut field = t.clone();
 
         // If requested, resolve a typedef the type to the target type.
         if !resolve_typedefs.use_alias() {
-            type_str = ast
-                .types()
-                .get(&type_str)
-                .map(|t| t.to_string())
-                .unwrap_or(type_str)
+            if let Some(typedef) = ast.types().typedef_target(t.as_str()) {
+                field = typedef.target.clone();
+            }
         }
 
+        let mut type_str = field.to_string();
+
         if ast.generics().contains(type_str.as_str()) {
             type_str = format!("{}<{}>", type_str, template.type_name());
         };
@@ -326,7 +326,7 @@ where
             .map(|s| format!("Some({})", s))
             .unwrap_or_else(|| "None".to_string());
 
-        match t {
+        match field {
             BasicType::Opaque => write!(w, "v.read_variable_bytes({})?", size)?,
             BasicType::String => write!(w, "v.read_string({})?", size)?,
             _ => write!(w, "v.read_variable_array::<{}>({})?", type_str, size)?,
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 974c385..ef7038f 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -140,6 +140,12 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     continue;
                 }
 
+                // Likewise a string has a variable length already.
+                if let BasicType::String = v.target {
+                    writeln!(w, "(pub String);")?;
+                    continue;
+                }
+
                 if ast.generics().contains(v.target.as_str()) {
                     write!(w, " (pub ")?;
                     target.write_with_bounds(w, Some(&["T"]))?;
-- 
2.43.0


From 04193ca9708cea7834dc4b369f9ab8693ba95b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 07/21] fix: decode optional fields of primitive types

---
 src/impls/from.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 83e9d77..86750ae 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -46,12 +46,15 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             // 		}
                             writeln!(w, "{{ match v.read_u32()? {{")?;
                             writeln!(w, "0 => None,")?;
-                            writeln!(
+                            write!(w, "1 => Some(Box::new(")?;
+                            print_decode_basic_type(
                                 w,
-                                "1 => Some(Box::new({}::try_from({})?)),",
                                 f.field_value.unwrap_array(),
-                                try_from
+                                ast,
+                                TypeResolve::UseAlias,
+                                try_from,
                             )?;
+                            writeln!(w, "?)),")?;
                             writeln!(w, "d => return Err(Error::UnknownOptionVariant(d)),")?;
                             writeln!(w, "}}}},")?;
                         } else {
-- 
2.43.0


From 94e7b8723bb8cf532d9c2bfe16536461ac58143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 08/21] fix: give a union default with data its payload

---
 src/impls/from.rs      | 2 +-
 src/impls/types.rs     | 6 +-----
 src/impls/wire_size.rs | 4 ----
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 86750ae..6300340 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -179,7 +179,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             template,
                             &d.field_value,
                             ast,
-                            TypeResolve::UseTarget,
+                            TypeResolve::UseAlias,
                             try_from,
                         )?;
                         writeln!(w, "),")?;
diff --git a/src/impls/types.rs b/src/impls/types.rs
index ef7038f..977d51b 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -62,7 +62,7 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                 }
 
                 writeln!(w, " {{")?;
-                for case in v.cases.iter() {
+                for case in v.cases.iter().chain(v.default.iter()) {
                     // A single case statement may have many case values tied to it
                     // if fallthrough values are used:
                     //
@@ -91,10 +91,6 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     writeln!(w, "{},", NonDigitName(SafeName(c.as_str())))?;
                 }
 
-                if v.default.is_some() {
-                    writeln!(w, "default,")?;
-                }
-
                 writeln!(w, "}}")?;
             }
             AstType::Enum(v) => {
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 651a40f..b2521e8 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -69,10 +69,6 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "Self::{} => 0,", NonDigitName(SafeName(c.as_str())))?;
                     }
 
-                    if v.default.is_some() {
-                        writeln!(w, "Self::default => 0,")?;
-                    }
-
                     writeln!(w, "}}")?;
                     Ok(())
                 })?;
-- 
2.43.0


From ad88eee277b36f62717692a6e9dd122a494f5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:33 +0000
Subject: [PATCH 09/21] fix: match TRUE/FALSE void labels and emit the void
 default last

---
 src/impls/from.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 6300340..ce1d9ba 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -142,26 +142,25 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     let mut did_void_default = false;
                     for c in v.void_cases.iter() {
                         let variant = c.as_str();
-                        let matcher = match variant {
-                            "default" => {
-                                did_void_default = true;
-                                "_".to_string()
-                            }
-                            other => ast
-                                .constants()
-                                .get(other)
-                                .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
-                                    ConstantType::EnumValue {
-                                        ref enum_name,
-                                        ref variant,
-                                    } => format!(
-                                        "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
-                                    ),
-                                })
-                                .unwrap_or_else(|| other.to_string()),
-                        };
+                        if variant == "default" {
+                            // The catch-all arm has to follow all others.
+                            did_void_default = true;
+                            continue;
+                        }
+                        let matcher = ast
+                            .constants()
+                            .get(variant)
+                            .map(|c| match *c {
+                                ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
+                                ConstantType::EnumValue {
+                                    ref enum_name,
+                                    ref variant,
+                                } => format!(
+                                    "c if c == {}::{} as {}",
+                                    enum_name, variant, v.switch.var_type,
+                                ),
+                            })
+                            .unwrap_or_else(|| SafeName(variant).to_string());
                         writeln!(
                             w,
                             "{} => Self::{},",
@@ -183,7 +182,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             try_from,
                         )?;
                         writeln!(w, "),")?;
-                    } else if !did_void_default {
+                    } else if did_void_default {
+                        writeln!(w, "_ => Self::default,")?;
+                    } else {
                         writeln!(w, "d => return Err(Error::UnknownVariant(d as i32)),")?;
                     }
 
-- 
2.43.0


From 8202af6170753d225a08bda2c3f6c7e6cce2400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 10/21] fix: resolve the switch type of a union before matching
 on it

---
 src/impls/from.rs | 66 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index ce1d9ba..ac16406 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, VariantValue};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -78,10 +78,13 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
 
             AstType::Union(v) => {
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
+                    // The type being matched on, behind any typedefs.
+                    let switch_type = resolve_typedefs(&v.switch.var_type, ast);
+
                     write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
                     print_decode_basic_type(
                         w,
-                        &v.switch.var_type,
+                        &switch_type,
                         ast,
                         TypeResolve::UseTarget,
                         try_from,
@@ -109,16 +112,18 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                 .constants()
                                 .get(c_value.as_str())
                                 .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
+                                    ConstantType::ConstValue(ref v) => {
+                                        literal_matcher(v, &switch_type, ast)
+                                    }
                                     ConstantType::EnumValue {
                                         ref enum_name,
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, switch_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| SafeName(c_value).to_string());
+                                .unwrap_or_else(|| literal_matcher(c_value, &switch_type, ast));
 
                             write!(
                                 w,
@@ -151,16 +156,18 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             .constants()
                             .get(variant)
                             .map(|c| match *c {
-                                ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
+                                ConstantType::ConstValue(ref v) => {
+                                    literal_matcher(v, &switch_type, ast)
+                                }
                                 ConstantType::EnumValue {
                                     ref enum_name,
                                     ref variant,
                                 } => format!(
                                     "c if c == {}::{} as {}",
-                                    enum_name, variant, v.switch.var_type,
+                                    enum_name, variant, switch_type,
                                 ),
                             })
-                            .unwrap_or_else(|| SafeName(variant).to_string());
+                            .unwrap_or_else(|| literal_matcher(variant, &switch_type, ast));
                         writeln!(
                             w,
                             "{} => Self::{},",
@@ -230,6 +237,49 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
     Ok(())
 }
 
+/// Follows a chain of (non-array) typedefs from `t` to the type it stands for.
+fn resolve_typedefs(t: &BasicType, ast: &Ast) -> BasicType {
+    let mut t = t;
+    // A chain cannot be longer than the number of types, unless it is a cycle.
+    for _ in ast.types().iter() {
+        match ast.types().typedef_target(t.as_str()) {
+            Some(typedef) if matches!(typedef.alias, ArrayType::None(_)) => t = &typedef.target,
+            _ => break,
+        }
+    }
+    t.clone()
+}
+
+/// Returns the pattern matching the case label `value` in a union that
+/// switches on `switch_type`.
+///
+/// A decoded bool or enum cannot be matched against a number, so in these
+/// unions a numeric label is mapped to the boolean or enum member it refers to.
+fn literal_matcher(value: &str, switch_type: &BasicType, ast: &Ast) -> String {
+    let number = match value.strip_prefix("0x") {
+        Some(hex) => i64::from_str_radix(hex, 16).ok(),
+        None => value.parse::<i64>().ok(),
+    };
+
+    match (switch_type, number) {
+        (BasicType::Bool, Some(0)) => return "false".to_string(),
+        (BasicType::Bool, Some(1)) => return "true".to_string(),
+        (BasicType::Ident(name), Some(number)) => {
+            if let Some(AstType::Enum(e)) = ast.types().get(name) {
+                let member = e.variants.iter().find(
+                    |v| matches!(v.value, VariantValue::Numeric(n) if i64::from(n) == number),
+                );
+                if let Some(member) = member {
+                    return format!("c if c == {}::{} as {}", e.name, member.name, e.name);
+                }
+            }
+        }
+        _ => {}
+    }
+
+    SafeName(value).to_string()
+}
+
 /// Prints the `impl TryFrom` block around the output of func.
 ///
 /// `func` should write the body of the `try_from` implementation to `w`, using
-- 
2.43.0


From 2c16cd733ddcd0b8d8f0341937dac78c5ba95bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 11/21] fix: size 64-bit union discriminants correctly

---
 src/impls/from.rs      | 2 +-
 src/impls/wire_size.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index ac16406..aeaa914 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -238,7 +238,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
 }
 
 /// Follows a chain of (non-array) typedefs from `t` to the type it stands for.
-fn resolve_typedefs(t: &BasicType, ast: &Ast) -> BasicType {
+pub(crate) fn resolve_typedefs(t: &BasicType, ast: &Ast) -> BasicType {
     let mut t = t;
     // A chain cannot be longer than the number of types, unless it is a cycle.
     for _ in ast.types().iter() {
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index b2521e8..353740d 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,4 +1,4 @@
-use super::{NonDigitName, SafeName};
+use super::{resolve_typedefs, NonDigitName, SafeName};
 use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
@@ -37,7 +37,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
 
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
-                    writeln!(w, "4 + match self {{")?;
+                    let discriminant_size = match resolve_typedefs(&v.switch.var_type, ast) {
+                        BasicType::U64 | BasicType::I64 => 8,
+                        _ => 4,
+                    };
+                    writeln!(w, "{} + match self {{", discriminant_size)?;
                     // Iterate over all the variants of v, including the
                     // default.
                     for case in v.cases.iter().chain(v.default.iter()) {
-- 
2.43.0


From 38725c809a5a2a5eeecf896fe04fd4c8019eee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 12/21] fix: keep union discriminants from shadowing other
 names

---
 src/impls/from.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index aeaa914..8434a70 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -81,7 +81,17 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     // The type being matched on, behind any typedefs.
                     let switch_type = resolve_typedefs(&v.switch.var_type, ast);
 
-                    write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
+                    // The local holding the discriminant must not hide the
+                    // buffer being read from, nor a generated const or newtype.
+                    let mut var_name = SafeName(&v.switch.var_name).to_string();
+                    while var_name == "v"
+                        || ast.types().get(&var_name).is_some()
+                        || ast.constants().get(&var_name).is_some()
+                    {
+                        var_name.push_str("_v");
+                    }
+
+                    write!(w, "let {} = ", var_name)?;
                     print_decode_basic_type(
                         w,
                         &switch_type,
@@ -91,7 +101,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     )?;
                     writeln!(w, "?;")?;
 
-                    writeln!(w, "Ok(match {} {{", SafeName(&v.switch.var_name))?;
+                    writeln!(w, "Ok(match {} {{", var_name)?;
                     for c in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
-- 
2.43.0


From 213fbe6987e9ef3e3e3af62784500dca1173586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 13/21] fix: escape the identifiers reserved by Rust for future
 use

---
 src/ast/basic_type.rs | 4 +++-
 src/impls/mod.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 4adb135..72ff861 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -46,7 +46,9 @@ impl<'a> BasicType {
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => format!("{}_v", name),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => format!("{}_v", name),
             _ => name,
         }
     }
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6a3eedb..6fe5300 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -23,7 +23,9 @@ where
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => write!(f, "{}_v", self.0.as_ref()),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => write!(f, "{}_v", self.0.as_ref()),
             "TRUE" | "FALSE" => write!(f, "{}", self.0.as_ref().to_lowercase()),
             _ => write!(f, "{}", self.0.as_ref()),
         }
-- 
2.43.0


From 20e30f0e981824333f6c01ca63676cbca8cba4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 14/21] fix: accept hexadecimal constants as array sizes

---
 src/impls/from.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 8434a70..6e9502d 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -413,7 +413,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or(format!("unknown constant {}", size))?;
 
-            print_fixed(w, t, size.parse()?)?
+            print_fixed(w, t, parse_size(&size)?)?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Known(size))) => {
             print_variable(w, t, Some(*size))?
@@ -426,7 +426,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or("unknown constant")?;
 
-            print_variable(w, t, Some(size.parse()?))?;
+            print_variable(w, t, Some(parse_size(&size)?))?;
         }
         ArrayType::VariableSize(t, None) => {
             print_variable(w, t, None)?;
@@ -436,6 +436,14 @@ where
     Ok(())
 }
 
+/// Parses an array size given by a constant, in decimal or hexadecimal.
+fn parse_size(v: &str) -> Result<u32> {
+    Ok(match v.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16)?,
+        None => v.parse()?,
+    })
+}
+
 /// Generates the template required to decode `t` from a variable called `v`
 /// that implements the reader trait.
 ///
-- 
2.43.0


From a33c0c074c822568f58020ab424b484d40ed106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 15/21] fix: skip typedefs to self in the generated impls

---
 src/impls/from.rs      | 3 +++
 src/impls/wire_size.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 6e9502d..18d4526 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -222,6 +222,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 })?
             }
 
+            // No impls for typedefs to self, for which no type is generated.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => print_try_from(
                 &mut w,
                 template,
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 353740d..b308ba1 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -85,6 +85,9 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                 })?;
             }
 
+            // No impls for typedefs to self, for which no type is generated.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => {
                 print_impl(
                     &mut w,
-- 
2.43.0


From 4f8976a36e3a5fbfe76e800b247faaf6ba1ee7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 16/21] fix: return an error instead of panicking on
 unsupported specifications

---
 src/ast/enumeration.rs       | 31 +++++++++++++++---------
 src/ast/indexes/constants.rs |  9 ++++---
 src/ast/mod.rs               | 47 ++++++++++++++++++++----------------
 src/ast/structure.rs         | 18 +++++++-------
 src/ast/union.rs             | 32 ++++++++++++------------
 src/impls/from.rs            |  2 +-
 6 files changed, 77 insertions(+), 62 deletions(-)

diff --git a/src/ast/enumeration.rs b/src/ast/enumeration.rs
index a6d6b98..7f7b906 100644
--- a/src/ast/enumeration.rs
+++ b/src/ast/enumeration.rs
@@ -7,18 +7,18 @@ pub struct Enum {
 }
 
 impl<'a> Enum {
-    pub(crate) fn new(vs: Vec<Node<'a>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'a>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut vars = Vec::new();
         for v in vs.into_iter().skip(1) {
-            vars.push(Variant::new(v))
+            vars.push(Variant::new(v)?)
         }
 
-        Self {
+        Ok(Self {
             name,
             variants: vars,
-        }
+        })
     }
 }
 
@@ -51,7 +51,9 @@ where
         let v = v.as_ref();
         if v.starts_with("0x") {
             let clean = v.trim_start_matches("0x");
-            return Self::Numeric(i32::from_str_radix(clean, 16).unwrap());
+            return i32::from_str_radix(clean, 16)
+                .map(Self::Numeric)
+                .unwrap_or_else(|_| Self::String(v.to_string()));
         }
 
         v.parse::<i32>()
@@ -61,20 +63,27 @@ where
 }
 
 impl<'a> Variant {
-    fn new(v: Node<'a>) -> Self {
+    fn new(v: Node<'a>) -> Result<Self> {
         let f = match v {
             Node::EnumVariant(f) => f,
-            e => panic!("not a struct field: {:?}", e),
+            e => return Err(format!("not an enum variant: {:?}", e).into()),
         };
 
         if f.len() != 2 {
-            panic!("unexpected number of tokens in enum")
+            return Err("unexpected number of tokens in enum".into());
         }
 
-        Self {
-            name: f[0].ident_str().to_string(),
-            value: f[1].ident_str().into(),
+        let value = VariantValue::from(f[1].ident_str());
+        if let VariantValue::String(ref s) = value {
+            if s.starts_with(|c: char| c.is_ascii_digit()) {
+                return Err(format!("invalid enum value {}", s).into());
+            }
         }
+
+        Ok(Self {
+            name: f[0].ident_str().to_string(),
+            value,
+        })
     }
 }
 
diff --git a/src/ast/indexes/constants.rs b/src/ast/indexes/constants.rs
index 647953d..70d4c64 100644
--- a/src/ast/indexes/constants.rs
+++ b/src/ast/indexes/constants.rs
@@ -1,4 +1,5 @@
 use crate::ast::Node;
+use crate::Result;
 use std::collections::BTreeMap;
 
 #[derive(Debug)]
@@ -21,7 +22,7 @@ pub struct ConstantIndex(pub BTreeMap<String, ConstantType>);
 
 impl ConstantIndex {
     /// Build an index of all consts / enums for use in the union switches.
-    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> ConstantIndex {
+    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> Result<ConstantIndex> {
         let mut case_values = BTreeMap::new();
         if let Node::Root(r) = ast {
             for item in r.iter() {
@@ -35,7 +36,7 @@ impl ConstantIndex {
                             )
                             .is_some()
                         {
-                            panic!("duplicate case keys {}", vs[0].ident_str());
+                            return Err(format!("duplicate case keys {}", vs[0].ident_str()).into());
                         }
                     }
                     Node::Enum(e) => {
@@ -54,7 +55,7 @@ impl ConstantIndex {
                                 )
                                 .is_some()
                             {
-                                panic!("duplicate case keys {}", v.name.as_str());
+                                return Err(format!("duplicate case keys {}", v.name).into());
                             }
                         }
                     }
@@ -63,7 +64,7 @@ impl ConstantIndex {
             }
         }
 
-        ConstantIndex(case_values)
+        Ok(ConstantIndex(case_values))
     }
 
     /// Returns the constant value as a string for `name`.
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 9cd4c38..d212cca 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -51,11 +51,11 @@ impl Ast {
         // Tokenise the input
         let mut root = XDRParser::parse(Rule::item, xdr)?;
         // Parse into an AST
-        let ast = walk(root.next().ok_or("unable to tokenise input")?);
+        let ast = try_walk(root.next().ok_or("unable to tokenise input")?)?;
 
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
-        let constant_index = ConstantIndex::new(&ast);
+        let constant_index = ConstantIndex::new(&ast)?;
         let generic_index = GenericIndex::new(&ast);
         let type_index = TypeIndex::new(&ast);
 
@@ -84,15 +84,15 @@ impl Ast {
 //
 // These higher-level types will then be extracted and added to the type index
 // later.
-fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
-    fn collect_values(ast: Pair<'_, Rule>) -> Vec<Node<'_>> {
-        ast.into_inner().map(walk).collect()
+fn try_walk(ast: Pair<'_, Rule>) -> Result<Node<'_>> {
+    fn collect_values(ast: Pair<'_, Rule>) -> Result<Vec<Node<'_>>> {
+        ast.into_inner().map(try_walk).collect()
     }
 
-    match ast.as_rule() {
-        Rule::item => Node::Root(collect_values(ast)),
-        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast))),
-        Rule::constant => Node::Constant(collect_values(ast)),
+    Ok(match ast.as_rule() {
+        Rule::item => Node::Root(collect_values(ast)?),
+        Rule::typedef => Node::Typedef(Typedef::new(collect_values(ast)?)),
+        Rule::constant => Node::Constant(collect_values(ast)?),
         Rule::ident | Rule::ident_const | Rule::ident_value => {
             if let Ok(t) = BasicType::try_from(ast.as_str()) {
                 Node::Type(t)
@@ -100,23 +100,28 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
                 Node::Ident(ast.as_str())
             }
         }
-        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast))),
-        Rule::enum_variant => Node::EnumVariant(collect_values(ast)),
-        Rule::array => Node::Array(collect_values(ast)),
+        Rule::enum_type => Node::Enum(Enum::new(collect_values(ast)?)?),
+        Rule::enum_variant => Node::EnumVariant(collect_values(ast)?),
+        Rule::array => Node::Array(collect_values(ast)?),
         Rule::array_variable => Node::ArrayVariable(ast.into_inner().as_str()),
         Rule::array_fixed => Node::ArrayFixed(ast.into_inner().as_str()),
-        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast))),
-        Rule::struct_data_field => Node::StructDataField(collect_values(ast)),
-        Rule::union_data_field => Node::UnionDataField(collect_values(ast)),
-        Rule::union => Node::Union(Union::new(collect_values(ast))),
-        Rule::union_case => Node::UnionCase(collect_values(ast)),
-        Rule::union_default => Node::UnionDefault(collect_values(ast)),
+        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast)?)?),
+        Rule::struct_data_field => Node::StructDataField(collect_values(ast)?),
+        Rule::union_data_field => Node::UnionDataField(collect_values(ast)?),
+        Rule::union => Node::Union(Union::new(collect_values(ast)?)?),
+        Rule::union_case => Node::UnionCase(collect_values(ast)?),
+        Rule::union_default => Node::UnionDefault(collect_values(ast)?),
         Rule::union_void => Node::UnionVoid,
-        Rule::option => Node::Option(collect_values(ast)),
+        Rule::option => Node::Option(collect_values(ast)?),
         Rule::basic_type => {
             Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
         }
         Rule::EOI => Node::EOF,
-        e => panic!("unknown token type {:?}", e),
-    }
+        e => return Err(format!("unknown token type {:?}", e).into()),
+    })
+}
+
+#[cfg(test)]
+fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
+    try_walk(ast).unwrap()
 }
diff --git a/src/ast/structure.rs b/src/ast/structure.rs
index b4b94a0..43f7589 100644
--- a/src/ast/structure.rs
+++ b/src/ast/structure.rs
@@ -7,15 +7,15 @@ pub struct Struct {
 }
 
 impl Struct {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut fields = Vec::new();
         for v in vs.into_iter().skip(1) {
-            fields.push(StructField::new(v));
+            fields.push(StructField::new(v)?);
         }
 
-        Struct { name, fields }
+        Ok(Struct { name, fields })
     }
 
     pub fn name(&self) -> &str {
@@ -41,13 +41,13 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub(crate) fn new(v: Node<'_>) -> Self {
+    pub(crate) fn new(v: Node<'_>) -> Result<Self> {
         let f = match v {
             Node::StructDataField(f) => f,
-            e => panic!("not a struct field: {:?}", e),
+            e => return Err(format!("not a struct field: {:?}", e).into()),
         };
 
-        match f.as_slice() {
+        Ok(match f.as_slice() {
             [Node::Type(rhs), Node::Type(BasicType::Ident(lhs))] => Self {
                 field_name: lhs.to_string(),
                 field_value: ArrayType::None(rhs.to_owned()),
@@ -72,7 +72,7 @@ impl StructField {
             [Node::Type(rhs), Node::Option(opt)] => {
                 let lhs = match &opt[0] {
                     Node::Type(BasicType::Ident(lhs)) => lhs,
-                    _ => panic!("unexpected struct field option layout"),
+                    _ => return Err("unexpected struct field option layout".into()),
                 };
 
                 Self {
@@ -81,8 +81,8 @@ impl StructField {
                     is_optional: true,
                 }
             }
-            _ => panic!("invalid number of struct field tokens"),
-        }
+            _ => return Err("invalid number of struct field tokens".into()),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
diff --git a/src/ast/union.rs b/src/ast/union.rs
index 7948022..200b5d3 100644
--- a/src/ast/union.rs
+++ b/src/ast/union.rs
@@ -16,7 +16,7 @@ pub struct Union {
 }
 
 impl Union {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut cases = Vec::new();
@@ -35,13 +35,13 @@ impl Union {
         for v in vs.into_iter().skip(3) {
             let mut is_default_case = false;
             let stmt = match v {
-                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes),
+                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes)?,
                 Node::UnionDefault(nodes) => {
                     is_default_case = true;
                     case_values.push("default".to_string());
-                    CaseStmt::parse(case_values, nodes)
+                    CaseStmt::parse(case_values, nodes)?
                 }
-                v => panic!("unexpected token type for union {:?}", v),
+                v => return Err(format!("unexpected token type for union {:?}", v).into()),
             };
 
             match stmt {
@@ -59,13 +59,13 @@ impl Union {
             case_values = Vec::new()
         }
 
-        Union {
+        Ok(Union {
             name,
             cases,
             default,
             void_cases,
             switch,
-        }
+        })
     }
 
     pub fn name(&self) -> &str {
@@ -102,14 +102,14 @@ pub struct UnionCase {
 }
 
 impl UnionCase {
-    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Result<Self> {
         match field.as_slice() {
-            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Self {
+            [Node::Type(t), Node::Type(BasicType::Ident(l))] => Ok(Self {
                 case_values,
                 field_name: l.to_string(),
                 field_value: ArrayType::None(t.to_owned()),
-            },
-            _ => panic!("invalid number of union field tokens"),
+            }),
+            _ => Err("invalid number of union field tokens".into()),
         }
     }
 
@@ -130,27 +130,27 @@ enum CaseStmt {
 }
 
 impl CaseStmt {
-    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Self {
+    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Result<Self> {
         match nodes.remove(0) {
             Node::Type(t) => case_values.push(t.as_str().to_string()),
             Node::UnionVoid => {
                 // No ident, this is a default case
-                return Self::Void(case_values);
+                return Ok(Self::Void(case_values));
             }
             Node::UnionDataField(nodes) => {
                 // No ident, this is a default case
-                return Self::Defined(UnionCase::new(case_values, nodes));
+                return Ok(Self::Defined(UnionCase::new(case_values, nodes)?));
             }
             _ => unreachable!(),
         };
 
         if nodes.is_empty() {
-            return Self::Fallthrough(case_values);
+            return Ok(Self::Fallthrough(case_values));
         }
 
         match nodes.remove(0) {
-            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)),
-            Node::UnionVoid => Self::Void(case_values),
+            Node::UnionDataField(nodes) => Ok(Self::Defined(UnionCase::new(case_values, nodes)?)),
+            Node::UnionVoid => Ok(Self::Void(case_values)),
             _ => unreachable!(),
         }
     }
diff --git a/src/impls/from.rs b/src/impls/from.rs
index 18d4526..d30bf7a 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -359,7 +359,7 @@ where
 
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
-            BasicType::String => unreachable!("unexpected fixed length string"),
+            BasicType::String => return Err("unexpected fixed length string".into()),
             _ => {
                 writeln!(w, "[")?;
                 for _i in 0..size {
-- 
2.43.0


From 764571d8d6284059261ac8c5bc8d2ed5633447e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 17/21] fix: allow any whitespace between the words of an
 unsigned type

---
 src/ast/mod.rs | 7 +++++++
 src/xdr.pest   | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index d212cca..13d0753 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -113,6 +113,13 @@ fn try_walk(ast: Pair<'_, Rule>) -> Result<Node<'_>> {
         Rule::union_default => Node::UnionDefault(collect_values(ast)?),
         Rule::union_void => Node::UnionVoid,
         Rule::option => Node::Option(collect_values(ast)?),
+        // The words of an unsigned type may be separated by any whitespace.
+        Rule::basic_type if ast.as_str().starts_with("unsigned") => {
+            match ast.as_str().ends_with("int") {
+                true => Node::Type(BasicType::U32),
+                false => Node::Type(BasicType::U64),
+            }
+        }
         Rule::basic_type => {
             Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
         }
diff --git a/src/xdr.pest b/src/xdr.pest
index a7690a6..43d8473 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -2,7 +2,7 @@ ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = { ASCII_DIGIT+ }
 basic_type = @{ 
-	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
+	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ &(WHITESPACE | COMMENT) |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
 }
 
-- 
2.43.0


From bb782d13915f254bbcaa99ad1308686678b7b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 18/21] fix: print exactly the generated code

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index db6a188..b182a2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ fn main() -> Result<()> {
     for e in env::args().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
-        println!("{}", code);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 09ee208d274c9d90f41d8b66fe826c1f8074a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 19/21] fix: accept any file name on the command line

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b182a2b..5266a57 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -8,7 +8,7 @@ fn main() -> Result<()> {
         std::process::exit(1);
     }
 
-    for e in env::args().skip(1) {
+    for e in env::args_os().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
         print!("{}", code);
-- 
2.43.0


From 51fb84809f445062d8c590bc740961f36aeb75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 20/21] fix: reject fixed arrays too large to generate code for

---
 src/impls/from.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index d30bf7a..807f85e 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -3,6 +3,10 @@ use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, VariantValue}
 use crate::impls::template::*;
 use crate::Result;
 
+/// The largest fixed size array (of anything but opaque bytes) code is
+/// generated for.
+const MAX_FIXED_ELEMENTS: u32 = 1 << 20;
+
 /// `TypeResolve` controls how callees should handle XDR type aliases.
 ///
 /// `None` instructs the callee to use the type alias directly, while
@@ -360,6 +364,10 @@ where
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
             BasicType::String => return Err("unexpected fixed length string".into()),
+            // Every element is written out, which has to end at some point.
+            _ if size > MAX_FIXED_ELEMENTS => {
+                return Err(format!("fixed array of {} elements is too large", size).into())
+            }
             _ => {
                 writeln!(w, "[")?;
                 for _i in 0..size {
-- 
2.43.0


From f604362abeec22bdc33ee9a671f351f2661c19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 21/21] fix: do not make whitespace part of a numeric bound or
 label

A number in an array bound or case label swallowed the whitespace and
comments after it, and `case 1 :` was an unknown constant.
---
 src/xdr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index 43d8473..b52e97e 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,6 +1,6 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
-ident_value = { ASCII_DIGIT+ }
+ident_value = @{ ASCII_DIGIT+ }
 basic_type = @{ 
 	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ &(WHITESPACE | COMMENT) |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
-- 
2.43.0

