From cd0c5a2f3ca935a9270eab7cd272bee17214f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 01/55] fix: do not panic when a map hint meets
 infer_map_threshold

---
 json_typegen_shared/src/inference/jsoninfer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 7ec2375..ec4e7f9 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -106,9 +106,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     val_type: Box::new(inner),
                 })
             }
-            _ => {
-                panic!("Got non-object from infer_object")
-            }
+            // The map threshold may already have turned the object into a map
+            map => Ok(map),
         }
     }
 
-- 
2.43.0


From 45000c38598dcca4a58c5873c604ff05ffb31392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 02/55] fix: report an error for SQL input without a table
 definition

---
 json_typegen_shared/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 87ee91b..ac6bfae 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -112,7 +112,9 @@ pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String,
     let shape = match options.input_mode {
         options::InputMode::Sql => {
             let shapes = sql::sql_to_shape(input).map_err(JTError::SqlParsingError)?;
-            let (_name, shap) = shapes.get(0).unwrap();
+            let (_name, shap) = shapes.get(0).ok_or_else(|| {
+                JTError::SqlParsingError("No CREATE TABLE statement found".into())
+            })?;
             shap.clone()
         }
         options::InputMode::Json => infer_from_sample(&source, &options, &hints)?,
-- 
2.43.0


From 01e9d5fecae949b7b4b70b405846b01f3dad0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 03/55] fix: report malformed JSON below an opaque type hint

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index ec4e7f9..0720775 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -68,7 +68,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
                 HintType::OpaqueType(ref t) => {
                     hint.used.set(true);
-                    let _ = self.infer_shape(options, &Hints::new()); // parse and discard the actual value
+                    self.infer_shape(options, &Hints::new())?; // parse and discard the actual value
                     return Ok(Shape::Opaque(t.clone()));
                 }
                 _ => {}
-- 
2.43.0


From bb9c25efd82f38abb97e2d81e625308c86f43964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 04/55] fix: do not apply hints to parts of the sample that
 unwrap discards

---
 json_typegen_shared/src/inference/jsoninfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 0720775..925dad0 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -242,7 +242,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ObjectEnd)) = self.tokens.peek() {
@@ -272,7 +272,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ArrayEnd)) = self.tokens.peek() {
-- 
2.43.0


From d6a1e81def07a0c5cf864b5f99ca0c74da395c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 05/55] fix: apply hints with an index to array elements after
 the twelfth by their index

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 925dad0..ede4349 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -174,7 +174,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 let shape = self.infer_shape(options, &hints.step_index(len))?;
                 shapes.push(shape);
             } else {
-                let shape = self.infer_shape(options, &hints.step_array())?;
+                let shape = self.infer_shape(options, &hints.step_index(len))?;
                 folded = common_shape(shape, folded);
             }
             len += 1;
-- 
2.43.0


From c2122299e723bab0a89c023d3b2e29bfc863845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 06/55] fix: keep nullability when an opaque type is joined
 with a nullable one

---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index e496c11..a411027 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -81,8 +81,8 @@ pub fn common_shape(a: Shape, b: Shape) -> Shape {
         (Struct { fields: f1 }, Struct { fields: f2 }) => Struct {
             fields: common_field_shapes(f1, f2),
         },
-        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         (a, Nullable(b)) | (Nullable(b), a) => common_shape(a, *b).into_nullable(),
+        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         _ => Any,
     }
 }
-- 
2.43.0


From 53e3aff12369178b3310ca6963dd3fa0b22e4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 07/55] fix: mark members that are only null or absent as
 optional

---
 json_typegen_shared/src/shape.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index a411027..112a79a 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -115,7 +115,6 @@ impl Shape {
     pub(crate) fn into_optional(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
             Any | Bottom | Optional(_) => self,
             non_nullable => Optional(Box::new(non_nullable)),
         }
@@ -123,9 +122,8 @@ impl Shape {
     pub(crate) fn into_nullable(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
-            Any | Bottom | Nullable(_) => self,
-            Optional(non_nullable) => Optional(Box::new(Nullable(non_nullable))),
+            Null | Any | Bottom | Nullable(_) => self,
+            Optional(inner) => Optional(Box::new(inner.into_nullable())),
             non_nullable => Nullable(Box::new(non_nullable)),
         }
     }
-- 
2.43.0


From cb1cf572a5068c223396ed3fe5d9fb1a04fa7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 08/55] fix: only substitute nullable shapes for null

---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 112a79a..df5a99a 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -137,7 +137,7 @@ impl Shape {
         }
         match (self, other) {
             (_, Bottom) => true,
-            (Optional(_), Null) => true,
+            (Nullable(_), Null) => true,
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
-- 
2.43.0


From 283030ecdba8dcb148ad6d706dab900455ac3ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 09/55] fix: allow null for nullable shapes in JSON Schema
 output

---
 json_typegen_shared/src/generation/json_schema.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/json_schema.rs b/json_typegen_shared/src/generation/json_schema.rs
index 6f4ad48..e8c6888 100644
--- a/json_typegen_shared/src/generation/json_schema.rs
+++ b/json_typegen_shared/src/generation/json_schema.rs
@@ -53,10 +53,20 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
         MapT { val_type: v } => generate_map_type(ctxt, path, v),
         Opaque(t) => Value::Object(string_hashmap! { "type" => Value::String(t.clone()) }),
         Optional(e) => type_from_shape(ctxt, path, e),
-        Nullable(e) => type_from_shape(ctxt, path, e),
+        Nullable(e) => nullable(type_from_shape(ctxt, path, e)),
     }
 }
 
+fn nullable(mut schema: Value) -> Value {
+    if let Value::Object(ref mut map) = schema {
+        if let Some(typ) = map.get_mut("type") {
+            let inner = std::mem::replace(typ, Value::Null);
+            *typ = Value::Array(vec![inner, Value::Str("null")]);
+        }
+    }
+    schema
+}
+
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
     let singular = to_singular(path);
     let inner = type_from_shape(ctxt, &singular, shape);
-- 
2.43.0


From 0a60d2b9e678a65739febb66239c10b1437472c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 10/55] fix: separate members of zod objects with commas

---
 json_typegen_shared/src/generation/zod_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 6045b9b..83fcd63 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -111,7 +111,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}: {};",
+                "{}{}{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
                 name,
-- 
2.43.0


From 2884fcecaadc72b52c6655d7c9c2bb8ab69fdab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 11/55] fix: parenthesize union element types in TypeScript
 arrays

---
 json_typegen_shared/src/generation/typescript.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 1015214..7325417 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -75,7 +75,12 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
-    (format!("{}[]", inner), defs)
+    if matches!(shape, Shape::Optional(_) | Shape::Nullable(_)) {
+        // `[]` binds tighter than `|`
+        (format!("({})[]", inner), defs)
+    } else {
+        (format!("{}[]", inner), defs)
+    }
 }
 
 fn generate_map_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
-- 
2.43.0


From 5b28914132bf7f7186b242c75e101eaa5faf57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 12/55] fix: collapse optional lists of two to twelve elements
 like other optional lists

---
 json_typegen_shared/src/generation/rust.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 0921a82..4f29edf 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -76,11 +76,10 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         Integer => ("i64".into(), None),
         Floating => ("f64".into(), None),
         Tuple(shapes, _n) => {
-            let folded = shape::fold_shapes(shapes.clone());
-            if folded == Any && shapes.iter().any(|s| s != &Any) {
+            if is_heterogeneous(shapes) {
                 generate_tuple_type(ctxt, path, shapes)
             } else {
-                generate_vec_type(ctxt, path, &folded)
+                generate_vec_type(ctxt, path, &shape::fold_shapes(shapes.clone()))
             }
         }
         VecT { elem_type: e } => generate_vec_type(ctxt, path, e),
@@ -106,6 +105,11 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
     }
 }
 
+/// Whether a tuple shape should stay a tuple, rather than being treated as a homogeneous list
+fn is_heterogeneous(shapes: &[Shape]) -> bool {
+    shape::fold_shapes(shapes.to_vec()) == Shape::Any && shapes.iter().any(|s| s != &Shape::Any)
+}
+
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
@@ -191,7 +195,12 @@ fn type_or_field_name(
 fn collapse_option_vec<'a>(ctxt: &mut Ctxt, typ: &'a Shape) -> (bool, &'a Shape) {
     if !(ctxt.options.allow_option_vec || ctxt.options.use_default_for_missing_fields) {
         if let Shape::Optional(inner) = typ {
-            if let Shape::VecT { .. } = **inner {
+            let is_vec = match **inner {
+                Shape::VecT { .. } => true,
+                Shape::Tuple(ref shapes, _) => !is_heterogeneous(shapes),
+                _ => false,
+            };
+            if is_vec {
                 return (true, &**inner);
             }
         }
-- 
2.43.0


From 9190a878df98947b354adad49bab5d849c0552a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:48 +0000
Subject: [PATCH 13/55] fix: quote references to Python classes that are not
 defined yet

---
 json_typegen_shared/src/generation/python.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 5b086ac..05b030d 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -40,6 +40,7 @@ struct Ctxt {
     type_names: HashSet<String>,
     imports: HashSet<Import>,
     created_classes: Vec<(Shape, Ident)>,
+    unfinished_classes: Vec<Ident>,
 }
 
 pub type Ident = String;
@@ -51,6 +52,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         type_names: HashSet::new(),
         imports: HashSet::new(),
         created_classes: Vec::new(),
+        unfinished_classes: Vec::new(),
     };
 
     if !matches!(shape, Shape::Struct { .. }) {
@@ -236,7 +238,12 @@ fn generate_data_class(
 ) -> (Ident, Option<Code>) {
     for (created_for_shape, ident) in ctxt.created_classes.iter() {
         if created_for_shape.is_acceptable_substitution_for(containing_shape) {
-            return (ident.into(), None);
+            return if ctxt.unfinished_classes.contains(ident) {
+                // the class is defined further down, so this has to be a forward reference
+                (format!("\"{}\"", ident), None)
+            } else {
+                (ident.into(), None)
+            };
         }
     }
 
@@ -244,6 +251,7 @@ fn generate_data_class(
     ctxt.type_names.insert(type_name.clone());
     ctxt.created_classes
         .push((containing_shape.clone(), type_name.clone()));
+    ctxt.unfinished_classes.push(type_name.clone());
 
     let mut field_names = HashSet::new();
     let mut defs = Vec::new();
@@ -276,6 +284,8 @@ fn generate_data_class(
         })
         .collect();
 
+    ctxt.unfinished_classes.pop();
+
     let mut code = String::new();
 
     code += &format!(
-- 
2.43.0


From d0fa3359b521fedd10e67863855e01ac95ee72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 14/55] fix: box recursive references in Rust structs

---
 json_typegen_shared/src/generation/rust.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 4f29edf..653cce7 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -12,6 +12,9 @@ pub struct Ctxt {
     type_names: HashSet<String>,
     imports: HashSet<String>,
     created_structs: Vec<(Shape, Ident)>,
+    unfinished_structs: Vec<Ident>,
+    /// Whether the current type is stored behind a pointer in the struct being generated
+    is_indirect: bool,
 }
 
 pub type Ident = String;
@@ -23,6 +26,8 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         type_names: HashSet::new(),
         imports: HashSet::new(),
         created_structs: Vec::new(),
+        unfinished_structs: Vec::new(),
+        is_indirect: false,
     };
 
     if ctxt.options.import_style != ImportStyle::QualifiedPaths {
@@ -112,13 +117,17 @@ fn is_heterogeneous(shapes: &[Shape]) -> bool {
 
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
+    let was_indirect = std::mem::replace(&mut ctxt.is_indirect, true);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
+    ctxt.is_indirect = was_indirect;
     (format!("Vec<{}>", inner), defs)
 }
 
 fn generate_map_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
+    let was_indirect = std::mem::replace(&mut ctxt.is_indirect, true);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
+    ctxt.is_indirect = was_indirect;
     (
         format!(
             "{}<String, {}>",
@@ -230,7 +239,12 @@ fn generate_struct_type(
 ) -> (Ident, Option<Code>) {
     for (created_for_shape, ident) in ctxt.created_structs.iter() {
         if created_for_shape.is_acceptable_substitution_for(containing_shape) {
-            return (ident.into(), None);
+            return if !ctxt.is_indirect && ctxt.unfinished_structs.contains(ident) {
+                // a struct can not contain itself without indirection
+                (format!("Box<{}>", ident), None)
+            } else {
+                (ident.into(), None)
+            };
         }
     }
 
@@ -238,6 +252,8 @@ fn generate_struct_type(
     ctxt.type_names.insert(type_name.clone());
     ctxt.created_structs
         .push((containing_shape.clone(), type_name.clone()));
+    ctxt.unfinished_structs.push(type_name.clone());
+    let was_indirect = std::mem::replace(&mut ctxt.is_indirect, false);
 
     let visibility = ctxt.options.type_visibility.clone();
     let field_visibility = match ctxt.options.field_visibility {
@@ -285,6 +301,9 @@ fn generate_struct_type(
         })
         .collect();
 
+    ctxt.unfinished_structs.pop();
+    ctxt.is_indirect = was_indirect;
+
     let mut code = format!("#[derive({})]\n", ctxt.options.derives);
 
     if ctxt.options.deny_unknown_fields {
-- 
2.43.0


From 1f756a24080033a38526f43d262e63b12ce2758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 15/55] fix: reject samples with trailing content

---
 json_typegen_shared/src/inference/jsoninfer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index ede4349..b3fc164 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -21,9 +21,10 @@ pub fn shape_from_json<R: Read>(
         pointer.split('/').collect()
     };
 
-    Inference::new(read)
-        .unwrap(&pointer_tokens, options, hints)?
-        .ok_or(JsonInputErr::NoMatchForUnwrap)
+    let mut inference = Inference::new(read);
+    let shape = inference.unwrap(&pointer_tokens, options, hints)?;
+    inference.expect_end()?;
+    shape.ok_or(JsonInputErr::NoMatchForUnwrap)
 }
 
 struct Inference<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> {
@@ -55,6 +56,14 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
         }
     }
 
+    fn expect_end(&mut self) -> Result<(), JsonInputErr> {
+        match self.tokens.next() {
+            Some(Ok(_)) => Err(JsonInputErr::InvalidJson),
+            Some(Err(err)) => Err(err),
+            None => Ok(()),
+        }
+    }
+
     fn infer_shape(&mut self, options: &Options, hints: &Hints) -> Result<Shape, JsonInputErr> {
         for hint in hints.applicable.iter() {
             match hint.hint_type {
-- 
2.43.0


From 6aea0b1e10ced0bf0f953e498dd603e60c7d93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 16/55] fix: reject malformed numbers

---
 json_typegen_shared/src/inference/jsonlex.rs | 37 +++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 7067727..54b4ad8 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -180,13 +180,48 @@ impl<R: Read> JsonLexer<R> {
                 _ => break,
             }
         }
-        // TODO: Actually parse numbers
+        if !is_valid_number(&buffer) {
+            return Err(JsonInputErr::InvalidJson);
+        }
         Ok(JsonToken::Number(
             String::from_utf8(buffer).map_err(|_err| JsonInputErr::InvalidUtf8)?,
         ))
     }
 }
 
+/// Checks a number against the JSON grammar: `-? (0 | [1-9][0-9]*) (. [0-9]+)? ([eE] [+-]? [0-9]+)?`
+fn is_valid_number(number: &[u8]) -> bool {
+    fn skip_digits(s: &[u8]) -> Option<&[u8]> {
+        let count = s.iter().take_while(|b| b.is_ascii_digit()).count();
+        if count > 0 { Some(&s[count..]) } else { None }
+    }
+
+    let unsigned = number.strip_prefix(b"-").unwrap_or(number);
+    let Some(mut rest) = skip_digits(unsigned) else {
+        return false;
+    };
+    if unsigned[0] == b'0' && unsigned.len() - rest.len() > 1 {
+        return false;
+    }
+    if let [b'.', fraction @ ..] = rest {
+        let Some(after_fraction) = skip_digits(fraction) else {
+            return false;
+        };
+        rest = after_fraction;
+    }
+    if let [b'e' | b'E', exponent @ ..] = rest {
+        let digits = match exponent {
+            [b'+' | b'-', digits @ ..] => digits,
+            digits => digits,
+        };
+        let Some(after_exponent) = skip_digits(digits) else {
+            return false;
+        };
+        rest = after_exponent;
+    }
+    rest.is_empty()
+}
+
 impl<R: Read> Iterator for JsonLexer<R> {
     type Item = Result<JsonToken, JsonInputErr>;
 
-- 
2.43.0


From 89f66ffe9484c8e5316109000aa6952e2064e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 17/55] fix: treat numbers with an exponent as floating point

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index b3fc164..fd5a64c 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -88,7 +88,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
             JsonToken::True | JsonToken::False => Ok(Shape::Bool),
             JsonToken::Null => Ok(Shape::Null),
             JsonToken::Number(s) => {
-                if s.contains('.') {
+                if s.contains(['.', 'e', 'E']) {
                     Ok(Shape::Floating)
                 } else {
                     Ok(Shape::Integer)
-- 
2.43.0


From 6629e32be57f29cc699ff9554233866d98785978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 18/55] fix: do not make quotes part of SQL column names

---
 json_typegen_shared/src/sql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d16fa1d..d26ffb4 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -15,7 +15,7 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
                     fields: columns
                         .iter()
                         .map(|column: &ColumnDef| {
-                            (column.name.to_string(), shape_for_column(column))
+                            (column.name.value.clone(), shape_for_column(column))
                         })
                         .collect(),
                 },
-- 
2.43.0


From 2e3d5be0ead76fcc08e82760c7965ed3fc1fec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 19/55] fix: escape keys in JSON Schema and shape output

---
 json_typegen_shared/src/generation/value.rs |  6 ++++--
 json_typegen_shared/src/util.rs             | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/value.rs b/json_typegen_shared/src/generation/value.rs
index 8e117bc..040d16a 100644
--- a/json_typegen_shared/src/generation/value.rs
+++ b/json_typegen_shared/src/generation/value.rs
@@ -1,5 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 
+use crate::util::string_literal;
+
 pub enum Value {
     Null,
     Bool(bool),
@@ -15,7 +17,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
         Value::Null => "null".to_string(),
         Value::Bool(b) => format!("{}", b),
         Value::Str(s) => format!("\"{}\"", s),
-        Value::String(s) => format!("\"{}\"", s),
+        Value::String(s) => string_literal(s),
         Value::Array(values) => {
             let mut code = "[\n".to_string();
             let len = values.len();
@@ -36,7 +38,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
             let len = map.len();
             for (i, (key, val)) in map.iter().enumerate() {
                 code += &"  ".repeat(indent + 1);
-                code += &format!("\"{}\": ", key);
+                code += &format!("{}: ", string_literal(key));
                 code += &pretty_print_value(indent + 1, val);
                 if i != len - 1 {
                     code += ",";
diff --git a/json_typegen_shared/src/util.rs b/json_typegen_shared/src/util.rs
index 63ac86f..6f65cd8 100644
--- a/json_typegen_shared/src/util.rs
+++ b/json_typegen_shared/src/util.rs
@@ -74,6 +74,25 @@ fn lowercase_first_letter(s: &str) -> String {
     }
 }
 
+/// Formats a string as a double-quoted literal, using only escapes that mean the same in JSON,
+/// JavaScript, Python and Kotlin
+pub fn string_literal(s: &str) -> String {
+    let mut literal = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => literal.push_str("\\\""),
+            '\\' => literal.push_str("\\\\"),
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            '\t' => literal.push_str("\\t"),
+            c if c.is_ascii_control() => literal.push_str(&format!("\\u{:04x}", c as u32)),
+            c => literal.push(c),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
 // based on hashmap! macro from maplit crate
 macro_rules! string_hashmap {
     ($($key:expr => $value:expr,)+) => { string_hashmap!($($key => $value),+) };
-- 
2.43.0


From 18f0153b2052d140748068b407bfbcbaeb71b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 20/55] fix: escape keys in Rust output

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 653cce7..be04553 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -277,7 +277,7 @@ fn generate_struct_type(
             };
             let mut field_code = String::new();
             if needs_rename {
-                field_code += &format!("    #[serde(rename = \"{}\")]\n", name)
+                field_code += &format!("    #[serde(rename = {:?})]\n", name)
             }
 
             let (is_collapsed, collapsed) = collapse_option_vec(ctxt, typ);
-- 
2.43.0


From 985a3c418b99fae6fd87fb5abd5a51ee6a452f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 21/55] fix: escape keys in TypeScript and zod output

---
 json_typegen_shared/src/generation/typescript.rs     | 12 +++++++-----
 .../src/generation/typescript_type_alias.rs          | 11 +++++++----
 json_typegen_shared/src/generation/zod_schema.rs     | 12 +++++++-----
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 7325417..ec2c611 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 use crate::options::Options;
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::type_case;
+use crate::util::{string_literal, type_case};
 
 pub struct Ctxt {
     options: Options,
@@ -201,10 +201,12 @@ fn generate_interface_type(
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "    {}{}{}{}: {};",
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                "    {}{}: {};",
+                if escape_name {
+                    string_literal(name)
+                } else {
+                    name.clone()
+                },
                 if was_optional { "?" } else { "" },
                 field_type
             )
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index c78bcff..38a0f8f 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -3,6 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
+use crate::util::string_literal;
 
 pub struct Ctxt {
     options: Options,
@@ -110,11 +111,13 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}{}: {};",
+                "{}{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                if escape_name {
+                    string_literal(name)
+                } else {
+                    name.clone()
+                },
                 if was_optional { "?" } else { "" },
                 field_type
             )
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 83fcd63..be90d9a 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -3,7 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
-use crate::util::lower_camel_case;
+use crate::util::{lower_camel_case, string_literal};
 
 pub struct Ctxt {
     options: Options,
@@ -111,11 +111,13 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}: {},",
+                "{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                if escape_name {
+                    string_literal(name)
+                } else {
+                    name.clone()
+                },
                 field_type
             )
         })
-- 
2.43.0


From d0def5f76d9ed45280f8bbae72ccc6a164207540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 22/55] fix: escape keys in Python output

---
 json_typegen_shared/src/generation/python.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 05b030d..44091a7 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{kebab_case, lower_camel_case, snake_case, string_literal, type_case};
 
 #[derive(PartialEq, PartialOrd, Ord, Eq, Hash, Clone, Copy)]
 enum Import {
@@ -274,9 +274,9 @@ fn generate_data_class(
             let transformed = apply_transform(ctxt, &field_name, name);
             if transformed != field_name {
                 field_code += &format!(
-                    " = {}(alias=\"{}\")",
+                    " = {}(alias={})",
                     import(ctxt, Import::Field),
-                    transformed
+                    string_literal(&transformed)
                 )
             }
 
-- 
2.43.0


From 483df523d0442b8b1ba4a8f8c4d5abda3a9e4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 23/55] fix: escape keys in Kotlin output

---
 json_typegen_shared/src/generation/kotlin.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index ac35a2f..770f117 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -5,7 +5,7 @@ use crate::OutputMode;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{kebab_case, lower_camel_case, snake_case, string_literal, type_case};
 
 struct Ctxt {
     options: Options,
@@ -225,15 +225,15 @@ fn generate_data_class(
             if &apply_transform(ctxt, &field_name) != name {
                 if ctxt.options.output_mode == OutputMode::KotlinJackson {
                     field_code += &format!(
-                        "    @{}(\"{}\")\n",
+                        "    @{}({})\n",
                         import(ctxt, "com.fasterxml.jackson.annotation.JsonProperty"),
-                        name
+                        kotlin_string_literal(name)
                     )
                 } else if ctxt.options.output_mode == OutputMode::KotlinKotlinx {
                     field_code += &format!(
-                        "    @{}(\"{}\")\n",
+                        "    @{}({})\n",
                         import(ctxt, "kotlinx.serialization.SerialName"),
-                        name
+                        kotlin_string_literal(name)
                     )
                 }
             }
@@ -278,6 +278,11 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
+fn kotlin_string_literal(s: &str) -> String {
+    // `$` would start a string template
+    string_literal(s).replace('$', "\\$")
+}
+
 fn apply_transform(ctxt: &Ctxt, field_name: &str) -> String {
     match (
         &ctxt.options.property_name_format,
-- 
2.43.0


From d395b38fd3440dbdc08a86c32c676223683196ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 24/55] fix: emit a well-formed JsonNaming annotation for kebab
 case

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 770f117..be43599 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -325,7 +325,7 @@ fn transform_annotation(ctxt: &mut Ctxt) -> String {
             jackson_naming_annotation(ctxt, "SnakeCaseStrategy")
         }
         (Some(StringTransform::KebabCase), OutputMode::KotlinJackson) => {
-            jackson_naming_annotation(ctxt, "KebabCaseStrategy::class)")
+            jackson_naming_annotation(ctxt, "KebabCaseStrategy")
         }
         _ => "".into(),
     }
-- 
2.43.0


From debe8102ea7e5191dfa65aad408feebe8580f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 25/55] fix: treat typeof as a Kotlin keyword

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index be43599..c77058f 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -144,7 +144,7 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
 const KOTLIN_KEYWORDS: &[&str] = &[
     "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in",
     "interface", "is", "null", "object", "package", "return", "super", "this", "throw", "true",
-    "try", "typealias", "val", "var", "when", "while",
+    "try", "typealias", "typeof", "val", "var", "when", "while",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From b3c57f7b9cce8cef5c1bbf6c20691afbb1218ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 26/55] fix: treat dyn and gen as Rust keywords

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index be04553..1950a8b 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -167,7 +167,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "macro", "match", "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub", "pure",
     "ref", "return", "Self", "self", "sizeof", "static", "struct", "super", "trait", "true",
     "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "async",
-    "await", "try",
+    "await", "try", "dyn", "gen",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From 5ec4e186ec38f6045bdef413a2bd21e0674a452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 27/55] fix: reserve the requested name when the root type is
 renamed

---
 json_typegen_shared/src/generation/kotlin.rs     | 2 +-
 json_typegen_shared/src/generation/python.rs     | 2 +-
 json_typegen_shared/src/generation/rust.rs       | 2 +-
 json_typegen_shared/src/generation/typescript.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index c77058f..9b4498a 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -25,7 +25,7 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 44091a7..6cffe51 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -55,7 +55,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         unfinished_classes: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 1950a8b..d18f749 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -41,7 +41,7 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
             .join(", ");
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index ec2c611..cc87416 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -22,7 +22,7 @@ pub fn typescript_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_interfaces: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
-- 
2.43.0


From 4c7269543e9fa74faf20d0a42d2a4decb8bd1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 28/55] fix: do not start TypeScript type names with a digit

---
 json_typegen_shared/src/generation/typescript.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index cc87416..73bb496 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -106,16 +106,10 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     let name = name.trim();
-    let mut output_name = if let Some(c) = name.chars().next() {
-        if c.is_ascii_digit() {
-            let temp = String::from("n") + name;
-            type_case(&temp)
-        } else {
-            type_case(name)
-        }
-    } else {
-        type_case(name)
-    };
+    let mut output_name = type_case(name);
+    if output_name.starts_with(|c: char| c.is_ascii_digit()) {
+        output_name.insert(0, 'N');
+    }
     if output_name.is_empty() {
         output_name.push_str("GeneratedType");
     }
-- 
2.43.0


From 3fc6f9ef064d0e12e38ff9a0ba8b62ed2ce1bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 29/55] fix: do not let generated Rust types hide types the
 output uses

---
 json_typegen_shared/src/generation/rust.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index d18f749..39c3757 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -20,6 +20,9 @@ pub struct Ctxt {
 pub type Ident = String;
 pub type Code = String;
 
+/// Types that the generated code may refer to by these names
+const RESERVED_TYPE_NAMES: &[&str] = &["Box", "HashMap", "Option", "String", "Value", "Vec"];
+
 pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
@@ -30,6 +33,10 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         is_indirect: false,
     };
 
+    for reserved in RESERVED_TYPE_NAMES.iter().filter(|r| **r != name) {
+        ctxt.type_names.insert(reserved.to_string());
+    }
+
     if ctxt.options.import_style != ImportStyle::QualifiedPaths {
         ctxt.options.derives = ctxt
             .options
-- 
2.43.0


From 16939739c5fdff0de68134dcf44719e9f924822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 30/55] fix: do not let generated Kotlin classes hide classes
 the output uses

---
 json_typegen_shared/src/generation/kotlin.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 9b4498a..7c7dced 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -17,6 +17,14 @@ struct Ctxt {
 pub type Ident = String;
 pub type Code = String;
 
+/// Types that the generated code may refer to by these names
+#[rustfmt::skip]
+const RESERVED_TYPE_NAMES: &[&str] = &[
+    "Any", "Boolean", "Double", "List", "Long", "Map", "Pair", "String", "Triple",
+    "JsonAnyGetter", "JsonAnySetter", "JsonNaming", "JsonProperty", "PropertyNamingStrategies",
+    "SerialName", "Serializable",
+];
+
 pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
@@ -25,6 +33,10 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
+    for reserved in RESERVED_TYPE_NAMES.iter().filter(|r| **r != name) {
+        ctxt.type_names.insert(reserved.to_string());
+    }
+
     if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
-- 
2.43.0


From 77392547bc17d54601ab7f078ef1aaa7539e0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 31/55] fix: do not let generated Python classes hide classes
 the output uses

---
 json_typegen_shared/src/generation/python.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 6cffe51..e74edd5 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -46,6 +46,9 @@ struct Ctxt {
 pub type Ident = String;
 pub type Code = String;
 
+/// Types that the generated code may refer to by these names
+const RESERVED_TYPE_NAMES: &[&str] = &["Any", "BaseModel", "Field", "Optional"];
+
 pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
@@ -55,6 +58,10 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         unfinished_classes: Vec::new(),
     };
 
+    for reserved in RESERVED_TYPE_NAMES.iter().filter(|r| **r != name) {
+        ctxt.type_names.insert(reserved.to_string());
+    }
+
     if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
-- 
2.43.0


From 782383182514edcddf820d529cd618edb6b756c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 32/55] fix: do not let Python fields with an alias hide types
 used by later fields

---
 json_typegen_shared/src/generation/python.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index e74edd5..e0cb58b 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -198,6 +198,13 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "raise", "return", "try", "while", "with", "yield",
 ];
 
+/// Names used in annotations. A field with an alias is assigned to in the class body,
+/// so if it had one of these names it would hide the original for the fields after it.
+#[rustfmt::skip]
+const ANNOTATION_NAMES: &[&str] = &[
+    "bool", "dict", "float", "int", "list", "str", "tuple", "pydantic", "typing",
+];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
@@ -266,7 +273,12 @@ fn generate_data_class(
     let fields: Vec<Code> = field_shapes
         .iter()
         .map(|(name, typ)| {
-            let field_name = field_name(name, &field_names);
+            let mut field_name = field_name(name, &field_names);
+            if ANNOTATION_NAMES.contains(&&*field_name)
+                && apply_transform(ctxt, &field_name, name) != field_name
+            {
+                field_name = self::field_name(&format!("{}_field", field_name), &field_names);
+            }
             field_names.insert(field_name.clone());
 
             let (field_type, child_defs) = type_from_shape(ctxt, name, typ);
-- 
2.43.0


From 4e21074a57f562b9a22e3572b9636b47c95d148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 33/55] fix: keep the field for additional properties apart
 from a member of that name

---
 json_typegen_shared/src/generation/rust.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 39c3757..959b4a2 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -269,6 +269,9 @@ fn generate_struct_type(
     };
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additional_fields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From cb34f6385e5feca9636c875a8332b74f949d8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 34/55] fix: keep the Kotlin property for additional properties
 apart from a member of that name

---
 json_typegen_shared/src/generation/kotlin.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 7c7dced..cfa91cc 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -225,6 +225,9 @@ fn generate_data_class(
         .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additionalFields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From d32b5ea63b99afb38983f980738cbe6e561b445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 35/55] fix: keep nullable Rust fields optional when missing
 fields get defaults

---
 json_typegen_shared/src/generation/rust.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 959b4a2..a0e9916 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -108,11 +108,7 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("Option<{}>", inner), defs)
-            }
+            (format!("Option<{}>", inner), defs)
         }
     }
 }
-- 
2.43.0


From abe0568b0a746074d6a82af1e4fd8b1f6afdb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 36/55] fix: reject samples nested too deeply instead of
 overflowing the stack

---
 .../src/inference/jsoninputerr.rs             |  2 ++
 json_typegen_shared/src/inference/jsonlex.rs  | 27 ++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninputerr.rs b/json_typegen_shared/src/inference/jsoninputerr.rs
index 2569f12..65b09bd 100644
--- a/json_typegen_shared/src/inference/jsoninputerr.rs
+++ b/json_typegen_shared/src/inference/jsoninputerr.rs
@@ -12,6 +12,8 @@ pub enum JsonInputErr {
     InvalidEscape(u8),
     #[error("Reached end of input while parsing")]
     UnexpectedEndOfInput,
+    #[error("Sample is too deeply nested")]
+    TooDeeplyNested,
     #[error("Unwrap pointer matched no values")]
     NoMatchForUnwrap,
     #[error("Hint is not valid for the matched value")]
diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 54b4ad8..c1f2058 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -17,9 +17,14 @@ pub enum JsonToken {
     Colon,
 }
 
+/// The deepest nesting of arrays and objects that is accepted. Inference and code generation recurse
+/// into the nesting, so without a limit a sample could overflow the stack.
+const MAX_DEPTH: usize = 256;
+
 pub struct JsonLexer<R: Read> {
     bytes: Peekable<Bytes<BufReader<R>>>, // TODO: Keep position info
     failed: bool,
+    depth: usize,
     buffer: Vec<u8>,
 }
 
@@ -30,6 +35,7 @@ impl<R: Read> JsonLexer<R> {
                 .bytes()
                 .peekable(),
             failed: false,
+            depth: 0,
             buffer: Vec::new(),
         }
     }
@@ -47,10 +53,10 @@ impl<R: Read> JsonLexer<R> {
                     self.bytes.next();
                     continue;
                 }
-                b'{' => self.skip_and_produce(JsonToken::ObjectStart),
-                b'}' => self.skip_and_produce(JsonToken::ObjectEnd),
-                b'[' => self.skip_and_produce(JsonToken::ArrayStart),
-                b']' => self.skip_and_produce(JsonToken::ArrayEnd),
+                b'{' => self.nest(JsonToken::ObjectStart),
+                b'}' => self.unnest(JsonToken::ObjectEnd),
+                b'[' => self.nest(JsonToken::ArrayStart),
+                b']' => self.unnest(JsonToken::ArrayEnd),
                 b',' => self.skip_and_produce(JsonToken::Comma),
                 b':' => self.skip_and_produce(JsonToken::Colon),
                 b't' => self.match_token("true", JsonToken::True),
@@ -68,6 +74,19 @@ impl<R: Read> JsonLexer<R> {
         Ok(token)
     }
 
+    fn nest(&mut self, token: JsonToken) -> Result<JsonToken, JsonInputErr> {
+        if self.depth == MAX_DEPTH {
+            return Err(JsonInputErr::TooDeeplyNested);
+        }
+        self.depth += 1;
+        self.skip_and_produce(token)
+    }
+
+    fn unnest(&mut self, token: JsonToken) -> Result<JsonToken, JsonInputErr> {
+        self.depth = self.depth.saturating_sub(1);
+        self.skip_and_produce(token)
+    }
+
     fn expect_byte(&mut self) -> Result<u8, JsonInputErr> {
         match self.bytes.next() {
             Some(Ok(byte)) => Ok(byte),
-- 
2.43.0


From aeebaf82ab634b4c3590ea6ae7f96333793743c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:30 +0000
Subject: [PATCH 37/55] fix: compare nested shapes only once when looking for a
 reusable type

---
 json_typegen_shared/src/shape.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index df5a99a..5bd42a4 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -132,9 +132,6 @@ impl Shape {
     /// but check if `self` can be used *as is* as a replacement for `other`
     pub(crate) fn is_acceptable_substitution_for(&self, other: &Shape) -> bool {
         use self::Shape::*;
-        if self == other {
-            return true;
-        }
         match (self, other) {
             (_, Bottom) => true,
             (Nullable(_), Null) => true,
@@ -161,7 +158,7 @@ impl Shape {
                         }
                     })
             }
-            _ => false,
+            (a, b) => a == b,
         }
     }
 }
-- 
2.43.0


From f9f53c7c33ec23041266893e45bed8601e1c3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 38/55] fix: do not touch the output file when no code could be
 generated

---
 json_typegen_cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c6b2664..c36f518 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -86,6 +86,8 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         codegen(name, &input, options)
     };
 
+    let code = code?;
+
     if let Some(filename) = matches.value_of("output") {
         let mut file = OpenOptions::new()
             .read(true)
@@ -94,9 +96,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             .truncate(true)
             .open(filename)?;
 
-        file.write_all(code?.as_bytes())?;
+        file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code?);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 02d0808bfb57d4673fe7ec7ea0206e553e035f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 39/55] fix: accept the zod output mode on the command line

---
 json_typegen_cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c36f518..22e8c8a 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -53,6 +53,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
                     "kotlin/kotlinx",
                     "python",
                     "json_schema",
+                    "zod",
                     "shape",
                 ])
                 .help("What to output.")
-- 
2.43.0


From 4355097cce1077afaa618396c48ac75119146293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 40/55] fix: quote macro error messages that contain quotes

---
 json_typegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index 9f6306a..b62ff02 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -71,7 +71,7 @@ pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         Ok(code) => code,
         Err(e) => {
             let message = display_error_with_causes(&e);
-            format!(r##"compile_error!(r#"{}"#);"##, message)
+            format!("compile_error!({:?});", message)
         }
     }
     .parse()
-- 
2.43.0


From c85903e7fff5dc3b81d4dcb8b2ef21ea1f3835f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 41/55] fix: handle messages to the web worker in order

---
 json_typegen_web/src/lib/worker.ts | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 38c20ff..f9fa0c5 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -6,13 +6,20 @@ import { readFileAsString } from "./file";
 let largeFileInput: string | undefined;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
-init().then(() => {
+// Messages are handled one at a time, in order, once the wasm module is ready
+let pending: Promise<unknown> = init().then(() => {
   postMsg({
     type: WorkerMessage.WASM_READY,
   });
 });
 
 onmessage = (messageEvent) => {
+  pending = pending
+    .then(() => handleMessage(messageEvent))
+    .catch((e) => console.error(e));
+};
+
+function handleMessage(messageEvent: MessageEvent): Promise<void> | void {
   const message: WorkerMessageType = messageEvent.data;
 
   if (message.type === WorkerMessage.CODEGEN) {
@@ -29,15 +36,20 @@ onmessage = (messageEvent) => {
       options: message.options,
     });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
-    readFileAsString(message.file).then((fileContent) => {
-      largeFileInput = fileContent;
-      postMsg({
-        type: WorkerMessage.LOAD_FILE_COMPLETE,
+    return readFileAsString(message.file)
+      .catch((e) => {
+        console.error(e);
+        return undefined;
+      })
+      .then((fileContent) => {
+        largeFileInput = fileContent;
+        postMsg({
+          type: WorkerMessage.LOAD_FILE_COMPLETE,
+        });
       });
-    });
   } else if (message.type === WorkerMessage.CLEAR_FILE) {
     largeFileInput = undefined;
   } else {
     console.warn("Unknown message to worker", messageEvent);
   }
-};
+}
-- 
2.43.0


From b004b6fbaea9f448487611b857ec158f11a6572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 42/55] fix: update the output when a large input file is
 cleared

---
 json_typegen_web/src/App.svelte | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index d19b1dd..9566279 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -180,13 +180,21 @@
         }
     };
 
-    const clearFile = () => {
-        input = "";
+    const clearLargeFile = () => {
+        if (largeFileMessage === null) {
+            return;
+        }
         largeFileMessage = null;
         isLoadingLargeFile = false;
         worker.postMessage({
             type: WorkerMessage.CLEAR_FILE,
         });
+        render();
+    };
+
+    const clearFile = () => {
+        input = "";
+        clearLargeFile();
     };
 
     const formatInput = () => {
-- 
2.43.0


From 04d20b7f01890baf498d95b3e8532a9780d11157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 43/55] fix: let a small file or an example replace a large
 input file

---
 json_typegen_web/src/App.svelte | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 9566279..e666ad3 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -154,6 +154,7 @@
         input = example.json;
         typeName = example.typeName;
         propertyNameFormat = example.propertyNameFormat || "";
+        clearLargeFile();
     };
 
     let filename = "";
@@ -174,6 +175,7 @@
             });
             workerReady = false;
         } else {
+            clearLargeFile();
             readFileAsString(file).then((contents: string) => {
                 input = contents;
             });
-- 
2.43.0


From 5cc26279b9666ebf8bd49ef679dd1443fd99704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 44/55] fix: ignore the contents of a file when other input was
 chosen meanwhile

---
 json_typegen_web/src/App.svelte | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index e666ad3..dee8704 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -150,7 +150,19 @@
         render();
     }
 
+    // Identifies the latest choice of input, so that reads of earlier files can be ignored
+    let inputChoice = 0;
+    const noteInputChoice = () => {
+        inputChoice += 1;
+        return inputChoice;
+    };
+    $: {
+        input;
+        noteInputChoice();
+    }
+
     const loadExample = (example: Example) => {
+        noteInputChoice();
         input = example.json;
         typeName = example.typeName;
         propertyNameFormat = example.propertyNameFormat || "";
@@ -164,6 +176,7 @@
             return;
         }
         filename = file.name;
+        const choice = noteInputChoice();
         if (file.size > 500_000) {
             input = "";
             isLoadingLargeFile = true;
@@ -177,7 +190,9 @@
         } else {
             clearLargeFile();
             readFileAsString(file).then((contents: string) => {
-                input = contents;
+                if (choice === inputChoice) {
+                    input = contents;
+                }
             });
         }
     };
@@ -195,6 +210,7 @@
     };
 
     const clearFile = () => {
+        noteInputChoice();
         input = "";
         clearLargeFile();
     };
-- 
2.43.0


From e48b9519623efa9ccae6cc2231b1462d369e2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 45/55] fix: do not name Python classes like fields

---
 json_typegen_shared/src/generation/python.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index e0cb58b..ddb2a05 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -181,11 +181,12 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
 }
 
 fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
-    type_or_field_name(name, used_names, "field", snake_case)
+    type_or_field_name(name, used_names, "field", "n", snake_case)
 }
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
-    type_or_field_name(name, used_names, "GeneratedType", type_case)
+    // Not the prefix of field names: a class must not have the name of a field that is assigned to
+    type_or_field_name(name, used_names, "GeneratedType", "N", type_case)
 }
 
 // https://docs.python.org/3/reference/lexical_analysis.html#keywords
@@ -209,6 +210,7 @@ fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
     default_name: &str,
+    digit_prefix: &str,
     case_fn: fn(&str) -> String,
 ) -> Ident {
     let name = name.trim();
@@ -221,7 +223,7 @@ fn type_or_field_name(
     }
     if let Some(c) = output_name.chars().next() {
         if c.is_ascii_digit() {
-            output_name = String::from("n") + &output_name;
+            output_name = String::from(digit_prefix) + &output_name;
         }
     }
     if !used_names.contains(&output_name) {
-- 
2.43.0


From 40b77d003bdcf149ecb2255c22d6b25b3796fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 46/55] fix: reject text after an options block given as a
 string literal

---
 json_typegen_shared/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index c7ac428..066732a 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -90,7 +90,12 @@ pub fn macro_input(input: &str) -> Result<MacroInput, String> {
     )?;
 
     let options = match string(input) {
-        IResult::Done(_, lit) => options_with_defaults(&lit.value, default_options)?,
+        IResult::Done(rem, lit) => {
+            if !rem.trim().is_empty() {
+                fail!("Expected no further tokens after third argument", rem);
+            }
+            options_with_defaults(&lit.value, default_options)?
+        }
         IResult::Error => options_with_defaults(input, default_options)?,
     };
 
-- 
2.43.0


From c4a56f83bc6500ec38894eff16415f9a4b9e2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:16 +0000
Subject: [PATCH 47/55] fix: accept raw string literals as option names

---
 json_typegen_shared/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index 066732a..71dfe03 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -28,9 +28,9 @@ macro_rules! fail {
 
 named!(string_or_ident -> String,
     alt!(
-        ident => { |ident: syn::Ident| ident.to_string() }
-        |
         string => { |lit: syn::StrLit| lit.value }
+        |
+        ident => { |ident: syn::Ident| ident.to_string() }
     )
 );
 
-- 
2.43.0


From 570d9ec925b347b8e694ff32ea9d170f98992500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 48/55] fix: do not name Rust types like imported derives

---
 json_typegen_shared/src/generation/rust.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index a0e9916..d75df06 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -43,7 +43,14 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
             .derives
             .clone()
             .split(',')
-            .map(|s| import(&mut ctxt, s.trim()))
+            .map(|s| {
+                let derive = import(&mut ctxt, s.trim());
+                if s.contains("::") && derive != name {
+                    // the imported path may be a trait as well, which no type can share a name with
+                    ctxt.type_names.insert(derive.clone());
+                }
+                derive
+            })
             .collect::<Vec<_>>()
             .join(", ");
     };
-- 
2.43.0


From 45f8c4cf5d08ad0a1b9d6de5a5d132a469419544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 49/55] fix: count only the last of repeated members when
 unwrapping

An object with a repeated member is read as having its last value
everywhere else, but an unwrap pointer through such a member joined all
of the values.
---
 json_typegen_shared/src/inference/jsoninfer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index fd5a64c..5b4143f 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -235,7 +235,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     return Ok(None);
                 }
 
-                let mut folded = None;
+                // By key, since the last of repeated members is the one that counts
+                let mut results = LinkedHashMap::new();
                 loop {
                     let token = self.next_token()?;
 
@@ -248,7 +249,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
 
                     if *first_token == "-" || *first_token == key {
                         let result = self.unwrap(rest_of_pointer, options, hints)?;
-                        folded = optional_common_shape(folded, result);
+                        results.insert(key, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
                         let _ = self.infer_shape(options, &Hints::new())?;
@@ -256,7 +257,10 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
 
                     if let Some(&Ok(JsonToken::ObjectEnd)) = self.tokens.peek() {
                         self.tokens.next();
-                        return Ok(folded);
+                        return Ok(results
+                            .into_iter()
+                            .map(|(_, result)| result)
+                            .fold(None, optional_common_shape));
                     }
 
                     self.expect_token(JsonToken::Comma)?;
-- 
2.43.0


From 62b9329e5ed7d0143e5298fc38d07601fe5d37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 50/55] fix: bind a member named __proto__ in Zod schemas

In an object literal, __proto__: x sets the prototype of the object, so
the schema had no such member.
---
 json_typegen_shared/src/generation/zod_schema.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index be90d9a..e87a33a 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -113,7 +113,10 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             format!(
                 "{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name {
+                if name == "__proto__" {
+                    // without the brackets this would set the prototype of the object literal
+                    format!("[{}]", string_literal(name))
+                } else if escape_name {
                     string_literal(name)
                 } else {
                     name.clone()
-- 
2.43.0


From e2c451adc4522867eb35da2f8523ab7fb19a6599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 51/55] fix: do not give Python fields the names of BaseModel
 attributes

Pydantic rejects or ignores such fields: model_config and the other
model_ attributes in version 2, json, copy, schema and more in version 1.
---
 json_typegen_shared/src/generation/python.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index ddb2a05..fb2c8a3 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -199,6 +199,17 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "raise", "return", "try", "while", "with", "yield",
 ];
 
+/// Attributes of pydantic's BaseModel (in either major version), which can not be fields of a model
+#[rustfmt::skip]
+const BASE_MODEL_ATTRIBUTES: &[&str] = &[
+    "construct", "copy", "dict", "from_orm", "json", "parse_file", "parse_obj", "parse_raw",
+    "schema", "schema_json", "update_forward_refs", "validate",
+    "model_computed_fields", "model_config", "model_construct", "model_copy", "model_dump",
+    "model_dump_json", "model_extra", "model_fields", "model_fields_set", "model_json_schema",
+    "model_parametrized_name", "model_post_init", "model_rebuild", "model_validate",
+    "model_validate_json", "model_validate_strings",
+];
+
 /// Names used in annotations. A field with an alias is assigned to in the class body,
 /// so if it had one of these names it would hide the original for the fields after it.
 #[rustfmt::skip]
@@ -276,8 +287,9 @@ fn generate_data_class(
         .iter()
         .map(|(name, typ)| {
             let mut field_name = field_name(name, &field_names);
-            if ANNOTATION_NAMES.contains(&&*field_name)
-                && apply_transform(ctxt, &field_name, name) != field_name
+            let transformed = apply_transform(ctxt, &field_name, name);
+            if BASE_MODEL_ATTRIBUTES.contains(&&*field_name)
+                || ANNOTATION_NAMES.contains(&&*field_name) && transformed != field_name
             {
                 field_name = self::field_name(&format!("{}_field", field_name), &field_names);
             }
@@ -292,7 +304,6 @@ fn generate_data_class(
             }
 
             let mut field_code = String::new();
-            let transformed = apply_transform(ctxt, &field_name, name);
             if transformed != field_name {
                 field_code += &format!(
                     " = {}(alias={})",
-- 
2.43.0


From c3fbba8f600f983126850f5bc229906983c79660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 52/55] fix: keep the web page working when the fields can not
 be stored

---
 json_typegen_web/src/lib/localstorage.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/localstorage.ts b/json_typegen_web/src/lib/localstorage.ts
index 99fd342..04a8e2f 100644
--- a/json_typegen_web/src/lib/localstorage.ts
+++ b/json_typegen_web/src/lib/localstorage.ts
@@ -14,7 +14,12 @@ type StoredParams = {
 };
 
 export function storeParams(params: StoredParams) {
-  localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  try {
+    localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  } catch (e) {
+    // Storage can be full or disabled
+    console.error(e);
+  }
 }
 
 export function restoreParams(): StoredParams {
-- 
2.43.0


From 59765905c1799517f946a260167fccb059c8916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 53/55] fix: keep element types written with operators together
 in TypeScript arrays

---
 json_typegen_shared/src/generation/typescript.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 73bb496..46943ca 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -75,8 +75,13 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
-    if matches!(shape, Shape::Optional(_) | Shape::Nullable(_)) {
-        // `[]` binds tighter than `|`
+    let compound = match shape {
+        Shape::Optional(_) | Shape::Nullable(_) => true,
+        Shape::Opaque(t) => t.contains(['|', '&', '=', ' ']),
+        _ => false,
+    };
+    if compound {
+        // `[]` binds tighter than `|` and other type operators
         (format!("({})[]", inner), defs)
     } else {
         (format!("{}[]", inner), defs)
-- 
2.43.0


From d13272cc90020a2a61ce4f225af1549348546444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 54/55] fix: give the downloaded file an extension for every
 output mode

---
 json_typegen_web/src/lib/download.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_web/src/lib/download.ts b/json_typegen_web/src/lib/download.ts
index 2f851d8..b2930de 100644
--- a/json_typegen_web/src/lib/download.ts
+++ b/json_typegen_web/src/lib/download.ts
@@ -3,10 +3,12 @@ function createFilename(typename: string, output_mode: string): string {
     rust: "rs",
     typescript: "ts",
     "typescript/typealias": "ts",
+    kotlin: "kt",
     "kotlin/jackson": "kt",
     "kotlin/kotlinx": "kt",
     python: "py",
     json_schema: "json",
+    zod: "ts",
     shape: "json",
   };
   return typename + "." + extensions[output_mode];
-- 
2.43.0


From 88ab6f4d3701c2115869e567210ad155e436a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 55/55] fix: keep values and members as written when formatting
 the input

---
 json_typegen_web/src/App.svelte    |  3 ++-
 json_typegen_web/src/lib/format.ts | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)
 create mode 100644 json_typegen_web/src/lib/format.ts

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index dee8704..e57c431 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -14,6 +14,7 @@
     import type { Example } from "./examples/examples";
     import { examples } from "./examples/examples";
     import { readFileAsString } from "./lib/file";
+    import { formatJson } from "./lib/format";
     import Spinner from "./components/Spinner.svelte";
     import FormField from "./components/FormField.svelte";
     import Button from "./components/Button.svelte";
@@ -217,7 +218,7 @@
 
     const formatInput = () => {
         try {
-            input = JSON.stringify(JSON.parse(input), null, 2);
+            input = formatJson(input);
         } catch (e) {
             // ignore
         }
diff --git a/json_typegen_web/src/lib/format.ts b/json_typegen_web/src/lib/format.ts
new file mode 100644
index 0000000..15ce847
--- /dev/null
+++ b/json_typegen_web/src/lib/format.ts
@@ -0,0 +1,24 @@
+/**
+ * Lays out a JSON text with one member or element per line. All values stay exactly as they are
+ * written (JSON.stringify(JSON.parse(text)) would change some numbers and the order of members).
+ * Throws if the text is not valid JSON.
+ */
+export function formatJson(text: string): string {
+  JSON.parse(text);
+  const tokens = text.match(/"(?:[^"\\]|\\.)*"|[{}[\],:]|[^\s"{}[\],:]+/g) || [];
+  let result = "";
+  let indent = "\n";
+  let previous = "";
+  for (const token of tokens) {
+    if (token === "}" || token === "]") {
+      indent = indent.slice(0, -2);
+      if (previous !== "{" && previous !== "[") result += indent;
+    } else if (previous === "{" || previous === "[" || previous === ",") {
+      result += indent;
+    }
+    result += token === ":" ? ": " : token;
+    if (token === "{" || token === "[") indent += "  ";
+    previous = token;
+  }
+  return result;
+}
-- 
2.43.0

