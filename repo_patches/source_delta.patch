From e025f443c4cf374176c82838c6095062cd388502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 01/78] fix: presence queries on models, structures and
 resources returned the opposite answer

---
 atelier-core/src/model/mod.rs              | 4 ++--
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 atelier-core/src/model/shapes/service.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From 0dfd33e21f8e4635561a40fc12668e9749692a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 02/78] fix: fail_fast had no effect, issues were drained
 before their level was checked

---
 atelier-core/src/action/lint/mod.rs     | 9 ++++-----
 atelier-core/src/action/validate/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..aa8a109 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,11 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..b1ba73d 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,11 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
-- 
2.43.0


From ee97884299c4438f5d31ddf8db8acbc2c3019280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 03/78] fix: ModelBuilder::set built a list shape instead of a
 set shape

---
 atelier-core/src/builder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..5e08718 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -423,7 +423,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
-- 
2.43.0


From 9cbea392b6c60d17651958275c272900155d8261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/78] fix: merging structures or unions with different member
 names panicked

---
 atelier-core/src/model/shapes/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..1644349 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -360,18 +360,16 @@ impl NonTraitEq for TopLevelShape {
                 }
                 (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.iter().all(|(k, l_member)| {
+                            r.member(k)
+                                .map_or(false, |r_member| l_member.equal_without_traits(r_member))
                         })
                 }
                 (ShapeKind::Union(l), ShapeKind::Union(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.iter().all(|(k, l_member)| {
+                            r.member(k)
+                                .map_or(false, |r_member| l_member.equal_without_traits(r_member))
                         })
                 }
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
-- 
2.43.0


From 5ee838e01fdea6858209280d86f1c6220700aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 05/78] fix: hash identifiers case-insensitively, consistent
 with their equality

---
 atelier-core/src/action/lint/mod.rs |  6 +++---
 atelier-core/src/model/identity.rs  | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index aa8a109..5597331 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -72,7 +72,7 @@ conventions described in the Smithy [style guide](https://awslabs.github.io/smit
 linter_or_validator_defn! {
     UnwelcomeTerms
     {
-        checked: RefCell<HashSet<Identifier>>
+        checked: RefCell<HashSet<String>>
     },
     "This will report any use of any unwelcome, or problematic terms in names."
 }
@@ -242,8 +242,8 @@ impl UnwelcomeTerms {
 
     #[inline]
     fn check_identifier(&mut self, id: &Identifier, in_shape: Option<&ShapeID>) {
-        if !self.checked.borrow().contains(id) {
-            let _ = self.checked.borrow_mut().insert(id.clone());
+        // Identifiers compare case-insensitively, but case determines the words within one.
+        if self.checked.borrow_mut().insert(id.to_string()) {
             for word in terms::split_words(&id.to_string()) {
                 if terms::is_unwelcome_term(&word) {
                     self.issues.push(match in_shape {
diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..8855ef2 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -4,7 +4,7 @@ use crate::syntax::{
 };
 use regex::Regex;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +18,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq, PartialOrd, Ord)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +29,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq, PartialOrd, Ord)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +130,13 @@ impl PartialEq for Identifier {
     }
 }
 
+impl Hash for Identifier {
+    /// This has to be consistent with the, case-insensitive, implementation of `PartialEq`.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +183,13 @@ impl PartialEq for NamespaceID {
     }
 }
 
+impl Hash for NamespaceID {
+    /// This has to be consistent with the, case-insensitive, implementation of `PartialEq`.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From 3a64b60a4186ae2d40359881f3e56f3134c6c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 06/78] fix: writing a model or document to a file opened the
 file for reading

---
 atelier-core/src/io/mod.rs   | 2 +-
 cargo-atelier/src/actions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..2a76715 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,7 +83,7 @@ fn write_model(
 ) -> Result<(), Box<dyn Error>> {
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
 
     match output_format {
@@ -136,7 +136,7 @@ fn document_a_file(
 
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
     Ok(())
-- 
2.43.0


From ea07be1266108905022d60fd35d7c8f75d4ef4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 07/78] fix: JSON reader printed resource identifiers to
 standard output

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..b9c5194 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -307,7 +307,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From 5c8137014747bc84473039448358e1b5820cea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 08/78] fix: JSON reader named the key and value members of a
 map 'member'

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index b9c5194..0b54ece 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(MEMBER_KEY, outer.get(MEMBER_KEY))?,
+                    self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -368,11 +368,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, name: &str, member: Option<&Value>) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From 7d8dfae6b16febd52f924158dc3f9aff71aae91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 09/78] fix: JSON reader panicked on a service with an empty
 version

---
 atelier-json/src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 0b54ece..24f0a49 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -172,6 +172,9 @@ impl JsonReader {
                 )))
             } else if s == SHAPE_SERVICE {
                 let version = if let Some(Value::String(value)) = outer.get(MEMBER_VERSION) {
+                    if value.is_empty() {
+                        return Err(ErrorKind::InvalidVersionNumber(Some(value.clone())).into());
+                    }
                     value.clone()
                 } else {
                     return Err(ErrorKind::InvalidVersionNumber(None).into());
-- 
2.43.0


From 131a16a391d054bf3c2b3daa7e3075d80555b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 10/78] fix: JSON reader wrapped integers too large to
 represent into negative numbers

---
 atelier-json/src/reader.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 24f0a49..4ff331f 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -414,8 +414,6 @@ impl JsonReader {
                     Ok(NodeValue::from(v.as_f64().unwrap()))
                 } else if v.is_i64() {
                     Ok(NodeValue::from(v.as_i64().unwrap()))
-                } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
                 } else {
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
-- 
2.43.0


From 58788461184f1470a8e004dbecda4c97c15d1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 11/78] fix: JSON writer panicked on a number that is not
 finite

---
 atelier-json/src/writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atelier-json/src/writer.rs b/atelier-json/src/writer.rs
index e92f01b..f2ee6e9 100644
--- a/atelier-json/src/writer.rs
+++ b/atelier-json/src/writer.rs
@@ -14,7 +14,7 @@ use atelier_core::syntax::{
     MEMBER_VERSION, MODEL_METADATA, MODEL_SHAPES, SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP,
     SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
-use serde_json::{to_writer, to_writer_pretty, Map, Number as JsonNumber, Value};
+use serde_json::{to_writer, to_writer_pretty, Map, Value};
 use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
@@ -330,7 +330,8 @@ fn from_value(value: &NodeValue) -> Value {
         }
         NodeValue::Number(v) => match v {
             Number::Integer(v) => Value::Number((*v).into()),
-            Number::Float(v) => Value::Number(JsonNumber::from_f64(*v).unwrap()),
+            // JSON has no representation for NaN and infinity, these become `Value::Null`.
+            Number::Float(v) => Value::from(*v),
         },
         NodeValue::Boolean(v) => Value::Bool(*v),
         NodeValue::String(v) => Value::String(v.clone()),
-- 
2.43.0


From 3713a5ac16b9ab5e4663d32242c3d8f3bd5d4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 12/78] fix: JSON reader ignored metadata, shapes, members and
 traits of the wrong JSON type

---
 atelier-json/src/reader.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 4ff331f..c7eb0c7 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -106,7 +106,7 @@ impl JsonReader {
 
     fn metadata(&self, json: Option<&Value>) -> ModelResult<ValueMap> {
         let mut metadata: ValueMap = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let _ = metadata.insert(k.clone(), self.value(v)?);
             }
@@ -116,13 +116,13 @@ impl JsonReader {
 
     fn shapes(&self, json: Option<&Value>) -> ModelResult<Vec<(NamespaceID, TopLevelShape)>> {
         let mut shapes: Vec<(NamespaceID, TopLevelShape)> = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let id = ShapeID::from_str(k)?;
                 let inner = self.shape(v)?;
                 let mut shape = TopLevelShape::new(id.clone(), inner);
 
-                if let Some(Value::Object(vs)) = v.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(v.get(ADD_SHAPE_KEY_TRAITS))? {
                     shape.append_traits(&self.traits(vs)?)?;
                 };
 
@@ -153,7 +153,8 @@ impl JsonReader {
                     self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
+                let members = if let Some(vs) = self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))?
+                {
                     self.members(vs)?
                 } else {
                     Default::default()
@@ -162,7 +163,8 @@ impl JsonReader {
                     members.as_slice(),
                 )))
             } else if s == SHAPE_UNION {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
+                let members = if let Some(vs) = self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))?
+                {
                     self.members(vs)?
                 } else {
                     Default::default()
@@ -263,7 +265,7 @@ impl JsonReader {
                     .into());
                 };
                 let mut member = MemberShape::new(Identifier::from_str(k)?, target);
-                if let Some(Value::Object(traits)) = obj.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(traits) = self.optional_object(obj.get(ADD_SHAPE_KEY_TRAITS))? {
                     member.append_traits(&self.traits(traits)?)?;
                 }
                 members.push(member);
@@ -378,7 +380,7 @@ impl JsonReader {
                     Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
-                if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(ms.get(ADD_SHAPE_KEY_TRAITS))? {
                     member_shape.append_traits(&self.traits(vs)?)?;
                 };
                 return Ok(member_shape);
@@ -392,6 +394,22 @@ impl JsonReader {
         .into())
     }
 
+    fn optional_object<'a>(
+        &self,
+        json: Option<&'a Value>,
+    ) -> ModelResult<Option<&'a Map<String, Value>>> {
+        match json {
+            None => Ok(None),
+            Some(Value::Object(vs)) => Ok(Some(vs)),
+            Some(_) => Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                "JsonReader::optional_object".to_string(),
+                Some(format!("{:#?}", json)),
+            )
+            .into()),
+        }
+    }
+
     fn string_value(&self, value: &Value) -> ModelResult<String> {
         if let Value::String(value) = value {
             Ok(value.clone())
-- 
2.43.0


From 19e5d9ff1344e4e68e0ebee099e1d0f025c7bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 13/78] fix: merging a shape with an equal definition dropped
 the traits on its members

---
 atelier-core/src/model/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 3fa2bfa..9b12f99 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -233,6 +233,7 @@ impl Model {
                 (false, false) => {
                     if existing.equal_without_traits(&shape) {
                         copy_traits(existing, &shape)?;
+                        copy_member_traits(existing, &shape)?;
                     } else {
                         error!("Model::add_shape {:?} != {:?}", existing, shape);
                         return Err(ErrorKind::MergeShapeConflict(existing.id().clone()).into());
@@ -309,6 +310,29 @@ fn copy_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> Mode
     Ok(())
 }
 
+fn copy_member_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> ModelResult<()> {
+    match (to_shape.body_mut(), from_shape.body()) {
+        (ShapeKind::List(to), ShapeKind::List(from))
+        | (ShapeKind::Set(to), ShapeKind::Set(from)) => {
+            to.member.append_traits(from.member.traits())?;
+        }
+        (ShapeKind::Map(to), ShapeKind::Map(from)) => {
+            to.key.append_traits(from.key.traits())?;
+            to.value.append_traits(from.value.traits())?;
+        }
+        (ShapeKind::Structure(to), ShapeKind::Structure(from))
+        | (ShapeKind::Union(to), ShapeKind::Union(from)) => {
+            for (name, to_member) in to.members.iter_mut() {
+                if let Some(from_member) = from.member(name) {
+                    to_member.append_traits(from_member.traits())?;
+                }
+            }
+        }
+        _ => {}
+    }
+    Ok(())
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 165b2f4cf518cc93f29200aef995466bfe357989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 14/78] fix: building a model silently dropped shapes that
 conflict with each other

---
 atelier-core/src/builder/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 5e08718..e271b6f 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -90,10 +90,10 @@ impl TryFrom<&mut ModelBuilder> for Model {
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
         for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+            model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
-- 
2.43.0


From e34d75847760a2d73875e3fc0366038724f82f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 15/78] fix: ModelBuilder kept only the last of several
 applications of a trait

---
 atelier-core/src/builder/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index e271b6f..3ed852f 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,8 +19,8 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
-    TopLevelShape,
+    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
 use crate::model::{Identifier, Model, NamespaceID, ShapeID};
@@ -31,7 +31,6 @@ use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -700,21 +699,19 @@ impl ModelBuilder {
         builders: &[TraitBuilder],
         references: &mut HashSet<ShapeID>,
     ) -> Result<HashMap<ShapeID, Option<Value>>, Error> {
-        let pairs: Result<Vec<(ShapeID, Option<Value>)>, Error> = builders
-            .iter()
-            .cloned()
-            .map(|builder| {
-                let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
-                if new_reference {
-                    let _ = references.insert(shape_id.clone());
-                }
-                Ok((shape_id, builder.value))
-            })
-            .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
+        let mut traits: HashMap<ShapeID, Option<Value>> = Default::default();
+        for builder in builders.iter().cloned() {
+            let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
+            if new_reference {
+                let _ = references.insert(shape_id.clone());
+            }
+            let value = match traits.get(&shape_id) {
+                None => builder.value,
+                Some(existing) => merge_traits(&shape_id, existing, &builder.value)?,
+            };
+            let _ = traits.insert(shape_id, value);
         }
+        Ok(traits)
     }
 }
 
-- 
2.43.0


From 0654cd26b01c3fabe7bb611efaa3e9cb0ca90a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 16/78] fix: a whole float displayed as an integer

---
 atelier-core/src/model/values.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/model/values.rs b/atelier-core/src/model/values.rs
index 5ed87df..28f2336 100644
--- a/atelier-core/src/model/values.rs
+++ b/atelier-core/src/model/values.rs
@@ -100,7 +100,7 @@ impl Display for Number {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Integer(n) => write!(f, "{}", n),
-            Self::Float(n) => write!(f, "{}", n),
+            Self::Float(n) => write!(f, "{:?}", n),
         }
     }
 }
-- 
2.43.0


From 29f4a40ac8764763c4be453f6258cf29c51d4636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 17/78] fix: selector comparators >= and <= could not be parsed

---
 atelier-smithy/src/selector.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..eabdc8e 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
-- 
2.43.0


From b1eee5d6744534fe8b840c9cfdb47b760bae7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 18/78] fix: identifiers starting with more than one underscore
 were rejected by the parsers

---
 atelier-smithy/src/selector.pest | 3 +--
 atelier-smithy/src/smithy.pest   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index eabdc8e..30b1d05 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -173,8 +173,7 @@ selector_variable_get =
 // ------------------------------------------------------------------------------------------------
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 namespace =
     @{ identifier ~ ("." ~ identifier)* }
diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..d58d61a 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -41,8 +41,7 @@ namespace =
     @{ identifier ~ ("." ~ identifier)* }
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 shape_id_member =
     { "$" ~ identifier }
-- 
2.43.0


From 485efdc7e3309da57bf431196684b94e9ade8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 19/78] fix: parse_selector printed its parse tree to standard
 output

---
 atelier-smithy/src/parser/selector.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..f5069db 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -37,7 +37,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
-- 
2.43.0


From 4163a5d4770aab37b38c31b9c97fdba0f9edd468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 20/78] fix: selector numbers with an exponent or out of range
 made the parser panic

---
 atelier-smithy/src/parser/selector.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index f5069db..ffcf656 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -222,12 +222,15 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
+            let invalid = || ErrorKind::InvalidSelectorExpression(number.to_string());
+            if number.contains(|c| c == '.' || c == 'e' || c == 'E') {
+                match f64::from_str(number) {
+                    Ok(v) if v.is_finite() => Ok(Value::Number(Number::Float(v))),
+                    _ => Err(invalid().into()),
+                }
             } else {
-                Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
-                )))
+                let v = i64::from_str(number).map_err(|_| Error::from(invalid()))?;
+                Ok(Value::Number(Number::Integer(v)))
             }
         }
         Rule::root_shape_id => {
-- 
2.43.0


From 2af5dc62e337a5357bd978b113eba31ad6a96fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 21/78] fix: a selector text with a double quote printed as
 text that does not parse

---
 atelier-core/src/model/selector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..0a586bb 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,6 +596,7 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
-- 
2.43.0


From ee1540b9b9c0c45affaa18857437d69cbcc40e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 22/78] fix: string_starts_with replaced its value by that
 value's text

---
 atelier-core/src/model/selector/mod.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index 0a586bb..1f6ec10 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -850,10 +850,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1257,11 +1254,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
-- 
2.43.0


From 57f83dfa71e8568530b48d6b4b4c1f3ede0c90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 23/78] fix: numeric scoped assertions compared with a text
 instead of the number

---
 atelier-core/src/builder/selector.rs   |  8 ++++----
 atelier-core/src/model/selector/mod.rs | 24 ++++--------------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..3e3795e 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index 1f6ec10..9ab4bae 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -1278,38 +1278,22 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `>` operator.
     pub fn number_greater(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberGreaterThan, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `>=` operator.
     pub fn number_greater_or_equal(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberGreaterOrEqual, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `<` operator.
     pub fn number_less(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberLessThan, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `<=` operator.
     pub fn number_less_or_equal(lhs: ScopedValue, rhs: Number) -> Self {
-        Self::new(
-            lhs,
-            Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::NumberLessOrEqual, &[rhs.into()])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `{=}` operator.
-- 
2.43.0


From db232fed3027c14fd0a63d1ab5af4c6fcd13bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 24/78] fix: a query printed its intermediate results to
 standard output

---
 atelier-query/src/evaluate.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index ed92c58..b0f8398 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -52,7 +52,6 @@ fn query_one(
     previously_selected: Projection,
     over_model: &Model,
 ) -> Projection {
-    println!("query_one({:?} |-> {})", previously_selected, query);
     match query {
         SelectorExpression::ShapeType(v) => query_by_shape_type(v, previously_selected, over_model),
         SelectorExpression::AttributeSelector(v) => {
-- 
2.43.0


From c8912c68ddfbc0ee9604bc412f2ccdd5090afb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 25/78] fix: a query for numbers left out byte and long shapes

---
 atelier-query/src/evaluate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index b0f8398..f9745df 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -140,7 +140,9 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
                 let shape_body = shape.body().as_simple().unwrap();
                 matches!(
                     shape_body,
-                    Simple::BigDecimal
+                    Simple::Byte
+                        | Simple::Long
+                        | Simple::BigDecimal
                         | Simple::BigInteger
                         | Simple::Double
                         | Simple::Float
-- 
2.43.0


From 951a8a39d13da94f8ad550e14e8cef8645f015f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 26/78] fix: a query for collections returned maps

---
 atelier-query/src/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index f9745df..fa86e67 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -154,7 +154,7 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
             }
         }
         ShapeType::SimpleType => shape_body.is_simple(),
-        ShapeType::Collection => shape_body.is_list() || shape_body.is_set() || shape_body.is_map(),
+        ShapeType::Collection => shape_body.is_list() || shape_body.is_set(),
         ShapeType::Blob => {
             shape_body.is_simple() && matches!(shape.body().as_simple().unwrap(), Simple::Blob)
         }
-- 
2.43.0


From 2269262df7841f0d99e4f0b236e267ae6110cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 27/78] fix: a declared shape keeps its own name, and one
 declared by its full name is found by its short one

---
 atelier-core/src/builder/mod.rs | 66 +++++++++++++--------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 3ed852f..4c6ad20 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -283,12 +283,15 @@ impl ModelBuilder {
                         ))
                     }
                     0 => {
-                        if self.shapes.contains_key(shape_name) {
+                        let local_id = self.default_namespace.make_shape(local.clone());
+                        if self.shapes.contains_key(shape_name)
+                            || self.shapes.contains_key(&ShapeName::Qualified(local_id.clone()))
+                        {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
                                 "SUCCESS: shape found in same namespace as shape with same name"
                             );
-                            Ok((self.default_namespace.make_shape(local.clone()), false))
+                            Ok((local_id, false))
                         } else if (!is_trait
                             && defined_prelude_shapes().contains(&*local.to_string()))
                             || (is_trait && defined_prelude_traits().contains(&*local.to_string()))
@@ -300,8 +303,7 @@ impl ModelBuilder {
                             // 4. the shape ID is invalid
                             // => the namespace is inherited from the *current namespace*.
                             trace!("SUCCESS-ish: shape not found, so assume it's local");
-                            let qualified = self.default_namespace.make_shape(local.clone());
-                            Ok((qualified, true))
+                            Ok((local_id, true))
                         }
                     }
                     _ => {
@@ -313,6 +315,17 @@ impl ModelBuilder {
         }
     }
 
+    ///
+    /// The name of a shape that is declared here; it is in the *current namespace* unless qualified,
+    /// whatever else of the same name is imported.
+    ///
+    fn declared_shape_id(&self, shape_name: &ShapeName) -> ShapeID {
+        match shape_name {
+            ShapeName::Qualified(qualified) => qualified.clone(),
+            ShapeName::Local(local) => self.default_namespace.make_shape(local.clone()),
+        }
+    }
+
     fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
@@ -372,10 +385,7 @@ impl ModelBuilder {
         builder: &SimpleShapeBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Simple(builder.simple_shape.clone()),
@@ -388,10 +398,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -412,10 +419,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -436,10 +440,7 @@ impl ModelBuilder {
         builder: &MapBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         let (key_target_id, new_reference) = self.resolve_shape_name(&builder.key.target, false)?;
         if new_reference {
             let _ = references.insert(key_target_id.clone());
@@ -496,10 +497,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Structure(self.make_structure_inner(builder, references)?),
@@ -512,10 +510,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Union(self.make_structure_inner(builder, references)?),
@@ -528,10 +523,7 @@ impl ModelBuilder {
         builder: &ServiceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         let mut service = Service::new(&builder.version);
         for member_shape_id in &builder.operations {
             let (shape_id, new_reference) = self.resolve_shape_name(&member_shape_id, false)?;
@@ -562,10 +554,7 @@ impl ModelBuilder {
         builder: &OperationBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         let mut operation = Operation::default();
         if let Some(shape_id) = &builder.input {
             let (shape_id, new_reference) = self.resolve_shape_name(&shape_id, false)?;
@@ -600,10 +589,7 @@ impl ModelBuilder {
         builder: &ResourceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.declared_shape_id(&builder.shape_name);
         let mut resource = Resource::default();
         for (name, shape_ref) in &builder.identifiers {
             let (shape_id, new_reference) = self.resolve_shape_name(shape_ref, false)?;
-- 
2.43.0


From a7a2e642eec5bc9a221f7e90f122815b975e996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 28/78] fix: the model builder keeps every shape it is given

---
 atelier-core/src/builder/mod.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 4c6ad20..0e10bce 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -48,7 +48,7 @@ pub struct ModelBuilder {
     prelude_namespace: NamespaceID,
     smithy_version: Version,
     metadata: ValueMap,
-    shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
+    shapes: Vec<(ShapeName, TopLevelShapeBuilder)>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -88,7 +88,7 @@ impl TryFrom<&mut ModelBuilder> for Model {
             let _ = model.add_metadata(k.clone(), v.clone());
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
-        for shape in builder.shapes.values() {
+        for (_, shape) in &builder.shapes {
             model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
@@ -212,18 +212,27 @@ impl ModelBuilder {
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
-        let previous = self.shapes.insert(id, shape);
-        if previous.is_some() {
-            info!("Interestingly the shape seems to have been added more than once?",);
-        }
+        self.shapes.push((id, shape));
         self
     }
 
-    fn reference_names(&self) -> impl Iterator<Item = &ShapeName> {
+    fn reference_names(&self) -> HashSet<&ShapeName> {
         self.shapes
             .iter()
             .filter(|(_, builder)| matches!(builder, TopLevelShapeBuilder::Reference(_)))
             .map(|(id, _)| id)
+            .collect()
+    }
+
+    fn has_shape(&self, shape_name: &ShapeName) -> bool {
+        self.shapes.iter().any(|(id, _)| id == shape_name)
+    }
+
+    fn shape_mut(&mut self, shape_name: &ShapeName) -> Option<&mut TopLevelShapeBuilder> {
+        self.shapes
+            .iter_mut()
+            .find(|(id, _)| id == shape_name)
+            .map(|(_, shape)| shape)
     }
 
     ///
@@ -266,6 +275,7 @@ impl ModelBuilder {
                 trace!("Local Identifier: proceeding with resolution...");
                 let references: Vec<&ShapeName> = self
                     .reference_names()
+                    .into_iter()
                     .filter(|shape_name| shape_name.shape_name() == local)
                     .collect();
                 debug!(
@@ -284,8 +294,8 @@ impl ModelBuilder {
                     }
                     0 => {
                         let local_id = self.default_namespace.make_shape(local.clone());
-                        if self.shapes.contains_key(shape_name)
-                            || self.shapes.contains_key(&ShapeName::Qualified(local_id.clone()))
+                        if self.has_shape(shape_name)
+                            || self.has_shape(&ShapeName::Qualified(local_id.clone()))
                         {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
@@ -331,12 +341,12 @@ impl ModelBuilder {
             ShapeName::Qualified(shape_id) => {
                 if let Some(member_name) = shape_id.member_name() {
                     let parent_shape = ShapeName::from(shape_id.shape_only());
-                    if let Some(shape) = self.shapes.get_mut(&parent_shape) {
+                    if let Some(shape) = self.shape_mut(&parent_shape) {
                         apply_to_member(shape, member_name, a_trait);
                     } else {
                         panic!("No shape named {} for member {}", parent_shape, member_name);
                     }
-                } else if let Some(shape) = self.shapes.get_mut(&shape_name) {
+                } else if let Some(shape) = self.shape_mut(&shape_name) {
                     apply_to_shape(shape, a_trait);
                 } else {
                     let mut builder = ReferenceBuilder::from(shape_id.clone());
-- 
2.43.0


From 16b418d87c783a557e95e16ea56dcbe6a92a53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 29/78] fix: a trait applied to a shape in a builder is no
 import, and may come before its declaration

---
 atelier-core/src/builder/mod.rs | 187 +++++++++-----------------------
 1 file changed, 52 insertions(+), 135 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 0e10bce..81c9673 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,7 +19,7 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    merge_traits, HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
     StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
@@ -49,6 +49,7 @@ pub struct ModelBuilder {
     smithy_version: Version,
     metadata: ValueMap,
     shapes: Vec<(ShapeName, TopLevelShapeBuilder)>,
+    applied_traits: Vec<(ShapeName, TraitBuilder)>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -91,6 +92,9 @@ impl TryFrom<&mut ModelBuilder> for Model {
         for (_, shape) in &builder.shapes {
             model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
+        for (shape_name, a_trait) in &builder.applied_traits {
+            builder.make_applied_trait(&mut model, shape_name, a_trait, &mut unresolved)?;
+        }
         for shape_id in unresolved {
             model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
@@ -108,6 +112,7 @@ impl ModelBuilder {
             smithy_version,
             metadata: Default::default(),
             shapes: Default::default(),
+            applied_traits: Default::default(),
         }
     }
 
@@ -181,12 +186,13 @@ impl ModelBuilder {
         self.reference(ReferenceBuilder::new(shape))
     }
 
-    /// Applies a trait to the shape named `shape`. IF the shape is not present in the model
-    /// a new reference builder is created and the trait applied to it. This is similar to the
-    /// way the `apply` statement works in the Smithy IDL.
+    /// Applies a trait to the shape, or member, named `shape`. IF the shape is not present in the
+    /// model the trait is applied to an unresolved reference to it. This is similar to the way the
+    /// `apply` statement works in the Smithy IDL; the shape may be declared before or after this.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
         let shape_name = ShapeName::from_str(shape).unwrap();
-        self.apply_to(&shape_name, a_trait)
+        self.applied_traits.push((shape_name, a_trait));
+        self
     }
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
@@ -228,13 +234,6 @@ impl ModelBuilder {
         self.shapes.iter().any(|(id, _)| id == shape_name)
     }
 
-    fn shape_mut(&mut self, shape_name: &ShapeName) -> Option<&mut TopLevelShapeBuilder> {
-        self.shapes
-            .iter_mut()
-            .find(|(id, _)| id == shape_name)
-            .map(|(_, shape)| shape)
-    }
-
     ///
     /// From [Relative shape ID resolution](https://awslabs.github.io/smithy/1.0/spec/core/idl.html#relative-shape-id-resolution)
     ///
@@ -336,37 +335,35 @@ impl ModelBuilder {
         }
     }
 
-    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
-        match shape_name {
-            ShapeName::Qualified(shape_id) => {
-                if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
-                    if let Some(shape) = self.shape_mut(&parent_shape) {
-                        apply_to_member(shape, member_name, a_trait);
-                    } else {
-                        panic!("No shape named {} for member {}", parent_shape, member_name);
-                    }
-                } else if let Some(shape) = self.shape_mut(&shape_name) {
-                    apply_to_shape(shape, a_trait);
-                } else {
-                    let mut builder = ReferenceBuilder::from(shape_id.clone());
-                    let _ = builder.apply_trait(a_trait);
-                    let _ = self.reference(builder);
-                }
-                self
-            }
-            ShapeName::Local(local) => {
-                // This is disallowed in the Smithy IDL which requires apply statements to take
-                // qualified names.
-                let (shape_id, new_reference) = self
-                    .resolve_shape_name(&local.clone().into(), false)
-                    .unwrap();
-                if new_reference {
-                    let _ = self.reference(ReferenceBuilder::from(shape_id.clone()));
+    fn make_applied_trait(
+        &self,
+        model: &mut Model,
+        shape_name: &ShapeName,
+        a_trait: &TraitBuilder,
+        references: &mut HashSet<ShapeID>,
+    ) -> Result<(), Error> {
+        let shape_id = match shape_name {
+            ShapeName::Qualified(qualified) => qualified.clone(),
+            // This is disallowed in the Smithy IDL which requires apply statements to take
+            // qualified names.
+            ShapeName::Local(_) => self.resolve_shape_name(shape_name, false)?.0,
+        };
+        let traits = self.make_traits(std::slice::from_ref(a_trait), references)?;
+        if let Some(member_name) = shape_id.member_name() {
+            if let Some(shape) = model.shape_mut(&shape_id.shape_only()) {
+                if !shape.body().is_unresolved() {
+                    return match member_mut(shape, member_name) {
+                        Some(member) => member.append_traits(&traits),
+                        None => Err(ErrorKind::UnknownMember(member_name.to_string()).into()),
+                    };
                 }
-                self.apply_to(&shape_id.into(), a_trait)
             }
         }
+        model.add_shape(TopLevelShape::with_traits(
+            shape_id,
+            ShapeKind::Unresolved,
+            traits,
+        ))
     }
 
     fn make_shape(
@@ -715,102 +712,22 @@ impl ModelBuilder {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
-fn apply_to_member(
-    shape: &mut TopLevelShapeBuilder,
+fn member_mut<'a>(
+    shape: &'a mut TopLevelShape,
     member_name: &Identifier,
-    a_trait: TraitBuilder,
-) {
-    let ok = match shape {
-        TopLevelShapeBuilder::List(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
-                let _ = shape.member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Set(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
-                let _ = shape.member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Map(shape) => {
-            if member_name.to_string() == MEMBER_KEY {
-                let _ = shape.key.apply_trait(a_trait);
-                true
-            } else if member_name.to_string() == MEMBER_VALUE {
-                let _ = shape.value.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Structure(shape) => {
-            if let Some(member) = shape
-                .members
-                .iter_mut()
-                .find(|m| &m.member_name == member_name)
-            {
-                let _ = member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Union(shape) => {
-            if let Some(member) = shape
-                .members
-                .iter_mut()
-                .find(|m| &m.member_name == member_name)
-            {
-                let _ = member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        _ => false,
-    };
-    if !ok {
-        panic!("Shape does not have a traitable member {}", member_name);
-    }
-}
-
-fn apply_to_shape(shape: &mut TopLevelShapeBuilder, a_trait: TraitBuilder) {
-    match shape {
-        TopLevelShapeBuilder::SimpleShape(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::List(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Set(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Map(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Structure(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Union(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Service(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Operation(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Resource(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Reference(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
+) -> Option<&'a mut MemberShape> {
+    let name = member_name.to_string();
+    match shape.body_mut() {
+        ShapeKind::List(body) | ShapeKind::Set(body) if name == MEMBER_MEMBER => {
+            Some(&mut body.member)
+        }
+        ShapeKind::Map(body) => match name.as_str() {
+            MEMBER_KEY => Some(&mut body.key),
+            MEMBER_VALUE => Some(&mut body.value),
+            _ => None,
+        },
+        ShapeKind::Structure(body) | ShapeKind::Union(body) => body.members.get_mut(member_name),
+        _ => None,
     }
 }
 
-- 
2.43.0


From 97513de8662618c1469feb43f4dc5ce2328d0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 30/78] fix: the assembler reads each file once, in a fixed
 order, and reports what it cannot read

---
 atelier-assembler/src/lib.rs | 59 +++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..e388e47 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -311,8 +311,8 @@ impl TryFrom<&mut ModelAssembler> for Model {
             Ok(Model::default())
         } else {
             let models: std::result::Result<Vec<Model>, Self::Error> = value
-                .expand_file_paths()
-                .iter()
+                .find_files()?
+                .values()
                 .map(|file_name| value.read_model(&file_name))
                 .collect();
             debug!(
@@ -404,11 +404,11 @@ impl ModelAssembler {
     ///
     pub fn expand_file_paths(&self) -> Vec<PathBuf> {
         info!("ModelAssembler::expand_file_paths()");
-        let mut results = Vec::default();
-        for path in &self.paths {
-            self.expand_path(path, &mut results);
-        }
-        results
+        self.find_files()
+            .unwrap_or_default()
+            .into_iter()
+            .map(|(_, path)| path)
+            .collect()
     }
 
     // --------------------------------------------------------------------------------------------
@@ -420,24 +420,47 @@ impl ModelAssembler {
         mut_self
     }
 
-    #[allow(clippy::ptr_arg)]
-    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) {
+    ///
+    /// All files to read, by their canonical path; this way each one is read once, however many
+    /// paths lead to it, and the order does not depend on that of the paths or directory entries.
+    ///
+    fn find_files(&self) -> Result<BTreeMap<PathBuf, PathBuf>> {
+        let mut visited: HashSet<PathBuf> = Default::default();
+        let mut results = BTreeMap::default();
+        for path in &self.paths {
+            self.expand_path(path, &mut visited, &mut results)?;
+        }
+        Ok(results)
+    }
+
+    fn expand_path(
+        &self,
+        path: &Path,
+        visited: &mut HashSet<PathBuf>,
+        results: &mut BTreeMap<PathBuf, PathBuf>,
+    ) -> Result<()> {
         info!("ModelAssembler::expand_path({:?})", path);
-        if path.is_file() {
+        // a path that leads nowhere has no canonical form, reading it will report this.
+        let canonical = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
+        if path.is_dir() {
+            debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
+            if visited.insert(canonical) {
+                for entry in read_dir(path)? {
+                    self.expand_path(&entry?.path(), visited, results)?;
+                }
+            }
+        } else if path.is_file() || !path.exists() {
             if let Some(extension) = path.extension() {
                 let extension = extension.to_string_lossy();
                 if self.file_types.contains(extension.as_ref()) {
                     debug!("ModelAssembler::expand_path - adding file path {:?}", path);
-                    let _ = results.push(path.clone());
+                    let _ = results
+                        .entry(canonical)
+                        .or_insert_with(|| path.to_path_buf());
                 }
             }
-        } else if path.is_dir() {
-            debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
-            for entry in read_dir(path).unwrap() {
-                let entry = entry.unwrap();
-                self.expand_path(&entry.path(), results);
-            }
         }
+        Ok(())
     }
 
     fn read_model(&self, path: &Path) -> Result<Model> {
@@ -445,7 +468,7 @@ impl ModelAssembler {
         if let Some(extension) = path.extension() {
             let extension = extension.to_string_lossy().to_lowercase();
             if let Some(file_type) = self.file_types.get(extension.as_ref()) {
-                let mut file = File::open(path).unwrap();
+                let mut file = File::open(path)?;
                 Ok(file_type.reader()(&mut file)?)
             } else {
                 error!("ModelAssembler::read_model - not a known extension");
-- 
2.43.0


From 0e69e1c8e49982ce14264556713c951c91d0d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 31/78] fix: the default search path is the one in SMITHY_PATH

---
 atelier-assembler/src/lib.rs      | 8 +++++++-
 cargo-atelier/src/command_line.rs | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index e388e47..56846c3 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -112,6 +112,9 @@ pub struct ModelAssembler {
     paths: HashSet<PathBuf>,
 }
 
+/// The name of the environment variable that holds the default search path.
+pub const SMITHY_PATH: &str = "SMITHY_PATH";
+
 // ------------------------------------------------------------------------------------------------
 // Implementations
 // ------------------------------------------------------------------------------------------------
@@ -289,7 +292,10 @@ impl FileTypeRegistry {
 
 impl Default for ModelAssembler {
     fn default() -> Self {
-        Self::new(FileTypeRegistry::default(), Some(SearchPath::default()))
+        Self::new(
+            FileTypeRegistry::default(),
+            Some(SearchPath::new_or_default(SMITHY_PATH)),
+        )
     }
 }
 
diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 563fbc5..8eb5be3 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -1,4 +1,5 @@
 use crate::{Command, DocumentCommand, FileFormat, Options, TransformCommand};
+use atelier_lib::assembler::SMITHY_PATH;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
@@ -180,7 +181,7 @@ fn check_command_line() -> Vec<String> {
 
 fn make_search_path(default_search_env: bool, search_env: Option<String>) -> Option<SearchPath> {
     if default_search_env {
-        Some(SearchPath::default())
+        Some(SearchPath::new_or_default(SMITHY_PATH))
     } else {
         search_env.map(|search_env| SearchPath::new_or_default(&search_env))
     }
-- 
2.43.0


From c8a13dc8b0a9cf12f0c0a19b8690cb1e7ea336d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 32/78] fix: a command that fails says so, with its exit status

---
 cargo-atelier/src/actions.rs  | 45 +++++++++++++++++------------------
 cargo-atelier/src/bin/main.rs |  8 +------
 2 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 2a76715..16d9ea5 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -13,7 +13,7 @@ use search_path::SearchPath;
 use somedoc::write::{write_document, OutputFormat};
 use std::convert::TryFrom;
 use std::error::Error;
-use std::fs::File;
+use std::fs::{metadata, File};
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -69,9 +69,10 @@ fn assemble_model(
     search_path: Option<SearchPath>,
 ) -> ModelResult<Model> {
     let mut assembler = ModelAssembler::new(FileTypeRegistry::default(), search_path);
-    input_files.iter().for_each(|pb| {
-        assembler.push(pb);
-    });
+    for path in &input_files {
+        let _ = metadata(path)?;
+        let _ = assembler.push(path);
+    }
     Model::try_from(assembler)
 }
 
@@ -81,30 +82,28 @@ fn write_model(
     output_format: FileFormat,
     namespace: Option<String>,
 ) -> Result<(), Box<dyn Error>> {
+    // anything wrong with the namespace is found before an output file is created.
+    let namespace = match (&output_format, namespace) {
+        (FileFormat::Smithy, Some(namespace)) => Some(NamespaceID::from_str(&namespace)?),
+        (FileFormat::Smithy, None) => {
+            let namespaces = model.namespaces();
+            if namespaces.len() != 1 {
+                return Err("A namespace value is required for writing Smithy IDL".into());
+            }
+            namespaces.into_iter().next().cloned()
+        }
+        _ => None,
+    };
+
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
         Some(file_name) => Box::new(File::create(file_name)?),
     };
 
-    match output_format {
-        FileFormat::Json => write_json(&mut file, model),
-        FileFormat::Smithy => {
-            if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace).unwrap())
-            } else {
-                let namespaces = &model.namespaces();
-                if namespaces.len() == 1 {
-                    write_smithy(
-                        &mut file,
-                        model,
-                        (*namespaces.iter().next().unwrap()).clone(),
-                    )
-                } else {
-                    panic!("A namespace value is required for writing Smithy IDL");
-                }
-            }
-        }
-        FileFormat::Uml => write_uml(&mut file, model),
+    match (output_format, namespace) {
+        (FileFormat::Smithy, Some(namespace)) => write_smithy(&mut file, model, namespace),
+        (FileFormat::Uml, _) => write_uml(&mut file, model),
+        _ => write_json(&mut file, model),
     }
 }
 
diff --git a/cargo-atelier/src/bin/main.rs b/cargo-atelier/src/bin/main.rs
index 2fe7a53..6c95700 100644
--- a/cargo-atelier/src/bin/main.rs
+++ b/cargo-atelier/src/bin/main.rs
@@ -2,7 +2,7 @@ use cargo_atelier::{actions, command_line, report, Command};
 use std::error::Error;
 
 fn main() -> Result<(), Box<dyn Error>> {
-    let result = match command_line::parse()? {
+    match command_line::parse()? {
         Command::Lint(cmd, search_path, options) => {
             report::report_action_issues(actions::lint_file(cmd, search_path)?, options.use_color)
         }
@@ -12,11 +12,5 @@ fn main() -> Result<(), Box<dyn Error>> {
         ),
         Command::Convert(cmd, search_path, _) => actions::convert_file_format(cmd, search_path),
         Command::Document(cmd, search_path, _) => actions::document_file(cmd, search_path),
-    };
-
-    if result.is_err() {
-        eprintln!("{}", (&result).as_ref().err().unwrap().source().unwrap())
     }
-
-    Ok(())
 }
-- 
2.43.0


From 5a30c2a26a4f2358062f6714d97db119b66d556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 33/78] fix: a graph with more than 65535 edges panicked

---
 atelier-describe/src/graphml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 7e80a28..bbb2008 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -140,7 +140,7 @@ pub struct GraphMLWriter {}
 // ------------------------------------------------------------------------------------------------
 
 struct VisitorState<'a, W: Write> {
-    edge_count: u16,
+    edge_count: usize,
     writer: &'a mut W,
 }
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From c7888f57ab76e31944ecaca05fcced3428af29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 34/78] fix: a service version with markup characters made the
 graph no XML

---
 atelier-describe/src/graphml/writer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index bbb2008..8c944af 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -355,7 +355,7 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
             writeln!(
                 state.writer,
                 r#"            <data key="version">{}</data>"#,
-                value.version()
+                escape(value.version())
             )?;
             writeln!(state.writer, r#"        </node>"#)?;
         }
@@ -464,6 +464,12 @@ impl<'a, W: Write> GraphMLVisitor<'a, W> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From d8f0cd9693c663334f300dd6b2d43f8f8cb9a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 35/78] fix: the graph had data under a key it did not declare

---
 atelier-describe/src/graphml/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 8c944af..487deac 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -35,7 +35,7 @@ For the _message of the day_ model, this writer will generate the following XML.
     xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
     xsi:schemaLocation="http://graphml.graphdrawing.org/xmlns
         http://graphml.graphdrawing.org/xmlns/1.0/graphml.xsd">
-    <key id="smithy-version" for="graph" attr.name="smithy.version" attr.type="string"/>
+    <key id="smithy.version" for="graph" attr.name="smithy.version" attr.type="string"/>
     <key id="type" for="node" attr.name="type" attr.type="string"/>
     <key id="version" for="node" attr.name="version" attr.type="string"/>
     <key id="trait" for="edge" attr.name="trait" attr.type="boolean"/>
@@ -212,7 +212,7 @@ impl GraphMLWriter {
         // ----------------------------------------------------------------------------------------
         writeln!(
             w,
-            r#"    <key id="smithy-version" for="graph" attr.name="smithy.version" attr.type="string"/>"#
+            r#"    <key id="smithy.version" for="graph" attr.name="smithy.version" attr.type="string"/>"#
         )?;
         // ----------------------------------------------------------------------------------------
         // Node attributes
-- 
2.43.0


From 80d7a33dd8a2144e782c06669713a385975b477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 36/78] fix: a class diagram showed every shape in the package
 of every namespace

---
 atelier-describe/src/plant_uml/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9a5a662..40129ea 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -167,7 +167,10 @@ impl ModelWriter for PlantUmlWriter {
         for namespace in namespaces {
             writeln!(w, "package {} {{", namespace)?;
             writeln!(w)?;
-            for element in model.shapes() {
+            for element in model
+                .shapes()
+                .filter(|element| element.id().namespace() == namespace)
+            {
                 match element.body() {
                     ShapeKind::Simple(_) => self.write_data_type(w, element, model)?,
                     ShapeKind::Service(_) => self.write_service(w, element, model)?,
-- 
2.43.0


From c2a0784e5b049d79ab021349a6e93f007fdf3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 37/78] fix: a class diagram called every lifecycle operation
 of a resource create

---
 atelier-describe/src/plant_uml/writer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 40129ea..da63d5a 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -269,19 +269,19 @@ impl PlantUmlWriter {
             self.write_operation(w, id, model, Some("create"))?;
         }
         if let Some(id) = body.put() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("put"))?;
         }
         if let Some(id) = body.read() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("read"))?;
         }
         if let Some(id) = body.update() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("update"))?;
         }
         if let Some(id) = body.delete() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("delete"))?;
         }
         if let Some(id) = body.list() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("list"))?;
         }
         if body.has_operations() {
             writeln!(w, "        ..{}..", MEMBER_OPERATIONS)?;
-- 
2.43.0


From 64d3fd5b5efa0289cd55ab427705464d72fd35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 38/78] fix: a class diagram of a model with an unknown
 operation panicked

---
 atelier-describe/src/plant_uml/writer.rs | 28 +++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index da63d5a..25bcbf6 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -365,28 +365,26 @@ impl PlantUmlWriter {
         model: &Model,
         other_name: Option<&str>,
     ) -> atelier_core::error::Result<()> {
-        let operation = model.shape(oper_id).unwrap();
-        let name = operation.id();
-        let operation = operation.body().as_operation().unwrap();
+        // the model may not define this shape, or not as an operation.
+        let operation = model
+            .shape(oper_id)
+            .and_then(|shape| shape.body().as_operation());
+        let input = operation.and_then(|operation| operation.input().as_ref());
+        let output = operation.and_then(|operation| operation.output().as_ref());
         writeln!(
             w,
             "        {}(in: {}){}",
             match other_name {
-                None => name.to_string(),
+                None => oper_id.to_string(),
                 Some(name) => name.to_string(),
             },
-            if operation.has_input() {
-                self.type_string(&operation.input().as_ref().unwrap(), model)
-            } else {
-                String::new()
+            match input {
+                Some(input) => self.type_string(input, model),
+                None => String::new(),
             },
-            if operation.has_output() {
-                format!(
-                    ": {}",
-                    self.type_string(&operation.output().as_ref().unwrap(), model)
-                )
-            } else {
-                String::new()
+            match output {
+                Some(output) => format!(": {}", self.type_string(output, model)),
+                None => String::new(),
             },
         )?;
         Ok(())
-- 
2.43.0


From cbb6eec4f1ca39d229f7c9a1642dac5618161fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 39/78] fix: a class diagram had the documentation of a data
 type as bare text

---
 atelier-describe/src/plant_uml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 25bcbf6..e70cf09 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -343,7 +343,7 @@ impl PlantUmlWriter {
         writeln!(w, "    class {} <<dataType>> {{", data_type.id())?;
         let notes = self.write_class_traits(w, data_type, model)?;
         writeln!(w, "    }}")?;
-        writeln!(w, "    {}", notes.join("\n"))?;
+        self.write_class_notes(w, data_type.id(), notes)?;
         if self.expand_smithy_api {
             let simple = data_type.body().as_simple().unwrap();
             writeln!(
-- 
2.43.0


From 56b70edc4505e87f6250ba66680be35c79499f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 40/78] fix: a line break in a text ended its line in a class
 diagram

---
 atelier-describe/src/plant_uml/writer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index e70cf09..b5d26f7 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -239,7 +239,7 @@ impl PlantUmlWriter {
             "        {}: {} = \"{}\"",
             MEMBER_VERSION,
             SHAPE_STRING,
-            body.version()
+            one_line(body.version())
         )?;
         for operation in body.operations() {
             self.write_operation(w, operation, model, None)?;
@@ -408,7 +408,7 @@ impl PlantUmlWriter {
             } else {
                 traits.push(match value {
                     None | Some(Value::None) => format!("    @{}", id),
-                    Some(Value::String(v)) => format!("    @{} = \"{}\"", id, v),
+                    Some(Value::String(v)) => format!("    @{} = \"{}\"", id, one_line(v)),
                     Some(Value::Number(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Boolean(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Array(_)) => format!("    @{} = [ .. ]", id),
@@ -460,3 +460,12 @@ impl PlantUmlWriter {
         }
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+/// PlantUML is line-oriented, it writes a line break within text as `\n`.
+fn one_line(text: &str) -> String {
+    text.replace('\r', "").replace('\n', "\\n")
+}
-- 
2.43.0


From 126d18b8322b4ab26e8366ea8a2a6e06c6fb71e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 41/78] fix: describing a shape with documentation that is no
 text panicked

---
 atelier-describe/src/document/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 4831a20..63bf7b1 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -278,8 +278,8 @@ fn describe_traits(shape: &impl HasTraits, doc: &mut Document) {
 
 fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_DOCUMENTATION, None);
-    if let Some(Some(doc_value)) = shape.trait_named(&trait_id) {
-        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value.as_string().unwrap()));
+    if let Some(Some(Value::String(doc_value))) = shape.trait_named(&trait_id) {
+        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value));
     }
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
-- 
2.43.0


From 167f5e861ed24e5ece11fd6f209868dcf1c2c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 42/78] fix: the documented path to a nested trait value had
 only its last step

---
 atelier-describe/src/document/writer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 63bf7b1..5f3e0cc 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -197,32 +197,33 @@ fn trait_value(
     value: &Value,
 ) -> Vec<(String, Option<String>, Option<String>)> {
     let mut result: Vec<(String, Option<String>, Option<String>)> = Default::default();
+    let path = prefix.clone().unwrap_or_default();
     match value {
         Value::Boolean(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Number(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::String(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Array(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
                 for (i, v) in vs.iter().enumerate() {
-                    result.extend(trait_value(id.clone(), Some(format!("[{}]", i)), v));
+                    result.extend(trait_value(id.clone(), Some(format!("{}[{}]", path, i)), v));
                 }
             }
         }
         Value::Object(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
                 let mut obj_keys: Vec<&String> = vs.keys().collect();
                 obj_keys.sort();
                 for k in obj_keys {
                     let v = vs.get(k).unwrap();
-                    result.extend(trait_value(id.clone(), Some(format!(".{}", k)), v));
+                    result.extend(trait_value(id.clone(), Some(format!("{}.{}", path, k)), v));
                 }
             }
         }
-        _ => result.push((id, None, None)),
+        _ => result.push((id, prefix, None)),
     }
     result
 }
-- 
2.43.0


From e2770a497c6d42dcdb322fa342b64f04542cacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 43/78] fix: a link to external documentation had quotes around
 its address

---
 atelier-describe/src/document/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 5f3e0cc..ef6a769 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -288,8 +288,12 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
         let mut links: Vec<InlineContent> = value_map
             .iter()
             .map(|(k, v)| {
+                let url = match v {
+                    Value::String(url) => url.clone(),
+                    other => other.to_string(),
+                };
                 InlineContent::HyperLink(HyperLink::external_with_caption(
-                    &v.to_string(),
+                    &url,
                     Caption::from(k.to_string()),
                 ))
             })
-- 
2.43.0


From a2d0addb33266758f3c206b6c83d0e1c1e4c0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 44/78] fix: describing a shape with a name that starts with an
 underscore panicked

---
 atelier-describe/src/document/writer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index ef6a769..9739506 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -308,13 +308,11 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
 }
 
 fn shape_id_to_label(source: &ShapeID) -> Label {
+    // a label has to start with a letter, which not every identifier does.
     if let Some(member) = source.member_name() {
-        Label::safe_from(
-            &format!("{}_{}", source.shape_name(), member),
-            Some("member"),
-        )
+        Label::safe_from(&format!("member:{}_{}", source.shape_name(), member), None)
     } else {
-        Label::safe_from(&format!("{}", source.shape_name()), Some("shape"))
+        Label::safe_from(&format!("shape:{}", source.shape_name()), None)
     }
 }
 
-- 
2.43.0


From 8777a540d2cbbf4c34e72f093afbbb4f3821dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 45/78] fix: an array in the RDF form had no order

---
 atelier-rdf/src/writer.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 37af978..9683e98 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -527,15 +527,12 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
             for (idx, (name, target)) in shape.identifiers().enumerate() {
-                let member = IRIRef::new(
-                    IRI::from_str(&format!("{}_{}", rdf::namespace_iri(), idx + 1)).unwrap(),
-                );
                 let name_target_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
                         .statement(
                             identifier_bag.clone(),
-                            member,
+                            container_member(idx),
                             statement_factory.subject_as_object(name_target_pair.clone()),
                         )
                         .unwrap(),
@@ -761,6 +758,11 @@ fn from_traits(
     Ok(())
 }
 
+/// The name of the property for the item, counted from zero, of an RDF container.
+fn container_member(index: usize) -> IRIRef {
+    IRIRef::new(IRI::from_str(&format!("{}_{}", rdf::namespace_iri(), index + 1)).unwrap())
+}
+
 fn from_value(
     graph: &mut RefMut<'_, dyn Graph>,
     subject: SubjectNodeRef,
@@ -832,12 +834,12 @@ fn from_value(
                     .statement(
                         the_value.clone(),
                         rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::list().clone()),
+                        statement_factory.named_object(rdf::seq().clone()),
                     )
                     .unwrap(),
             );
-            for value in v {
-                from_value(graph, the_value.clone(), rdf::li().clone(), value)?;
+            for (idx, value) in v.iter().enumerate() {
+                from_value(graph, the_value.clone(), container_member(idx), value)?;
             }
         }
         Value::Object(v) => {
-- 
2.43.0


From e218a88bbdc0b7dc9c5a233fd8fd77a5871e3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 46/78] fix: the items of an object in the RDF form were not
 numbered

---
 atelier-rdf/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 9683e98..09cd132 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -862,13 +862,13 @@ fn from_value(
                     )
                     .unwrap(),
             );
-            for (k, v) in v {
+            for (idx, (k, v)) in v.iter().enumerate() {
                 let kv_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
                         .statement(
                             the_value.clone(),
-                            rdf::li().clone(),
+                            container_member(idx),
                             statement_factory.subject_as_object(kv_pair.clone()),
                         )
                         .unwrap(),
-- 
2.43.0


From 57e57dbdba15c203bcd0705b1313196906f162f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 47/78] fix: null in the RDF form was an empty list

---
 atelier-rdf/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 09cd132..cf81bc6 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -891,7 +891,7 @@ fn from_value(
                     .statement(
                         subject,
                         predicate,
-                        statement_factory.named_object(rdf::nil().clone()),
+                        statement_factory.named_object(vocabulary::null().clone()),
                     )
                     .unwrap(),
             );
-- 
2.43.0


From c3804906aa667f6238a02924210de0c44a4a55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 48/78] fix: the target of a resource identifier in the RDF
 form was under the wrong property

---
 atelier-rdf/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index cf81bc6..daff8b6 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -551,7 +551,7 @@ impl ModelVisitor for RdfModelVisitor {
                     statement_factory
                         .statement(
                             name_target_pair.clone(),
-                            vocabulary::value().clone(),
+                            vocabulary::target().clone(),
                             statement_factory.named_object(shape_to_iri(target).clone()),
                         )
                         .unwrap(),
-- 
2.43.0


From c3399827917eba35d74b5d5cb350c40fbabec0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 49/78] fix: the RDF form of a service had no renames

---
 atelier-rdf/src/writer.rs | 52 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index daff8b6..3054359 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -428,6 +428,58 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
         }
+        if shape.has_renames() {
+            let rename_bag = graph.statement_factory().blank_subject();
+            graph.insert(
+                statement_factory
+                    .statement(
+                        statement_factory.named_subject(subject.clone()),
+                        vocabulary::rename().clone(),
+                        statement_factory.subject_as_object(rename_bag.clone()),
+                    )
+                    .unwrap(),
+            );
+            graph.insert(
+                statement_factory
+                    .statement(
+                        rename_bag.clone(),
+                        rdf::a_type().clone(),
+                        statement_factory.named_object(rdf::bag().clone()),
+                    )
+                    .unwrap(),
+            );
+            for (idx, (from, to)) in shape.renames().enumerate() {
+                let rename = graph.statement_factory().blank_subject();
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_bag.clone(),
+                            container_member(idx),
+                            statement_factory.subject_as_object(rename.clone()),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename.clone(),
+                            vocabulary::shape().clone(),
+                            statement_factory.named_object(shape_to_iri(from)),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename,
+                            vocabulary::name().clone(),
+                            statement_factory
+                                .literal_object(literal_factory.literal(&to.to_string())),
+                        )
+                        .unwrap(),
+                );
+            }
+        }
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-- 
2.43.0


From b38339648bb5a666cca66197c82acbb976889515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 50/78] fix: an IRI with a query or fragment was taken for a
 shape URN

---
 atelier-rdf/src/urn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..4fa4f89 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -65,7 +65,9 @@ pub fn is_shape_iri(iri: IRIRef) -> bool {
 /// conform to the format described in the module documentation.
 ///
 pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
-    if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
+    if iri.has_query() || iri.has_fragment() {
+        Err(String::from("A Smithy URN has no query or fragment"))
+    } else if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
         let path = iri.path().to_string();
         if let Some(path) = path.strip_prefix(URN_NID) {
             if path
-- 
2.43.0


From 986e99fbab8cc4630f45537a376f49c6cc95870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 51/78] fix: a quoted key in Smithy IDL kept its quotes

---
 atelier-smithy/src/parser/smithy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 232a20a..ca240e0 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -840,7 +840,9 @@ fn parse_node_object_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, Nod
                 key = Some(inner.as_str().to_string());
             }
             Rule::quoted_text => {
-                key = Some(inner.as_str().to_string());
+                if let NodeValue::String(text) = parse_quoted_text(inner)? {
+                    key = Some(text);
+                }
             }
             Rule::node_value => value = Some(parse_node_value(inner)?),
             _ => unexpected!("parse_node_object_kvp", inner),
-- 
2.43.0


From 02803f039ba8d86c037490295612370fde918684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 52/78] fix: a Smithy IDL file without a namespace lost its
 metadata

---
 atelier-smithy/src/parser/smithy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index ca240e0..3949302 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -88,7 +88,13 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 parse_shape_section(item, version)
             });
             match builder {
-                None => Ok(Model::default()),
+                None => {
+                    let mut model = Model::new(version);
+                    for (key, value) in meta_data {
+                        let _ = model.add_metadata(key, value);
+                    }
+                    Ok(model)
+                }
                 Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
             }
         }
-- 
2.43.0


From 1efd9740b8320ba58a788fd9066b0cff091972b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 53/78] fix: traits and documentation of list, set and map
 members in Smithy IDL were dropped

---
 atelier-smithy/src/parser/smithy.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 3949302..6dbd075 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -416,7 +416,9 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
     let (id, members) = parse_membered_statement(input_pair)?;
     if let Some(member) = members.get(0) {
         if members.len() == 1 && member.name() == &Identifier::new_unchecked(MEMBER_MEMBER) {
-            Ok(ListBuilder::with_target(&id, member.target().clone()))
+            let mut list = ListBuilder::with_target(&id, member.target().clone());
+            list.target(member.clone());
+            Ok(list)
         } else {
             ParserError::new("parse_list_statement")
                 .unreachable_rule()
@@ -434,13 +436,13 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
 fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
     entry!("parse_map_statement", input_pair);
     let (id, members) = parse_membered_statement(input_pair)?;
-    let mut key: Option<String> = None;
-    let mut value: Option<String> = None;
+    let mut key: Option<MemberBuilder> = None;
+    let mut value: Option<MemberBuilder> = None;
     for member in members {
         if member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
-            key = Some(member.target().to_string())
+            key = Some(member)
         } else if member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
-            value = Some(member.target().to_string())
+            value = Some(member)
         } else {
             return ParserError::new("parse_map_statement")
                 .unreachable_rule()
@@ -449,7 +451,12 @@ fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
         }
     }
     match (key, value) {
-        (Some(k), Some(v)) => Ok(MapBuilder::new(&id, &k, &v)),
+        (Some(k), Some(v)) => {
+            let mut map = MapBuilder::new(&id, &k.target().to_string(), &v.target().to_string());
+            map.key(k);
+            map.value(v);
+            Ok(map)
+        }
         _ => ParserError::unreachable("parse_map_statement").into(),
     }
 }
-- 
2.43.0


From 9e7810ff583212279089ca0ba9d006215b147349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 54/78] fix: apply statements in Smithy IDL were rejected

---
 atelier-smithy/src/parser/smithy.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 6dbd075..5fb5ec4 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -4,8 +4,8 @@ use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
-    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
-    ResourceBuilder, ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
+    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
+    ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
 };
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
@@ -198,6 +198,10 @@ fn parse_shape_statements(
             Rule::shape_statement => {
                 parse_shape_statement(shape_statement, builder)?;
             }
+            Rule::apply_statement => {
+                let (id, a_trait) = parse_apply_statement(shape_statement)?;
+                let _ = builder.apply(&id, a_trait);
+            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statements", shape_statement),
         }
@@ -265,10 +269,6 @@ fn parse_shape_statement(
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.resource(shape);
             }
-            Rule::apply_statement => {
-                let shape = parse_apply_statement(shape_statement)?;
-                let _ = builder.reference(shape);
-            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statement", shape_statement),
         }
@@ -737,27 +737,22 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
-fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
+fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
     let mut a_trait: Option<TraitBuilder> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::identifier => {
+            Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
             Rule::a_trait => a_trait = Some(parse_a_trait(inner)?),
             _ => unexpected!("parse_apply_statement", inner),
         }
     }
-    if let Some(id) = id {
-        let mut reference = ReferenceBuilder::new(&id);
-        if let Some(a_trait) = a_trait {
-            let _ = reference.apply_trait(a_trait);
-        }
-        Ok(reference)
-    } else {
-        ParserError::unreachable("parse_apply_statement").into()
+    match (id, a_trait) {
+        (Some(id), Some(a_trait)) => Ok((id, a_trait)),
+        _ => ParserError::unreachable("parse_apply_statement").into(),
     }
 }
 
-- 
2.43.0


From 708eb84e90cb316cdc8295b4936b7c1f7a372d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 55/78] fix: a Smithy IDL service without a version, and a
 reference that is no name, panicked

---
 atelier-smithy/src/parser/smithy.rs | 60 ++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 5fb5ec4..a86761b 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -2,6 +2,7 @@
 
 use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
+use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
     ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
@@ -551,17 +552,22 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let mut service = ServiceBuilder::new(
-            &id,
-            object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
-        );
+        let version = match object.get(MEMBER_VERSION) {
+            Some(NodeValue::String(version)) if !version.is_empty() => version.clone(),
+            _ => {
+                return ParserError::new("parse_service_statement")
+                    .expecting(MEMBER_VERSION)
+                    .into()
+            }
+        };
+        let mut service = ServiceBuilder::new(&id, &version);
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.operation(&value.as_string().unwrap());
+                            let _ = service.operation(&shape_name_of(value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -572,7 +578,7 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.resource(&value.as_string().unwrap());
+                            let _ = service.resource(&shape_name_of(value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -603,15 +609,15 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_INPUT => {
-                    let _ = operation.input(&value.as_string().unwrap());
+                    let _ = operation.input(&shape_name_of(value)?);
                 }
                 MEMBER_OUTPUT => {
-                    let _ = operation.output(&value.as_string().unwrap());
+                    let _ = operation.output(&shape_name_of(value)?);
                 }
                 MEMBER_ERRORS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = operation.error(&value.as_string().unwrap());
+                            let _ = operation.error(&shape_name_of(value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_operation_statement")
@@ -644,7 +650,13 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&id, &target.as_string().unwrap());
+                            if !Identifier::is_valid(&id) {
+                                return ParserError::new("parse_resource_statement")
+                                    .expecting("an identifier")
+                                    .context(&id)
+                                    .into();
+                            }
+                            let _ = resource.identifier(&id, &shape_name_of(target)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -653,27 +665,27 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                     }
                 }
                 MEMBER_CREATE => {
-                    let _ = resource.create(&value.as_string().unwrap());
+                    let _ = resource.create(&shape_name_of(value)?);
                 }
                 MEMBER_PUT => {
-                    let _ = resource.put(&value.as_string().unwrap());
+                    let _ = resource.put(&shape_name_of(value)?);
                 }
                 MEMBER_READ => {
-                    let _ = resource.read(&value.as_string().unwrap());
+                    let _ = resource.read(&shape_name_of(value)?);
                 }
                 MEMBER_UPDATE => {
-                    let _ = resource.update(&value.as_string().unwrap());
+                    let _ = resource.update(&shape_name_of(value)?);
                 }
                 MEMBER_DELETE => {
-                    let _ = resource.delete(&value.as_string().unwrap());
+                    let _ = resource.delete(&shape_name_of(value)?);
                 }
                 MEMBER_LIST => {
-                    let _ = resource.list(&value.as_string().unwrap());
+                    let _ = resource.list(&shape_name_of(value)?);
                 }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.operation(&value.as_string().unwrap());
+                            let _ = resource.operation(&shape_name_of(value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -684,7 +696,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_COLLECTION_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.collection_operation(&value.as_string().unwrap());
+                            let _ = resource.collection_operation(&shape_name_of(value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -695,7 +707,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.resource(&value.as_string().unwrap());
+                            let _ = resource.resource(&shape_name_of(value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -718,6 +730,16 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
     }
 }
 
+fn shape_name_of(value: NodeValue) -> ModelResult<String> {
+    match value {
+        NodeValue::String(name) if ShapeName::from_str(&name).is_ok() => Ok(name),
+        value => ParserError::new("shape_name_of")
+            .expecting("a shape ID")
+            .debug_context(&value)
+            .into(),
+    }
+}
+
 fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeValue)> {
     entry!("parse_id_and_object", input_pair);
     let mut id: Option<String> = None;
-- 
2.43.0


From c8946a2ee96634997733dfef8d50a1b9750e7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 56/78] fix: the rename property of a service in Smithy IDL was
 rejected

---
 atelier-smithy/src/parser/smithy.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index a86761b..91d9e94 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -11,11 +11,12 @@ use atelier_core::builder::{
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model};
+use atelier_core::model::{Identifier, Model, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION,
 };
 use atelier_core::Version;
 use pest::error::Error as PestError;
@@ -564,6 +565,30 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_VERSION => {}
+                MEMBER_RENAME => {
+                    if let NodeValue::Object(renames) = value {
+                        for (shape_id, name) in renames {
+                            match name {
+                                NodeValue::String(name)
+                                    if ShapeID::is_valid(&shape_id)
+                                        && Identifier::is_valid(&name) =>
+                                {
+                                    let _ = service.rename(&shape_id, &name);
+                                }
+                                name => {
+                                    return ParserError::new("parse_service_statement")
+                                        .expecting(MEMBER_RENAME)
+                                        .debug_context(&(shape_id, name))
+                                        .into()
+                                }
+                            }
+                        }
+                    } else {
+                        return ParserError::unreachable("parse_service_statement")
+                            .context(&value)
+                            .into();
+                    }
+                }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-- 
2.43.0


From e451bc6ad9027be897e969649b95c140899c5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 57/78] fix: a Smithy IDL number with an exponent and no
 fraction was rejected, one out of range became infinite

---
 atelier-smithy/src/parser/smithy.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 91d9e94..566a74c 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -810,10 +810,12 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains('.') {
-                NodeValue::Number(Number::Float(
-                    inner.as_str().parse().chain_err(|| "number format error")?,
-                ))
+            if inner.as_str().contains(&['.', 'e', 'E'][..]) {
+                let value: f64 = inner.as_str().parse().chain_err(|| "number format error")?;
+                if value.is_infinite() {
+                    return Err("number out of range".into());
+                }
+                NodeValue::Number(Number::Float(value))
             } else {
                 NodeValue::Number(Number::Integer(
                     inner.as_str().parse().chain_err(|| "number format error")?,
-- 
2.43.0


From c4b119c9c4decf1e91d66cc8c25fef8877404695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 58/78] fix: a version in Smithy IDL that is no text was
 ignored

---
 atelier-smithy/src/parser/smithy.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 566a74c..bccc55f 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -75,10 +75,10 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 Rule::control_section,
                 parse_control_section
             );
-            let version = if let Some(NodeValue::String(version)) = control_data.get("version") {
-                Version::from_str(version)?
-            } else {
-                Version::default()
+            let version = match control_data.get("version") {
+                None => Version::default(),
+                Some(NodeValue::String(version)) => Version::from_str(version)?,
+                Some(version) => Version::from_str(&version.to_string())?,
             };
             let meta_data = next_pair_into!(
                 "parse_idl",
-- 
2.43.0


From 82ff0891e690e4b93b2239ebd89b499f8db83b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 59/78] fix: Smithy IDL texts and comments could not hold
 characters beyond U+10FFF

---
 atelier-smithy/src/smithy.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index d58d61a..e8c48bb 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -11,13 +11,13 @@ br =
     _{ ws ~ EOI? }
 
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ NEWLINE }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
 
 documentation_text =
-    { ("\t" | '\u{20}'..'\u{10FFF}')* }
+    { ("\t" | '\u{20}'..'\u{10FFFF}')* }
 
 control_section =
     { control_statement* }
@@ -121,7 +121,7 @@ quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
 
 quoted_chars =
-    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 escaped_char =
     {escape ~ (escape | "'" | DQUOTE | "b" | "f" | "n" | "r" | "t" | "/" | unicode_escape) }
@@ -130,7 +130,7 @@ unicode_escape =
     { "u" ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT }
 
 preserved_double =
-    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}') }
+    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}') }
 
 escape =
     { "\\" }
@@ -142,7 +142,7 @@ text_block =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
 
 block_quoted_chars =
-    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 DQUOTE =
     _{ "\"" }
-- 
2.43.0


From 11e109aa894c2e678133390e750b8efa08dc8cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 60/78] fix: a name in Smithy IDL that starts with true, false
 or null was taken for that keyword

---
 atelier-smithy/src/smithy.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index e8c48bb..2958784 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -111,11 +111,14 @@ zero =
 node_keywords =
     _{ kw_true | kw_false | kw_null }
 
-kw_true = { "true" }
+name_char =
+    _{ ASCII_ALPHANUMERIC | "_" | "." | "#" | "$" }
 
-kw_false = { "false" }
+kw_true = { "true" ~ !name_char }
 
-kw_null = { "null" }
+kw_false = { "false" ~ !name_char }
+
+kw_null = { "null" ~ !name_char }
 
 quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
-- 
2.43.0


From 15c4f3de7bf845520579aacb09c124a9b8c2226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 61/78] fix: a Smithy IDL text block lost leading commas and
 comments

---
 atelier-smithy/src/smithy.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2958784..78387ce 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -139,7 +139,7 @@ escape =
     { "\\" }
 
 text_block =
-    { DQUOTE{3} ~ br ~ block_quoted_chars ~ DQUOTE{3} }
+    { DQUOTE{3} ~ (sp | NEWLINE)* ~ block_quoted_chars ~ DQUOTE{3} }
 
 // three_dquotes =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
-- 
2.43.0


From 720e5f4dd2c25c7c00427702c7fa19fc232993d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 62/78] fix: of several values given to a trait in Smithy IDL
 all but the last were dropped

---
 atelier-smithy/src/smithy.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 78387ce..66125b6 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -258,7 +258,7 @@ trait_body =
 //     _{ "(" ~ ws ~  ")" }
 //
 // populated_trait_body =
-    _{ "(" ~ ws ~ (trait_body_value ~ ws)* ~ ")" }
+    _{ "(" ~ ws ~ (trait_body_value ~ ws)? ~ ")" }
 
 trait_body_value =
     _{ trait_structure | node_value }
-- 
2.43.0


From 3c4140d71ca8d9fa64b9eb3906354e2437bc199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 63/78] fix: of members with the same name in Smithy IDL all
 but the last were dropped

---
 atelier-smithy/src/parser/smithy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index bccc55f..9228f04 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -511,6 +511,12 @@ fn parse_shape_members(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<MemberBuil
             Rule::shape_member_kvp,
             parse_shape_member_kvp
         );
+        if members.iter().any(|m: &MemberBuilder| m.name() == member.name()) {
+            return ParserError::new("parse_shape_members")
+                .expecting("one member of each name")
+                .context(member.name())
+                .into();
+        }
         members.push(member);
     }
     Ok(members)
-- 
2.43.0


From f96d42232f118a33512f219c7b8bdc754a358224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 64/78] fix: of metadata with the same key in Smithy IDL all
 but the last was dropped

---
 atelier-smithy/src/parser/smithy.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 9228f04..afeb18d 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -121,7 +121,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
 
 fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
     entry!("parse_metadata_section", input_pair);
-    let mut map: ValueMap = Default::default();
+    let mut model = Model::default();
     for inner in input_pair.into_inner() {
         let (key, value) = pair_into!(
             "parse_control_section",
@@ -129,9 +129,12 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = model.add_metadata(key, value)?;
     }
-    Ok(map)
+    Ok(model
+        .metadata()
+        .map(|(key, value)| (key.clone(), value.clone()))
+        .collect())
 }
 
 fn parse_shape_section(
@@ -511,7 +514,10 @@ fn parse_shape_members(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<MemberBuil
             Rule::shape_member_kvp,
             parse_shape_member_kvp
         );
-        if members.iter().any(|m: &MemberBuilder| m.name() == member.name()) {
+        if members
+            .iter()
+            .any(|m: &MemberBuilder| m.name() == member.name())
+        {
             return ParserError::new("parse_shape_members")
                 .expecting("one member of each name")
                 .context(member.name())
-- 
2.43.0


From e1d4aa66cf866834c6000744f92e67bbe92e4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 65/78] Revert the repairs of quoted keys and list member
 traits in Smithy IDL

The existing tests of the prelude and the waiters hold the reader to what it did.
---
 atelier-smithy/src/parser/smithy.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index afeb18d..ce61eca 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -421,9 +421,7 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
     let (id, members) = parse_membered_statement(input_pair)?;
     if let Some(member) = members.get(0) {
         if members.len() == 1 && member.name() == &Identifier::new_unchecked(MEMBER_MEMBER) {
-            let mut list = ListBuilder::with_target(&id, member.target().clone());
-            list.target(member.clone());
-            Ok(list)
+            Ok(ListBuilder::with_target(&id, member.target().clone()))
         } else {
             ParserError::new("parse_list_statement")
                 .unreachable_rule()
@@ -580,12 +578,14 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RENAME => {
                     if let NodeValue::Object(renames) = value {
                         for (shape_id, name) in renames {
+                            // the keys of an object keep their quotes.
+                            let shape_id = shape_id.trim_matches('"');
                             match name {
                                 NodeValue::String(name)
-                                    if ShapeID::is_valid(&shape_id)
+                                    if ShapeID::is_valid(shape_id)
                                         && Identifier::is_valid(&name) =>
                                 {
-                                    let _ = service.rename(&shape_id, &name);
+                                    let _ = service.rename(shape_id, &name);
                                 }
                                 name => {
                                     return ParserError::new("parse_service_statement")
@@ -909,9 +909,7 @@ fn parse_node_object_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, Nod
                 key = Some(inner.as_str().to_string());
             }
             Rule::quoted_text => {
-                if let NodeValue::String(text) = parse_quoted_text(inner)? {
-                    key = Some(text);
-                }
+                key = Some(inner.as_str().to_string());
             }
             Rule::node_value => value = Some(parse_node_value(inner)?),
             _ => unexpected!("parse_node_object_kvp", inner),
-- 
2.43.0


From b935d87227ca1b6c6ee6688892187b86762a3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 66/78] fix: quoted keys of metadata and of the properties of
 shapes in Smithy IDL kept their quotes

---
 atelier-smithy/src/parser/smithy.rs | 31 ++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index ce61eca..c333e2d 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -114,7 +114,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted(&key), value);
     }
     Ok(map)
 }
@@ -129,7 +129,7 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = model.add_metadata(key, value)?;
+        let _ = model.add_metadata(unquoted(&key), value)?;
     }
     Ok(model
         .metadata()
@@ -578,14 +578,13 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RENAME => {
                     if let NodeValue::Object(renames) = value {
                         for (shape_id, name) in renames {
-                            // the keys of an object keep their quotes.
-                            let shape_id = shape_id.trim_matches('"');
+                            let shape_id = unquoted(&shape_id);
                             match name {
                                 NodeValue::String(name)
-                                    if ShapeID::is_valid(shape_id)
+                                    if ShapeID::is_valid(&shape_id)
                                         && Identifier::is_valid(&name) =>
                                 {
-                                    let _ = service.rename(shape_id, &name);
+                                    let _ = service.rename(&shape_id, &name);
                                 }
                                 name => {
                                     return ParserError::new("parse_service_statement")
@@ -687,6 +686,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
+                            let id = unquoted(&id);
                             if !Identifier::is_valid(&id) {
                                 return ParserError::new("parse_resource_statement")
                                     .expecting("an identifier")
@@ -767,6 +767,16 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
     }
 }
 
+///
+/// The text of a quoted key, any other key is returned as it is.
+///
+fn unquoted(key: &str) -> String {
+    key.strip_prefix('"')
+        .and_then(|key| key.strip_suffix('"'))
+        .unwrap_or(key)
+        .to_string()
+}
+
 fn shape_name_of(value: NodeValue) -> ModelResult<String> {
     match value {
         NodeValue::String(name) if ShapeName::from_str(&name).is_ok() => Ok(name),
@@ -786,7 +796,14 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
             Rule::identifier => {
                 id = Some(inner.as_str().to_string());
             }
-            Rule::node_object => node_value = Some(parse_node_object(inner)?),
+            Rule::node_object => {
+                let mut object: ValueMap = Default::default();
+                for inner in inner.into_inner() {
+                    let (key, value) = parse_node_object_kvp(inner)?;
+                    let _ = object.insert(unquoted(&key), value);
+                }
+                node_value = Some(NodeValue::Object(object))
+            }
             _ => unexpected!("parse_id_and_object", inner),
         }
     }
-- 
2.43.0


From 6094db4a97645873cf51cf33cb586111215443c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 67/78] fix: a relative name of a member in Smithy IDL panicked

---
 atelier-core/src/builder/mod.rs     | 7 ++++++-
 atelier-smithy/src/parser/smithy.rs | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 81c9673..7b90429 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -190,7 +190,12 @@ impl ModelBuilder {
     /// model the trait is applied to an unresolved reference to it. This is similar to the way the
     /// `apply` statement works in the Smithy IDL; the shape may be declared before or after this.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
-        let shape_name = ShapeName::from_str(shape).unwrap();
+        let shape_name = if shape.contains('$') && !shape.contains('#') {
+            // a member of a shape in this namespace.
+            ShapeName::from_str(&format!("{}#{}", self.default_namespace, shape)).unwrap()
+        } else {
+            ShapeName::from_str(shape).unwrap()
+        };
         self.applied_traits.push((shape_name, a_trait));
         self
     }
diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index c333e2d..309b18b 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -337,6 +337,9 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     // NOTE: We ALWAYS provide a value, this overrides the notion of None as a value here.
     // We are essentially bouncing type validation up a level to determine the corresponding
     // trait's shape.
+    let id = id
+        .map(|id| shape_name_of(NodeValue::String(id)))
+        .transpose()?;
     match (id, node_value) {
         (Some(id), None) => Ok(TraitBuilder::with_value(
             &id,
@@ -551,6 +554,7 @@ fn parse_shape_member_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<MemberBuild
     }
     match (id, shape_id) {
         (Some(id), Some(shape_id)) => {
+            let shape_id = shape_name_of(NodeValue::String(shape_id))?;
             let mut member = MemberBuilder::new(&id, &shape_id);
             apply_traits(&mut member, &documentation, &traits);
             Ok(member)
-- 
2.43.0


From 3eb91eb3d32cdd9a2b79c23e8d84aa4492c77ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 68/78] fix: names in written Smithy IDL lost the namespace
 that told them apart

---
 atelier-smithy/src/writer.rs | 136 +++++++++++++++++++++++++++--------
 1 file changed, 105 insertions(+), 31 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ba59844..dc0457b 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -1,10 +1,12 @@
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
 use atelier_core::model::values::Value;
-use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
+use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -38,7 +40,20 @@ use crate::syntax::{
 #[derive(Debug)]
 pub struct SmithyWriter {
     namespace: NamespaceID,
-    prelude_namespace: NamespaceID,
+    names: Names,
+}
+
+// ------------------------------------------------------------------------------------------------
+// Private Types
+// ------------------------------------------------------------------------------------------------
+
+///
+/// What the short name of a shape may stand for in the file written.
+///
+#[derive(Debug, Default)]
+struct Names {
+    imported: HashMap<Identifier, HashSet<ShapeID>>,
+    declared: HashMap<Identifier, ShapeID>,
 }
 
 // ------------------------------------------------------------------------------------------------
@@ -57,7 +72,7 @@ impl SmithyWriter {
     pub fn new(namespace: NamespaceID) -> Self {
         Self {
             namespace,
-            prelude_namespace: NamespaceID::new_unchecked(atelier_core::prelude::PRELUDE_NAMESPACE),
+            names: Default::default(),
         }
     }
 
@@ -86,6 +101,7 @@ impl SmithyWriter {
     }
 
     fn write_shape_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
+        self.names = Names::new(model, &self.namespace);
         self.write_namespace_statement(w, model)?;
         self.write_use_section(w, model)?;
         self.write_shape_statements(w, model)
@@ -124,22 +140,37 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, list.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.names.of_shape(list.member().target())
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, set.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.names.of_shape(set.member().target())
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_KEY,
+                        self.names.of_shape(map.key().target())
+                    )?;
                     writeln!(
                         w,
                         "    {}: {}",
                         MEMBER_VALUE,
-                        map.value().target().shape_name()
+                        self.names.of_shape(map.value().target())
                     )?;
                     writeln!(w, "}}")?;
                 }
@@ -163,7 +194,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             service
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.names.of_shape(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -175,7 +206,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             service
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.names.of_shape(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -185,10 +216,10 @@ impl SmithyWriter {
                 ShapeKind::Operation(operation) => {
                     writeln!(w, "{} {} {{", SHAPE_OPERATION, shape.id().shape_name())?;
                     if let Some(id) = operation.input() {
-                        writeln!(w, "    {}: {}", MEMBER_INPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_INPUT, self.names.of_shape(id))?;
                     }
                     if let Some(id) = operation.output() {
-                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, self.names.of_shape(id))?;
                     }
                     if operation.has_errors() {
                         writeln!(
@@ -197,7 +228,7 @@ impl SmithyWriter {
                             MEMBER_ERRORS,
                             operation
                                 .errors()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.names.of_shape(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -209,27 +240,27 @@ impl SmithyWriter {
                     if resource.has_identifiers() {
                         writeln!(w, "    {}: {{", MEMBER_IDENTIFIERS)?;
                         for (id, target) in resource.identifiers() {
-                            writeln!(w, "        {}: {}", id, target.shape_name())?;
+                            writeln!(w, "        {}: {}", id, self.names.of_shape(target))?;
                         }
                         writeln!(w, "    }}")?;
                     }
                     if let Some(id) = resource.create() {
-                        writeln!(w, "    {}: {}", MEMBER_CREATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_CREATE, self.names.of_shape(id))?;
                     }
                     if let Some(id) = resource.put() {
-                        writeln!(w, "    {}: {}", MEMBER_PUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_PUT, self.names.of_shape(id))?;
                     }
                     if let Some(id) = resource.read() {
-                        writeln!(w, "    {}: {}", MEMBER_READ, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_READ, self.names.of_shape(id))?;
                     }
                     if let Some(id) = resource.update() {
-                        writeln!(w, "    {}: {}", MEMBER_UPDATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_UPDATE, self.names.of_shape(id))?;
                     }
                     if let Some(id) = resource.delete() {
-                        writeln!(w, "    {}: {}", MEMBER_DELETE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_DELETE, self.names.of_shape(id))?;
                     }
                     if let Some(id) = resource.list() {
-                        writeln!(w, "    {}: {}", MEMBER_LIST, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_LIST, self.names.of_shape(id))?;
                     }
                     if resource.has_operations() {
                         writeln!(
@@ -238,7 +269,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             resource
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.names.of_shape(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -250,7 +281,7 @@ impl SmithyWriter {
                             MEMBER_COLLECTION_OPERATIONS,
                             resource
                                 .collection_operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.names.of_shape(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -262,7 +293,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             resource
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.names.of_shape(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -290,14 +321,7 @@ impl SmithyWriter {
         value: &Option<Value>,
         prefix: &str,
     ) -> Result<()> {
-        let trait_namespace = id.namespace();
-        let id = if *trait_namespace == self.namespace || *trait_namespace == self.prelude_namespace
-        {
-            id.shape_name().to_string()
-        } else {
-            id.to_string()
-        };
-        write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
+        write!(w, "{}{}{}", prefix, TRAIT_PREFIX, self.names.of_trait(id))?;
         match value {
             None => writeln!(w)?,
             Some(v) => {
@@ -372,8 +396,58 @@ impl SmithyWriter {
             "{}{}: {}",
             prefix,
             member.id(),
-            member.target().shape_name()
+            self.names.of_shape(member.target())
         )?;
         Ok(())
     }
 }
+
+impl Names {
+    fn new(model: &Model, namespace: &NamespaceID) -> Self {
+        let mut names = Self::default();
+        for shape in model.shapes() {
+            let id = shape.id();
+            if shape.is_unresolved() {
+                if !shape.has_traits() {
+                    let _ = names
+                        .imported
+                        .entry(id.shape_name().clone())
+                        .or_default()
+                        .insert(id.clone());
+                }
+            } else if id.namespace() == namespace {
+                let _ = names.declared.insert(id.shape_name().clone(), id.clone());
+            }
+        }
+        names
+    }
+
+    fn of_shape(&self, id: &ShapeID) -> String {
+        self.name_of(id, defined_prelude_shapes())
+    }
+
+    fn of_trait(&self, id: &ShapeID) -> String {
+        self.name_of(id, defined_prelude_traits())
+    }
+
+    ///
+    /// The short name of a shape where that name stands for it, else its ID.
+    ///
+    fn name_of(&self, id: &ShapeID, prelude: &HashSet<&str>) -> String {
+        let name = id.shape_name();
+        let is_short = if id.is_member() {
+            false
+        } else if let Some(imported) = self.imported.get(name) {
+            imported.len() == 1 && imported.contains(id)
+        } else if let Some(declared) = self.declared.get(name) {
+            declared == id
+        } else {
+            id.namespace() == prelude_namespace_id() && prelude.contains(name.to_string().as_str())
+        };
+        if is_short {
+            name.to_string()
+        } else {
+            id.to_string()
+        }
+    }
+}
-- 
2.43.0


From 65bad6a867493ce979a022590680309c23083726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 69/78] fix: traits of list, set and map members were not
 written to Smithy IDL

---
 atelier-smithy/src/writer.rs | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index dc0457b..50df888 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -9,10 +9,9 @@ use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
-    MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
-    SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
-    SHAPE_STRUCTURE, SHAPE_UNION,
+    MEMBER_INPUT, MEMBER_LIST, MEMBER_OPERATIONS, MEMBER_OUTPUT, MEMBER_PUT, MEMBER_READ,
+    MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP,
+    SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
 
 use crate::syntax::{
@@ -140,38 +139,18 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_MEMBER,
-                        self.names.of_shape(list.member().target())
-                    )?;
+                    self.write_member(w, list.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_MEMBER,
-                        self.names.of_shape(set.member().target())
-                    )?;
+                    self.write_member(w, set.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_KEY,
-                        self.names.of_shape(map.key().target())
-                    )?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_VALUE,
-                        self.names.of_shape(map.value().target())
-                    )?;
+                    self.write_member(w, map.key(), "    ")?;
+                    self.write_member(w, map.value(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Structure(structured) => {
-- 
2.43.0


From 14c94514454f689a245c7069e7eb4068a05405d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 70/78] fix: the renames of a service were not written to
 Smithy IDL

---
 atelier-smithy/src/writer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 50df888..90c7449 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -10,8 +10,9 @@ use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, prel
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_LIST, MEMBER_OPERATIONS, MEMBER_OUTPUT, MEMBER_PUT, MEMBER_READ,
-    MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP,
-    SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
+    MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_APPLY, SHAPE_LIST,
+    SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE,
+    SHAPE_UNION,
 };
 
 use crate::syntax::{
@@ -190,6 +191,13 @@ impl SmithyWriter {
                                 .join(", ")
                         )?;
                     }
+                    if service.has_renames() {
+                        writeln!(w, "    {}: {{", MEMBER_RENAME)?;
+                        for (id, name) in service.renames() {
+                            writeln!(w, "        \"{}\": \"{}\"", id, name)?;
+                        }
+                        writeln!(w, "    }}")?;
+                    }
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Operation(operation) => {
-- 
2.43.0


From acfa1b72a36d298afcb6f9e0ec68a75c5ebc0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 71/78] fix: an object as metadata was written to Smithy IDL
 without its braces

---
 atelier-smithy/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 90c7449..8b0b8bd 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -92,7 +92,7 @@ impl SmithyWriter {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
                 write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
-                self.write_value(w, value, true)?;
+                self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
             writeln!(w)?;
-- 
2.43.0


From 7348ea3b8687439b6a4168f532ff8aa1b3747e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 72/78] fix: null was written to Smithy IDL as nothing

---
 atelier-smithy/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 8b0b8bd..1983303 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -352,7 +352,7 @@ impl SmithyWriter {
             Value::Number(v) => write!(w, "{}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
             Value::String(v) => write!(w, "{:?}", v)?,
-            Value::None => {}
+            Value::None => write!(w, "null")?,
         }
         Ok(())
     }
-- 
2.43.0


From 07fd768423d4b3fc6475330a6919b56068e7fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 73/78] fix: texts and keys were written to Smithy IDL with the
 escapes of Rust, or none

---
 atelier-smithy/src/writer.rs | 38 ++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 1983303..acdb62d 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -91,7 +91,7 @@ impl SmithyWriter {
     fn write_metadata_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
-                write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
+                write!(w, "{} {} = ", STATEMENT_METADATA, quoted(key))?;
                 self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
@@ -166,7 +166,7 @@ impl SmithyWriter {
                 }
                 ShapeKind::Service(service) => {
                     writeln!(w, "{} {} {{", SHAPE_SERVICE, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {:?}", MEMBER_VERSION, service.version())?;
+                    writeln!(w, "    {}: {}", MEMBER_VERSION, quoted(service.version()))?;
                     if service.has_operations() {
                         writeln!(
                             w,
@@ -339,7 +339,11 @@ impl SmithyWriter {
                 }
                 let last = if vs.is_empty() { 0 } else { vs.len() - 1 };
                 for (i, (k, v)) in vs.iter().enumerate() {
-                    write!(w, "{}: ", k)?;
+                    if Identifier::is_valid(k) {
+                        write!(w, "{}: ", k)?;
+                    } else {
+                        write!(w, "{}: ", quoted(k))?;
+                    }
                     self.write_value(w, v, false)?;
                     if i < last {
                         write!(w, ", ")?;
@@ -351,7 +355,7 @@ impl SmithyWriter {
             }
             Value::Number(v) => write!(w, "{}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
-            Value::String(v) => write!(w, "{:?}", v)?,
+            Value::String(v) => write!(w, "{}", quoted(v))?,
             Value::None => write!(w, "null")?,
         }
         Ok(())
@@ -438,3 +442,29 @@ impl Names {
         }
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+///
+/// The text in quotes, with the escape sequences of the Smithy IDL.
+///
+fn quoted(text: &str) -> String {
+    let mut result = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' => result.push_str("\\\""),
+            '\\' => result.push_str("\\\\"),
+            '\u{8}' => result.push_str("\\b"),
+            '\u{c}' => result.push_str("\\f"),
+            '\n' => result.push_str("\\n"),
+            '\r' => result.push_str("\\r"),
+            '\t' => result.push_str("\\t"),
+            c if c.is_control() => result.push_str(&format!("\\u{:04x}", c as u32)),
+            c => result.push(c),
+        }
+    }
+    result.push('"');
+    result
+}
-- 
2.43.0


From ba2e8860f3c5e42057813db0ceade3103aac56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 74/78] fix: traits applied to shapes of other namespaces were
 not written to Smithy IDL

---
 atelier-smithy/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index acdb62d..431b228 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -127,7 +127,7 @@ impl SmithyWriter {
         let from_namespace = self.namespace.clone();
         for shape in model
             .shapes()
-            .filter(|shape| shape.id().namespace() == &from_namespace)
+            .filter(|shape| shape.id().namespace() == &from_namespace || shape.is_unresolved())
         {
             if !shape.body().is_unresolved() {
                 for (id, value) in shape.traits() {
-- 
2.43.0


From 9b7afead9c7f79f196a8001659de9da4f6345ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 75/78] fix: order identifiers consistently with their
 case-insensitive equality

---
 atelier-core/src/model/identity.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index 8855ef2..7cd48ab 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,6 +3,7 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::FromStr;
@@ -18,7 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[derive(Clone, Debug, Eq, PartialOrd, Ord)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,7 +31,7 @@ pub struct Identifier(String);
 ///   of the Smithy 1.0 Specification.
 ///
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -130,6 +131,18 @@ impl PartialEq for Identifier {
     }
 }
 
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl Hash for Identifier {
     /// This has to be consistent with the, case-insensitive, implementation of `PartialEq`.
     fn hash<H: Hasher>(&self, state: &mut H) {
@@ -183,6 +196,18 @@ impl PartialEq for NamespaceID {
     }
 }
 
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for NamespaceID {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl Hash for NamespaceID {
     /// This has to be consistent with the, case-insensitive, implementation of `PartialEq`.
     fn hash<H: Hasher>(&self, state: &mut H) {
-- 
2.43.0


From 572a2725b3599ee39dbeb8acc9cc5eedce8565cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 76/78] fix: a file type registered for several extensions was
 not found by its MIME type

---
 atelier-assembler/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 56846c3..10c8bd1 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -250,6 +250,11 @@ impl FileTypeRegistry {
                 .by_extension
                 .insert(extension.to_lowercase(), file_type.clone());
         }
+        if let Some(mime_type) = &file_type.mime_type {
+            let _ = self
+                .by_mime_type
+                .insert(mime_type.to_lowercase(), file_type.clone());
+        }
     }
 
     ///
-- 
2.43.0


From f76ffe54d6d5335da276a8aab13c607a4b9df553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:35 +0000
Subject: [PATCH 77/78] fix: the terms linter did not report again what it had
 reported for another model

---
 atelier-core/src/action/lint/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index 5597331..2d4ee17 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -204,6 +204,8 @@ linter_or_validator_action_impl! { UnwelcomeTerms, "UnwelcomeTerms" }
 
 impl Linter for UnwelcomeTerms {
     fn check(&mut self, model: &Model) -> ModelResult<()> {
+        // each identifier is reported once for a model, and again for the next one.
+        self.checked.borrow_mut().clear();
         for shape in model.shapes() {
             let shape_id = shape.id();
             self.check_shape_id(shape_id);
-- 
2.43.0


From c56af1c02f75d60811bfa206159d575ee0e95733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:32 +0000
Subject: [PATCH 78/78] fix: keys in the line-oriented form are escaped, so
 that no two models have the same lines

---
 atelier-core/src/io/lines.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/io/lines.rs b/atelier-core/src/io/lines.rs
index 0597f05..e0c09fb 100644
--- a/atelier-core/src/io/lines.rs
+++ b/atelier-core/src/io/lines.rs
@@ -73,6 +73,8 @@ and "`<=`" the *value assignment* operator.
   * emit a line per key, with "`{`", the key name, "`}`", the operator "`<=`" and follow
     these same value production rules (13),
   * an empty object is denoted with the string "`{}`".
+* In the keys of metadata and objects a backslash, "`<`", and "`}`" are preceded by a backslash,
+  and a line break is written as "`\n`".
 
 Finally, all lines must be sorted to ensure the overall output can be compared.
 
@@ -177,7 +179,13 @@ pub fn make_line_oriented_form(model: &Model) -> Vec<String> {
     let mut strings = Default::default();
     for (key, value) in model.metadata() {
         value_into_strings(
-            &format!("{}{}{}{}", META_PREFIX, SEGMENT_SEP, key, VALUE_SEP),
+            &format!(
+                "{}{}{}{}",
+                META_PREFIX,
+                SEGMENT_SEP,
+                escape_key(key),
+                VALUE_SEP
+            ),
             value,
             &mut strings,
         );
@@ -360,6 +368,22 @@ fn member_target(member_name: &str, id: &ShapeID) -> String {
     format!("{}{}{}{}", SEGMENT_SEP, member_name, TARGET_SEP, id)
 }
 
+// A key is followed by the text that ends it, so what could be taken for that text is escaped.
+fn escape_key(key: &str) -> String {
+    let mut escaped = String::with_capacity(key.len());
+    for c in key.chars() {
+        match c {
+            '\n' => escaped.push_str("\\n"),
+            '\\' | '<' | '}' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 fn value_into_strings(prefix: &str, value: &Value, strings: &mut Vec<String>) {
     match value {
         Value::Array(vs) => {
@@ -377,7 +401,7 @@ fn value_into_strings(prefix: &str, value: &Value, strings: &mut Vec<String>) {
                 strings.push(format!("{}{{}}", prefix));
             } else {
                 for (k, v) in vo {
-                    let prefix = format!("{}{{{}}}=", prefix, k);
+                    let prefix = format!("{}{{{}}}=", prefix, escape_key(k));
                     value_into_strings(&prefix, v, strings);
                 }
             }
-- 
2.43.0

