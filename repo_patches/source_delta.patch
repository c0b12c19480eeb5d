From 09d324e6a38d49284991fef6d04b2d8860b601fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:36 +0000
Subject: [PATCH 01/19] fix: generate the same code for the same schema on
 every run

Elements, dependencies, namespaces, enum variants and the reported unsupported
attribute were visited in hash map order, which differs from run to run.
---
 xsd-internal/src/ast/name.rs       |  4 ++--
 xsd-internal/src/ast/namespaces.rs |  4 ++--
 xsd-internal/src/ast/root.rs       | 12 +++++-------
 xsd-internal/src/xsd/context.rs    |  8 ++++----
 xsd-internal/src/xsd/node.rs       |  6 +++++-
 xsd-internal/src/xsd/schema.rs     | 12 ++++++------
 6 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/xsd-internal/src/ast/name.rs b/xsd-internal/src/ast/name.rs
index 4a9ac6a..b2021db 100644
--- a/xsd-internal/src/ast/name.rs
+++ b/xsd-internal/src/ast/name.rs
@@ -4,14 +4,14 @@ use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
 pub enum Namespace {
     #[default]
     None,
     Id(usize),
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct Name {
     pub name: String,
     pub namespace: Namespace,
diff --git a/xsd-internal/src/ast/namespaces.rs b/xsd-internal/src/ast/namespaces.rs
index c95fed4..996c235 100644
--- a/xsd-internal/src/ast/namespaces.rs
+++ b/xsd-internal/src/ast/namespaces.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use super::Namespace;
 
@@ -11,7 +11,7 @@ pub struct NamespaceDefinition {
 #[derive(Debug, Default)]
 pub struct Namespaces {
     by_namespace: HashMap<String, usize>,
-    by_id: HashMap<usize, NamespaceDefinition>,
+    by_id: BTreeMap<usize, NamespaceDefinition>,
 }
 
 impl Namespaces {
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..57965f8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,5 +1,3 @@
-use std::collections::HashMap;
-
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
@@ -84,7 +82,7 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| format_ident!("{}", k));
+                let variants = names.iter().map(|(k, _)| format_ident!("{}", k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
                     let variant = format_ident!("{}", variant);
@@ -418,9 +416,9 @@ impl Root {
     }
 }
 
-fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
+fn escape_enum_names(names: Vec<Name>) -> Vec<(String, Name)> {
     let mut unknown_count = 0;
-    let mut enum_names = HashMap::with_capacity(names.len());
+    let mut enum_names: Vec<(String, Name)> = Vec::with_capacity(names.len());
 
     for name in names.into_iter() {
         let mut variant_name = name
@@ -449,7 +447,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
         }
 
         loop {
-            if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
+            if variant_name.is_empty() || enum_names.iter().any(|(n, _)| *n == variant_name) {
                 unknown_count += 1;
                 variant_name = format!("Variant{}", unknown_count);
             } else {
@@ -457,7 +455,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             }
         }
 
-        enum_names.insert(variant_name, name);
+        enum_names.push((variant_name, name));
     }
 
     enum_names
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..50b6a33 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -10,7 +10,7 @@ use quote::quote;
 /// The context that holds all data that is either necessary during parsing a schema, or is
 /// pupulated during parsing a scheme with data necessary for the subsequent code-generation.
 pub struct Context<'input> {
-    roots: HashMap<Name, Root>,
+    roots: BTreeMap<Name, Root>,
     default_namespace: Option<&'input str>,
     target_namespace: Namespace,
     document_namespaces: HashMap<&'input str, &'input str>,
@@ -23,13 +23,13 @@ pub struct Context<'input> {
 pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
-    pub dependencies: HashMap<Name, HashSet<Name>>,
+    pub dependencies: BTreeMap<Name, BTreeSet<Name>>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
 #[derive(Debug)]
 pub struct SchemaContext {
-    pub elements: HashMap<Name, Root>,
+    pub elements: BTreeMap<Name, Root>,
     pub target_namespace: Namespace,
     pub is_qualified: bool,
     pub namespaces: Namespaces,
diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..fca8132 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -172,7 +172,11 @@ impl<'a, 'input> Node<'a, 'input> {
     }
 
     pub fn prevent_unvisited_attributes(&self) -> Result<(), NodeError> {
-        for (name, attr) in self.attributes.iter() {
+        // go by document order, so that the reported attribute is always the same one
+        for inner in self.inner.attributes() {
+            let name = inner.name();
+            let attr = &self.attributes[name];
+
             // ignore custom (aka namespaced) attributes
             if attr.namespace().is_none() && !attr.visited.get() {
                 return Err(NodeError::UnsupportedAttribute {
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..4bfb00a 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -1,8 +1,8 @@
-use std::collections::HashSet;
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
-use std::{collections::HashMap, path::Path};
+use std::path::Path;
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
@@ -16,7 +16,7 @@ use roxmltree::{Document, TextPos};
 
 #[derive(Debug)]
 pub struct Schema {
-    pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
+    pub(crate) dependencies: BTreeMap<Name, BTreeSet<Name>>,
     pub(crate) context: SchemaContext,
 }
 
@@ -166,8 +166,8 @@ impl Schema {
     ) -> Result<TokenStream, SchemaError> {
         let mut result = TokenStream::new();
 
-        let mut names = HashSet::with_capacity(1);
-        let mut new_names = HashSet::with_capacity(1);
+        let mut names = BTreeSet::new();
+        let mut new_names = BTreeSet::new();
         new_names.insert(name);
 
         loop {
@@ -175,7 +175,7 @@ impl Schema {
                 break;
             }
 
-            let mut next_names = HashSet::new();
+            let mut next_names = BTreeSet::new();
             for name in &new_names {
                 if let Some(dependends) = self.dependencies.get(name) {
                     for d in dependends {
-- 
2.43.0


From 877b199cfb7f3eac3de3adf8bc054c5bb0282337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:22 +0000
Subject: [PATCH 02/19] fix: stop at circular includes and imports

Two schemas that include each other (or one that includes itself) were loaded
over and over again until the stack overflowed. Load each file only once.
---
 xsd-internal/src/xsd/context.rs | 11 ++++++++++-
 xsd-internal/src/xsd/schema.rs  | 20 ++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 50b6a33..01dd507 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
-use std::collections::{BTreeMap, BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::path::PathBuf;
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -24,6 +25,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: BTreeMap<Name, BTreeSet<Name>>,
+    /// The (canonical) paths of all schema files that are already loaded, or about to be.
+    pub files: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -68,6 +71,11 @@ impl<'input> Context<'input> {
         self.shared = shared
     }
 
+    /// Remember a schema file. Returns `false` if the file is already known.
+    pub fn add_file(&mut self, path: PathBuf) -> bool {
+        self.shared.files.insert(path)
+    }
+
     pub fn add_root(&mut self, name: Name, root: Root) {
         self.roots.insert(name, root);
     }
@@ -81,6 +89,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            files: self.shared.files,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 4bfb00a..02d2a70 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -2,7 +2,7 @@ use std::collections::{BTreeMap, BTreeSet, HashSet};
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
@@ -18,6 +18,7 @@ use roxmltree::{Document, TextPos};
 pub struct Schema {
     pub(crate) dependencies: BTreeMap<Name, BTreeSet<Name>>,
     pub(crate) context: SchemaContext,
+    pub(crate) files: HashSet<PathBuf>,
 }
 
 impl Schema {
@@ -67,6 +68,12 @@ impl Schema {
             }
         };
 
+        // includes that refer back to the outermost file must not load it again
+        let shared = Some(shared.unwrap_or_else(|| SharedContext {
+            files: path.canonicalize().into_iter().collect(),
+            ..Default::default()
+        }));
+
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
         Schema::parse_schema_with_context(&root_node, base_path, shared).map_err(|err| match err {
@@ -112,13 +119,21 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                // load each file only once, which also stops circular includes
+                let canonical = path.canonicalize().map_err(|err| SchemaError::Open {
+                    err,
+                    file: path.to_string_lossy().to_string(),
+                })?;
+                if !ctx.add_file(canonical) {
+                    continue;
+                }
+
                 // merge imports
                 let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
@@ -142,6 +157,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            files: self.files,
         }
     }
 
-- 
2.43.0


From 45cedc47c3e8ec6618161f48d7a408fb09d39247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:26 +0000
Subject: [PATCH 03/19] fix: do not panic on element names that start with a
 non-ASCII character

---
 xsd-internal/src/xsd/parse/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..eecb47b 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name += chars.as_str();
         }
     }
 
-- 
2.43.0


From 778ae859280828efca1d12a08cea474e1743e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 04/19] fix: always write the element around simple content

Choice variants with a fixed or named simple type, references to fixed elements,
elements of a named simple type and simpleContent extensions of one were written
without their start and end tags, and choice variants without their namespace
prefix, so that the result could not be read back (or was not XML at all).
---
 xsd-internal/src/ast/element_definition.rs | 17 +++++------------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/leaf_content.rs       | 12 ++++++++++++
 xsd-internal/src/ast/root.rs               | 14 +++-----------
 4 files changed, 21 insertions(+), 40 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..549b99f 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,3 @@
-use crate::ast::{LeafContent, LeafDefinition};
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -41,17 +40,11 @@ impl ElementDefinition {
 
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
         // is still able to add attributes to the XML element
-        let is_named_leaf = matches!(
-            self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
-        );
-        let wrap = !self.is_virtual && !is_named_leaf;
+        let is_wrapped_by_base = match &self.content {
+            Some(ElementContent::Leaf(_, def)) => def.content.writes_element(ctx),
+            _ => false,
+        };
+        let wrap = !self.is_virtual && !is_wrapped_by_base;
         if wrap {
             ts.append_all(quote! { ctx.write_start_element(writer)?; });
         }
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..2ca59c1 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && !self.definition.content.writes_element(ctx);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..0662ba6 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -44,6 +44,18 @@ impl LeafContent {
         }
     }
 
+    /// Whether the code returned by `to_xml_impl` writes the surrounding XML element as well (and
+    /// not only its content).
+    pub fn writes_element(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => false,
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.writes_element(ctx),
+                _ => true,
+            },
+        }
+    }
+
     pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => {
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 57965f8..9eacba8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -169,14 +169,7 @@ impl Root {
                     let val = &self.0;
                     #inner
                 };
-                // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if !def.content.writes_element(ctx) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -205,10 +198,9 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let mut inner = if !variant.definition.content.writes_element(ctx) {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
-- 
2.43.0


From 4bc5ec812ef6f043471d491da7c3f7781eeb98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:54 +0000
Subject: [PATCH 05/19] fix: keep the attributes of an extended base type

With a complexContent extension that adds a sequence, the start tag is written
before the base type gets to set its attributes; they were silently lost.
---
 xsd-internal/src/ast/attribute.rs          |  7 ++--
 xsd-internal/src/ast/element_definition.rs | 43 +++++++++++++++++++++-
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..876bf99 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -33,7 +33,8 @@ impl Attribute {
         }
     }
 
-    pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
+    /// `parent` is the expression of the struct the attribute is a field of.
+    pub fn to_xml_impl(&self, parent: &TokenStream, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = ctx.get_xml_element_name(&self.name);
         let inner = match &self.content {
@@ -43,7 +44,7 @@ impl Attribute {
         };
         if self.is_optional {
             quote! {
-                let val = self.#name_ident.as_ref().map(|val| {
+                let val = #parent.#name_ident.as_ref().map(|val| {
                     #inner
                 });
                 if let Some(val) = val {
@@ -52,7 +53,7 @@ impl Attribute {
             }
         } else {
             quote! {
-                let val = &self.#name_ident;
+                let val = &#parent.#name_ident;
                 let val = #inner;
                 ctx.set_attr(#name_xml, val);
             }
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 549b99f..22ca4ba 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,6 +1,8 @@
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
-use super::{Attribute, ElementContent};
+use super::{Attribute, ElementContent, LeafContent, Name, Root};
+use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 use quote::TokenStreamExt;
@@ -34,8 +36,13 @@ impl ElementDefinition {
 
     pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
+        // a base type that does not write the element itself is only written after the start tag,
+        // so its attributes have to be set upfront
+        if matches!(self.content, Some(ElementContent::Leaves(_))) {
+            ts.append_all(self.base_attributes_to_xml_impl(ctx));
+        }
         for attr in &self.attributes {
-            ts.append_all(attr.to_xml_impl(ctx));
+            ts.append_all(attr.to_xml_impl(&quote!(self), ctx));
         }
 
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
@@ -57,6 +64,38 @@ impl ElementDefinition {
         ts
     }
 
+    fn base_attributes_to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
+        let mut ts = TokenStream::new();
+        let mut parent = quote!(self);
+        let mut next = self;
+        let mut visited = Vec::new();
+        while let Some((name, LeafContent::Named(base))) = next.base() {
+            let base_def = match ctx.elements.get(base) {
+                Some(Root::Element(def)) if !def.is_virtual && !visited.contains(&base) => def,
+                _ => break,
+            };
+            let name_ident = escape_ident(&name.name.to_snake_case());
+            parent = quote!(#parent.#name_ident);
+            for attr in &base_def.attributes {
+                ts.append_all(attr.to_xml_impl(&parent, ctx));
+            }
+            visited.push(base);
+            next = base_def;
+        }
+        ts
+    }
+
+    /// The name of the field and the content of the type that might be extended by this element.
+    fn base(&self) -> Option<(&Name, &LeafContent)> {
+        match self.content.as_ref()? {
+            ElementContent::Leaf(name, def) => Some((name, &def.content)),
+            ElementContent::Leaves(leaves) => leaves
+                .first()
+                .filter(|leaf| leaf.is_virtual)
+                .map(|leaf| (&leaf.name, &leaf.definition.content)),
+        }
+    }
+
     pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
         if let Some(content) = &self.content {
-- 
2.43.0


From 84a7936fe8abc42043d41e660326b0849561b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:58 +0000
Subject: [PATCH 06/19] fix: find optional members of xs:all in any position

They were only found directly at the current position and otherwise dropped.
---
 xsd-internal/src/ast/leaf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 2ca59c1..7d96860 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -203,8 +203,13 @@ impl Leaf {
 
                 from_vec
             } else if self.is_optional() {
+                let child = if self.is_unordered {
+                    quote!(child)
+                } else {
+                    quote!(next_child)
+                };
                 quote! {
-                    if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                    if let Some(node) = node.#child(#name_xml, #namespace_xml) {
                         Some(#value)
                     } else {
                         None
-- 
2.43.0


From df23d57e32a0dfe2e8e478453a55bfadf853caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 07/19] fix: recognise optional groups that start with an empty
 group

Only the elements up to the first required member of an optional or repeated
group announced the group. If that member is itself a group that can be empty, or
one of an xs:all, the document may start with a later one, and the whole group
was dropped.
---
 xsd-internal/src/ast/leaf.rs | 25 +++++++++++++++++++++++++
 xsd-internal/src/ast/root.rs | 18 +++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 7d96860..79db5d0 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -38,6 +38,31 @@ impl Leaf {
         self.min_occurs == MinOccurs(0)
     }
 
+    /// Whether a valid document can do without any element for this leaf. `visited` are the groups
+    /// the leaf is part of.
+    pub fn can_be_absent<'a>(
+        &'a self,
+        ctx: &'a SchemaContext,
+        visited: &mut Vec<&'a Name>,
+    ) -> bool {
+        if self.is_optional() {
+            return true;
+        }
+        let LeafContent::Named(name) = &self.definition.content else {
+            return false;
+        };
+        if !self.is_virtual || visited.contains(&name) {
+            return false;
+        }
+        visited.push(name);
+        let can_be_absent = ctx
+            .elements
+            .get(name)
+            .is_some_and(|root| root.can_be_empty(ctx, visited));
+        visited.pop();
+        can_be_absent
+    }
+
     pub fn is_vec(&self) -> bool {
         match self.max_occurs {
             MaxOccurs::Unbounded => true,
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 9eacba8..5ce7617 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -323,6 +323,21 @@ impl Root {
         }
     }
 
+    /// Whether there is a value of this (virtual) group without any elements.
+    pub fn can_be_empty<'a>(&'a self, ctx: &'a SchemaContext, visited: &mut Vec<&'a Name>) -> bool {
+        match self {
+            Root::Element(ElementDefinition {
+                content: Some(ElementContent::Leaves(leaves)),
+                ..
+            }) => leaves.iter().all(|leaf| leaf.can_be_absent(ctx, visited)),
+            Root::Choice(def) => def
+                .variants
+                .iter()
+                .any(|leaf| leaf.can_be_absent(ctx, visited)),
+            _ => false,
+        }
+    }
+
     pub fn lookahead_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             Root::Leaf(_) => {
@@ -345,7 +360,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        *prev_required =
+                            !leaf.is_unordered && !leaf.can_be_absent(ctx, &mut Vec::new());
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 51b96fd5947db33d1cb25f1d4866a0a29609d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:12 +0000
Subject: [PATCH 08/19] fix: reject fixed attributes with another value

---
 xsd-internal/src/ast/leaf_content.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 0662ba6..4b78acf 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -71,16 +71,12 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.from_xml_impl(ctx),
                 _ => name.from_xml_impl(),
             },
-            LeafContent::Fixed(fixed) => {
+            LeafContent::Fixed(_) => {
+                let inner = self.from_str_impl();
                 quote! {
                     {
                         let val = node.text()?;
-                        if val != #fixed {
-                            return Err(::xsd::decode::FromXmlError::FixedMismatch {
-                                expected: #fixed,
-                                received: val.to_string(),
-                            }.into());
-                        }
+                        #inner
                     }
                 }
             }
@@ -91,7 +87,14 @@ impl LeafContent {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
             LeafContent::Named(name) => name.from_str_impl(),
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Fixed(fixed) => quote! {
+                if val != #fixed {
+                    return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                        expected: #fixed,
+                        received: val.to_string(),
+                    }.into());
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 398dbe27b3ac2130fe4b53d07b1a61774e11f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 09/19] fix: read text that is split up by comments

Only the text before the first comment or processing instruction was read; the
rest was silently dropped.
---
 xsd/src/decode.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..9af234a 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,4 +1,4 @@
-use std::cell::RefCell;
+use std::cell::{OnceCell, RefCell};
 use std::collections::VecDeque;
 use std::ops::Range;
 
@@ -40,6 +40,7 @@ pub struct Document<'a>(roxmltree::Document<'a>);
 pub struct Node<'a> {
     node: roxmltree::Node<'a, 'a>,
     children: RefCell<Children<'a>>,
+    text: OnceCell<String>,
 }
 
 struct Children<'a> {
@@ -81,6 +82,7 @@ impl<'a> Node<'a> {
                 peeked: VecDeque::new(),
                 next: None,
             }),
+            text: OnceCell::new(),
             node,
         }
     }
@@ -178,13 +180,31 @@ impl<'a> Node<'a> {
     }
 
     pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
+        let mut children = self
+            .node
+            .children()
+            .filter(|c| !c.is_comment() && !c.is_pi())
+            .peekable();
+        let Some(first) = children.next() else {
+            return Ok("");
+        };
+        if !first.is_text() {
+            return Err(FromXmlError::TextExpected {
                 name: self.node.tag_name().name().to_string(),
-            })
+            });
         }
+        if !children.peek().is_some_and(|c| c.is_text()) {
+            return Ok(first.text().unwrap_or_default());
+        }
+
+        // the text is split up by comments or processing instructions
+        Ok(self.text.get_or_init(|| {
+            first
+                .text()
+                .into_iter()
+                .chain(children.map_while(|c| if c.is_text() { c.text() } else { None }))
+                .collect()
+        }))
     }
 
     pub fn range(&self) -> Range<usize> {
-- 
2.43.0


From 7b6c6aa5ff77b25215aa6a09854a7eb4665d6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:54 +0000
Subject: [PATCH 10/19] fix: resolve unprefixed type names in the default
 namespace

---
 xsd-internal/src/xsd/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 01dd507..63716a3 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -148,7 +148,11 @@ impl<'input> Context<'input> {
                 },
             )?))
         } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            let namespace = self
+                .default_namespace
+                .map(|ns| self.shared.namespaces.get_or_insert(ns))
+                .unwrap_or_default();
+            Ok(LeafContent::Named(Name::new(name, namespace)))
         }
     }
 
-- 
2.43.0


From 77e00976388aa3b49ac95427a21479d9036544fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 11/19] fix: support elements that are named like their type

If the element was declared last, it replaced the type it refers to and then
referred to itself, which overflowed the stack.
---
 xsd-internal/src/xsd/context.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 63716a3..b13bef3 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -77,6 +77,16 @@ impl<'input> Context<'input> {
     }
 
     pub fn add_root(&mut self, name: Name, root: Root) {
+        // an element that is named like its type must not replace the type
+        if let Root::Leaf(LeafDefinition {
+            content: LeafContent::Named(type_name),
+            ..
+        }) = &root
+        {
+            if *type_name == name {
+                return;
+            }
+        }
         self.roots.insert(name, root);
     }
 
-- 
2.43.0


From e448e17b8617a4e4d15d13e0713b1bbfdc0d0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:07 +0000
Subject: [PATCH 12/19] fix: accept elements below an undeclared default
 namespace

roxmltree reports an empty namespace for elements below `xmlns=""`, which
never matched the `None` that is asked for, so that such documents were
rejected.
---
 xsd/src/decode.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 9af234a..e2f4d21 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -54,11 +54,16 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+/// An element below `xmlns=""` is in no namespace.
+fn namespace_of<'a>(tag_name: roxmltree::ExpandedName<'a, '_>) -> Option<&'a str> {
+    tag_name.namespace().filter(|ns| !ns.is_empty())
+}
+
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
         let tag_name = root.tag_name();
-        if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
+        if !root.is_element() || tag_name.name() != name || namespace_of(tag_name) != namespace {
             None
         } else {
             Some(Node::new(root))
@@ -97,7 +102,7 @@ impl<'a> Node<'a> {
         }
         if let Some(next) = &children.next {
             let tag_name = next.tag_name();
-            return tag_name.name() == name && tag_name.namespace() == namespace;
+            return tag_name.name() == name && namespace_of(tag_name) == namespace;
         }
         false
     }
@@ -111,7 +116,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.children.next())
         {
             let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(tag_name) == namespace {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -135,7 +140,7 @@ impl<'a> Node<'a> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
             let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(tag_name) == namespace {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -143,7 +148,7 @@ impl<'a> Node<'a> {
 
         for (ix, child) in children.peeked.iter().enumerate() {
             let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(tag_name) == namespace {
                 return children.peeked.remove(ix).map(Node::new);
             }
         }
@@ -151,7 +156,7 @@ impl<'a> Node<'a> {
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
             let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if tag_name.name() == name && namespace_of(tag_name) == namespace {
                 return Some(Node::new(child));
             }
             children.peeked.push_back(child);
-- 
2.43.0


From 82b89addb70c3d83ea578c4a183a609b8cbb3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 13/19] fix: keep inner attributes of the module inside of it

---
 xsd-derive/src/generator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsd-derive/src/generator.rs b/xsd-derive/src/generator.rs
index ad653fa..42c7965 100644
--- a/xsd-derive/src/generator.rs
+++ b/xsd-derive/src/generator.rs
@@ -8,7 +8,10 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let schema = Schema::parse_file(path)?;
     let structs = schema.generate_all()?;
 
-    let attrs = &item.attrs;
+    let (outer_attrs, inner_attrs): (Vec<_>, Vec<_>) = item
+        .attrs
+        .iter()
+        .partition(|attr| matches!(attr.style, syn::AttrStyle::Outer));
     let vis = &item.vis;
     let ident = &item.ident;
     let items = item
@@ -18,8 +21,10 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
         .unwrap_or_default();
 
     let result = quote! {
-        #(#attrs)*
+        #(#outer_attrs)*
         #vis mod #ident {
+            #(#inner_attrs)*
+
             #(#items
             )*
 
-- 
2.43.0


From 25e4d0d9e77afefc6491175561bee6f5e1cfc69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:54 +0000
Subject: [PATCH 14/19] fix: read every literal of booleans and numbers

1 and 0 are booleans as well, and white space around a boolean or number is not part of it.
---
 xsd-internal/src/ast/literal_type.rs | 12 ++++++++++--
 xsd/src/decode.rs                    | 17 +++++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 9229eff..d201391 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -69,13 +69,21 @@ impl LiteralType {
     }
 
     pub fn from_str_impl(&self) -> TokenStream {
+        use LiteralType::*;
         let type_ = self.xsd_name();
+        let parsed = match self {
+            Boolean => quote! { ::xsd::decode::parse_boolean(val) },
+            Int64 | Uint64 | Int32 | Decimal | Float32 => quote! {
+                std::str::FromStr::from_str(::xsd::decode::collapse(val))
+            },
+            _ => quote! { std::str::FromStr::from_str(val) },
+        };
         quote! {
-            std::str::FromStr::from_str(val).map_err(|err| {
+            #parsed.map_err(|err| {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
                     value: val.to_string(),
-                    err: Box::new(err),
+                    err: Box::from(err),
                 }
             })?
         }
diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index e2f4d21..b640e02 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -54,6 +54,23 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+type ParseError = Box<dyn std::error::Error + Sync + Send>;
+
+/// The white space around a literal of anything but a string does not belong to it.
+#[doc(hidden)]
+pub fn collapse(val: &str) -> &str {
+    val.trim_matches([' ', '\t', '\r', '\n'])
+}
+
+#[doc(hidden)]
+pub fn parse_boolean(val: &str) -> Result<bool, ParseError> {
+    match collapse(val) {
+        "1" => Ok(true),
+        "0" => Ok(false),
+        val => Ok(val.parse()?),
+    }
+}
+
 /// An element below `xmlns=""` is in no namespace.
 fn namespace_of<'a>(tag_name: roxmltree::ExpandedName<'a, '_>) -> Option<&'a str> {
     tag_name.namespace().filter(|ns| !ns.is_empty())
-- 
2.43.0


From e2766737aa6f35528f625b0462af06b6f0b3ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 15/19] fix: reject text that is no decimal or float

Digits that a decimal cannot hold were cut off, whatever followed them, underscores were accepted,
as were other spellings of the special values of a float, which also were written that way.
---
 xsd-internal/src/ast/literal_type.rs | 13 +++++++++++--
 xsd/src/decode.rs                    | 20 ++++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index d201391..ceef6df 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -65,7 +65,11 @@ impl LiteralType {
     }
 
     pub fn to_xml_impl(&self) -> TokenStream {
-        quote!(val.to_string())
+        match self {
+            // `inf` is no literal of xs:float
+            LiteralType::Float32 => quote!(val.to_string().replace("inf", "INF")),
+            _ => quote!(val.to_string()),
+        }
     }
 
     pub fn from_str_impl(&self) -> TokenStream {
@@ -73,9 +77,14 @@ impl LiteralType {
         let type_ = self.xsd_name();
         let parsed = match self {
             Boolean => quote! { ::xsd::decode::parse_boolean(val) },
-            Int64 | Uint64 | Int32 | Decimal | Float32 => quote! {
+            Int64 | Uint64 | Int32 => quote! {
                 std::str::FromStr::from_str(::xsd::decode::collapse(val))
             },
+            Decimal => quote! {
+                ::xsd::decode::decimal_literal(val)
+                    .and_then(|val| Ok(rust_decimal::Decimal::from_str_exact(val)?))
+            },
+            Float32 => quote! { ::xsd::decode::parse_float(val) },
             _ => quote! { std::str::FromStr::from_str(val) },
         };
         quote! {
diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index b640e02..fa46629 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -71,6 +71,26 @@ pub fn parse_boolean(val: &str) -> Result<bool, ParseError> {
     }
 }
 
+/// The only letters in a float are the one of the exponent and those of its special values.
+#[doc(hidden)]
+pub fn parse_float(val: &str) -> Result<f32, ParseError> {
+    let val = collapse(val);
+    let is_letter = |c: char| c.is_alphabetic() && !matches!(c, 'e' | 'E');
+    if val.contains(is_letter) && !matches!(val, "INF" | "-INF" | "NaN") {
+        return Err("invalid float literal".into());
+    }
+    Ok(val.parse()?)
+}
+
+/// Decimals can be parsed with underscores between their digits, which are not part of a literal.
+#[doc(hidden)]
+pub fn decimal_literal(val: &str) -> Result<&str, ParseError> {
+    if val.contains('_') {
+        return Err("invalid decimal literal".into());
+    }
+    Ok(collapse(val))
+}
+
 /// An element below `xmlns=""` is in no namespace.
 fn namespace_of<'a>(tag_name: roxmltree::ExpandedName<'a, '_>) -> Option<&'a str> {
     tag_name.namespace().filter(|ns| !ns.is_empty())
-- 
2.43.0


From 3f5ca7e7aa9cdda8063f67dce1c470e94dd36e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:10 +0000
Subject: [PATCH 16/19] fix: do not write elements without namespace below a
 default namespace

---
 xsd-internal/src/ast/root.rs    | 19 ++++++++++++++++++-
 xsd-internal/src/xsd/context.rs |  7 ++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 5ce7617..76489f7 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,6 +1,8 @@
 use crate::xsd::context::SchemaContext;
 
-use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
+use super::{
+    ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name, Namespace,
+};
 use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, TokenStreamExt};
@@ -38,6 +40,21 @@ impl Root {
         matches!(self, Root::Enum(_) | Root::Choice(_))
     }
 
+    /// Whether there are child elements that are in no namespace.
+    pub fn has_unqualified_elements(&self) -> bool {
+        let leaves = match self {
+            Root::Element(ElementDefinition {
+                content: Some(ElementContent::Leaves(leaves)),
+                ..
+            }) => leaves,
+            Root::Choice(def) => &def.variants,
+            _ => return false,
+        };
+        leaves
+            .iter()
+            .any(|leaf| leaf.name.namespace == Namespace::None)
+    }
+
     pub fn docs(&self) -> Option<&str> {
         match self {
             Root::Leaf(def) => def.docs.as_deref(),
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index b13bef3..27fbc3b 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -91,11 +91,16 @@ impl<'input> Context<'input> {
     }
 
     pub fn into_schema(self) -> Schema {
+        // elements without namespace (from other files) cannot be written below a default namespace
+        let is_qualified = self.is_qualified
+            && self.roots.iter().all(|(name, root)| {
+                name.namespace != Namespace::None && !root.has_unqualified_elements()
+            });
         Schema {
             context: SchemaContext {
                 target_namespace: self.target_namespace(),
                 elements: self.roots,
-                is_qualified: self.is_qualified,
+                is_qualified,
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
-- 
2.43.0


From e8404932b614734b8c77edfd7f727a3381d70789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:25 +0000
Subject: [PATCH 17/19] fix: support attributes of named boolean and number
 types

---
 xsd-internal/src/ast/attribute.rs          | 14 ++++++++++----
 xsd-internal/src/ast/element_definition.rs |  2 +-
 xsd-internal/src/ast/leaf_content.rs       |  9 ++++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 876bf99..c280d71 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -1,4 +1,4 @@
-use super::{LeafContent, Name};
+use super::{LeafContent, LeafDefinition, Name, Root};
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -39,7 +39,13 @@ impl Attribute {
         let name_xml = ctx.get_xml_element_name(&self.name);
         let inner = match &self.content {
             LeafContent::Literal(literal) => literal.to_xml_impl(),
-            LeafContent::Named(_) => quote! { val.to_string() },
+            LeafContent::Named(name) => match ctx.resolve(name) {
+                Some(Root::Leaf(LeafDefinition {
+                    content: LeafContent::Literal(literal),
+                    ..
+                })) => literal.to_xml_impl(),
+                _ => quote! { val.to_string() },
+            },
             LeafContent::Fixed(fixed) => quote! { #fixed },
         };
         if self.is_optional {
@@ -60,10 +66,10 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 22ca4ba..a337c73 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -102,7 +102,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 4b78acf..86b3721 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -72,7 +72,7 @@ impl LeafContent {
                 _ => name.from_xml_impl(),
             },
             LeafContent::Fixed(_) => {
-                let inner = self.from_str_impl();
+                let inner = self.from_str_impl(ctx);
                 quote! {
                     {
                         let val = node.text()?;
@@ -83,10 +83,13 @@ impl LeafContent {
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
             LeafContent::Fixed(fixed) => quote! {
                 if val != #fixed {
                     return Err(::xsd::decode::FromXmlError::FixedMismatch {
-- 
2.43.0


From b57221d56e17c9e15f1007662c1d729d86561298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:12 +0000
Subject: [PATCH 18/19] fix: never give two types the same derived name

---
 xsd-internal/src/xsd/context.rs   | 12 ++++++++++++
 xsd-internal/src/xsd/parse/mod.rs | 11 ++++++++++-
 xsd-internal/src/xsd/schema.rs    |  8 ++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 27fbc3b..ce257d5 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -27,6 +27,8 @@ pub struct SharedContext {
     pub dependencies: BTreeMap<Name, BTreeSet<Name>>,
     /// The (canonical) paths of all schema files that are already loaded, or about to be.
     pub files: HashSet<PathBuf>,
+    /// The names of all global declarations, also of those that are not parsed yet.
+    pub globals: HashSet<Name>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -76,6 +78,15 @@ impl<'input> Context<'input> {
         self.shared.files.insert(path)
     }
 
+    /// Make sure that no derived name replaces the global declaration with the given name.
+    pub fn reserve_name(&mut self, name: Name) {
+        self.shared.globals.insert(name);
+    }
+
+    pub fn is_name_taken(&self, name: &Name) -> bool {
+        self.roots.contains_key(name) || self.shared.globals.contains(name)
+    }
+
     pub fn add_root(&mut self, name: Name, root: Root) {
         // an element that is named like its type must not replace the type
         if let Root::Leaf(LeafDefinition {
@@ -105,6 +116,7 @@ impl<'input> Context<'input> {
             },
             dependencies: self.shared.dependencies,
             files: self.shared.files,
+            globals: self.shared.globals,
         }
     }
 
diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index eecb47b..5fe1242 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -54,7 +54,16 @@ where
         }
     }
 
-    ctx.get_node_name(&virtual_name, false)
+    let name = ctx.get_node_name(&virtual_name, false);
+    if shorten || !ctx.is_name_taken(&name) {
+        return name;
+    }
+
+    // the name of a type must not be the one of another
+    (2..)
+        .map(|n| ctx.get_node_name(&format!("{virtual_name}{n}"), false))
+        .find(|name| !ctx.is_name_taken(name))
+        .unwrap_or(name)
 }
 
 fn derive_mutal_prefix<'a>(names: impl IntoIterator<Item = &'a str>) -> Option<String> {
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 02d2a70..2efb0f6 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -19,6 +19,7 @@ pub struct Schema {
     pub(crate) dependencies: BTreeMap<Name, BTreeSet<Name>>,
     pub(crate) context: SchemaContext,
     pub(crate) files: HashSet<PathBuf>,
+    pub(crate) globals: HashSet<Name>,
 }
 
 impl Schema {
@@ -118,6 +119,12 @@ impl Schema {
             shared.unwrap_or_default(),
         );
 
+        for child in root.children().namespace(NS_XSD).iter() {
+            if let Some(name) = child.attribute("name") {
+                ctx.reserve_name(Name::new(name.value(), ctx.target_namespace()));
+            }
+        }
+
         for child in root.children().namespace(NS_XSD).iter() {
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
@@ -158,6 +165,7 @@ impl Schema {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
             files: self.files,
+            globals: self.globals,
         }
     }
 
-- 
2.43.0


From 7320e8f265434cfd4ccb6621b37f3caa70028c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:26 +0000
Subject: [PATCH 19/19] fix: honour the form of local elements

An element with form="qualified" or form="unqualified" was read and written
as if it followed elementFormDefault, so that conforming documents were rejected.
---
 xsd-internal/src/xsd/parse/element.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 3f8fbf4..896542d 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use crate::ast::{
-    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Root,
+    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Namespace, Root,
 };
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
@@ -99,14 +99,25 @@ where
         }
     }
 
-    let name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
+    let name = node.try_attribute("name")?.value();
+    let form = node.attribute("form");
+    let name = match form.map(|attr| attr.value()).as_deref() {
+        Some("qualified") => Name::new(name, ctx.target_namespace()),
+        Some("unqualified") => Name::new(name, Namespace::None),
+        Some(val) => {
+            return Err(XsdError::UnsupportedAttributeValue {
+                name: "form".to_string(),
+                value: val.to_string(),
+                element: node.name().to_string(),
+                range: node.range(),
+            })
+        }
+        None => ctx.get_node_name(&name, false),
+    };
 
     // mark `default` attribute as visited
     node.attribute("default");
 
-    // TODO: implement attribute?
-    node.attribute("form");
-
     let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
-- 
2.43.0

