From bb7dd608ef62a816848a063032b9eec6d0e55d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/15] fix: do not panic on a string default for a length type
 without arguments

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 95018ec..b57ec58 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args[0], Value::Integer(len) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args[0], Value::Integer(cap) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From 081a3c5692e6882ef6ba54ab0ca7f3de50524010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 02/15] fix: measure string defaults in characters, not bytes

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b57ec58..70808dd 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.chars().count() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From 0b41d182119870d3fa5e0dce9c276e190bfc14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 03/15] fix: accept the largest and smallest 64-bit integers as
 bigint defaults

---
 src/analyzer/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 70808dd..b923930 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -364,10 +364,6 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
-                  ColumnTypeName::BigInt
-                  if val.overflowing_add(1).1 || val.overflowing_sub(1).1 => {
-                    throw_err(err.clone(), &span_range, input)?;
-                  }
                   _ => ()
                 };
               },
-- 
2.43.0


From 9e26351d68e42fda5962e10b7cbe3ba093ca99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 04/15] fix: report the left column's type, not its name, in a
 foreign key type mismatch

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 2ea2b2d..efad448 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -398,7 +398,7 @@ impl IndexedRef {
           r_ident: r.to_string.clone(),
           l_ident: l.to_string.clone(),
           r_type: r_type.raw.clone(),
-          l_type: l.raw.clone(),
+          l_type: l_type.raw.clone(),
         };
 
         throw_err(err, &self.span_range, input)?;
-- 
2.43.0


From e5abd5862ffd8c2785da052f5452d2e19856e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 05/15] fix: require a key on both sides of a single-column
 many-to-many relation

---
 src/analyzer/indexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index efad448..a120772 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -411,7 +411,9 @@ impl IndexedRef {
           r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
-          (Relation::Many2Many, false, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
+          (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => {
+            Some((InvalidForeignKeyErr::Many2Many, &self.span_range))
+          }
           (Relation::One2Many, false, _) => {
             Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.lhs.span_range))
           }
-- 
2.43.0


From 56205d6f2549343af978eb4a1ddd7b93aaf59a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 06/15] fix: honour single-column primary and unique indexes as
 relation keys

---
 src/analyzer/indexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index a120772..c076535 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -407,8 +407,10 @@ impl IndexedRef {
       if composition_len == 1 {
         let err = match (
           &self.rel,
-          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
+          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes),
+          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&rhs_ident.compositions, &rhs_table.indexes),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
           (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => {
-- 
2.43.0


From 156670e5f0b7fd1b1b8db898f507d8e96007f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 07/15] fix: do not report a self relation as conflicting with
 a relation to another table

---
 src/analyzer/indexer.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index c076535..4a9be67 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -482,14 +482,13 @@ impl IndexedRef {
 
     match (&self.rel, &other.rel) {
       (Relation::Many2Many, Relation::Many2Many) | (Relation::One2One, Relation::One2One) => {
-        [&self.lhs, &self.rhs].iter().all(|self_side| {
-          [&other.lhs, &other.rhs].iter().any(|other_side| {
-            let self_ident = indexer.resolve_ref_alias(self_side);
-            let other_ident = indexer.resolve_ref_alias(other_side);
+        let self_lhs = indexer.resolve_ref_alias(&self.lhs);
+        let self_rhs = indexer.resolve_ref_alias(&self.rhs);
+        let other_lhs = indexer.resolve_ref_alias(&other.lhs);
+        let other_rhs = indexer.resolve_ref_alias(&other.rhs);
 
-            eq_ident(&self_ident, &other_ident)
-          })
-        })
+        (eq_ident(&self_lhs, &other_lhs) && eq_ident(&self_rhs, &other_rhs))
+          || (eq_ident(&self_lhs, &other_rhs) && eq_ident(&self_rhs, &other_lhs))
       }
       _ => {
         // TODO: add support for one-to-one relation validation
-- 
2.43.0


From b1e9f85ade61b7bfcf6c81f83f53cf720bdfb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 08/15] fix: reject duplicate keys in table group settings

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 4a9be67..4fbd99e 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -146,6 +146,10 @@ impl Indexer {
   /// - `DuplicateTableGroupItem`
   pub(super) fn index_table_groups(&mut self, table_groups: &Vec<&TableGroupBlock>, input: &str) -> AnalyzerResult<()> {
     for table_group in table_groups {
+      if let Some(settings) = &table_group.settings {
+        check_attr_duplicate_keys(&settings.attributes, input)?;
+      }
+
       if self.table_group_map.get(&table_group.ident.to_string).is_some() {
         throw_err(Err::DuplicateTableGroupName, &table_group.ident.span_range, input)?;
       }
-- 
2.43.0


From 78c3d67d51178d470aeb594ff833742ec4c1d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 09/15] fix: reject table group items that name an undeclared
 table with a schema

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 4fbd99e..3399947 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -157,7 +157,13 @@ impl Indexer {
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-          Some(item_schema) => (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone()),
+          Some(item_schema) => {
+            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {
+              throw_err(Err::TableNotFound, &group_item.span_range, input)?;
+            }
+
+            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
+          }
           None => {
             match self.resolve_alias(&group_item.ident_alias.to_string) {
               Some(ident) => ident.clone(),
-- 
2.43.0


From 70a962ce9ce159a87e7a58d709bbcc6703102697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 10/15] fix: resolve aliases and the default schema the same
 way in every relation check

---
 src/analyzer/indexer.rs | 28 ++++++++++++++++++++++++----
 src/utils/mod.rs        |  4 +++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 3399947..da314ef 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -281,8 +281,12 @@ impl Indexer {
     self.table_alias_map.get(table_alias)
   }
 
-  /// Gets a new ref block if it is pointing to an alias.
+  /// Gets a new ref block with an explicit schema, following an alias if it is pointing to one.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
+    if ident.schema.is_some() {
+      return ident.clone();
+    }
+
     match self.resolve_alias(&ident.table.to_string) {
       Some((schema, table)) => {
         RefIdent {
@@ -300,7 +304,16 @@ impl Indexer {
           compositions: ident.compositions.clone(),
         }
       }
-      None => ident.clone(),
+      None => {
+        RefIdent {
+          schema: Some(Ident {
+            span_range: ident.span_range.clone(),
+            raw: DEFAULT_SCHEMA.to_string(),
+            to_string: DEFAULT_SCHEMA.to_string(),
+          }),
+          ..ident.clone()
+        }
+      }
     }
   }
 }
@@ -325,7 +338,13 @@ impl IndexedRef {
 
         let lhs = RefIdent {
           span_range: span_range.clone(),
-          schema: table_ident.schema.clone(),
+          schema: Some(table_ident.schema.clone().unwrap_or_else(|| {
+            Ident {
+              span_range: table_ident.span_range.clone(),
+              raw: DEFAULT_SCHEMA.to_string(),
+              to_string: DEFAULT_SCHEMA.to_string(),
+            }
+          })),
           table: table_ident.name.clone(),
           compositions: vec![col_name.clone()],
         };
@@ -357,7 +376,8 @@ impl IndexedRef {
       tables
         .iter()
         .find(|table| {
-          table.ident.schema.as_ref().map(|s| &s.to_string) == ref_ident.schema.as_ref().map(|s| &s.to_string)
+          table.ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
+            == ref_ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
             && table.ident.name.to_string == ref_ident.table.to_string
         })
         .map(Ok)
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 250fee3..cc6f8d5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -1,5 +1,6 @@
 use crate::analyzer::*;
 use crate::ast::*;
+use crate::DEFAULT_SCHEMA;
 
 /// Gets all relations associated with a table, including references to other tables, references from other tables, and self-references.
 ///
@@ -35,7 +36,8 @@ pub fn get_table_refs(table_ident: &TableIdent, analyzed_indexer: &AnalyzedIndex
   let mut ref_self_blocks = vec![];
 
   let eq = |table_ident: &TableIdent, ref_ident: &RefIdent| {
-    table_ident.schema.clone().map(|s| s.to_string) == ref_ident.schema.clone().map(|s| s.to_string)
+    table_ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
+      == ref_ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
       && table_ident.name.to_string == ref_ident.table.to_string
   };
 
-- 
2.43.0


From 9c01dfd1b457ffce18671b69ab8c04e3d6391ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 11/15] fix: tell enum types of different schemas apart when
 relating columns

---
 src/analyzer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b923930..8a09b6e 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -292,6 +292,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                     _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                   };
 
+                  let qualified_name = format!("{}.{}", enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA), enum_name);
+
                   match &col.settings {
                     Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
                       let default_value_span = attributes.iter()
@@ -305,11 +307,11 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-                        _ => ColumnTypeName::Enum(enum_name)
+                        _ => ColumnTypeName::Enum(qualified_name)
                       }
                     }
                     _ => {
-                      ColumnTypeName::Enum(enum_name)
+                      ColumnTypeName::Enum(qualified_name)
                     }
                   }
                 }
-- 
2.43.0


From 89f6f40d0abe699affac018fe6ee6dbb731f43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 12/15] fix: do not look up null and expression defaults among
 enum values

---
 src/analyzer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 8a09b6e..384cdae 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -295,7 +295,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   let qualified_name = format!("{}.{}", enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA), enum_name);
 
                   match &col.settings {
-                    Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
+                    Some(ColumnSettings { attributes, default: Some(default_value), .. })
+                    if !matches!(default_value, Value::Null | Value::Expr(_)) => {
                       let default_value_span = attributes.iter()
                         .find_map(|attr| {
                           (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
-- 
2.43.0


From f83eea6ae65c41ea3382cd14da6d39e35c31e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 13/15] fix: compare index keys by all their columns and
 expressions

---
 src/analyzer/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 384cdae..7109594 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -150,18 +150,16 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           throw_err(Err::EmptyIndexesBlock, &indexes_block.span_range, input)?;
         }
 
-        let idents: Vec<_> = def
+        let ident_strings: Vec<_> = def
           .cols
           .iter()
-          .filter_map(|id| {
+          .map(|id| {
             match id {
-              IndexesColumnType::String(s) => Some(s),
-              _ => None,
+              IndexesColumnType::String(s) => s.to_string.clone(),
+              IndexesColumnType::Expr(e) => e.raw.clone(),
             }
           })
-          .cloned()
           .collect();
-        let ident_strings: Vec<_> = idents.iter().map(|s| s.to_string.clone()).collect();
 
         for ident in &def.cols {
           if let IndexesColumnType::String(col_name) = ident {
@@ -194,7 +192,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| idents.iter().all(|id| uniq_item.contains(&id.to_string)))
+                .any(|uniq_item| eq_elements(uniq_item.iter(), ident_strings.iter()))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From 92edb28405ee3f539e9f32627e32cca72d1fc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 14/15] fix: do not cut a bare word value at a leading true,
 false or null

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index bd013ed..854e348 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -30,7 +30,7 @@ string_value = { triple_quoted_string | single_quoted_string }
 integer = @{ ASCII_DIGIT+ }
 decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }
 number_value = { decimal | integer }
-boolean_value = @{ "true" | "false" | "null" }
+boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
-- 
2.43.0


From 57bc24d7103aab2a72e0b16ff82dca874218204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 15/15] fix: do not treat comment-like text at the start of a
 string as a comment

---
 src/dbml.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 854e348..5678494 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -7,13 +7,13 @@ multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
 // literals
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = { "\"" ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ WHITESPACE* ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
-single_quoted_string = { "'" ~ single_quoted_value ~ "'"}
+single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'" }
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = { "`" ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ WHITESPACE* ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
-triple_quoted_string = { "'''" ~ triple_quoted_value ~ "'''" }
+triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
 var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
-- 
2.43.0

