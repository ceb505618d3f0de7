From 62cc9304ca8ccae715daf4896ed3c4a58f5cec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 01/26] fix: do not panic on a string default for a length type
 without a length

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 95018ec..b57ec58 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args[0], Value::Integer(len) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args[0], Value::Integer(cap) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From db4b49dd4ada53f69761a60674907e76cd2905d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 02/26] fix: measure string defaults in characters, not bytes

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b57ec58..70808dd 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.len() as i64 != *len) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(len)) if val.chars().count() as i64 != *len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {
+                  if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From dca7819e260015b1439bc996692e01c0dcac0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 03/26] fix: accept the largest bigint as a bigint default

---
 src/analyzer/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 70808dd..b923930 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -364,10 +364,6 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
-                  ColumnTypeName::BigInt
-                  if val.overflowing_add(1).1 || val.overflowing_sub(1).1 => {
-                    throw_err(err.clone(), &span_range, input)?;
-                  }
                   _ => ()
                 };
               },
-- 
2.43.0


From 00836339d00f4687d980b5b1158627bc586c3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 04/26] fix: name the left column's type in a foreign key type
 mismatch

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 2ea2b2d..efad448 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -398,7 +398,7 @@ impl IndexedRef {
           r_ident: r.to_string.clone(),
           l_ident: l.to_string.clone(),
           r_type: r_type.raw.clone(),
-          l_type: l.raw.clone(),
+          l_type: l_type.raw.clone(),
         };
 
         throw_err(err, &self.span_range, input)?;
-- 
2.43.0


From 666eaaf0e085d51e1ca34f5b142d743826eaa1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 05/26] fix: require a key on both sides of a many-to-many
 relation

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index efad448..aafc607 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -411,7 +411,7 @@ impl IndexedRef {
           r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
-          (Relation::Many2Many, false, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
+          (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
           (Relation::One2Many, false, _) => {
             Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.lhs.span_range))
           }
-- 
2.43.0


From 8c325d48036eb37233bf3c8740577eb0891a46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 06/26] fix: treat an unqualified table as one of the default
 schema when resolving refs

---
 src/analyzer/helper.rs  | 5 +++++
 src/analyzer/indexer.rs | 4 ++--
 src/analyzer/mod.rs     | 1 +
 src/utils/mod.rs        | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/analyzer/helper.rs b/src/analyzer/helper.rs
index 663fa15..9acca19 100644
--- a/src/analyzer/helper.rs
+++ b/src/analyzer/helper.rs
@@ -34,6 +34,11 @@ pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> A
   Ok(())
 }
 
+/// Gets the schema name, or the default schema name if it is not specified.
+pub(crate) fn schema_or_default(schema: &Option<Ident>) -> &str {
+  schema.as_ref().map(|s| s.to_string.as_str()).unwrap_or(DEFAULT_SCHEMA)
+}
+
 pub(super) fn eq_elements<T: Eq + Ord>(lhs: impl Iterator<Item = T>, rhs: impl Iterator<Item = T>) -> bool {
   BTreeSet::from_iter(lhs) == BTreeSet::from_iter(rhs)
 }
diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index aafc607..45b2ba7 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -347,7 +347,7 @@ impl IndexedRef {
       tables
         .iter()
         .find(|table| {
-          table.ident.schema.as_ref().map(|s| &s.to_string) == ref_ident.schema.as_ref().map(|s| &s.to_string)
+          schema_or_default(&table.ident.schema) == schema_or_default(&ref_ident.schema)
             && table.ident.name.to_string == ref_ident.table.to_string
         })
         .map(Ok)
@@ -468,7 +468,7 @@ impl IndexedRef {
   /// Should use after calling `validate_ref_type`.
   pub fn occupy_same_column(&self, other: &Self, indexer: &Indexer) -> bool {
     let eq_ident = |lhs: &RefIdent, rhs: &RefIdent| -> bool {
-      lhs.schema.as_ref().map(|s| &s.to_string) == rhs.schema.as_ref().map(|s| &s.to_string)
+      schema_or_default(&lhs.schema) == schema_or_default(&rhs.schema)
         && lhs.table.to_string == rhs.table.to_string
         && eq_elements(
           lhs.compositions.iter().map(|s| &s.to_string),
diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index b923930..782487f 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -11,6 +11,7 @@ mod err;
 mod helper;
 mod indexer;
 
+pub(crate) use helper::schema_or_default;
 use helper::*;
 use indexer::*;
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 250fee3..8e67a5a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -35,7 +35,7 @@ pub fn get_table_refs(table_ident: &TableIdent, analyzed_indexer: &AnalyzedIndex
   let mut ref_self_blocks = vec![];
 
   let eq = |table_ident: &TableIdent, ref_ident: &RefIdent| {
-    table_ident.schema.clone().map(|s| s.to_string) == ref_ident.schema.clone().map(|s| s.to_string)
+    schema_or_default(&table_ident.schema) == schema_or_default(&ref_ident.schema)
       && table_ident.name.to_string == ref_ident.table.to_string
   };
 
-- 
2.43.0


From e55cb16751bcf19e990c19610ae3cfd91245d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 07/26] fix: do not take a schema-qualified table name for an
 alias

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 45b2ba7..84c3d80 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -273,7 +273,7 @@ impl Indexer {
 
   /// Gets a new ref block if it is pointing to an alias.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
-    match self.resolve_alias(&ident.table.to_string) {
+    match self.resolve_alias(&ident.table.to_string).filter(|_| ident.schema.is_none()) {
       Some((schema, table)) => {
         RefIdent {
           span_range: ident.span_range.clone(),
-- 
2.43.0


From 23efe348d2f0b79bda0e71be361c71054287ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 08/26] fix: do not take the table of an inline ref for an
 alias

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 84c3d80..118abb3 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -315,7 +315,13 @@ impl IndexedRef {
 
         let lhs = RefIdent {
           span_range: span_range.clone(),
-          schema: table_ident.schema.clone(),
+          schema: Some(table_ident.schema.clone().unwrap_or_else(|| {
+            Ident {
+              span_range: table_ident.span_range.clone(),
+              raw: DEFAULT_SCHEMA.to_string(),
+              to_string: DEFAULT_SCHEMA.to_string(),
+            }
+          })),
           table: table_ident.name.clone(),
           compositions: vec![col_name.clone()],
         };
-- 
2.43.0


From 70ca12785592aedfa8c48c063b34d17a0d8bb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 09/26] fix: count a primary or unique key declared in an
 indexes block as a key

---
 src/analyzer/indexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 118abb3..8cc168d 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -413,8 +413,10 @@ impl IndexedRef {
       if composition_len == 1 {
         let err = match (
           &self.rel,
-          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
+          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes),
+          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&rhs_ident.compositions, &rhs_table.indexes),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
           (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
-- 
2.43.0


From dcfbfb241d59e850298ea449446ad2a80d97dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 10/26] fix: point at the table when the default schema of a
 ref does not exist

---
 src/analyzer/indexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 8cc168d..efb8093 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -237,7 +237,10 @@ impl Indexer {
     fields: &Vec<Ident>,
     input: &str,
   ) -> AnalyzerResult<()> {
-    let schema_span = schema.clone().map(|s| s.span_range).unwrap_or_default();
+    let schema_span = schema
+      .clone()
+      .map(|s| s.span_range)
+      .unwrap_or_else(|| table.span_range.clone());
     let schema = schema
       .clone()
       .map(|s| s.to_string)
-- 
2.43.0


From 7a457ba86591d623137118fee343aa2414a4b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 11/26] fix: reject a table group item naming a table that does
 not exist

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index efb8093..4bb0c0b 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -153,7 +153,13 @@ impl Indexer {
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-          Some(item_schema) => (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone()),
+          Some(item_schema) => {
+            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {
+              throw_err(Err::TableNotFound, &group_item.span_range, input)?;
+            }
+
+            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
+          }
           None => {
             match self.resolve_alias(&group_item.ident_alias.to_string) {
               Some(ident) => ident.clone(),
-- 
2.43.0


From 7486dacb2849fe86517216fe156f1120d582a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 12/26] fix: reject duplicate attribute keys in table group
 settings

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 4bb0c0b..561fae2 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -150,6 +150,10 @@ impl Indexer {
         throw_err(Err::DuplicateTableGroupName, &table_group.ident.span_range, input)?;
       }
 
+      if let Some(settings) = &table_group.settings {
+        check_attr_duplicate_keys(&settings.attributes, input)?;
+      }
+
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-- 
2.43.0


From e4493f37c6bca1b2b47d288db8e4605fbce113b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 13/26] fix: tell index definitions on different expressions
 apart

---
 src/analyzer/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 782487f..f25d924 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -151,18 +151,16 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           throw_err(Err::EmptyIndexesBlock, &indexes_block.span_range, input)?;
         }
 
-        let idents: Vec<_> = def
+        let ident_strings: Vec<_> = def
           .cols
           .iter()
-          .filter_map(|id| {
+          .map(|id| {
             match id {
-              IndexesColumnType::String(s) => Some(s),
-              _ => None,
+              IndexesColumnType::String(s) => s.to_string.clone(),
+              IndexesColumnType::Expr(e) => e.raw.clone(),
             }
           })
-          .cloned()
           .collect();
-        let ident_strings: Vec<_> = idents.iter().map(|s| s.to_string.clone()).collect();
 
         for ident in &def.cols {
           if let IndexesColumnType::String(col_name) = ident {
@@ -195,7 +193,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| idents.iter().all(|id| uniq_item.contains(&id.to_string)))
+                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From 79983d51f62ec176010356f20b61a338b0d3be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 14/26] fix: a unique key on some columns of a larger unique
 key is no duplicate

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index f25d924..515e62b 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -193,7 +193,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
+                .any(|uniq_item| eq_elements(ident_strings.iter(), uniq_item.iter()))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From 38c45967856e7acc82c4dfe8e09b6e602b5526b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 15/26] fix: an index without a type is no duplicate of one
 with a type

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 515e62b..8bfc9eb 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -221,7 +221,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
             if tmp_table_indexer
               .indexed_list
               .iter()
-              .any(|(idx_item, _)| idx_item == &ident_strings)
+              .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type.is_none())
             {
               throw_err(Err::DuplicateIndexKey, &def.span_range, input)?;
             }
-- 
2.43.0


From 5ab1c6ef02cf3c6c0df8b5d4263668d42d4cf8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 16/26] fix: tell enums of the same name in different schemas
 apart in foreign keys

---
 src/analyzer/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 8bfc9eb..74ac858 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -290,6 +290,10 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                     2 => (Some(splited[0].to_string()), splited[1].to_string()),
                     _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                   };
+                  let qualified_name = match &enum_schema {
+                    Some(schema) if schema != DEFAULT_SCHEMA => format!("{}.{}", schema, enum_name),
+                    _ => enum_name.clone(),
+                  };
 
                   match &col.settings {
                     Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
@@ -304,11 +308,11 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-                        _ => ColumnTypeName::Enum(enum_name)
+                        _ => ColumnTypeName::Enum(qualified_name)
                       }
                     }
                     _ => {
-                      ColumnTypeName::Enum(enum_name)
+                      ColumnTypeName::Enum(qualified_name)
                     }
                   }
                 }
-- 
2.43.0


From 52504f772b79acea120557e61140b92c9998c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 17/26] fix: allow null as the default of a nullable enum
 column

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 74ac858..4fa8f68 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -296,7 +296,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   };
 
                   match &col.settings {
-                    Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
+                    Some(ColumnSettings { attributes, default: Some(default_value), .. }) if default_value != &Value::Null => {
                       let default_value_span = attributes.iter()
                         .find_map(|attr| {
                           (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
-- 
2.43.0


From 19c277d7becc35af4df801fce9e13d324b2681ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 18/26] fix: resolve an enum type whose quoted schema name has
 a dot

---
 src/analyzer/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 4fa8f68..a8a822f 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -283,12 +283,10 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   type_name
                 }
                 Err(_) => {
-                  let splited: Vec<_> = raw_type.split('.').collect();
-
-                  let (enum_schema, enum_name) = match splited.len() {
-                    1 => (None, raw_type),
-                    2 => (Some(splited[0].to_string()), splited[1].to_string()),
-                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
+                  // the type name itself never has a dot, but the schema name can
+                  let (enum_schema, enum_name) = match raw_type.rsplit_once('.') {
+                    None => (None, raw_type),
+                    Some((schema, name)) => (Some(schema.to_string()), name.to_string()),
                   };
                   let qualified_name = match &enum_schema {
                     Some(schema) if schema != DEFAULT_SCHEMA => format!("{}.{}", schema, enum_name),
-- 
2.43.0


From 1b7aca58859477e60229d35411d73eb5769faf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 19/26] fix: read an enum value that begins with true, false or
 null

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index bd013ed..854e348 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -30,7 +30,7 @@ string_value = { triple_quoted_string | single_quoted_string }
 integer = @{ ASCII_DIGIT+ }
 decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }
 number_value = { decimal | integer }
-boolean_value = @{ "true" | "false" | "null" }
+boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
-- 
2.43.0


From d4255dd9c6c73ad865076b801839d15a561abf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 20/26] fix: do not skip a comment-like beginning of a quoted
 string

---
 src/dbml.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 854e348..e455c4a 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -7,13 +7,13 @@ multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
 // literals
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = { "\"" ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ WHITESPACE* ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
-single_quoted_string = { "'" ~ single_quoted_value ~ "'"}
+single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'"}
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = { "`" ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ WHITESPACE* ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
-triple_quoted_string = { "'''" ~ triple_quoted_value ~ "'''" }
+triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
 var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
-- 
2.43.0


From 7ae1ae7bcaa905295a646aec7a7a8c1c9e9e63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 21/26] fix: keep leading white space of quoted identifiers and
 expressions

---
 src/dbml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index e455c4a..6f555de 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -7,11 +7,11 @@ multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
 // literals
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = ${ "\"" ~ WHITESPACE* ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
 single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'"}
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = ${ "`" ~ WHITESPACE* ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
 triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
-- 
2.43.0


From 45c28e221cbd65ac64d6cd42eea7b001ea4973de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 22/26] fix: allow white space between the arguments of a
 column type

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 6f555de..c4f8b15 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -71,7 +71,7 @@ enum_decl = { ^"Enum " ~ decl_ident ~ enum_block }
 // table block
 col_attribute = { ref_inline | attribute }
 col_settings = { "[" ~ (col_attribute ~ ("," ~ col_attribute)*)? ~ "]" }
-col_type_arg = { "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
+col_type_arg = !{ "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
 col_type_array = { "[" ~ integer? ~ "]" }
 col_type_unquoted = ${ var ~ col_type_arg? ~ col_type_array* }
 col_type_quoted = ${ "\"" ~ spaced_var ~ col_type_arg? ~ col_type_array* ~ "\"" ~ col_type_array* }
-- 
2.43.0


From 6cf3a57b3bb28900b774049670f30da16537933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 23/26] fix: allow any white space or a comment after a block
 keyword

---
 src/dbml.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index c4f8b15..e35d725 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -66,7 +66,7 @@ indexes_decl = { ^"Indexes" ~ indexes_block }
 enum_settings = { "[" ~ (attribute ~ ("," ~ attribute)*)? ~ "]" }
 enum_value = { ident ~ enum_settings? }
 enum_block = { "{" ~ enum_value* ~ "}" }
-enum_decl = { ^"Enum " ~ decl_ident ~ enum_block }
+enum_decl = { &(^"Enum " | ^"Enum\t" | ^"Enum\r" | ^"Enum\n" | ^"Enum/") ~ ^"Enum" ~ decl_ident ~ enum_block }
 
 // table block
 col_attribute = { ref_inline | attribute }
@@ -78,15 +78,15 @@ col_type_quoted = ${ "\"" ~ spaced_var ~ col_type_arg? ~ col_type_array* ~ "\""
 col_type = ${ (ident ~ ".")? ~ (col_type_quoted | col_type_unquoted ) }
 table_col = { ident ~ col_type ~ col_settings? }
 table_block = { "{" ~ (table_col | note_decl | indexes_decl)* ~ "}" }
-table_alias = { ^"as " ~ ident }
-table_decl = { ^"Table " ~ decl_ident ~ table_alias? ~ block_settings?  ~ table_block }
+table_alias = { &(^"as " | ^"as\t" | ^"as\r" | ^"as\n" | ^"as/") ~ ^"as" ~ ident }
+table_decl = { &(^"Table " | ^"Table\t" | ^"Table\r" | ^"Table\n" | ^"Table/") ~ ^"Table" ~ decl_ident ~ table_alias? ~ block_settings?  ~ table_block }
 
 // table group block
 table_group_block = { "{" ~ (note_decl | decl_ident)* ~ "}" }
-table_group_decl = { ^"TableGroup " ~ ident ~ block_settings? ~ table_group_block }
+table_group_decl = { &(^"TableGroup " | ^"TableGroup\t" | ^"TableGroup\r" | ^"TableGroup\n" | ^"TableGroup/") ~ ^"TableGroup" ~ ident ~ block_settings? ~ table_group_block }
 
 // project block
 project_block = { "{" ~ (note_decl | property)* ~ "}" }
-project_decl = { ^"Project " ~ ident ~ project_block }
+project_decl = { &(^"Project " | ^"Project\t" | ^"Project\r" | ^"Project\n" | ^"Project/") ~ ^"Project" ~ ident ~ project_block }
 
 schema = { SOI ~ (project_decl | table_decl | enum_decl | ref_decl | table_group_decl | note_decl)* ~ EOI }
-- 
2.43.0


From a853421330678599d9b1b8246eded1a863b6de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 24/26] hook: reach the analysis result under cfg(dbml_verif)

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aa5fb07..81281fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![forbid(unsafe_code)]
 #![forbid(clippy::all)]
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 use ast::SchemaBlock;
 use pest::error::Error as ParseError;
@@ -21,6 +22,16 @@ pub(crate) mod utils;
 #[cfg(feature = "utils")]
 pub mod utils;
 
+// Lets the verification harness reach the analysis result, which `utils` works on.
+#[cfg(dbml_verif)]
+pub mod verif_hook {
+  pub use crate::analyzer::{
+    analyze,
+    AnalyzedIndexer,
+    TableRef,
+  };
+}
+
 use analyzer::*;
 pub use parser::parse as parse_dbml_unchecked;
 
-- 
2.43.0


From e73c1844a5f3c2febf5fbf1b62b46cf18bd97d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 25/26] fix: a relation of columns with themselves does not
 conflict with one to other columns

---
 src/analyzer/indexer.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 561fae2..5a99e20 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -499,14 +499,11 @@ impl IndexedRef {
 
     match (&self.rel, &other.rel) {
       (Relation::Many2Many, Relation::Many2Many) | (Relation::One2One, Relation::One2One) => {
-        [&self.lhs, &self.rhs].iter().all(|self_side| {
-          [&other.lhs, &other.rhs].iter().any(|other_side| {
-            let self_ident = indexer.resolve_ref_alias(self_side);
-            let other_ident = indexer.resolve_ref_alias(other_side);
+        let [self_lhs, self_rhs] = [&self.lhs, &self.rhs].map(|side| indexer.resolve_ref_alias(side));
+        let [other_lhs, other_rhs] = [&other.lhs, &other.rhs].map(|side| indexer.resolve_ref_alias(side));
 
-            eq_ident(&self_ident, &other_ident)
-          })
-        })
+        (eq_ident(&self_lhs, &other_lhs) && eq_ident(&self_rhs, &other_rhs))
+          || (eq_ident(&self_lhs, &other_rhs) && eq_ident(&self_rhs, &other_lhs))
       }
       _ => {
         // TODO: add support for one-to-one relation validation
-- 
2.43.0


From 54e755593db1b319405e6afdfe553f814af9a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:08 +0000
Subject: [PATCH 26/26] fix: an index on an expression is not one on a column
 named like it

---
 src/analyzer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index a8a822f..02a8877 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -157,7 +157,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           .map(|id| {
             match id {
               IndexesColumnType::String(s) => s.to_string.clone(),
-              IndexesColumnType::Expr(e) => e.raw.clone(),
+              // a double quote, which no column name has, tells it from a column named like it
+              IndexesColumnType::Expr(e) => format!("\"{}", e.raw),
             }
           })
           .collect();
-- 
2.43.0

