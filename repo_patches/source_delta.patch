From 9b0cc2695e86aa47d05fe1618459eef3a7bbf759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 01/16] fix: give each schema version its own validators module
 so documented feature combinations compile

---
 src/generated_schema.rs                       | 23 ++++++++++++-------
 src/generated_schema/2024_11_05/mcp_schema.rs |  2 +-
 src/generated_schema/2025_03_26/mcp_schema.rs |  2 +-
 src/generated_schema/2025_06_18/mcp_schema.rs |  2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs |  2 +-
 src/generated_schema/2026_07_28/mcp_schema.rs |  2 +-
 src/generated_schema/draft/mcp_schema.rs      |  2 +-
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/generated_schema.rs b/src/generated_schema.rs
index 9527ff3..921bfcb 100644
--- a/src/generated_schema.rs
+++ b/src/generated_schema.rs
@@ -6,7 +6,8 @@ macro_rules! define_schema_version {
         $utils_path:literal,
         $validators_path:literal,
         $schema_mod:ident,
-        $utils_mod:ident
+        $utils_mod:ident,
+        $validators_mod:ident
     ) => {
         #[cfg(feature = $feature)]
         #[path = $schema_path]
@@ -20,7 +21,7 @@ macro_rules! define_schema_version {
         mod $utils_mod;
 
         #[path = $validators_path]
-        mod validators;
+        mod $validators_mod;
 
         #[cfg(feature = $feature)]
         pub mod $mod_name {
@@ -54,7 +55,8 @@ define_schema_version!(
     "generated_schema/2025_06_18/schema_utils.rs",
     "generated_schema/2025_06_18/validators.rs",
     __int_2025_06_18,
-    __int_utils_2025_06_18
+    __int_utils_2025_06_18,
+    __int_validators_2025_06_18
 );
 
 #[cfg(feature = "2025_03_26")]
@@ -65,7 +67,8 @@ define_schema_version!(
     "generated_schema/2025_03_26/schema_utils.rs",
     "generated_schema/2025_03_26/validators.rs",
     __int_2025_03_26,
-    __int_utils_2025_03_26
+    __int_utils_2025_03_26,
+    __int_validators_2025_03_26
 );
 
 #[cfg(feature = "2024_11_05")]
@@ -76,7 +79,8 @@ define_schema_version!(
     "generated_schema/2024_11_05/schema_utils.rs",
     "generated_schema/2024_11_05/validators.rs",
     __int_2024_11_05,
-    __int_utils_2024_11_05
+    __int_utils_2024_11_05,
+    __int_validators_2024_11_05
 );
 
 #[cfg(feature = "2025_11_25")]
@@ -87,7 +91,8 @@ define_schema_version!(
     "generated_schema/2025_11_25/schema_utils.rs",
     "generated_schema/2025_11_25/validators.rs",
     __int_2025_11_25,
-    __int_utils_2025_11_25
+    __int_utils_2025_11_25,
+    __int_validators_2025_11_25
 );
 
 #[cfg(feature = "2026_07_28")]
@@ -98,7 +103,8 @@ define_schema_version!(
     "generated_schema/2026_07_28/schema_utils.rs",
     "generated_schema/2026_07_28/validators.rs",
     __int_2026_07_28,
-    __int_utils_2026_07_28
+    __int_utils_2026_07_28,
+    __int_validators_2026_07_28
 );
 
 #[cfg(feature = "draft")]
@@ -109,7 +115,8 @@ define_schema_version!(
     "generated_schema/draft/schema_utils.rs",
     "generated_schema/draft/validators.rs",
     __int_draft,
-    __int_utils_draft
+    __int_utils_draft,
+    __int_validators_draft
 );
 
 #[path = "generated_schema/protocol_version.rs"]
diff --git a/src/generated_schema/2024_11_05/mcp_schema.rs b/src/generated_schema/2024_11_05/mcp_schema.rs
index 9a33233..f3e934c 100644
--- a/src/generated_schema/2024_11_05/mcp_schema.rs
+++ b/src/generated_schema/2024_11_05/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:04
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2024_11_05 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2024-11-05";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_03_26/mcp_schema.rs b/src/generated_schema/2025_03_26/mcp_schema.rs
index 2f4b5aa..f6ad1d0 100644
--- a/src/generated_schema/2025_03_26/mcp_schema.rs
+++ b/src/generated_schema/2025_03_26/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:18
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_03_26 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-03-26";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 1f2431a..bf48dc6 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:19
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_06_18 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-06-18";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 05e85d6..8ca8933 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:21
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_11_25 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-11-25";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b2b0748..b815298 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:23
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2026_07_28 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2026-07-28";
 /// JSON-RPC Version
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db865d..68b1583 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:25
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_draft as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2026-07-28";
 /// JSON-RPC Version
-- 
2.43.0


From b305c6a250a6f9e5387bc0cffa9ac467695515e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 02/16] fix: SdkError::bad_request carries the bad-request
 message

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 0563fd6..a2f7239 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2604,7 +2604,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9d7b6de..637f4b4 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2603,7 +2603,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index f265ca4..146b7cf 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2736,7 +2736,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 120421f..e289a28 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3545,7 +3545,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
-- 
2.43.0


From 3de62eed43b23e5fe45883835c40f8e986ac9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 03/16] fix: related_task_id reads back the task id written by
 set_related_task_id

---
 src/generated_schema/2025_11_25/schema_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e289a28..8045da7 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2909,6 +2909,7 @@ impl GetTaskPayloadResult {
         self.meta
             .as_ref()
             .and_then(|v| v.get(RELATED_TASK_META_KEY))
+            .and_then(|v| v.get("taskId"))
             .and_then(|v| v.as_str())
     }
 
@@ -2994,7 +2995,9 @@ pub trait McpMetaEx {
 
 impl McpMetaEx for serde_json::Map<String, Value> {
     fn related_task_id(&self) -> Option<&str> {
-        self.get(RELATED_TASK_META_KEY).and_then(|v| v.as_str())
+        self.get(RELATED_TASK_META_KEY)
+            .and_then(|v| v.get("taskId"))
+            .and_then(|v| v.as_str())
     }
 
     fn set_related_task_id<T>(&mut self, task_id: T)
-- 
2.43.0


From 11d151dc58dbaf679ae399ab2e053a660eaf5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 04/16] fix: client without task capabilities refuses task
 cancel and list requests

---
 src/generated_schema/2025_11_25/schema_utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 8045da7..525fbe8 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2773,17 +2773,13 @@ impl ClientCapabilities {
                 }
             }
             ServerJsonrpcRequest::CancelTaskRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_cancel_tasks() {
-                        return Err(create_error("task cancellation", request_method));
-                    }
+                if !self.can_cancel_tasks() {
+                    return Err(create_error("task cancellation", request_method));
                 }
             }
             ServerJsonrpcRequest::ListTasksRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_list_tasks() {
-                        return Err(create_error("listing tasks", request_method));
-                    }
+                if !self.can_list_tasks() {
+                    return Err(create_error("listing tasks", request_method));
                 }
             }
 
-- 
2.43.0


From e92bb894f547247f82da9879affb6502e79dddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 05/16] fix: elicitation enum schemas keep their values when
 parsed through the primitive and enum unions

---
 src/generated_schema/2025_06_18/mcp_schema.rs |  3 ++-
 src/generated_schema/2025_11_25/mcp_schema.rs | 14 +++++++++-----
 src/generated_schema/2025_11_25/validators.rs | 15 +++++++++++++++
 src/generated_schema/2026_07_28/mcp_schema.rs | 14 +++++++++-----
 src/generated_schema/2026_07_28/validators.rs | 15 +++++++++++++++
 src/generated_schema/draft/mcp_schema.rs      | 14 +++++++++-----
 src/generated_schema/draft/validators.rs      | 15 +++++++++++++++
 7 files changed, 74 insertions(+), 16 deletions(-)

diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index bf48dc6..2927f5d 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -4271,10 +4271,11 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
+    // Listed before StringSchema: untagged variants are tried in order and an enum is also a valid string schema
+    EnumSchema(EnumSchema),
     StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
-    EnumSchema(EnumSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 8ca8933..1024447 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -3114,11 +3114,13 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    // Untagged variants are tried in order, so the more specific ones come first
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -5902,14 +5904,16 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    // Untagged variants are tried in order, so the more specific ones come first
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index fd225aa..bf3f035 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -369,3 +369,18 @@ validate!(
     "jsonrpc",
     "2.0"
 );
+
+/// Accepts a legacy titled enum only when it actually carries `enumNames`; without them the value is an
+/// untitled single-select enum. Used where the two are alternatives of the same untagged union.
+pub fn legacy_titled_enum_schema_with_names<'de, D>(
+    deserializer: D,
+) -> Result<super::__int_2025_11_25::LegacyTitledEnumSchema, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let schema: super::__int_2025_11_25::LegacyTitledEnumSchema = serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b815298..388c736 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -2748,11 +2748,13 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    // Untagged variants are tried in order, so the more specific ones come first
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -6178,14 +6180,16 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    // Untagged variants are tried in order, so the more specific ones come first
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 698c66f..755f523 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -388,3 +388,18 @@ validate!(
     "type_",
     "string"
 );
+
+/// Accepts a legacy titled enum only when it actually carries `enumNames`; without them the value is an
+/// untitled single-select enum. Used where the two are alternatives of the same untagged union.
+pub fn legacy_titled_enum_schema_with_names<'de, D>(
+    deserializer: D,
+) -> Result<super::__int_2026_07_28::LegacyTitledEnumSchema, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let schema: super::__int_2026_07_28::LegacyTitledEnumSchema = serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 68b1583..a9b8340 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -2748,11 +2748,13 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    // Untagged variants are tried in order, so the more specific ones come first
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -6178,14 +6180,16 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    // Untagged variants are tried in order, so the more specific ones come first
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema_with_names")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index 698c66f..c961957 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -388,3 +388,18 @@ validate!(
     "type_",
     "string"
 );
+
+/// Accepts a legacy titled enum only when it actually carries `enumNames`; without them the value is an
+/// untitled single-select enum. Used where the two are alternatives of the same untagged union.
+pub fn legacy_titled_enum_schema_with_names<'de, D>(
+    deserializer: D,
+) -> Result<super::__int_draft::LegacyTitledEnumSchema, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let schema: super::__int_draft::LegacyTitledEnumSchema = serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
-- 
2.43.0


From 7afdfdfae2e1b9f1b1c0f6d4827abce31fc3354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 06/16] fix: complete results in tool, prompt and resource
 responses are no longer read as input-required ones

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 9 ++++++---
 src/generated_schema/draft/mcp_schema.rs      | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 388c736..914b321 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -673,8 +673,9 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
+    // Last: it has no required members of its own, so it would also match a complete result
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for CallToolResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -3023,8 +3024,9 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
+    // Last: it has no required members of its own, so it would also match a complete result
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for GetPromptResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -6982,8 +6984,9 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
+    // Last: it has no required members of its own, so it would also match a complete result
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for ReadResourceResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index a9b8340..eb239e5 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -673,8 +673,9 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
+    // Last: it has no required members of its own, so it would also match a complete result
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for CallToolResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -3023,8 +3024,9 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
+    // Last: it has no required members of its own, so it would also match a complete result
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for GetPromptResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -6982,8 +6984,9 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
+    // Last: it has no required members of its own, so it would also match a complete result
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for ReadResourceResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
-- 
2.43.0


From 2fab866e8480041f36193818ac93f52b985da0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 07/16] fix: a result carrying a subscription id in its
 metadata keeps its own type and contents

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 6 +++---
 src/generated_schema/draft/mcp_schema.rs      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 914b321..1c34b41 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -10731,9 +10731,6 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ReadResourceResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ReadResourceResult(v));
         }
-        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
-            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
-        }
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ListPromptsResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ListPromptsResult(v));
         }
@@ -10749,6 +10746,9 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<CompleteResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::CompleteResult(v));
         }
+        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
+            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
+        }
         serde_json::from_value::<Result>(value)
             .map(ServerResult::Result)
             .map_err(serde::de::Error::custom)
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index eb239e5..1a62671 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -10731,9 +10731,6 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ReadResourceResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ReadResourceResult(v));
         }
-        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
-            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
-        }
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<ListPromptsResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::ListPromptsResult(v));
         }
@@ -10749,6 +10746,9 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
         if let ::std::result::Result::Ok(v) = serde_json::from_value::<CompleteResult>(value.clone()) {
             return ::std::result::Result::Ok(ServerResult::CompleteResult(v));
         }
+        if let ::std::result::Result::Ok(v) = serde_json::from_value::<SubscriptionsListenResult>(value.clone()) {
+            return ::std::result::Result::Ok(ServerResult::SubscriptionsListenResult(v));
+        }
         serde_json::from_value::<Result>(value)
             .map(ServerResult::Result)
             .map_err(serde::de::Error::custom)
-- 
2.43.0


From 5d02abf655c6cceef38a8c86d864c7f0d5f3e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 08/16] fix: a task's required ttl member is written as null
 when it is unlimited

---
 src/generated_schema/2025_11_25/mcp_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 1024447..57d1fb5 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -8871,7 +8871,7 @@ pub struct Task {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(default)]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///See [General fields: _meta](https://modelcontextprotocol.io/specification/2025-11-25/basic/index#meta) for notes on _meta usage.
@@ -9110,7 +9110,7 @@ pub struct TaskStatusNotificationParams {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(default)]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///Text provided to or from an LLM.
-- 
2.43.0


From 34d4fdea330b86975a237fd2ba14d1ac99cc9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 09/16] fix: an unsupported elicitation property type is an
 error, not a panic

---
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 146b7cf..a0a844a 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1907,7 +1907,7 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
                 PrimitiveSchemaDefinition::EnumSchema(EnumSchema::new(enum_values, enum_names, description, title))
             }
             other => {
-                panic!("'{other}' type is not currently supported");
+                return Err(RpcError::parse_error().with_message(format!("'{other}' type is not currently supported")));
             }
         };
 
-- 
2.43.0


From 2b744d2353b6acfdeb8a77280c2827b631285cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 10/16] fix: a string property with enumerated values becomes
 an enum schema

---
 src/generated_schema/2025_06_18/schema_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index a0a844a..07d9f6a 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1844,6 +1844,11 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
         let title = value.get("title").and_then(|v| v.as_str().map(|s| s.to_string()));
 
         let schema_definition: PrimitiveSchemaDefinition = match input_type {
+            "string" if value.contains_key("enum") => {
+                let schema: EnumSchema = serde_json::from_value(Value::Object(value.clone()))
+                    .map_err(|e| RpcError::parse_error().with_message(e.to_string()))?;
+                PrimitiveSchemaDefinition::EnumSchema(schema)
+            }
             "string" => {
                 let max_length = value.get("maxLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
                 let min_length = value.get("minLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
-- 
2.43.0


From 5ee52353d42cb1ac44eb397f0d2e8aa33cb68fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 11/16] fix: an explicit null structuredContent stays distinct
 from an absent one

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 2 ++
 src/generated_schema/2026_07_28/validators.rs | 8 ++++++++
 src/generated_schema/draft/mcp_schema.rs      | 2 ++
 src/generated_schema/draft/validators.rs      | 8 ++++++++
 4 files changed, 20 insertions(+)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 1c34b41..b3f7bf1 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -595,6 +595,7 @@ pub struct CallToolResult {
     #[serde(
         rename = "structuredContent",
         default,
+        deserialize_with = "validate::present_value",
         skip_serializing_if = "::std::option::Option::is_none"
     )]
     pub structured_content: ::std::option::Option<::serde_json::Value>,
@@ -10000,6 +10001,7 @@ pub struct ToolResultContent {
     #[serde(
         rename = "structuredContent",
         default,
+        deserialize_with = "validate::present_value",
         skip_serializing_if = "::std::option::Option::is_none"
     )]
     pub structured_content: ::std::option::Option<::serde_json::Value>,
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 755f523..64e9c16 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -403,3 +403,11 @@ where
     }
     Ok(schema)
 }
+
+/// Reads a member that may hold any JSON value, so that an explicit `null` stays distinct from an absent member.
+pub fn present_value<'de, D>(deserializer: D) -> Result<Option<serde_json::Value>, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 1a62671..351e2de 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -595,6 +595,7 @@ pub struct CallToolResult {
     #[serde(
         rename = "structuredContent",
         default,
+        deserialize_with = "validate::present_value",
         skip_serializing_if = "::std::option::Option::is_none"
     )]
     pub structured_content: ::std::option::Option<::serde_json::Value>,
@@ -10000,6 +10001,7 @@ pub struct ToolResultContent {
     #[serde(
         rename = "structuredContent",
         default,
+        deserialize_with = "validate::present_value",
         skip_serializing_if = "::std::option::Option::is_none"
     )]
     pub structured_content: ::std::option::Option<::serde_json::Value>,
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index c961957..fbc7c07 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -403,3 +403,11 @@ where
     }
     Ok(schema)
 }
+
+/// Reads a member that may hold any JSON value, so that an explicit `null` stays distinct from an absent member.
+pub fn present_value<'de, D>(deserializer: D) -> Result<Option<serde_json::Value>, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
-- 
2.43.0


From 366213371c3ac009fa299fcb2b01026474ea7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 12/16] fix: a resources/list request without params is written
 without params, not with null

---
 src/generated_schema/2024_11_05/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_03_26/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_06_18/schema_utils.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index a2f7239..1fb95a5 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1818,7 +1818,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 637f4b4..4337050 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1817,7 +1817,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 07d9f6a..13a187c 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1944,7 +1944,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
-- 
2.43.0


From 0128211842769193947a9aaa2430270c8974f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 13/16] fix: a server result whose resultType is not a string
 is refused, not read as complete

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 4 +++-
 src/generated_schema/draft/mcp_schema.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b3f7bf1..dfb1839 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -10715,7 +10715,9 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
             Some(_) => value,
             None => match value {
                 serde_json::Value::Object(mut map) => {
-                    map.insert("resultType".to_string(), serde_json::Value::String("complete".to_string()));
+                    // only an absent resultType means "complete": one of the wrong type is not overwritten
+                    map.entry("resultType")
+                        .or_insert_with(|| serde_json::Value::String("complete".to_string()));
                     serde_json::Value::Object(map)
                 }
                 v => v,
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 351e2de..1735df7 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -10715,7 +10715,9 @@ impl<'de> serde::Deserialize<'de> for ServerResult {
             Some(_) => value,
             None => match value {
                 serde_json::Value::Object(mut map) => {
-                    map.insert("resultType".to_string(), serde_json::Value::String("complete".to_string()));
+                    // only an absent resultType means "complete": one of the wrong type is not overwritten
+                    map.entry("resultType")
+                        .or_insert_with(|| serde_json::Value::String("complete".to_string()));
                     serde_json::Value::Object(map)
                 }
                 v => v,
-- 
2.43.0


From 333230382da5ad34363fabde5be15a912755a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:12 +0000
Subject: [PATCH 14/16] fix: a URL-elicitation-required error carries its
 elicitations as the schema's data object

---
 src/generated_schema/2025_11_25/schema_utils.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 525fbe8..91fc9db 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3524,12 +3524,7 @@ impl SdkError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations": elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
@@ -3625,12 +3620,7 @@ impl RpcError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations": elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
-- 
2.43.0


From a97c35beb0d7d60dee8d4ef6edd50ed52e24333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:15 +0000
Subject: [PATCH 15/16] fix: a request timeout longer than u64::MAX
 milliseconds is reported, not a panic

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 1fb95a5..b5669d6 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2551,7 +2551,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 4337050..c328c48 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2550,7 +2550,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 13a187c..8567d6d 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2688,7 +2688,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 91fc9db..e38ff76 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3469,7 +3469,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index b81f639..5c1932c 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2854,7 +2854,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index b81f639..5c1932c 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2854,7 +2854,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
-- 
2.43.0


From 1a1fb2731f15cfd5381024dfabab127a8f243d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:11 +0000
Subject: [PATCH 16/16] fix: a sampling request that provides tools is refused
 by a client without the sampling.tools capability

---
 src/generated_schema/2025_11_25/schema_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e38ff76..75f4f5e 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2752,6 +2752,10 @@ impl ClientCapabilities {
                         if create_message_request.params.tool_choice.is_some() && samplig_capabilities.tools.is_none() {
                             return Err(create_error("tool choice", request_method));
                         }
+
+                        if !create_message_request.params.tools.is_empty() && samplig_capabilities.tools.is_none() {
+                            return Err(create_error("tools", request_method));
+                        }
                     }
                     None => {
                         return Err(create_error("sampling capability", request_method));
-- 
2.43.0

