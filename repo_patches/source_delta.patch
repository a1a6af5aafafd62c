From 95ec51449b6c902dd9f9937e3b9ba245e195effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 01/19] fix: keep the choices of enum schemas in elicitation
 forms

---
 src/generated_schema/2025_06_18/mcp_schema.rs |  2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs |  7 ++++---
 src/generated_schema/2025_11_25/validators.rs | 13 +++++++++++++
 src/generated_schema/2026_07_28/mcp_schema.rs |  7 ++++---
 src/generated_schema/2026_07_28/validators.rs | 13 +++++++++++++
 src/generated_schema/draft/mcp_schema.rs      |  7 ++++---
 src/generated_schema/draft/validators.rs      | 13 +++++++++++++
 7 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 1f2431a..130c310 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -4271,10 +4271,10 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
+    EnumSchema(EnumSchema),
     StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
-    EnumSchema(EnumSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 05e85d6..508e692 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -5902,14 +5902,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "validate::without_enum_names")]
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index fd225aa..c6ecf63 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -57,6 +57,19 @@ where
     }
 }
 
+/// Deserializes `T` unless the input carries `enumNames`, which only the legacy titled enum schema defines.
+pub fn without_enum_names<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("enumNames").is_some() {
+        return Err(serde::de::Error::custom("Unexpected field `enumNames` in an untitled enum schema"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 // Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
 // integer const properties, so it would otherwise be flagged as dead code there.
 #[allow(dead_code)]
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b2b0748..0f8c52c 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -6178,14 +6178,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "validate::without_enum_names")]
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 698c66f..91a0f01 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -57,6 +57,19 @@ where
     }
 }
 
+/// Deserializes `T` unless the input carries `enumNames`, which only the legacy titled enum schema defines.
+pub fn without_enum_names<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("enumNames").is_some() {
+        return Err(serde::de::Error::custom("Unexpected field `enumNames` in an untitled enum schema"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 // Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
 // integer const properties, so it would otherwise be flagged as dead code there.
 #[allow(dead_code)]
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db865d..0996552 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -6178,14 +6178,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "validate::without_enum_names")]
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index 698c66f..91a0f01 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -57,6 +57,19 @@ where
     }
 }
 
+/// Deserializes `T` unless the input carries `enumNames`, which only the legacy titled enum schema defines.
+pub fn without_enum_names<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("enumNames").is_some() {
+        return Err(serde::de::Error::custom("Unexpected field `enumNames` in an untitled enum schema"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 // Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
 // integer const properties, so it would otherwise be flagged as dead code there.
 #[allow(dead_code)]
-- 
2.43.0


From 4ef57581e64dd1b7c3e7a82274f7017cf43e1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 02/19] fix: omit absent params of resources/list instead of
 sending null

---
 src/generated_schema/2024_11_05/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_03_26/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_06_18/schema_utils.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 0563fd6..692a8c0 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1818,7 +1818,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9d7b6de..9cb690f 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1817,7 +1817,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index f265ca4..ca4810a 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1939,7 +1939,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
-- 
2.43.0


From 1609ac39c170fd8315c15f2b4b5369da5a496df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 03/19] fix: keep an explicit null ttl of a task

---
 src/generated_schema/2025_11_25/mcp_schema.rs | 12 ++++++++++--
 src/generated_schema/2025_11_25/validators.rs |  9 +++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 508e692..4f3086e 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -8868,7 +8868,11 @@ pub struct Task {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "validate::nullable",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///See [General fields: _meta](https://modelcontextprotocol.io/specification/2025-11-25/basic/index#meta) for notes on _meta usage.
@@ -9107,7 +9111,11 @@ pub struct TaskStatusNotificationParams {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "validate::nullable",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///Text provided to or from an LLM.
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index c6ecf63..556a484 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -57,6 +57,15 @@ where
     }
 }
 
+/// Deserializes a field that may be `null`, keeping an explicit `null` (`Some(None)`) apart from an absent field (`None`).
+pub fn nullable<'de, D, T>(deserializer: D) -> Result<Option<Option<T>>, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::Deserialize<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
+
 /// Deserializes `T` unless the input carries `enumNames`, which only the legacy titled enum schema defines.
 pub fn without_enum_names<'de, D, T>(deserializer: D) -> Result<T, D::Error>
 where
-- 
2.43.0


From a5445932831f947a1e2f030bd9478e7f669e9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 04/19] fix: read a received tasks/cancel result as
 CancelTaskResult

---
 .../2025_11_25/schema_utils.rs                | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 120421f..834a257 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3942,10 +3942,21 @@ impl TryFrom<ResultFromClient> for GetTaskPayloadResult {
 impl TryFrom<ResultFromClient> for CancelTaskResult {
     type Error = RpcError;
     fn try_from(value: ResultFromClient) -> std::result::Result<Self, Self::Error> {
-        if let ResultFromClient::CancelTaskResult(result) = value {
-            Ok(result)
-        } else {
-            Err(RpcError::internal_error().with_message("Not a CancelTaskResult".to_string()))
+        match value {
+            ResultFromClient::CancelTaskResult(result) => Ok(result),
+            // Both results have the same shape on the wire, so a received one is always held as a `GetTaskResult`
+            ResultFromClient::GetTaskResult(result) => Ok(CancelTaskResult {
+                created_at: result.created_at,
+                last_updated_at: result.last_updated_at,
+                meta: result.meta,
+                poll_interval: result.poll_interval,
+                status: result.status,
+                status_message: result.status_message,
+                task_id: result.task_id,
+                ttl: result.ttl,
+                extra: result.extra,
+            }),
+            _ => Err(RpcError::internal_error().with_message("Not a CancelTaskResult".to_string())),
         }
     }
 }
@@ -4112,10 +4123,21 @@ impl TryFrom<ResultFromServer> for GetTaskPayloadResult {
 impl TryFrom<ResultFromServer> for CancelTaskResult {
     type Error = RpcError;
     fn try_from(value: ResultFromServer) -> std::result::Result<Self, Self::Error> {
-        if let ResultFromServer::CancelTaskResult(result) = value {
-            Ok(result)
-        } else {
-            Err(RpcError::internal_error().with_message("Not a CancelTaskResult".to_string()))
+        match value {
+            ResultFromServer::CancelTaskResult(result) => Ok(result),
+            // Both results have the same shape on the wire, so a received one is always held as a `GetTaskResult`
+            ResultFromServer::GetTaskResult(result) => Ok(CancelTaskResult {
+                created_at: result.created_at,
+                last_updated_at: result.last_updated_at,
+                meta: result.meta,
+                poll_interval: result.poll_interval,
+                status: result.status,
+                status_message: result.status_message,
+                task_id: result.task_id,
+                ttl: result.ttl,
+                extra: result.extra,
+            }),
+            _ => Err(RpcError::internal_error().with_message("Not a CancelTaskResult".to_string())),
         }
     }
 }
-- 
2.43.0


From 628bd1d65814616641fc2915e9d1ef6804ae2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 05/19] fix: read a received tasks/result payload as
 GetTaskPayloadResult

---
 src/generated_schema/2025_11_25/schema_utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 834a257..eaf7d37 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3935,7 +3935,10 @@ impl TryFrom<ResultFromClient> for GetTaskPayloadResult {
         if let ResultFromClient::GetTaskPayloadResult(result) = value {
             Ok(result)
         } else {
-            Err(RpcError::internal_error().with_message("Not a GetTaskPayloadResult".to_string()))
+            // A task payload has the structure of the original request's result, so a received one is held as that result
+            serde_json::to_value(value)
+                .and_then(serde_json::from_value)
+                .map_err(|_| RpcError::internal_error().with_message("Not a GetTaskPayloadResult".to_string()))
         }
     }
 }
@@ -4116,7 +4119,10 @@ impl TryFrom<ResultFromServer> for GetTaskPayloadResult {
         if let ResultFromServer::GetTaskPayloadResult(result) = value {
             Ok(result)
         } else {
-            Err(RpcError::internal_error().with_message("Not a GetTaskPayloadResult".to_string()))
+            // A task payload has the structure of the original request's result, so a received one is held as that result
+            serde_json::to_value(value)
+                .and_then(serde_json::from_value)
+                .map_err(|_| RpcError::internal_error().with_message("Not a GetTaskPayloadResult".to_string()))
         }
     }
 }
-- 
2.43.0


From 35e2a0ecd23c5220650df07456ad22db3b86d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 06/19] fix: give bad_request errors their own message

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 692a8c0..1fb95a5 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2608,7 +2608,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9cb690f..4337050 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2607,7 +2607,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index ca4810a..a6e1bf0 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2740,7 +2740,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index eaf7d37..f3f2599 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3545,7 +3545,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
-- 
2.43.0


From 215e03bbbfc8714dd885bac465e7b9fdc83161a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 07/19] fix: put required URL elicitations under the
 elicitations key

---
 src/generated_schema/2025_11_25/schema_utils.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index f3f2599..660dd1d 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3525,12 +3525,7 @@ impl SdkError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations" : elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
@@ -3626,12 +3621,7 @@ impl RpcError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations" : elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
-- 
2.43.0


From 744dde4725a57f46e30cc0452c4c425291d45f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 08/19] fix: read the related task id in the form in which it
 is set

---
 src/generated_schema/2025_11_25/schema_utils.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 660dd1d..321f599 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2899,8 +2899,8 @@ impl GetTaskPayloadResult {
     /// Retrieves the related task ID from the metadata, if it exists.
     ///
     /// This function looks for a key corresponding to the `RELATED_TASK_META_KEY` in the
-    /// `meta` field of the struct. If the key exists and contains a string value, it returns
-    /// it as an `Option<&str>`. If the key is missing or not a string, it returns `None`.
+    /// `meta` field of the struct. If the key exists and contains an object with a string `taskId`,
+    /// or a string value, it returns it as an `Option<&str>`. Otherwise it returns `None`.
     ///
     /// # Returns
     /// - `Some(&str)` if a related task ID exists.
@@ -2909,7 +2909,7 @@ impl GetTaskPayloadResult {
         self.meta
             .as_ref()
             .and_then(|v| v.get(RELATED_TASK_META_KEY))
-            .and_then(|v| v.as_str())
+            .and_then(|v| v.get("taskId").unwrap_or(v).as_str())
     }
 
     /// Sets the related task ID in the metadata.
@@ -2945,8 +2945,8 @@ pub trait McpMetaEx {
     /// Retrieves the related task ID from the metadata, if it exists.
     ///
     /// This function looks for a key corresponding to the `RELATED_TASK_META_KEY` in the
-    /// `meta` field of the struct. If the key exists and contains a string value, it returns
-    /// it as an `Option<&str>`. If the key is missing or not a string, it returns `None`.
+    /// `meta` field of the struct. If the key exists and contains an object with a string `taskId`,
+    /// or a string value, it returns it as an `Option<&str>`. Otherwise it returns `None`.
     ///
     /// # Returns
     /// - `Some(&str)` if a related task ID exists.
@@ -2994,7 +2994,8 @@ pub trait McpMetaEx {
 
 impl McpMetaEx for serde_json::Map<String, Value> {
     fn related_task_id(&self) -> Option<&str> {
-        self.get(RELATED_TASK_META_KEY).and_then(|v| v.as_str())
+        self.get(RELATED_TASK_META_KEY)
+            .and_then(|v| v.get("taskId").unwrap_or(v).as_str())
     }
 
     fn set_related_task_id<T>(&mut self, task_id: T)
-- 
2.43.0


From 8e9c5a05718dcd278b478a76b2ef70f0f1658d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 09/19] fix: refuse tasks/list and tasks/cancel when the client
 declares no tasks

---
 src/generated_schema/2025_11_25/schema_utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 321f599..f899351 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2773,17 +2773,13 @@ impl ClientCapabilities {
                 }
             }
             ServerJsonrpcRequest::CancelTaskRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_cancel_tasks() {
-                        return Err(create_error("task cancellation", request_method));
-                    }
+                if !self.tasks.as_ref().is_some_and(|tasks| tasks.can_cancel_tasks()) {
+                    return Err(create_error("task cancellation", request_method));
                 }
             }
             ServerJsonrpcRequest::ListTasksRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_list_tasks() {
-                        return Err(create_error("listing tasks", request_method));
-                    }
+                if !self.tasks.as_ref().is_some_and(|tasks| tasks.can_list_tasks()) {
+                    return Err(create_error("listing tasks", request_method));
                 }
             }
 
-- 
2.43.0


From e7a1108bf699003cd50296e0ddc40c126898692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 10/19] fix: refuse sampling with tools when the client does
 not declare sampling.tools

---
 src/generated_schema/2025_11_25/schema_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index f899351..d5ed7c7 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2752,6 +2752,10 @@ impl ClientCapabilities {
                         if create_message_request.params.tool_choice.is_some() && samplig_capabilities.tools.is_none() {
                             return Err(create_error("tool choice", request_method));
                         }
+
+                        if !create_message_request.params.tools.is_empty() && samplig_capabilities.tools.is_none() {
+                            return Err(create_error("tools", request_method));
+                        }
                     }
                     None => {
                         return Err(create_error("sampling capability", request_method));
-- 
2.43.0


From 26eda3782a4ed2e7ec947a74c927de13677a3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 11/19] fix: refuse messages whose jsonrpc member is not 2.0

---
 .../2024_11_05/schema_utils.rs                 | 18 ++++++++++++++++++
 .../2025_03_26/schema_utils.rs                 | 18 ++++++++++++++++++
 .../2025_06_18/schema_utils.rs                 | 18 ++++++++++++++++++
 .../2025_11_25/schema_utils.rs                 |  6 ++++++
 .../2026_07_28/schema_utils.rs                 | 12 +++++++++---
 src/generated_schema/draft/schema_utils.rs     | 12 +++++++++---
 6 files changed, 78 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 1fb95a5..7435f8b 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1885,6 +1885,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -1967,6 +1970,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2046,6 +2052,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2132,6 +2141,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2195,6 +2207,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2247,6 +2262,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 4337050..82bf866 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1884,6 +1884,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -1966,6 +1969,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2045,6 +2051,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2131,6 +2140,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2194,6 +2206,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2246,6 +2261,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index a6e1bf0..04fab76 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2006,6 +2006,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2089,6 +2092,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2168,6 +2174,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2254,6 +2263,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2317,6 +2329,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2369,6 +2384,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index d5ed7c7..27fc540 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3113,6 +3113,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -3165,6 +3168,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index b81f639..f608191 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -1050,21 +1050,21 @@ impl Display for ServerMessage {
 pub enum ServerJsonrpcRequest {
     CreateMessageRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validators::jsonrpc_request_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: CreateMessageRequest,
     },
     ListRootsRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validators::jsonrpc_request_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ListRootsRequest,
     },
     ElicitRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validators::jsonrpc_request_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ElicitRequest,
@@ -3468,6 +3468,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
@@ -3520,6 +3523,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ServerResult>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index b81f639..f608191 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -1050,21 +1050,21 @@ impl Display for ServerMessage {
 pub enum ServerJsonrpcRequest {
     CreateMessageRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validators::jsonrpc_request_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: CreateMessageRequest,
     },
     ListRootsRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validators::jsonrpc_request_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ListRootsRequest,
     },
     ElicitRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validators::jsonrpc_request_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ElicitRequest,
@@ -3468,6 +3468,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
@@ -3520,6 +3523,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ServerResult>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
-- 
2.43.0


From 4fd90173b33a90467700cb8c5752edaa7d3e44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 12/19] fix: refuse requests with an invalid id instead of
 taking them for notifications

---
 src/generated_schema/2025_11_25/schema_utils.rs |  2 ++
 src/generated_schema/2025_11_25/validators.rs   | 14 ++++++++++++++
 src/generated_schema/2026_07_28/schema_utils.rs |  2 ++
 src/generated_schema/2026_07_28/validators.rs   | 14 ++++++++++++++
 src/generated_schema/draft/schema_utils.rs      |  2 ++
 src/generated_schema/draft/validators.rs        | 14 ++++++++++++++
 6 files changed, 48 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 27fc540..81f9aac 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -152,6 +152,7 @@ impl core::fmt::Display for RequestId {
 #[serde(untagged)]
 pub enum ClientMessage {
     Request(ClientJsonrpcRequest),
+    #[serde(deserialize_with = "validators::without_id")]
     Notification(ClientJsonrpcNotification),
     Response(ClientJsonrpcResponse),
     Error(JsonrpcErrorResponse),
@@ -942,6 +943,7 @@ impl Display for ClientMessage {
 #[serde(untagged)]
 pub enum ServerMessage {
     Request(ServerJsonrpcRequest),
+    #[serde(deserialize_with = "validators::without_id")]
     Notification(ServerJsonrpcNotification),
     Response(ServerJsonrpcResponse),
     Error(JsonrpcErrorResponse),
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index 556a484..64e8c23 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -66,6 +66,20 @@ where
     serde::Deserialize::deserialize(deserializer).map(Some)
 }
 
+/// Deserializes `T` unless the input carries an `id`, which only requests and replies do.
+#[cfg(feature = "schema_utils")]
+pub fn without_id<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("id").is_some() {
+        return Err(serde::de::Error::custom("Unexpected field `id` in a notification"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 /// Deserializes `T` unless the input carries `enumNames`, which only the legacy titled enum schema defines.
 pub fn without_enum_names<'de, D, T>(deserializer: D) -> Result<T, D::Error>
 where
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index f608191..a1bf4d6 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -154,6 +154,7 @@ impl core::fmt::Display for RequestId {
 #[serde(untagged)]
 pub enum ClientMessage {
     Request(ClientJsonrpcRequest),
+    #[serde(deserialize_with = "validators::without_id")]
     Notification(ClientJsonrpcNotification),
     Response(ClientJsonrpcResponse),
     Error(JsonrpcErrorResponse),
@@ -841,6 +842,7 @@ impl Display for ClientMessage {
 #[serde(untagged)]
 pub enum ServerMessage {
     Request(ServerJsonrpcRequest),
+    #[serde(deserialize_with = "validators::without_id")]
     Notification(ServerJsonrpcNotification),
     Response(ServerJsonrpcResponse),
     Error(JsonrpcErrorResponse),
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 91a0f01..5b1a393 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -57,6 +57,20 @@ where
     }
 }
 
+/// Deserializes `T` unless the input carries an `id`, which only requests and replies do.
+#[cfg(feature = "schema_utils")]
+pub fn without_id<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("id").is_some() {
+        return Err(serde::de::Error::custom("Unexpected field `id` in a notification"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 /// Deserializes `T` unless the input carries `enumNames`, which only the legacy titled enum schema defines.
 pub fn without_enum_names<'de, D, T>(deserializer: D) -> Result<T, D::Error>
 where
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index f608191..a1bf4d6 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -154,6 +154,7 @@ impl core::fmt::Display for RequestId {
 #[serde(untagged)]
 pub enum ClientMessage {
     Request(ClientJsonrpcRequest),
+    #[serde(deserialize_with = "validators::without_id")]
     Notification(ClientJsonrpcNotification),
     Response(ClientJsonrpcResponse),
     Error(JsonrpcErrorResponse),
@@ -841,6 +842,7 @@ impl Display for ClientMessage {
 #[serde(untagged)]
 pub enum ServerMessage {
     Request(ServerJsonrpcRequest),
+    #[serde(deserialize_with = "validators::without_id")]
     Notification(ServerJsonrpcNotification),
     Response(ServerJsonrpcResponse),
     Error(JsonrpcErrorResponse),
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index 91a0f01..5b1a393 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -57,6 +57,20 @@ where
     }
 }
 
+/// Deserializes `T` unless the input carries an `id`, which only requests and replies do.
+#[cfg(feature = "schema_utils")]
+pub fn without_id<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("id").is_some() {
+        return Err(serde::de::Error::custom("Unexpected field `id` in a notification"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 /// Deserializes `T` unless the input carries `enumNames`, which only the legacy titled enum schema defines.
 pub fn without_enum_names<'de, D, T>(deserializer: D) -> Result<T, D::Error>
 where
-- 
2.43.0


From ad727b1a70a6743df8488984349fe66aea61f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 13/19] fix: includeContext "none" does not require the
 sampling.context capability

---
 src/generated_schema/2025_11_25/schema_utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 81f9aac..6e9feee 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2745,8 +2745,11 @@ impl ClientCapabilities {
             ServerJsonrpcRequest::CreateMessageRequest(create_message_request) => {
                 match self.sampling.as_ref() {
                     Some(samplig_capabilities) => {
-                        //  include_context requested but not supported
-                        if create_message_request.params.include_context.is_some() && samplig_capabilities.context.is_none()
+                        //  include_context requested but not supported ("none" requests nothing)
+                        if !matches!(
+                            create_message_request.params.include_context,
+                            None | Some(IncludeContext::None)
+                        ) && samplig_capabilities.context.is_none()
                         {
                             return Err(create_error("context inclusion", request_method));
                         }
-- 
2.43.0


From 1ed49c4acfc5aa782dcde9d31ea26a776cce4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 14/19] fix: elicitation modes are checked against the declared
 elicitation sub-capabilities

---
 src/generated_schema/2025_11_25/schema_utils.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 6e9feee..0395057 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2793,8 +2793,19 @@ impl ClientCapabilities {
             }
 
             ServerJsonrpcRequest::ElicitRequest(elicit_request) => {
-                if self.elicitation.is_none() {
+                let Some(elicitation) = self.elicitation.as_ref() else {
                     return Err(create_error("input elicitation", request_method));
+                };
+
+                // an empty elicitation capability declares form mode only
+                match &elicit_request.params {
+                    ElicitRequestParams::UrlParams(_) if elicitation.url.is_none() => {
+                        return Err(create_error("url elicitation", request_method));
+                    }
+                    ElicitRequestParams::FormParams(_) if elicitation.form.is_none() && elicitation.url.is_some() => {
+                        return Err(create_error("form elicitation", request_method));
+                    }
+                    _ => {}
                 }
 
                 if elicit_request.params.is_task_augmented() && !self.can_accept_elicitation_task() {
-- 
2.43.0


From dce9d61a3fd4b3479654617904ed1ec7d84d6312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 15/19] fix: resources/subscribe requires the
 resources.subscribe capability

---
 src/generated_schema/2025_11_25/schema_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 0395057..ef6fdf4 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2576,6 +2576,11 @@ impl ServerCapabilities {
             {
                 return Err(create_error("resources", request_method));
             }
+            ClientJsonrpcRequest::SubscribeRequest(_)
+                if !self.resources.as_ref().is_some_and(|resources| resources.subscribe == Some(true)) =>
+            {
+                return Err(create_error("resource subscription", request_method));
+            }
 
             ClientJsonrpcRequest::CallToolRequest(call_tool_request)
                 if call_tool_request.is_task_augmented() && !self.can_run_task_augmented_tools() =>
-- 
2.43.0


From a786576ab064b62cbc983deffbb907d75d440a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:15 +0000
Subject: [PATCH 16/19] fix: a complete result is not read as
 InputRequiredResult in per-operation responses

---
 src/generated_schema/2026_07_28/mcp_schema.rs |  3 +++
 src/generated_schema/2026_07_28/validators.rs | 13 +++++++++++++
 src/generated_schema/draft/mcp_schema.rs      |  3 +++
 src/generated_schema/draft/validators.rs      | 13 +++++++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index 0f8c52c..e282584 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -673,6 +673,7 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required")]
     InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
 }
@@ -3021,6 +3022,7 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required")]
     InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
 }
@@ -6979,6 +6981,7 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required")]
     InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
 }
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 5b1a393..a62c002 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -84,6 +84,19 @@ where
     serde_json::from_value(value).map_err(serde::de::Error::custom)
 }
 
+/// Deserializes `T` only from a result whose `resultType` is `input_required`.
+pub fn input_required<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("resultType").and_then(|v| v.as_str()) != Some("input_required") {
+        return Err(serde::de::Error::custom("Expected `resultType` to be `input_required`"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 // Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
 // integer const properties, so it would otherwise be flagged as dead code there.
 #[allow(dead_code)]
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 0996552..6f69f94 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -673,6 +673,7 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required")]
     InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
 }
@@ -3021,6 +3022,7 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required")]
     InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
 }
@@ -6979,6 +6981,7 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required")]
     InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
 }
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index 5b1a393..a62c002 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -84,6 +84,19 @@ where
     serde_json::from_value(value).map_err(serde::de::Error::custom)
 }
 
+/// Deserializes `T` only from a result whose `resultType` is `input_required`.
+pub fn input_required<'de, D, T>(deserializer: D) -> Result<T, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::DeserializeOwned,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    if value.get("resultType").and_then(|v| v.as_str()) != Some("input_required") {
+        return Err(serde::de::Error::custom("Expected `resultType` to be `input_required`"));
+    }
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 // Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
 // integer const properties, so it would otherwise be flagged as dead code there.
 #[allow(dead_code)]
-- 
2.43.0


From aca63530ae90acd3baef5145b0b3fa38fb979e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 17/19] fix: report unsupported schema types as an error
 instead of panicking

---
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 04fab76..88f905b 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1907,7 +1907,7 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
                 PrimitiveSchemaDefinition::EnumSchema(EnumSchema::new(enum_values, enum_names, description, title))
             }
             other => {
-                panic!("'{other}' type is not currently supported");
+                return Err(RpcError::parse_error().with_message(format!("'{other}' type is not currently supported")));
             }
         };
 
-- 
2.43.0


From 271cc01212819bc3ae636e56c35c36f239f4912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 18/19] fix: keep the choices of an enum schema parsed from a
 map

---
 src/generated_schema/2025_06_18/schema_utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 88f905b..29625d8 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1832,6 +1832,13 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
     type Error = RpcError;
 
     fn try_from(value: &serde_json::Map<String, serde_json::Value>) -> result::Result<Self, Self::Error> {
+        // an enum schema has the type "string" too
+        if value.contains_key("enum") {
+            let schema: EnumSchema = serde_json::from_value(Value::Object(value.clone()))
+                .map_err(|e| RpcError::parse_error().with_message(format!("Failed to parse EnumSchema: {e}")))?;
+            return Ok(PrimitiveSchemaDefinition::EnumSchema(schema));
+        }
+
         let input_type = value
             .get("type")
             .and_then(|v| v.as_str())
-- 
2.43.0


From 237977bb9417da375468e880ee125b6115a5a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 19/19] fix: keep enumNames when a legacy titled enum is read
 as EnumSchema

---
 src/generated_schema/2025_11_25/mcp_schema.rs | 1 +
 src/generated_schema/2026_07_28/mcp_schema.rs | 1 +
 src/generated_schema/draft/mcp_schema.rs      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 4f3086e..f6a7dca 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -3114,6 +3114,7 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "validate::without_enum_names")]
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index e282584..261f9e1 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -2749,6 +2749,7 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "validate::without_enum_names")]
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 6f69f94..d5a1473 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -2749,6 +2749,7 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "validate::without_enum_names")]
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
-- 
2.43.0

