// Written by tools/gen_pieces.py.
use super::{put, word, form};
use rust_mcp_schema::mcp_2025_06_18 as mcp;
use serde_json::{json, Map, Value};

#[allow(deprecated)]
pub fn piece(ty: &str, body: &Value) -> Value {
    match ty {
        "Annotations" => p_Annotations(body),
        "AudioContent" => p_AudioContent(body),
        "BaseMetadata" => p_BaseMetadata(body),
        "BlobResourceContents" => p_BlobResourceContents(body),
        "BooleanSchema" => p_BooleanSchema(body),
        "CallToolRequest" => p_CallToolRequest(body),
        "CallToolRequestParams" => p_CallToolRequestParams(body),
        "CallToolResult" => p_CallToolResult(body),
        "CancelledNotification" => p_CancelledNotification(body),
        "CancelledNotificationParams" => p_CancelledNotificationParams(body),
        "ClientCapabilities" => p_ClientCapabilities(body),
        "ClientNotification" => p_ClientNotification(body),
        "ClientRequest" => p_ClientRequest(body),
        "ClientResult" => p_ClientResult(body),
        "ClientRoots" => p_ClientRoots(body),
        "CompleteRequest" => p_CompleteRequest(body),
        "CompleteRequestArgument" => p_CompleteRequestArgument(body),
        "CompleteRequestContext" => p_CompleteRequestContext(body),
        "CompleteRequestParams" => p_CompleteRequestParams(body),
        "CompleteRequestRef" => p_CompleteRequestRef(body),
        "CompleteResult" => p_CompleteResult(body),
        "CompleteResultCompletion" => p_CompleteResultCompletion(body),
        "ContentBlock" => p_ContentBlock(body),
        "CreateMessageContent" => p_CreateMessageContent(body),
        "CreateMessageRequest" => p_CreateMessageRequest(body),
        "CreateMessageRequestParams" => p_CreateMessageRequestParams(body),
        "CreateMessageResult" => p_CreateMessageResult(body),
        "Cursor" => p_Cursor(body),
        "ElicitRequest" => p_ElicitRequest(body),
        "ElicitRequestParams" => p_ElicitRequestParams(body),
        "ElicitRequestedSchema" => p_ElicitRequestedSchema(body),
        "ElicitResult" => p_ElicitResult(body),
        "ElicitResultAction" => p_ElicitResultAction(body),
        "ElicitResultContent" => p_ElicitResultContent(body),
        "EmbeddedResource" => p_EmbeddedResource(body),
        "EmbeddedResourceResource" => p_EmbeddedResourceResource(body),
        "EmptyResult" => p_EmptyResult(body),
        "EnumSchema" => p_EnumSchema(body),
        "GetPromptRequest" => p_GetPromptRequest(body),
        "GetPromptRequestParams" => p_GetPromptRequestParams(body),
        "GetPromptResult" => p_GetPromptResult(body),
        "ImageContent" => p_ImageContent(body),
        "Implementation" => p_Implementation(body),
        "IncludeContext" => p_IncludeContext(body),
        "InitializeRequest" => p_InitializeRequest(body),
        "InitializeRequestParams" => p_InitializeRequestParams(body),
        "InitializeResult" => p_InitializeResult(body),
        "InitializedNotification" => p_InitializedNotification(body),
        "InitializedNotificationParams" => p_InitializedNotificationParams(body),
        "JsonrpcError" => p_JsonrpcError(body),
        "JsonrpcMessage" => p_JsonrpcMessage(body),
        "JsonrpcNotification" => p_JsonrpcNotification(body),
        "JsonrpcNotificationParams" => p_JsonrpcNotificationParams(body),
        "JsonrpcRequest" => p_JsonrpcRequest(body),
        "JsonrpcRequestParams" => p_JsonrpcRequestParams(body),
        "JsonrpcRequestParamsMeta" => p_JsonrpcRequestParamsMeta(body),
        "JsonrpcResponse" => p_JsonrpcResponse(body),
        "ListPromptsRequest" => p_ListPromptsRequest(body),
        "ListPromptsRequestParams" => p_ListPromptsRequestParams(body),
        "ListPromptsResult" => p_ListPromptsResult(body),
        "ListResourceTemplatesRequest" => p_ListResourceTemplatesRequest(body),
        "ListResourceTemplatesRequestParams" => p_ListResourceTemplatesRequestParams(body),
        "ListResourceTemplatesResult" => p_ListResourceTemplatesResult(body),
        "ListResourcesRequest" => p_ListResourcesRequest(body),
        "ListResourcesRequestParams" => p_ListResourcesRequestParams(body),
        "ListResourcesResult" => p_ListResourcesResult(body),
        "ListRootsRequest" => p_ListRootsRequest(body),
        "ListRootsRequestParams" => p_ListRootsRequestParams(body),
        "ListRootsRequestParamsMeta" => p_ListRootsRequestParamsMeta(body),
        "ListRootsResult" => p_ListRootsResult(body),
        "ListToolsRequest" => p_ListToolsRequest(body),
        "ListToolsRequestParams" => p_ListToolsRequestParams(body),
        "ListToolsResult" => p_ListToolsResult(body),
        "LoggingLevel" => p_LoggingLevel(body),
        "LoggingMessageNotification" => p_LoggingMessageNotification(body),
        "LoggingMessageNotificationParams" => p_LoggingMessageNotificationParams(body),
        "ModelHint" => p_ModelHint(body),
        "ModelPreferences" => p_ModelPreferences(body),
        "Notification" => p_Notification(body),
        "NotificationParams" => p_NotificationParams(body),
        "NumberSchema" => p_NumberSchema(body),
        "NumberSchemaType" => p_NumberSchemaType(body),
        "PaginatedRequest" => p_PaginatedRequest(body),
        "PaginatedRequestParams" => p_PaginatedRequestParams(body),
        "PaginatedResult" => p_PaginatedResult(body),
        "PingRequest" => p_PingRequest(body),
        "PingRequestParams" => p_PingRequestParams(body),
        "PingRequestParamsMeta" => p_PingRequestParamsMeta(body),
        "PrimitiveSchemaDefinition" => p_PrimitiveSchemaDefinition(body),
        "ProgressNotification" => p_ProgressNotification(body),
        "ProgressNotificationParams" => p_ProgressNotificationParams(body),
        "ProgressToken" => p_ProgressToken(body),
        "Prompt" => p_Prompt(body),
        "PromptArgument" => p_PromptArgument(body),
        "PromptListChangedNotification" => p_PromptListChangedNotification(body),
        "PromptListChangedNotificationParams" => p_PromptListChangedNotificationParams(body),
        "PromptMessage" => p_PromptMessage(body),
        "PromptReference" => p_PromptReference(body),
        "ReadResourceContent" => p_ReadResourceContent(body),
        "ReadResourceRequest" => p_ReadResourceRequest(body),
        "ReadResourceRequestParams" => p_ReadResourceRequestParams(body),
        "ReadResourceResult" => p_ReadResourceResult(body),
        "Request" => p_Request(body),
        "RequestId" => p_RequestId(body),
        "RequestParams" => p_RequestParams(body),
        "RequestParamsMeta" => p_RequestParamsMeta(body),
        "Resource" => p_Resource(body),
        "ResourceContents" => p_ResourceContents(body),
        "ResourceLink" => p_ResourceLink(body),
        "ResourceListChangedNotification" => p_ResourceListChangedNotification(body),
        "ResourceListChangedNotificationParams" => p_ResourceListChangedNotificationParams(body),
        "ResourceTemplate" => p_ResourceTemplate(body),
        "ResourceTemplateReference" => p_ResourceTemplateReference(body),
        "ResourceUpdatedNotification" => p_ResourceUpdatedNotification(body),
        "ResourceUpdatedNotificationParams" => p_ResourceUpdatedNotificationParams(body),
        "Result" => p_Result(body),
        "Role" => p_Role(body),
        "Root" => p_Root(body),
        "RootsListChangedNotification" => p_RootsListChangedNotification(body),
        "RootsListChangedNotificationParams" => p_RootsListChangedNotificationParams(body),
        "RpcError" => p_RpcError(body),
        "SamplingMessage" => p_SamplingMessage(body),
        "SamplingMessageContent" => p_SamplingMessageContent(body),
        "ServerCapabilities" => p_ServerCapabilities(body),
        "ServerCapabilitiesPrompts" => p_ServerCapabilitiesPrompts(body),
        "ServerCapabilitiesResources" => p_ServerCapabilitiesResources(body),
        "ServerCapabilitiesTools" => p_ServerCapabilitiesTools(body),
        "ServerNotification" => p_ServerNotification(body),
        "ServerRequest" => p_ServerRequest(body),
        "ServerResult" => p_ServerResult(body),
        "SetLevelRequest" => p_SetLevelRequest(body),
        "SetLevelRequestParams" => p_SetLevelRequestParams(body),
        "StringSchema" => p_StringSchema(body),
        "StringSchemaFormat" => p_StringSchemaFormat(body),
        "SubscribeRequest" => p_SubscribeRequest(body),
        "SubscribeRequestParams" => p_SubscribeRequestParams(body),
        "TextContent" => p_TextContent(body),
        "TextResourceContents" => p_TextResourceContents(body),
        "Tool" => p_Tool(body),
        "ToolAnnotations" => p_ToolAnnotations(body),
        "ToolInputSchema" => p_ToolInputSchema(body),
        "ToolListChangedNotification" => p_ToolListChangedNotification(body),
        "ToolListChangedNotificationParams" => p_ToolListChangedNotificationParams(body),
        "ToolOutputSchema" => p_ToolOutputSchema(body),
        "UnsubscribeRequest" => p_UnsubscribeRequest(body),
        "UnsubscribeRequestParams" => p_UnsubscribeRequestParams(body),
        _ => json!({"none": true}),
    }
}
#[allow(non_snake_case)]
fn v_ClientNotification(u: &mcp::ClientNotification) -> &'static str {
    match u {
        mcp::ClientNotification::CancelledNotification(_) => "CancelledNotification",
        mcp::ClientNotification::InitializedNotification(_) => "InitializedNotification",
        mcp::ClientNotification::ProgressNotification(_) => "ProgressNotification",
        mcp::ClientNotification::RootsListChangedNotification(_) => "RootsListChangedNotification",
    }
}
#[allow(non_snake_case)]
fn v_ClientRequest(u: &mcp::ClientRequest) -> &'static str {
    match u {
        mcp::ClientRequest::InitializeRequest(_) => "InitializeRequest",
        mcp::ClientRequest::PingRequest(_) => "PingRequest",
        mcp::ClientRequest::ListResourcesRequest(_) => "ListResourcesRequest",
        mcp::ClientRequest::ListResourceTemplatesRequest(_) => "ListResourceTemplatesRequest",
        mcp::ClientRequest::ReadResourceRequest(_) => "ReadResourceRequest",
        mcp::ClientRequest::SubscribeRequest(_) => "SubscribeRequest",
        mcp::ClientRequest::UnsubscribeRequest(_) => "UnsubscribeRequest",
        mcp::ClientRequest::ListPromptsRequest(_) => "ListPromptsRequest",
        mcp::ClientRequest::GetPromptRequest(_) => "GetPromptRequest",
        mcp::ClientRequest::ListToolsRequest(_) => "ListToolsRequest",
        mcp::ClientRequest::CallToolRequest(_) => "CallToolRequest",
        mcp::ClientRequest::SetLevelRequest(_) => "SetLevelRequest",
        mcp::ClientRequest::CompleteRequest(_) => "CompleteRequest",
    }
}
#[allow(non_snake_case)]
fn v_ClientResult(u: &mcp::ClientResult) -> &'static str {
    match u {
        mcp::ClientResult::CreateMessageResult(_) => "CreateMessageResult",
        mcp::ClientResult::ListRootsResult(_) => "ListRootsResult",
        mcp::ClientResult::ElicitResult(_) => "ElicitResult",
        mcp::ClientResult::Result(_) => "Result",
    }
}
#[allow(non_snake_case)]
fn v_CompleteRequestRef(u: &mcp::CompleteRequestRef) -> &'static str {
    match u {
        mcp::CompleteRequestRef::PromptReference(_) => "PromptReference",
        mcp::CompleteRequestRef::ResourceTemplateReference(_) => "ResourceTemplateReference",
    }
}
#[allow(non_snake_case)]
fn v_ContentBlock(u: &mcp::ContentBlock) -> &'static str {
    match u {
        mcp::ContentBlock::TextContent(_) => "TextContent",
        mcp::ContentBlock::ImageContent(_) => "ImageContent",
        mcp::ContentBlock::AudioContent(_) => "AudioContent",
        mcp::ContentBlock::ResourceLink(_) => "ResourceLink",
        mcp::ContentBlock::EmbeddedResource(_) => "EmbeddedResource",
    }
}
#[allow(non_snake_case)]
fn v_CreateMessageContent(u: &mcp::CreateMessageContent) -> &'static str {
    match u {
        mcp::CreateMessageContent::TextContent(_) => "TextContent",
        mcp::CreateMessageContent::ImageContent(_) => "ImageContent",
        mcp::CreateMessageContent::AudioContent(_) => "AudioContent",
    }
}
#[allow(non_snake_case)]
fn v_ElicitResultContent(u: &mcp::ElicitResultContent) -> &'static str {
    match u {
        mcp::ElicitResultContent::Boolean(_) => "bool",
        mcp::ElicitResultContent::String(_) => "String",
        mcp::ElicitResultContent::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_EmbeddedResourceResource(u: &mcp::EmbeddedResourceResource) -> &'static str {
    match u {
        mcp::EmbeddedResourceResource::TextResourceContents(_) => "TextResourceContents",
        mcp::EmbeddedResourceResource::BlobResourceContents(_) => "BlobResourceContents",
    }
}
#[allow(non_snake_case)]
fn v_JsonrpcMessage(u: &mcp::JsonrpcMessage) -> &'static str {
    match u {
        mcp::JsonrpcMessage::Request(_) => "JsonrpcRequest",
        mcp::JsonrpcMessage::Notification(_) => "JsonrpcNotification",
        mcp::JsonrpcMessage::Response(_) => "JsonrpcResponse",
        mcp::JsonrpcMessage::Error(_) => "JsonrpcError",
    }
}
#[allow(non_snake_case)]
fn v_PrimitiveSchemaDefinition(u: &mcp::PrimitiveSchemaDefinition) -> &'static str {
    match u {
        mcp::PrimitiveSchemaDefinition::EnumSchema(_) => "EnumSchema",
        mcp::PrimitiveSchemaDefinition::StringSchema(_) => "StringSchema",
        mcp::PrimitiveSchemaDefinition::NumberSchema(_) => "NumberSchema",
        mcp::PrimitiveSchemaDefinition::BooleanSchema(_) => "BooleanSchema",
    }
}
#[allow(non_snake_case)]
fn v_ProgressToken(u: &mcp::ProgressToken) -> &'static str {
    match u {
        mcp::ProgressToken::String(_) => "String",
        mcp::ProgressToken::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_ReadResourceContent(u: &mcp::ReadResourceContent) -> &'static str {
    match u {
        mcp::ReadResourceContent::TextResourceContents(_) => "TextResourceContents",
        mcp::ReadResourceContent::BlobResourceContents(_) => "BlobResourceContents",
    }
}
#[allow(non_snake_case)]
fn v_RequestId(u: &mcp::RequestId) -> &'static str {
    match u {
        mcp::RequestId::String(_) => "String",
        mcp::RequestId::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_SamplingMessageContent(u: &mcp::SamplingMessageContent) -> &'static str {
    match u {
        mcp::SamplingMessageContent::TextContent(_) => "TextContent",
        mcp::SamplingMessageContent::ImageContent(_) => "ImageContent",
        mcp::SamplingMessageContent::AudioContent(_) => "AudioContent",
    }
}
#[allow(non_snake_case)]
fn v_ServerNotification(u: &mcp::ServerNotification) -> &'static str {
    match u {
        mcp::ServerNotification::CancelledNotification(_) => "CancelledNotification",
        mcp::ServerNotification::ProgressNotification(_) => "ProgressNotification",
        mcp::ServerNotification::ResourceListChangedNotification(_) => "ResourceListChangedNotification",
        mcp::ServerNotification::ResourceUpdatedNotification(_) => "ResourceUpdatedNotification",
        mcp::ServerNotification::PromptListChangedNotification(_) => "PromptListChangedNotification",
        mcp::ServerNotification::ToolListChangedNotification(_) => "ToolListChangedNotification",
        mcp::ServerNotification::LoggingMessageNotification(_) => "LoggingMessageNotification",
    }
}
#[allow(non_snake_case)]
fn v_ServerRequest(u: &mcp::ServerRequest) -> &'static str {
    match u {
        mcp::ServerRequest::PingRequest(_) => "PingRequest",
        mcp::ServerRequest::CreateMessageRequest(_) => "CreateMessageRequest",
        mcp::ServerRequest::ListRootsRequest(_) => "ListRootsRequest",
        mcp::ServerRequest::ElicitRequest(_) => "ElicitRequest",
    }
}
#[allow(non_snake_case)]
fn v_ServerResult(u: &mcp::ServerResult) -> &'static str {
    match u {
        mcp::ServerResult::InitializeResult(_) => "InitializeResult",
        mcp::ServerResult::ListResourcesResult(_) => "ListResourcesResult",
        mcp::ServerResult::ListResourceTemplatesResult(_) => "ListResourceTemplatesResult",
        mcp::ServerResult::ReadResourceResult(_) => "ReadResourceResult",
        mcp::ServerResult::ListPromptsResult(_) => "ListPromptsResult",
        mcp::ServerResult::GetPromptResult(_) => "GetPromptResult",
        mcp::ServerResult::ListToolsResult(_) => "ListToolsResult",
        mcp::ServerResult::CallToolResult(_) => "CallToolResult",
        mcp::ServerResult::CompleteResult(_) => "CompleteResult",
        mcp::ServerResult::Result(_) => "Result",
    }
}
#[allow(non_snake_case, deprecated)]
fn p_Annotations(body: &Value) -> Value {
    let t: mcp::Annotations = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_AudioContent(body: &Value) -> Value {
    let t: mcp::AudioContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::AudioContent::new(t.data.clone(), t.mime_type.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::AudioContent::type_value());
    word(&mut o, "type_name", mcp::AudioContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BaseMetadata(body: &Value) -> Value {
    let t: mcp::BaseMetadata = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BlobResourceContents(body: &Value) -> Value {
    let t: mcp::BlobResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into EmbeddedResourceResource", &mcp::EmbeddedResourceResource::from(t.clone()));
    word(&mut o, "kind EmbeddedResourceResource", v_EmbeddedResourceResource(&mcp::EmbeddedResourceResource::from(t.clone())));
    form::<mcp::EmbeddedResourceResource>(&mut o, "EmbeddedResourceResource", body, v_EmbeddedResourceResource);
    put(&mut o, "into ReadResourceContent", &mcp::ReadResourceContent::from(t.clone()));
    word(&mut o, "kind ReadResourceContent", v_ReadResourceContent(&mcp::ReadResourceContent::from(t.clone())));
    form::<mcp::ReadResourceContent>(&mut o, "ReadResourceContent", body, v_ReadResourceContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BooleanSchema(body: &Value) -> Value {
    let t: mcp::BooleanSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::BooleanSchema::new(t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::BooleanSchema::type_value());
    word(&mut o, "type_name", mcp::BooleanSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolRequest(body: &Value) -> Value {
    let t: mcp::CallToolRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CallToolRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::CallToolRequest::method_value());
    word(&mut o, "method_name", mcp::CallToolRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolRequestParams(body: &Value) -> Value {
    let t: mcp::CallToolRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolResult(body: &Value) -> Value {
    let t: mcp::CallToolResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelledNotification(body: &Value) -> Value {
    let t: mcp::CancelledNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CancelledNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::CancelledNotification::method_value());
    word(&mut o, "method_name", mcp::CancelledNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelledNotificationParams(body: &Value) -> Value {
    let t: mcp::CancelledNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientCapabilities(body: &Value) -> Value {
    let t: mcp::ClientCapabilities = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientNotification(body: &Value) -> Value {
    let t: mcp::ClientNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ClientNotification(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientRequest(body: &Value) -> Value {
    let t: mcp::ClientRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ClientRequest(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientResult(body: &Value) -> Value {
    let t: mcp::ClientResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ClientResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientRoots(body: &Value) -> Value {
    let t: mcp::ClientRoots = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequest(body: &Value) -> Value {
    let t: mcp::CompleteRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CompleteRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::CompleteRequest::method_value());
    word(&mut o, "method_name", mcp::CompleteRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestArgument(body: &Value) -> Value {
    let t: mcp::CompleteRequestArgument = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestContext(body: &Value) -> Value {
    let t: mcp::CompleteRequestContext = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestParams(body: &Value) -> Value {
    let t: mcp::CompleteRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestRef(body: &Value) -> Value {
    let t: mcp::CompleteRequestRef = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_CompleteRequestRef(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteResult(body: &Value) -> Value {
    let t: mcp::CompleteResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteResultCompletion(body: &Value) -> Value {
    let t: mcp::CompleteResultCompletion = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ContentBlock(body: &Value) -> Value {
    let t: mcp::ContentBlock = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ContentBlock(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageContent(body: &Value) -> Value {
    let t: mcp::CreateMessageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_CreateMessageContent(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageRequest(body: &Value) -> Value {
    let t: mcp::CreateMessageRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CreateMessageRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::CreateMessageRequest::method_value());
    word(&mut o, "method_name", mcp::CreateMessageRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageRequestParams(body: &Value) -> Value {
    let t: mcp::CreateMessageRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageResult(body: &Value) -> Value {
    let t: mcp::CreateMessageResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Cursor(body: &Value) -> Value {
    let t: mcp::Cursor = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequest(body: &Value) -> Value {
    let t: mcp::ElicitRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ElicitRequest::method_value());
    word(&mut o, "method_name", mcp::ElicitRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestParams(body: &Value) -> Value {
    let t: mcp::ElicitRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestedSchema(body: &Value) -> Value {
    let t: mcp::ElicitRequestedSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequestedSchema::new(t.properties.clone(), t.required.clone()));
    word(&mut o, "type_value", mcp::ElicitRequestedSchema::type_value());
    word(&mut o, "type_name", mcp::ElicitRequestedSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResult(body: &Value) -> Value {
    let t: mcp::ElicitResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultAction(body: &Value) -> Value {
    let t: mcp::ElicitResultAction = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultContent(body: &Value) -> Value {
    let t: mcp::ElicitResultContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ElicitResultContent(&t));
    if let Ok(x) = serde_json::from_value::<bool>(body.clone()) { put(&mut o, "from bool", &mcp::ElicitResultContent::from(x)); }
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::ElicitResultContent::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmbeddedResource(body: &Value) -> Value {
    let t: mcp::EmbeddedResource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::EmbeddedResource::new(t.resource.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::EmbeddedResource::type_value());
    word(&mut o, "type_name", mcp::EmbeddedResource::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmbeddedResourceResource(body: &Value) -> Value {
    let t: mcp::EmbeddedResourceResource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_EmbeddedResourceResource(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmptyResult(body: &Value) -> Value {
    let t: mcp::EmptyResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EnumSchema(body: &Value) -> Value {
    let t: mcp::EnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::EnumSchema::new(t.enum_.clone(), t.enum_names.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::EnumSchema::type_value());
    word(&mut o, "type_name", mcp::EnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptRequest(body: &Value) -> Value {
    let t: mcp::GetPromptRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::GetPromptRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::GetPromptRequest::method_value());
    word(&mut o, "method_name", mcp::GetPromptRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptRequestParams(body: &Value) -> Value {
    let t: mcp::GetPromptRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptResult(body: &Value) -> Value {
    let t: mcp::GetPromptResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ImageContent(body: &Value) -> Value {
    let t: mcp::ImageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ImageContent::new(t.data.clone(), t.mime_type.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::ImageContent::type_value());
    word(&mut o, "type_name", mcp::ImageContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Implementation(body: &Value) -> Value {
    let t: mcp::Implementation = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_IncludeContext(body: &Value) -> Value {
    let t: mcp::IncludeContext = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializeRequest(body: &Value) -> Value {
    let t: mcp::InitializeRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::InitializeRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::InitializeRequest::method_value());
    word(&mut o, "method_name", mcp::InitializeRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializeRequestParams(body: &Value) -> Value {
    let t: mcp::InitializeRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializeResult(body: &Value) -> Value {
    let t: mcp::InitializeResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializedNotification(body: &Value) -> Value {
    let t: mcp::InitializedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::InitializedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::InitializedNotification::method_value());
    word(&mut o, "method_name", mcp::InitializedNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializedNotificationParams(body: &Value) -> Value {
    let t: mcp::InitializedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcError(body: &Value) -> Value {
    let t: mcp::JsonrpcError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcError::new(t.error.clone(), t.id.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcMessage(body: &Value) -> Value {
    let t: mcp::JsonrpcMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_JsonrpcMessage(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcNotification(body: &Value) -> Value {
    let t: mcp::JsonrpcNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcNotification::new(t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcNotificationParams(body: &Value) -> Value {
    let t: mcp::JsonrpcNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcRequest(body: &Value) -> Value {
    let t: mcp::JsonrpcRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcRequest::new(t.id.clone(), t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcRequestParams(body: &Value) -> Value {
    let t: mcp::JsonrpcRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcRequestParamsMeta(body: &Value) -> Value {
    let t: mcp::JsonrpcRequestParamsMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcResponse(body: &Value) -> Value {
    let t: mcp::JsonrpcResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsRequest(body: &Value) -> Value {
    let t: mcp::ListPromptsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListPromptsRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ListPromptsRequest::method_value());
    word(&mut o, "method_name", mcp::ListPromptsRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsRequestParams(body: &Value) -> Value {
    let t: mcp::ListPromptsRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsResult(body: &Value) -> Value {
    let t: mcp::ListPromptsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesRequest(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourceTemplatesRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ListResourceTemplatesRequest::method_value());
    word(&mut o, "method_name", mcp::ListResourceTemplatesRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesRequestParams(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesResult(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesRequest(body: &Value) -> Value {
    let t: mcp::ListResourcesRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourcesRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ListResourcesRequest::method_value());
    word(&mut o, "method_name", mcp::ListResourcesRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesRequestParams(body: &Value) -> Value {
    let t: mcp::ListResourcesRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesResult(body: &Value) -> Value {
    let t: mcp::ListResourcesResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsRequest(body: &Value) -> Value {
    let t: mcp::ListRootsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListRootsRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ListRootsRequest::method_value());
    word(&mut o, "method_name", mcp::ListRootsRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsRequestParams(body: &Value) -> Value {
    let t: mcp::ListRootsRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsRequestParamsMeta(body: &Value) -> Value {
    let t: mcp::ListRootsRequestParamsMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsResult(body: &Value) -> Value {
    let t: mcp::ListRootsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsRequest(body: &Value) -> Value {
    let t: mcp::ListToolsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListToolsRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ListToolsRequest::method_value());
    word(&mut o, "method_name", mcp::ListToolsRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsRequestParams(body: &Value) -> Value {
    let t: mcp::ListToolsRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsResult(body: &Value) -> Value {
    let t: mcp::ListToolsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingLevel(body: &Value) -> Value {
    let t: mcp::LoggingLevel = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingMessageNotification(body: &Value) -> Value {
    let t: mcp::LoggingMessageNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::LoggingMessageNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::LoggingMessageNotification::method_value());
    word(&mut o, "method_name", mcp::LoggingMessageNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingMessageNotificationParams(body: &Value) -> Value {
    let t: mcp::LoggingMessageNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ModelHint(body: &Value) -> Value {
    let t: mcp::ModelHint = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ModelPreferences(body: &Value) -> Value {
    let t: mcp::ModelPreferences = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Notification(body: &Value) -> Value {
    let t: mcp::Notification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NotificationParams(body: &Value) -> Value {
    let t: mcp::NotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NumberSchema(body: &Value) -> Value {
    let t: mcp::NumberSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NumberSchemaType(body: &Value) -> Value {
    let t: mcp::NumberSchemaType = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedRequest(body: &Value) -> Value {
    let t: mcp::PaginatedRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedRequestParams(body: &Value) -> Value {
    let t: mcp::PaginatedRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedResult(body: &Value) -> Value {
    let t: mcp::PaginatedResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PingRequest(body: &Value) -> Value {
    let t: mcp::PingRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PingRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::PingRequest::method_value());
    word(&mut o, "method_name", mcp::PingRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PingRequestParams(body: &Value) -> Value {
    let t: mcp::PingRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PingRequestParamsMeta(body: &Value) -> Value {
    let t: mcp::PingRequestParamsMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PrimitiveSchemaDefinition(body: &Value) -> Value {
    let t: mcp::PrimitiveSchemaDefinition = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_PrimitiveSchemaDefinition(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressNotification(body: &Value) -> Value {
    let t: mcp::ProgressNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ProgressNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ProgressNotification::method_value());
    word(&mut o, "method_name", mcp::ProgressNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressNotificationParams(body: &Value) -> Value {
    let t: mcp::ProgressNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressToken(body: &Value) -> Value {
    let t: mcp::ProgressToken = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ProgressToken(&t));
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::ProgressToken::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Prompt(body: &Value) -> Value {
    let t: mcp::Prompt = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptArgument(body: &Value) -> Value {
    let t: mcp::PromptArgument = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptListChangedNotification(body: &Value) -> Value {
    let t: mcp::PromptListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PromptListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::PromptListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::PromptListChangedNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptListChangedNotificationParams(body: &Value) -> Value {
    let t: mcp::PromptListChangedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptMessage(body: &Value) -> Value {
    let t: mcp::PromptMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptReference(body: &Value) -> Value {
    let t: mcp::PromptReference = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PromptReference::new(t.name.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::PromptReference::type_value());
    word(&mut o, "type_name", mcp::PromptReference::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CompleteRequestRef", &mcp::CompleteRequestRef::from(t.clone()));
    word(&mut o, "kind CompleteRequestRef", v_CompleteRequestRef(&mcp::CompleteRequestRef::from(t.clone())));
    form::<mcp::CompleteRequestRef>(&mut o, "CompleteRequestRef", body, v_CompleteRequestRef);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceContent(body: &Value) -> Value {
    let t: mcp::ReadResourceContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ReadResourceContent(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceRequest(body: &Value) -> Value {
    let t: mcp::ReadResourceRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ReadResourceRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ReadResourceRequest::method_value());
    word(&mut o, "method_name", mcp::ReadResourceRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceRequestParams(body: &Value) -> Value {
    let t: mcp::ReadResourceRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceResult(body: &Value) -> Value {
    let t: mcp::ReadResourceResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Request(body: &Value) -> Value {
    let t: mcp::Request = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestId(body: &Value) -> Value {
    let t: mcp::RequestId = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_RequestId(&t));
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::RequestId::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestParams(body: &Value) -> Value {
    let t: mcp::RequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestParamsMeta(body: &Value) -> Value {
    let t: mcp::RequestParamsMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Resource(body: &Value) -> Value {
    let t: mcp::Resource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceContents(body: &Value) -> Value {
    let t: mcp::ResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceLink(body: &Value) -> Value {
    let t: mcp::ResourceLink = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceLink::new(t.name.clone(), t.uri.clone(), t.annotations.clone(), t.description.clone(), t.meta.clone(), t.mime_type.clone(), t.size.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::ResourceLink::type_value());
    word(&mut o, "type_name", mcp::ResourceLink::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceListChangedNotification(body: &Value) -> Value {
    let t: mcp::ResourceListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ResourceListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::ResourceListChangedNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceListChangedNotificationParams(body: &Value) -> Value {
    let t: mcp::ResourceListChangedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceTemplate(body: &Value) -> Value {
    let t: mcp::ResourceTemplate = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceTemplateReference(body: &Value) -> Value {
    let t: mcp::ResourceTemplateReference = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceTemplateReference::new(t.uri.clone()));
    word(&mut o, "type_value", mcp::ResourceTemplateReference::type_value());
    word(&mut o, "type_name", mcp::ResourceTemplateReference::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CompleteRequestRef", &mcp::CompleteRequestRef::from(t.clone()));
    word(&mut o, "kind CompleteRequestRef", v_CompleteRequestRef(&mcp::CompleteRequestRef::from(t.clone())));
    form::<mcp::CompleteRequestRef>(&mut o, "CompleteRequestRef", body, v_CompleteRequestRef);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceUpdatedNotification(body: &Value) -> Value {
    let t: mcp::ResourceUpdatedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceUpdatedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ResourceUpdatedNotification::method_value());
    word(&mut o, "method_name", mcp::ResourceUpdatedNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceUpdatedNotificationParams(body: &Value) -> Value {
    let t: mcp::ResourceUpdatedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Result(body: &Value) -> Value {
    let t: mcp::Result = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Role(body: &Value) -> Value {
    let t: mcp::Role = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Root(body: &Value) -> Value {
    let t: mcp::Root = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RootsListChangedNotification(body: &Value) -> Value {
    let t: mcp::RootsListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::RootsListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::RootsListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::RootsListChangedNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RootsListChangedNotificationParams(body: &Value) -> Value {
    let t: mcp::RootsListChangedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RpcError(body: &Value) -> Value {
    let t: mcp::RpcError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessage(body: &Value) -> Value {
    let t: mcp::SamplingMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessageContent(body: &Value) -> Value {
    let t: mcp::SamplingMessageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_SamplingMessageContent(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilities(body: &Value) -> Value {
    let t: mcp::ServerCapabilities = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesPrompts(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesPrompts = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesResources(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesResources = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesTools(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesTools = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerNotification(body: &Value) -> Value {
    let t: mcp::ServerNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ServerNotification(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerRequest(body: &Value) -> Value {
    let t: mcp::ServerRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ServerRequest(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerResult(body: &Value) -> Value {
    let t: mcp::ServerResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ServerResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SetLevelRequest(body: &Value) -> Value {
    let t: mcp::SetLevelRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::SetLevelRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::SetLevelRequest::method_value());
    word(&mut o, "method_name", mcp::SetLevelRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SetLevelRequestParams(body: &Value) -> Value {
    let t: mcp::SetLevelRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_StringSchema(body: &Value) -> Value {
    let t: mcp::StringSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::StringSchema::new(t.description.clone(), t.format.clone(), t.max_length.clone(), t.min_length.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::StringSchema::type_value());
    word(&mut o, "type_name", mcp::StringSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_StringSchemaFormat(body: &Value) -> Value {
    let t: mcp::StringSchemaFormat = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscribeRequest(body: &Value) -> Value {
    let t: mcp::SubscribeRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::SubscribeRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::SubscribeRequest::method_value());
    word(&mut o, "method_name", mcp::SubscribeRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscribeRequestParams(body: &Value) -> Value {
    let t: mcp::SubscribeRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TextContent(body: &Value) -> Value {
    let t: mcp::TextContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TextContent::new(t.text.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::TextContent::type_value());
    word(&mut o, "type_name", mcp::TextContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TextResourceContents(body: &Value) -> Value {
    let t: mcp::TextResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into EmbeddedResourceResource", &mcp::EmbeddedResourceResource::from(t.clone()));
    word(&mut o, "kind EmbeddedResourceResource", v_EmbeddedResourceResource(&mcp::EmbeddedResourceResource::from(t.clone())));
    form::<mcp::EmbeddedResourceResource>(&mut o, "EmbeddedResourceResource", body, v_EmbeddedResourceResource);
    put(&mut o, "into ReadResourceContent", &mcp::ReadResourceContent::from(t.clone()));
    word(&mut o, "kind ReadResourceContent", v_ReadResourceContent(&mcp::ReadResourceContent::from(t.clone())));
    form::<mcp::ReadResourceContent>(&mut o, "ReadResourceContent", body, v_ReadResourceContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Tool(body: &Value) -> Value {
    let t: mcp::Tool = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolAnnotations(body: &Value) -> Value {
    let t: mcp::ToolAnnotations = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolInputSchema(body: &Value) -> Value {
    let t: mcp::ToolInputSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolInputSchema::new(t.required.clone(), t.properties.clone()));
    word(&mut o, "type_value", mcp::ToolInputSchema::type_value());
    word(&mut o, "type_name", mcp::ToolInputSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolListChangedNotification(body: &Value) -> Value {
    let t: mcp::ToolListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ToolListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::ToolListChangedNotification::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolListChangedNotificationParams(body: &Value) -> Value {
    let t: mcp::ToolListChangedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolOutputSchema(body: &Value) -> Value {
    let t: mcp::ToolOutputSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolOutputSchema::new(t.required.clone(), t.properties.clone()));
    word(&mut o, "type_value", mcp::ToolOutputSchema::type_value());
    word(&mut o, "type_name", mcp::ToolOutputSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsubscribeRequest(body: &Value) -> Value {
    let t: mcp::UnsubscribeRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UnsubscribeRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::UnsubscribeRequest::method_value());
    word(&mut o, "method_name", mcp::UnsubscribeRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsubscribeRequestParams(body: &Value) -> Value {
    let t: mcp::UnsubscribeRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
