// Written by tools/gen_pieces.py.
use super::{put, word, form};
use rust_mcp_schema::mcp_draft as mcp;
use serde_json::{json, Map, Value};

#[allow(deprecated)]
pub fn piece(ty: &str, body: &Value) -> Value {
    match ty {
        "Annotations" => p_Annotations(body),
        "AudioContent" => p_AudioContent(body),
        "BaseMetadata" => p_BaseMetadata(body),
        "BlobResourceContents" => p_BlobResourceContents(body),
        "BooleanSchema" => p_BooleanSchema(body),
        "CacheableResult" => p_CacheableResult(body),
        "CacheableResultCacheScope" => p_CacheableResultCacheScope(body),
        "CallToolRequest" => p_CallToolRequest(body),
        "CallToolRequestParams" => p_CallToolRequestParams(body),
        "CallToolResult" => p_CallToolResult(body),
        "CallToolResultResponse" => p_CallToolResultResponse(body),
        "CallToolResultResponseResult" => p_CallToolResultResponseResult(body),
        "CancelledNotification" => p_CancelledNotification(body),
        "CancelledNotificationParams" => p_CancelledNotificationParams(body),
        "ClientCapabilities" => p_ClientCapabilities(body),
        "ClientElicitation" => p_ClientElicitation(body),
        "ClientNotification" => p_ClientNotification(body),
        "ClientRequest" => p_ClientRequest(body),
        "ClientResult" => p_ClientResult(body),
        "ClientSampling" => p_ClientSampling(body),
        "CompleteRequest" => p_CompleteRequest(body),
        "CompleteRequestArgument" => p_CompleteRequestArgument(body),
        "CompleteRequestContext" => p_CompleteRequestContext(body),
        "CompleteRequestParams" => p_CompleteRequestParams(body),
        "CompleteRequestRef" => p_CompleteRequestRef(body),
        "CompleteResult" => p_CompleteResult(body),
        "CompleteResultCompletion" => p_CompleteResultCompletion(body),
        "CompleteResultResponse" => p_CompleteResultResponse(body),
        "ContentBlock" => p_ContentBlock(body),
        "CreateMessageContent" => p_CreateMessageContent(body),
        "CreateMessageRequest" => p_CreateMessageRequest(body),
        "CreateMessageRequestParams" => p_CreateMessageRequestParams(body),
        "CreateMessageResult" => p_CreateMessageResult(body),
        "Cursor" => p_Cursor(body),
        "DiscoverRequest" => p_DiscoverRequest(body),
        "DiscoverResult" => p_DiscoverResult(body),
        "DiscoverResultCacheScope" => p_DiscoverResultCacheScope(body),
        "DiscoverResultResponse" => p_DiscoverResultResponse(body),
        "ElicitRequest" => p_ElicitRequest(body),
        "ElicitRequestFormParams" => p_ElicitRequestFormParams(body),
        "ElicitRequestFormParamsRequestedSchema" => p_ElicitRequestFormParamsRequestedSchema(body),
        "ElicitRequestParams" => p_ElicitRequestParams(body),
        "ElicitRequestUrlParams" => p_ElicitRequestUrlParams(body),
        "ElicitResult" => p_ElicitResult(body),
        "ElicitResultAction" => p_ElicitResultAction(body),
        "ElicitResultContent" => p_ElicitResultContent(body),
        "ElicitResultContentPrimitive" => p_ElicitResultContentPrimitive(body),
        "EmbeddedResource" => p_EmbeddedResource(body),
        "EmbeddedResourceResource" => p_EmbeddedResourceResource(body),
        "EmptyResult" => p_EmptyResult(body),
        "EnumSchema" => p_EnumSchema(body),
        "GetPromptRequest" => p_GetPromptRequest(body),
        "GetPromptRequestParams" => p_GetPromptRequestParams(body),
        "GetPromptResult" => p_GetPromptResult(body),
        "GetPromptResultResponse" => p_GetPromptResultResponse(body),
        "GetPromptResultResponseResult" => p_GetPromptResultResponseResult(body),
        "HeaderMismatchError" => p_HeaderMismatchError(body),
        "Icon" => p_Icon(body),
        "IconTheme" => p_IconTheme(body),
        "Icons" => p_Icons(body),
        "ImageContent" => p_ImageContent(body),
        "Implementation" => p_Implementation(body),
        "IncludeContext" => p_IncludeContext(body),
        "InputRequest" => p_InputRequest(body),
        "InputRequests" => p_InputRequests(body),
        "InputRequiredResult" => p_InputRequiredResult(body),
        "InputResponse" => p_InputResponse(body),
        "InputResponseRequestParams" => p_InputResponseRequestParams(body),
        "InputResponses" => p_InputResponses(body),
        "InternalError" => p_InternalError(body),
        "InvalidParamsError" => p_InvalidParamsError(body),
        "InvalidRequestError" => p_InvalidRequestError(body),
        "JsonArray" => p_JsonArray(body),
        "JsonObject" => p_JsonObject(body),
        "JsonValue" => p_JsonValue(body),
        "JsonValueVariant2" => p_JsonValueVariant2(body),
        "JsonrpcErrorResponse" => p_JsonrpcErrorResponse(body),
        "JsonrpcMessage" => p_JsonrpcMessage(body),
        "JsonrpcNotification" => p_JsonrpcNotification(body),
        "JsonrpcRequest" => p_JsonrpcRequest(body),
        "JsonrpcResponse" => p_JsonrpcResponse(body),
        "JsonrpcResultResponse" => p_JsonrpcResultResponse(body),
        "LegacyTitledEnumSchema" => p_LegacyTitledEnumSchema(body),
        "ListPromptsRequest" => p_ListPromptsRequest(body),
        "ListPromptsResult" => p_ListPromptsResult(body),
        "ListPromptsResultCacheScope" => p_ListPromptsResultCacheScope(body),
        "ListPromptsResultResponse" => p_ListPromptsResultResponse(body),
        "ListResourceTemplatesRequest" => p_ListResourceTemplatesRequest(body),
        "ListResourceTemplatesResult" => p_ListResourceTemplatesResult(body),
        "ListResourceTemplatesResultCacheScope" => p_ListResourceTemplatesResultCacheScope(body),
        "ListResourceTemplatesResultResponse" => p_ListResourceTemplatesResultResponse(body),
        "ListResourcesRequest" => p_ListResourcesRequest(body),
        "ListResourcesResult" => p_ListResourcesResult(body),
        "ListResourcesResultCacheScope" => p_ListResourcesResultCacheScope(body),
        "ListResourcesResultResponse" => p_ListResourcesResultResponse(body),
        "ListRootsRequest" => p_ListRootsRequest(body),
        "ListRootsRequestParams" => p_ListRootsRequestParams(body),
        "ListRootsResult" => p_ListRootsResult(body),
        "ListToolsRequest" => p_ListToolsRequest(body),
        "ListToolsResult" => p_ListToolsResult(body),
        "ListToolsResultCacheScope" => p_ListToolsResultCacheScope(body),
        "ListToolsResultResponse" => p_ListToolsResultResponse(body),
        "LoggingLevel" => p_LoggingLevel(body),
        "LoggingMessageNotification" => p_LoggingMessageNotification(body),
        "LoggingMessageNotificationParams" => p_LoggingMessageNotificationParams(body),
        "MetaObject" => p_MetaObject(body),
        "MethodNotFoundError" => p_MethodNotFoundError(body),
        "MissingRequiredClientCapabilityError" => p_MissingRequiredClientCapabilityError(body),
        "MissingRequiredClientCapabilityErrorError" => p_MissingRequiredClientCapabilityErrorError(body),
        "MissingRequiredClientCapabilityErrorErrorData" => p_MissingRequiredClientCapabilityErrorErrorData(body),
        "ModelHint" => p_ModelHint(body),
        "ModelPreferences" => p_ModelPreferences(body),
        "MultiSelectEnumSchema" => p_MultiSelectEnumSchema(body),
        "Notification" => p_Notification(body),
        "NotificationMetaObject" => p_NotificationMetaObject(body),
        "NotificationParams" => p_NotificationParams(body),
        "NumberSchema" => p_NumberSchema(body),
        "NumberSchemaType" => p_NumberSchemaType(body),
        "PaginatedRequest" => p_PaginatedRequest(body),
        "PaginatedRequestParams" => p_PaginatedRequestParams(body),
        "PaginatedResult" => p_PaginatedResult(body),
        "ParseError" => p_ParseError(body),
        "PrimitiveSchemaDefinition" => p_PrimitiveSchemaDefinition(body),
        "ProgressNotification" => p_ProgressNotification(body),
        "ProgressNotificationParams" => p_ProgressNotificationParams(body),
        "ProgressToken" => p_ProgressToken(body),
        "Prompt" => p_Prompt(body),
        "PromptArgument" => p_PromptArgument(body),
        "PromptListChangedNotification" => p_PromptListChangedNotification(body),
        "PromptMessage" => p_PromptMessage(body),
        "PromptReference" => p_PromptReference(body),
        "ReadResourceContent" => p_ReadResourceContent(body),
        "ReadResourceRequest" => p_ReadResourceRequest(body),
        "ReadResourceRequestParams" => p_ReadResourceRequestParams(body),
        "ReadResourceResult" => p_ReadResourceResult(body),
        "ReadResourceResultCacheScope" => p_ReadResourceResultCacheScope(body),
        "ReadResourceResultResponse" => p_ReadResourceResultResponse(body),
        "ReadResourceResultResponseResult" => p_ReadResourceResultResponseResult(body),
        "Request" => p_Request(body),
        "RequestId" => p_RequestId(body),
        "RequestMetaObject" => p_RequestMetaObject(body),
        "RequestParams" => p_RequestParams(body),
        "Resource" => p_Resource(body),
        "ResourceContents" => p_ResourceContents(body),
        "ResourceLink" => p_ResourceLink(body),
        "ResourceListChangedNotification" => p_ResourceListChangedNotification(body),
        "ResourceRequestParams" => p_ResourceRequestParams(body),
        "ResourceTemplate" => p_ResourceTemplate(body),
        "ResourceTemplateReference" => p_ResourceTemplateReference(body),
        "ResourceUpdatedNotification" => p_ResourceUpdatedNotification(body),
        "ResourceUpdatedNotificationParams" => p_ResourceUpdatedNotificationParams(body),
        "Result" => p_Result(body),
        "ResultMetaObject" => p_ResultMetaObject(body),
        "ResultType" => p_ResultType(body),
        "Role" => p_Role(body),
        "Root" => p_Root(body),
        "RpcError" => p_RpcError(body),
        "SamplingMessage" => p_SamplingMessage(body),
        "SamplingMessageContent" => p_SamplingMessageContent(body),
        "SamplingMessageContentBlock" => p_SamplingMessageContentBlock(body),
        "ServerCapabilities" => p_ServerCapabilities(body),
        "ServerCapabilitiesPrompts" => p_ServerCapabilitiesPrompts(body),
        "ServerCapabilitiesResources" => p_ServerCapabilitiesResources(body),
        "ServerCapabilitiesTools" => p_ServerCapabilitiesTools(body),
        "ServerNotification" => p_ServerNotification(body),
        "ServerResult" => p_ServerResult(body),
        "SingleSelectEnumSchema" => p_SingleSelectEnumSchema(body),
        "StringSchema" => p_StringSchema(body),
        "StringSchemaFormat" => p_StringSchemaFormat(body),
        "SubscriptionFilter" => p_SubscriptionFilter(body),
        "SubscriptionsAcknowledgedNotification" => p_SubscriptionsAcknowledgedNotification(body),
        "SubscriptionsAcknowledgedNotificationParams" => p_SubscriptionsAcknowledgedNotificationParams(body),
        "SubscriptionsListenRequest" => p_SubscriptionsListenRequest(body),
        "SubscriptionsListenRequestParams" => p_SubscriptionsListenRequestParams(body),
        "SubscriptionsListenResult" => p_SubscriptionsListenResult(body),
        "SubscriptionsListenResultMetaObject" => p_SubscriptionsListenResultMetaObject(body),
        "SubscriptionsListenResultResponse" => p_SubscriptionsListenResultResponse(body),
        "TextContent" => p_TextContent(body),
        "TextResourceContents" => p_TextResourceContents(body),
        "TitledMultiSelectEnumSchema" => p_TitledMultiSelectEnumSchema(body),
        "TitledMultiSelectEnumSchemaItems" => p_TitledMultiSelectEnumSchemaItems(body),
        "TitledMultiSelectEnumSchemaItemsAnyOfItem" => p_TitledMultiSelectEnumSchemaItemsAnyOfItem(body),
        "TitledSingleSelectEnumSchema" => p_TitledSingleSelectEnumSchema(body),
        "TitledSingleSelectEnumSchemaOneOfItem" => p_TitledSingleSelectEnumSchemaOneOfItem(body),
        "Tool" => p_Tool(body),
        "ToolAnnotations" => p_ToolAnnotations(body),
        "ToolChoice" => p_ToolChoice(body),
        "ToolChoiceMode" => p_ToolChoiceMode(body),
        "ToolInputSchema" => p_ToolInputSchema(body),
        "ToolListChangedNotification" => p_ToolListChangedNotification(body),
        "ToolOutputSchema" => p_ToolOutputSchema(body),
        "ToolResultContent" => p_ToolResultContent(body),
        "ToolUseContent" => p_ToolUseContent(body),
        "UnsupportedProtocolVersionError" => p_UnsupportedProtocolVersionError(body),
        "UnsupportedProtocolVersionErrorError" => p_UnsupportedProtocolVersionErrorError(body),
        "UnsupportedProtocolVersionErrorErrorData" => p_UnsupportedProtocolVersionErrorErrorData(body),
        "UntitledMultiSelectEnumSchema" => p_UntitledMultiSelectEnumSchema(body),
        "UntitledMultiSelectEnumSchemaItems" => p_UntitledMultiSelectEnumSchemaItems(body),
        "UntitledSingleSelectEnumSchema" => p_UntitledSingleSelectEnumSchema(body),
        _ => json!({"none": true}),
    }
}
#[allow(non_snake_case)]
fn v_CallToolResultResponseResult(u: &mcp::CallToolResultResponseResult) -> &'static str {
    match u {
        mcp::CallToolResultResponseResult::InputRequiredResult(_) => "InputRequiredResult",
        mcp::CallToolResultResponseResult::CallToolResult(_) => "CallToolResult",
    }
}
#[allow(non_snake_case)]
fn v_ClientRequest(u: &mcp::ClientRequest) -> &'static str {
    match u {
        mcp::ClientRequest::DiscoverRequest(_) => "DiscoverRequest",
        mcp::ClientRequest::ListResourcesRequest(_) => "ListResourcesRequest",
        mcp::ClientRequest::ListResourceTemplatesRequest(_) => "ListResourceTemplatesRequest",
        mcp::ClientRequest::ReadResourceRequest(_) => "ReadResourceRequest",
        mcp::ClientRequest::SubscriptionsListenRequest(_) => "SubscriptionsListenRequest",
        mcp::ClientRequest::ListPromptsRequest(_) => "ListPromptsRequest",
        mcp::ClientRequest::GetPromptRequest(_) => "GetPromptRequest",
        mcp::ClientRequest::ListToolsRequest(_) => "ListToolsRequest",
        mcp::ClientRequest::CallToolRequest(_) => "CallToolRequest",
        mcp::ClientRequest::CompleteRequest(_) => "CompleteRequest",
    }
}
#[allow(non_snake_case)]
fn v_CompleteRequestRef(u: &mcp::CompleteRequestRef) -> &'static str {
    match u {
        mcp::CompleteRequestRef::PromptReference(_) => "PromptReference",
        mcp::CompleteRequestRef::ResourceTemplateReference(_) => "ResourceTemplateReference",
    }
}
#[allow(non_snake_case)]
fn v_ContentBlock(u: &mcp::ContentBlock) -> &'static str {
    match u {
        mcp::ContentBlock::TextContent(_) => "TextContent",
        mcp::ContentBlock::ImageContent(_) => "ImageContent",
        mcp::ContentBlock::AudioContent(_) => "AudioContent",
        mcp::ContentBlock::ResourceLink(_) => "ResourceLink",
        mcp::ContentBlock::EmbeddedResource(_) => "EmbeddedResource",
    }
}
#[allow(non_snake_case)]
fn v_CreateMessageContent(u: &mcp::CreateMessageContent) -> &'static str {
    match u {
        mcp::CreateMessageContent::TextContent(_) => "TextContent",
        mcp::CreateMessageContent::ImageContent(_) => "ImageContent",
        mcp::CreateMessageContent::AudioContent(_) => "AudioContent",
        mcp::CreateMessageContent::ToolUseContent(_) => "ToolUseContent",
        mcp::CreateMessageContent::ToolResultContent(_) => "ToolResultContent",
        mcp::CreateMessageContent::SamplingMessageContentBlock(_) => "Vec<SamplingMessageContentBlock>",
    }
}
#[allow(non_snake_case)]
fn v_ElicitRequestParams(u: &mcp::ElicitRequestParams) -> &'static str {
    match u {
        mcp::ElicitRequestParams::FormParams(_) => "ElicitRequestFormParams",
        mcp::ElicitRequestParams::UrlParams(_) => "ElicitRequestUrlParams",
    }
}
#[allow(non_snake_case)]
fn v_ElicitResultContent(u: &mcp::ElicitResultContent) -> &'static str {
    match u {
        mcp::ElicitResultContent::StringArray(_) => "Vec<String>",
        mcp::ElicitResultContent::Primitive(_) => "ElicitResultContentPrimitive",
    }
}
#[allow(non_snake_case)]
fn v_ElicitResultContentPrimitive(u: &mcp::ElicitResultContentPrimitive) -> &'static str {
    match u {
        mcp::ElicitResultContentPrimitive::Boolean(_) => "bool",
        mcp::ElicitResultContentPrimitive::String(_) => "String",
        mcp::ElicitResultContentPrimitive::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_EmbeddedResourceResource(u: &mcp::EmbeddedResourceResource) -> &'static str {
    match u {
        mcp::EmbeddedResourceResource::TextResourceContents(_) => "TextResourceContents",
        mcp::EmbeddedResourceResource::BlobResourceContents(_) => "BlobResourceContents",
    }
}
#[allow(non_snake_case)]
fn v_EnumSchema(u: &mcp::EnumSchema) -> &'static str {
    match u {
        mcp::EnumSchema::UntitledSingleSelectEnumSchema(_) => "UntitledSingleSelectEnumSchema",
        mcp::EnumSchema::TitledSingleSelectEnumSchema(_) => "TitledSingleSelectEnumSchema",
        mcp::EnumSchema::UntitledMultiSelectEnumSchema(_) => "UntitledMultiSelectEnumSchema",
        mcp::EnumSchema::TitledMultiSelectEnumSchema(_) => "TitledMultiSelectEnumSchema",
        mcp::EnumSchema::LegacyTitledEnumSchema(_) => "LegacyTitledEnumSchema",
    }
}
#[allow(non_snake_case)]
fn v_GetPromptResultResponseResult(u: &mcp::GetPromptResultResponseResult) -> &'static str {
    match u {
        mcp::GetPromptResultResponseResult::InputRequiredResult(_) => "InputRequiredResult",
        mcp::GetPromptResultResponseResult::GetPromptResult(_) => "GetPromptResult",
    }
}
#[allow(non_snake_case)]
fn v_InputRequest(u: &mcp::InputRequest) -> &'static str {
    match u {
        mcp::InputRequest::CreateMessageRequest(_) => "CreateMessageRequest",
        mcp::InputRequest::ListRootsRequest(_) => "ListRootsRequest",
        mcp::InputRequest::ElicitRequest(_) => "ElicitRequest",
    }
}
#[allow(non_snake_case)]
fn v_InputResponse(u: &mcp::InputResponse) -> &'static str {
    match u {
        mcp::InputResponse::CreateMessageResult(_) => "CreateMessageResult",
        mcp::InputResponse::ListRootsResult(_) => "ListRootsResult",
        mcp::InputResponse::ElicitResult(_) => "ElicitResult",
    }
}
#[allow(non_snake_case)]
fn v_JsonValue(u: &mcp::JsonValue) -> &'static str {
    match u {
        mcp::JsonValue::Variant0(_) => "JsonObject",
        mcp::JsonValue::Variant1(_) => "Vec<JsonValue>",
        mcp::JsonValue::Variant2(_) => "JsonValueVariant2",
    }
}
#[allow(non_snake_case)]
fn v_JsonValueVariant2(u: &mcp::JsonValueVariant2) -> &'static str {
    match u {
        mcp::JsonValueVariant2::Boolean(_) => "bool",
        mcp::JsonValueVariant2::String(_) => "String",
        mcp::JsonValueVariant2::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_JsonrpcMessage(u: &mcp::JsonrpcMessage) -> &'static str {
    match u {
        mcp::JsonrpcMessage::Request(_) => "JsonrpcRequest",
        mcp::JsonrpcMessage::Notification(_) => "JsonrpcNotification",
        mcp::JsonrpcMessage::ResultResponse(_) => "JsonrpcResultResponse",
        mcp::JsonrpcMessage::ErrorResponse(_) => "JsonrpcErrorResponse",
    }
}
#[allow(non_snake_case)]
fn v_JsonrpcResponse(u: &mcp::JsonrpcResponse) -> &'static str {
    match u {
        mcp::JsonrpcResponse::ResultResponse(_) => "JsonrpcResultResponse",
        mcp::JsonrpcResponse::ErrorResponse(_) => "JsonrpcErrorResponse",
    }
}
#[allow(non_snake_case)]
fn v_MultiSelectEnumSchema(u: &mcp::MultiSelectEnumSchema) -> &'static str {
    match u {
        mcp::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(_) => "UntitledMultiSelectEnumSchema",
        mcp::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(_) => "TitledMultiSelectEnumSchema",
    }
}
#[allow(non_snake_case)]
fn v_PrimitiveSchemaDefinition(u: &mcp::PrimitiveSchemaDefinition) -> &'static str {
    match u {
        mcp::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(_) => "UntitledSingleSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(_) => "TitledSingleSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(_) => "UntitledMultiSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(_) => "TitledMultiSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(_) => "LegacyTitledEnumSchema",
        mcp::PrimitiveSchemaDefinition::StringSchema(_) => "StringSchema",
        mcp::PrimitiveSchemaDefinition::NumberSchema(_) => "NumberSchema",
        mcp::PrimitiveSchemaDefinition::BooleanSchema(_) => "BooleanSchema",
    }
}
#[allow(non_snake_case)]
fn v_ProgressToken(u: &mcp::ProgressToken) -> &'static str {
    match u {
        mcp::ProgressToken::String(_) => "String",
        mcp::ProgressToken::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_ReadResourceContent(u: &mcp::ReadResourceContent) -> &'static str {
    match u {
        mcp::ReadResourceContent::TextResourceContents(_) => "TextResourceContents",
        mcp::ReadResourceContent::BlobResourceContents(_) => "BlobResourceContents",
    }
}
#[allow(non_snake_case)]
fn v_ReadResourceResultResponseResult(u: &mcp::ReadResourceResultResponseResult) -> &'static str {
    match u {
        mcp::ReadResourceResultResponseResult::InputRequiredResult(_) => "InputRequiredResult",
        mcp::ReadResourceResultResponseResult::ReadResourceResult(_) => "ReadResourceResult",
    }
}
#[allow(non_snake_case)]
fn v_RequestId(u: &mcp::RequestId) -> &'static str {
    match u {
        mcp::RequestId::String(_) => "String",
        mcp::RequestId::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_SamplingMessageContent(u: &mcp::SamplingMessageContent) -> &'static str {
    match u {
        mcp::SamplingMessageContent::TextContent(_) => "TextContent",
        mcp::SamplingMessageContent::ImageContent(_) => "ImageContent",
        mcp::SamplingMessageContent::AudioContent(_) => "AudioContent",
        mcp::SamplingMessageContent::ToolUseContent(_) => "ToolUseContent",
        mcp::SamplingMessageContent::ToolResultContent(_) => "ToolResultContent",
        mcp::SamplingMessageContent::SamplingMessageContentBlock(_) => "Vec<SamplingMessageContentBlock>",
    }
}
#[allow(non_snake_case)]
fn v_SamplingMessageContentBlock(u: &mcp::SamplingMessageContentBlock) -> &'static str {
    match u {
        mcp::SamplingMessageContentBlock::TextContent(_) => "TextContent",
        mcp::SamplingMessageContentBlock::ImageContent(_) => "ImageContent",
        mcp::SamplingMessageContentBlock::AudioContent(_) => "AudioContent",
        mcp::SamplingMessageContentBlock::ToolUseContent(_) => "ToolUseContent",
        mcp::SamplingMessageContentBlock::ToolResultContent(_) => "ToolResultContent",
    }
}
#[allow(non_snake_case)]
fn v_ServerNotification(u: &mcp::ServerNotification) -> &'static str {
    match u {
        mcp::ServerNotification::CancelledNotification(_) => "CancelledNotification",
        mcp::ServerNotification::ProgressNotification(_) => "ProgressNotification",
        mcp::ServerNotification::ResourceListChangedNotification(_) => "ResourceListChangedNotification",
        mcp::ServerNotification::SubscriptionsAcknowledgedNotification(_) => "SubscriptionsAcknowledgedNotification",
        mcp::ServerNotification::ResourceUpdatedNotification(_) => "ResourceUpdatedNotification",
        mcp::ServerNotification::PromptListChangedNotification(_) => "PromptListChangedNotification",
        mcp::ServerNotification::ToolListChangedNotification(_) => "ToolListChangedNotification",
        mcp::ServerNotification::LoggingMessageNotification(_) => "LoggingMessageNotification",
    }
}
#[allow(non_snake_case)]
fn v_ServerResult(u: &mcp::ServerResult) -> &'static str {
    match u {
        mcp::ServerResult::InputRequiredResult(_) => "InputRequiredResult",
        mcp::ServerResult::DiscoverResult(_) => "DiscoverResult",
        mcp::ServerResult::ListResourcesResult(_) => "ListResourcesResult",
        mcp::ServerResult::ListResourceTemplatesResult(_) => "ListResourceTemplatesResult",
        mcp::ServerResult::ReadResourceResult(_) => "ReadResourceResult",
        mcp::ServerResult::SubscriptionsListenResult(_) => "SubscriptionsListenResult",
        mcp::ServerResult::ListPromptsResult(_) => "ListPromptsResult",
        mcp::ServerResult::GetPromptResult(_) => "GetPromptResult",
        mcp::ServerResult::ListToolsResult(_) => "ListToolsResult",
        mcp::ServerResult::CallToolResult(_) => "CallToolResult",
        mcp::ServerResult::CompleteResult(_) => "CompleteResult",
        mcp::ServerResult::Result(_) => "Result",
    }
}
#[allow(non_snake_case)]
fn v_SingleSelectEnumSchema(u: &mcp::SingleSelectEnumSchema) -> &'static str {
    match u {
        mcp::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(_) => "UntitledSingleSelectEnumSchema",
        mcp::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(_) => "TitledSingleSelectEnumSchema",
    }
}
#[allow(non_snake_case, deprecated)]
fn p_Annotations(body: &Value) -> Value {
    let t: mcp::Annotations = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_AudioContent(body: &Value) -> Value {
    let t: mcp::AudioContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::AudioContent::new(t.data.clone(), t.mime_type.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::AudioContent::type_value());
    word(&mut o, "type_name", mcp::AudioContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BaseMetadata(body: &Value) -> Value {
    let t: mcp::BaseMetadata = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BlobResourceContents(body: &Value) -> Value {
    let t: mcp::BlobResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into EmbeddedResourceResource", &mcp::EmbeddedResourceResource::from(t.clone()));
    word(&mut o, "kind EmbeddedResourceResource", v_EmbeddedResourceResource(&mcp::EmbeddedResourceResource::from(t.clone())));
    form::<mcp::EmbeddedResourceResource>(&mut o, "EmbeddedResourceResource", body, v_EmbeddedResourceResource);
    put(&mut o, "into ReadResourceContent", &mcp::ReadResourceContent::from(t.clone()));
    word(&mut o, "kind ReadResourceContent", v_ReadResourceContent(&mcp::ReadResourceContent::from(t.clone())));
    form::<mcp::ReadResourceContent>(&mut o, "ReadResourceContent", body, v_ReadResourceContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BooleanSchema(body: &Value) -> Value {
    let t: mcp::BooleanSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::BooleanSchema::new(t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::BooleanSchema::type_value());
    word(&mut o, "type_name", mcp::BooleanSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CacheableResult(body: &Value) -> Value {
    let t: mcp::CacheableResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CacheableResultCacheScope(body: &Value) -> Value {
    let t: mcp::CacheableResultCacheScope = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolRequest(body: &Value) -> Value {
    let t: mcp::CallToolRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CallToolRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::CallToolRequest::method_value());
    word(&mut o, "method_name", mcp::CallToolRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolRequestParams(body: &Value) -> Value {
    let t: mcp::CallToolRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolResult(body: &Value) -> Value {
    let t: mcp::CallToolResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into CallToolResultResponseResult", &mcp::CallToolResultResponseResult::from(t.clone()));
    word(&mut o, "kind CallToolResultResponseResult", v_CallToolResultResponseResult(&mcp::CallToolResultResponseResult::from(t.clone())));
    form::<mcp::CallToolResultResponseResult>(&mut o, "CallToolResultResponseResult", body, v_CallToolResultResponseResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolResultResponse(body: &Value) -> Value {
    let t: mcp::CallToolResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CallToolResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolResultResponseResult(body: &Value) -> Value {
    let t: mcp::CallToolResultResponseResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_CallToolResultResponseResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelledNotification(body: &Value) -> Value {
    let t: mcp::CancelledNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CancelledNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::CancelledNotification::method_value());
    word(&mut o, "method_name", mcp::CancelledNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelledNotificationParams(body: &Value) -> Value {
    let t: mcp::CancelledNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientCapabilities(body: &Value) -> Value {
    let t: mcp::ClientCapabilities = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientElicitation(body: &Value) -> Value {
    let t: mcp::ClientElicitation = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientNotification(body: &Value) -> Value {
    let t: mcp::ClientNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ClientNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ClientNotification::method_value());
    word(&mut o, "method_name", mcp::ClientNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientRequest(body: &Value) -> Value {
    let t: mcp::ClientRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "=request_id", t.request_id());
    word(&mut o, "variant", v_ClientRequest(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientResult(body: &Value) -> Value {
    let t: mcp::ClientResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientSampling(body: &Value) -> Value {
    let t: mcp::ClientSampling = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequest(body: &Value) -> Value {
    let t: mcp::CompleteRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CompleteRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::CompleteRequest::method_value());
    word(&mut o, "method_name", mcp::CompleteRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestArgument(body: &Value) -> Value {
    let t: mcp::CompleteRequestArgument = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestContext(body: &Value) -> Value {
    let t: mcp::CompleteRequestContext = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestParams(body: &Value) -> Value {
    let t: mcp::CompleteRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestRef(body: &Value) -> Value {
    let t: mcp::CompleteRequestRef = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_CompleteRequestRef(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteResult(body: &Value) -> Value {
    let t: mcp::CompleteResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteResultCompletion(body: &Value) -> Value {
    let t: mcp::CompleteResultCompletion = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteResultResponse(body: &Value) -> Value {
    let t: mcp::CompleteResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CompleteResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ContentBlock(body: &Value) -> Value {
    let t: mcp::ContentBlock = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ContentBlock(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageContent(body: &Value) -> Value {
    let t: mcp::CreateMessageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_CreateMessageContent(&t));
    if let Ok(x) = serde_json::from_value::<Vec<mcp::SamplingMessageContentBlock>>(body.clone()) { put(&mut o, "from Vec<SamplingMessageContentBlock>", &mcp::CreateMessageContent::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageRequest(body: &Value) -> Value {
    let t: mcp::CreateMessageRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CreateMessageRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::CreateMessageRequest::method_value());
    word(&mut o, "method_name", mcp::CreateMessageRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into InputRequest", &mcp::InputRequest::from(t.clone()));
    word(&mut o, "kind InputRequest", v_InputRequest(&mcp::InputRequest::from(t.clone())));
    form::<mcp::InputRequest>(&mut o, "InputRequest", body, v_InputRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageRequestParams(body: &Value) -> Value {
    let t: mcp::CreateMessageRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageResult(body: &Value) -> Value {
    let t: mcp::CreateMessageResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into InputResponse", &mcp::InputResponse::from(t.clone()));
    word(&mut o, "kind InputResponse", v_InputResponse(&mcp::InputResponse::from(t.clone())));
    form::<mcp::InputResponse>(&mut o, "InputResponse", body, v_InputResponse);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Cursor(body: &Value) -> Value {
    let t: mcp::Cursor = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_DiscoverRequest(body: &Value) -> Value {
    let t: mcp::DiscoverRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::DiscoverRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::DiscoverRequest::method_value());
    word(&mut o, "method_name", mcp::DiscoverRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_DiscoverResult(body: &Value) -> Value {
    let t: mcp::DiscoverResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_DiscoverResultCacheScope(body: &Value) -> Value {
    let t: mcp::DiscoverResultCacheScope = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_DiscoverResultResponse(body: &Value) -> Value {
    let t: mcp::DiscoverResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::DiscoverResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequest(body: &Value) -> Value {
    let t: mcp::ElicitRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ElicitRequest::method_value());
    word(&mut o, "method_name", mcp::ElicitRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into InputRequest", &mcp::InputRequest::from(t.clone()));
    word(&mut o, "kind InputRequest", v_InputRequest(&mcp::InputRequest::from(t.clone())));
    form::<mcp::InputRequest>(&mut o, "InputRequest", body, v_InputRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestFormParams(body: &Value) -> Value {
    let t: mcp::ElicitRequestFormParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequestFormParams::new(t.message.clone(), t.requested_schema.clone()));
    word(&mut o, "mode_value", mcp::ElicitRequestFormParams::mode_value());
    word(&mut o, "mode_name", mcp::ElicitRequestFormParams::mode_name());
    if let Some(x) = t.mode() { word(&mut o, "mode", x); }
    put(&mut o, "into ElicitRequestParams", &mcp::ElicitRequestParams::from(t.clone()));
    word(&mut o, "kind ElicitRequestParams", v_ElicitRequestParams(&mcp::ElicitRequestParams::from(t.clone())));
    form::<mcp::ElicitRequestParams>(&mut o, "ElicitRequestParams", body, v_ElicitRequestParams);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestFormParamsRequestedSchema(body: &Value) -> Value {
    let t: mcp::ElicitRequestFormParamsRequestedSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequestFormParamsRequestedSchema::new(t.properties.clone(), t.required.clone(), t.schema.clone()));
    word(&mut o, "type_value", mcp::ElicitRequestFormParamsRequestedSchema::type_value());
    word(&mut o, "type_name", mcp::ElicitRequestFormParamsRequestedSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestParams(body: &Value) -> Value {
    let t: mcp::ElicitRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ElicitRequestParams(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestUrlParams(body: &Value) -> Value {
    let t: mcp::ElicitRequestUrlParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequestUrlParams::new(t.message.clone(), t.url.clone()));
    word(&mut o, "mode_value", mcp::ElicitRequestUrlParams::mode_value());
    word(&mut o, "mode_name", mcp::ElicitRequestUrlParams::mode_name());
    word(&mut o, "mode", t.mode());
    put(&mut o, "into ElicitRequestParams", &mcp::ElicitRequestParams::from(t.clone()));
    word(&mut o, "kind ElicitRequestParams", v_ElicitRequestParams(&mcp::ElicitRequestParams::from(t.clone())));
    form::<mcp::ElicitRequestParams>(&mut o, "ElicitRequestParams", body, v_ElicitRequestParams);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResult(body: &Value) -> Value {
    let t: mcp::ElicitResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into InputResponse", &mcp::InputResponse::from(t.clone()));
    word(&mut o, "kind InputResponse", v_InputResponse(&mcp::InputResponse::from(t.clone())));
    form::<mcp::InputResponse>(&mut o, "InputResponse", body, v_InputResponse);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultAction(body: &Value) -> Value {
    let t: mcp::ElicitResultAction = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultContent(body: &Value) -> Value {
    let t: mcp::ElicitResultContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ElicitResultContent(&t));
    if let Ok(x) = serde_json::from_value::<Vec<String>>(body.clone()) { put(&mut o, "from Vec<String>", &mcp::ElicitResultContent::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultContentPrimitive(body: &Value) -> Value {
    let t: mcp::ElicitResultContentPrimitive = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ElicitResultContentPrimitive(&t));
    if let Ok(x) = serde_json::from_value::<bool>(body.clone()) { put(&mut o, "from bool", &mcp::ElicitResultContentPrimitive::from(x)); }
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::ElicitResultContentPrimitive::from(x)); }
    put(&mut o, "into ElicitResultContent", &mcp::ElicitResultContent::from(t.clone()));
    word(&mut o, "kind ElicitResultContent", v_ElicitResultContent(&mcp::ElicitResultContent::from(t.clone())));
    form::<mcp::ElicitResultContent>(&mut o, "ElicitResultContent", body, v_ElicitResultContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmbeddedResource(body: &Value) -> Value {
    let t: mcp::EmbeddedResource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::EmbeddedResource::new(t.resource.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::EmbeddedResource::type_value());
    word(&mut o, "type_name", mcp::EmbeddedResource::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmbeddedResourceResource(body: &Value) -> Value {
    let t: mcp::EmbeddedResourceResource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_EmbeddedResourceResource(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmptyResult(body: &Value) -> Value {
    let t: mcp::EmptyResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EnumSchema(body: &Value) -> Value {
    let t: mcp::EnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_EnumSchema(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptRequest(body: &Value) -> Value {
    let t: mcp::GetPromptRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::GetPromptRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::GetPromptRequest::method_value());
    word(&mut o, "method_name", mcp::GetPromptRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptRequestParams(body: &Value) -> Value {
    let t: mcp::GetPromptRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptResult(body: &Value) -> Value {
    let t: mcp::GetPromptResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into GetPromptResultResponseResult", &mcp::GetPromptResultResponseResult::from(t.clone()));
    word(&mut o, "kind GetPromptResultResponseResult", v_GetPromptResultResponseResult(&mcp::GetPromptResultResponseResult::from(t.clone())));
    form::<mcp::GetPromptResultResponseResult>(&mut o, "GetPromptResultResponseResult", body, v_GetPromptResultResponseResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptResultResponse(body: &Value) -> Value {
    let t: mcp::GetPromptResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::GetPromptResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptResultResponseResult(body: &Value) -> Value {
    let t: mcp::GetPromptResultResponseResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_GetPromptResultResponseResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_HeaderMismatchError(body: &Value) -> Value {
    let t: mcp::HeaderMismatchError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::HeaderMismatchError::new(t.error.clone(), t.id.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Icon(body: &Value) -> Value {
    let t: mcp::Icon = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_IconTheme(body: &Value) -> Value {
    let t: mcp::IconTheme = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Icons(body: &Value) -> Value {
    let t: mcp::Icons = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ImageContent(body: &Value) -> Value {
    let t: mcp::ImageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ImageContent::new(t.data.clone(), t.mime_type.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::ImageContent::type_value());
    word(&mut o, "type_name", mcp::ImageContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Implementation(body: &Value) -> Value {
    let t: mcp::Implementation = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_IncludeContext(body: &Value) -> Value {
    let t: mcp::IncludeContext = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InputRequest(body: &Value) -> Value {
    let t: mcp::InputRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_InputRequest(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InputRequests(body: &Value) -> Value {
    let t: mcp::InputRequests = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InputRequiredResult(body: &Value) -> Value {
    let t: mcp::InputRequiredResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into CallToolResultResponseResult", &mcp::CallToolResultResponseResult::from(t.clone()));
    word(&mut o, "kind CallToolResultResponseResult", v_CallToolResultResponseResult(&mcp::CallToolResultResponseResult::from(t.clone())));
    form::<mcp::CallToolResultResponseResult>(&mut o, "CallToolResultResponseResult", body, v_CallToolResultResponseResult);
    put(&mut o, "into GetPromptResultResponseResult", &mcp::GetPromptResultResponseResult::from(t.clone()));
    word(&mut o, "kind GetPromptResultResponseResult", v_GetPromptResultResponseResult(&mcp::GetPromptResultResponseResult::from(t.clone())));
    form::<mcp::GetPromptResultResponseResult>(&mut o, "GetPromptResultResponseResult", body, v_GetPromptResultResponseResult);
    put(&mut o, "into ReadResourceResultResponseResult", &mcp::ReadResourceResultResponseResult::from(t.clone()));
    word(&mut o, "kind ReadResourceResultResponseResult", v_ReadResourceResultResponseResult(&mcp::ReadResourceResultResponseResult::from(t.clone())));
    form::<mcp::ReadResourceResultResponseResult>(&mut o, "ReadResourceResultResponseResult", body, v_ReadResourceResultResponseResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InputResponse(body: &Value) -> Value {
    let t: mcp::InputResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_InputResponse(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InputResponseRequestParams(body: &Value) -> Value {
    let t: mcp::InputResponseRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InputResponses(body: &Value) -> Value {
    let t: mcp::InputResponses = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InternalError(body: &Value) -> Value {
    let t: mcp::InternalError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InvalidParamsError(body: &Value) -> Value {
    let t: mcp::InvalidParamsError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InvalidRequestError(body: &Value) -> Value {
    let t: mcp::InvalidRequestError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonArray(body: &Value) -> Value {
    let t: mcp::JsonArray = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonObject(body: &Value) -> Value {
    let t: mcp::JsonObject = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into JsonValue", &mcp::JsonValue::from(t.clone()));
    word(&mut o, "kind JsonValue", v_JsonValue(&mcp::JsonValue::from(t.clone())));
    form::<mcp::JsonValue>(&mut o, "JsonValue", body, v_JsonValue);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonValue(body: &Value) -> Value {
    let t: mcp::JsonValue = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_JsonValue(&t));
    if let Ok(x) = serde_json::from_value::<Vec<mcp::JsonValue>>(body.clone()) { put(&mut o, "from Vec<JsonValue>", &mcp::JsonValue::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonValueVariant2(body: &Value) -> Value {
    let t: mcp::JsonValueVariant2 = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_JsonValueVariant2(&t));
    if let Ok(x) = serde_json::from_value::<bool>(body.clone()) { put(&mut o, "from bool", &mcp::JsonValueVariant2::from(x)); }
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::JsonValueVariant2::from(x)); }
    put(&mut o, "into JsonValue", &mcp::JsonValue::from(t.clone()));
    word(&mut o, "kind JsonValue", v_JsonValue(&mcp::JsonValue::from(t.clone())));
    form::<mcp::JsonValue>(&mut o, "JsonValue", body, v_JsonValue);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcErrorResponse(body: &Value) -> Value {
    let t: mcp::JsonrpcErrorResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcErrorResponse::new(t.error.clone(), t.id.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    put(&mut o, "into JsonrpcResponse", &mcp::JsonrpcResponse::from(t.clone()));
    word(&mut o, "kind JsonrpcResponse", v_JsonrpcResponse(&mcp::JsonrpcResponse::from(t.clone())));
    form::<mcp::JsonrpcResponse>(&mut o, "JsonrpcResponse", body, v_JsonrpcResponse);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcMessage(body: &Value) -> Value {
    let t: mcp::JsonrpcMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_JsonrpcMessage(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcNotification(body: &Value) -> Value {
    let t: mcp::JsonrpcNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcNotification::new(t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcRequest(body: &Value) -> Value {
    let t: mcp::JsonrpcRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcRequest::new(t.id.clone(), t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcResponse(body: &Value) -> Value {
    let t: mcp::JsonrpcResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_JsonrpcResponse(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcResultResponse(body: &Value) -> Value {
    let t: mcp::JsonrpcResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    put(&mut o, "into JsonrpcResponse", &mcp::JsonrpcResponse::from(t.clone()));
    word(&mut o, "kind JsonrpcResponse", v_JsonrpcResponse(&mcp::JsonrpcResponse::from(t.clone())));
    form::<mcp::JsonrpcResponse>(&mut o, "JsonrpcResponse", body, v_JsonrpcResponse);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LegacyTitledEnumSchema(body: &Value) -> Value {
    let t: mcp::LegacyTitledEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::LegacyTitledEnumSchema::new(t.enum_.clone(), t.enum_names.clone(), t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::LegacyTitledEnumSchema::type_value());
    word(&mut o, "type_name", mcp::LegacyTitledEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsRequest(body: &Value) -> Value {
    let t: mcp::ListPromptsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListPromptsRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListPromptsRequest::method_value());
    word(&mut o, "method_name", mcp::ListPromptsRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsResult(body: &Value) -> Value {
    let t: mcp::ListPromptsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsResultCacheScope(body: &Value) -> Value {
    let t: mcp::ListPromptsResultCacheScope = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsResultResponse(body: &Value) -> Value {
    let t: mcp::ListPromptsResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListPromptsResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesRequest(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourceTemplatesRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListResourceTemplatesRequest::method_value());
    word(&mut o, "method_name", mcp::ListResourceTemplatesRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesResult(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesResultCacheScope(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesResultCacheScope = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesResultResponse(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourceTemplatesResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesRequest(body: &Value) -> Value {
    let t: mcp::ListResourcesRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourcesRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListResourcesRequest::method_value());
    word(&mut o, "method_name", mcp::ListResourcesRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesResult(body: &Value) -> Value {
    let t: mcp::ListResourcesResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesResultCacheScope(body: &Value) -> Value {
    let t: mcp::ListResourcesResultCacheScope = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesResultResponse(body: &Value) -> Value {
    let t: mcp::ListResourcesResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourcesResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsRequest(body: &Value) -> Value {
    let t: mcp::ListRootsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListRootsRequest::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ListRootsRequest::method_value());
    word(&mut o, "method_name", mcp::ListRootsRequest::method_name());
    word(&mut o, "method", t.method());
    put(&mut o, "into InputRequest", &mcp::InputRequest::from(t.clone()));
    word(&mut o, "kind InputRequest", v_InputRequest(&mcp::InputRequest::from(t.clone())));
    form::<mcp::InputRequest>(&mut o, "InputRequest", body, v_InputRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsRequestParams(body: &Value) -> Value {
    let t: mcp::ListRootsRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsResult(body: &Value) -> Value {
    let t: mcp::ListRootsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into InputResponse", &mcp::InputResponse::from(t.clone()));
    word(&mut o, "kind InputResponse", v_InputResponse(&mcp::InputResponse::from(t.clone())));
    form::<mcp::InputResponse>(&mut o, "InputResponse", body, v_InputResponse);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsRequest(body: &Value) -> Value {
    let t: mcp::ListToolsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListToolsRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListToolsRequest::method_value());
    word(&mut o, "method_name", mcp::ListToolsRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsResult(body: &Value) -> Value {
    let t: mcp::ListToolsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsResultCacheScope(body: &Value) -> Value {
    let t: mcp::ListToolsResultCacheScope = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsResultResponse(body: &Value) -> Value {
    let t: mcp::ListToolsResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListToolsResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingLevel(body: &Value) -> Value {
    let t: mcp::LoggingLevel = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingMessageNotification(body: &Value) -> Value {
    let t: mcp::LoggingMessageNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::LoggingMessageNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::LoggingMessageNotification::method_value());
    word(&mut o, "method_name", mcp::LoggingMessageNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingMessageNotificationParams(body: &Value) -> Value {
    let t: mcp::LoggingMessageNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MetaObject(body: &Value) -> Value {
    let t: mcp::MetaObject = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MethodNotFoundError(body: &Value) -> Value {
    let t: mcp::MethodNotFoundError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MissingRequiredClientCapabilityError(body: &Value) -> Value {
    let t: mcp::MissingRequiredClientCapabilityError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::MissingRequiredClientCapabilityError::new(t.error.clone(), t.id.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into RpcError", &mcp::RpcError::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MissingRequiredClientCapabilityErrorError(body: &Value) -> Value {
    let t: mcp::MissingRequiredClientCapabilityErrorError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MissingRequiredClientCapabilityErrorErrorData(body: &Value) -> Value {
    let t: mcp::MissingRequiredClientCapabilityErrorErrorData = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ModelHint(body: &Value) -> Value {
    let t: mcp::ModelHint = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ModelPreferences(body: &Value) -> Value {
    let t: mcp::ModelPreferences = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MultiSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::MultiSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_MultiSelectEnumSchema(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Notification(body: &Value) -> Value {
    let t: mcp::Notification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NotificationMetaObject(body: &Value) -> Value {
    let t: mcp::NotificationMetaObject = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NotificationParams(body: &Value) -> Value {
    let t: mcp::NotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NumberSchema(body: &Value) -> Value {
    let t: mcp::NumberSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NumberSchemaType(body: &Value) -> Value {
    let t: mcp::NumberSchemaType = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedRequest(body: &Value) -> Value {
    let t: mcp::PaginatedRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PaginatedRequest::new(t.id.clone(), t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedRequestParams(body: &Value) -> Value {
    let t: mcp::PaginatedRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedResult(body: &Value) -> Value {
    let t: mcp::PaginatedResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ParseError(body: &Value) -> Value {
    let t: mcp::ParseError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PrimitiveSchemaDefinition(body: &Value) -> Value {
    let t: mcp::PrimitiveSchemaDefinition = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_PrimitiveSchemaDefinition(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressNotification(body: &Value) -> Value {
    let t: mcp::ProgressNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ProgressNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ProgressNotification::method_value());
    word(&mut o, "method_name", mcp::ProgressNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressNotificationParams(body: &Value) -> Value {
    let t: mcp::ProgressNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressToken(body: &Value) -> Value {
    let t: mcp::ProgressToken = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ProgressToken(&t));
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::ProgressToken::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Prompt(body: &Value) -> Value {
    let t: mcp::Prompt = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptArgument(body: &Value) -> Value {
    let t: mcp::PromptArgument = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptListChangedNotification(body: &Value) -> Value {
    let t: mcp::PromptListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PromptListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::PromptListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::PromptListChangedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptMessage(body: &Value) -> Value {
    let t: mcp::PromptMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptReference(body: &Value) -> Value {
    let t: mcp::PromptReference = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PromptReference::new(t.name.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::PromptReference::type_value());
    word(&mut o, "type_name", mcp::PromptReference::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CompleteRequestRef", &mcp::CompleteRequestRef::from(t.clone()));
    word(&mut o, "kind CompleteRequestRef", v_CompleteRequestRef(&mcp::CompleteRequestRef::from(t.clone())));
    form::<mcp::CompleteRequestRef>(&mut o, "CompleteRequestRef", body, v_CompleteRequestRef);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceContent(body: &Value) -> Value {
    let t: mcp::ReadResourceContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ReadResourceContent(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceRequest(body: &Value) -> Value {
    let t: mcp::ReadResourceRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ReadResourceRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ReadResourceRequest::method_value());
    word(&mut o, "method_name", mcp::ReadResourceRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceRequestParams(body: &Value) -> Value {
    let t: mcp::ReadResourceRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceResult(body: &Value) -> Value {
    let t: mcp::ReadResourceResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ReadResourceResultResponseResult", &mcp::ReadResourceResultResponseResult::from(t.clone()));
    word(&mut o, "kind ReadResourceResultResponseResult", v_ReadResourceResultResponseResult(&mcp::ReadResourceResultResponseResult::from(t.clone())));
    form::<mcp::ReadResourceResultResponseResult>(&mut o, "ReadResourceResultResponseResult", body, v_ReadResourceResultResponseResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceResultCacheScope(body: &Value) -> Value {
    let t: mcp::ReadResourceResultCacheScope = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceResultResponse(body: &Value) -> Value {
    let t: mcp::ReadResourceResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ReadResourceResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceResultResponseResult(body: &Value) -> Value {
    let t: mcp::ReadResourceResultResponseResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ReadResourceResultResponseResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Request(body: &Value) -> Value {
    let t: mcp::Request = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestId(body: &Value) -> Value {
    let t: mcp::RequestId = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_RequestId(&t));
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::RequestId::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestMetaObject(body: &Value) -> Value {
    let t: mcp::RequestMetaObject = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestParams(body: &Value) -> Value {
    let t: mcp::RequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Resource(body: &Value) -> Value {
    let t: mcp::Resource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceContents(body: &Value) -> Value {
    let t: mcp::ResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceLink(body: &Value) -> Value {
    let t: mcp::ResourceLink = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceLink::new(t.icons.clone(), t.name.clone(), t.uri.clone(), t.annotations.clone(), t.description.clone(), t.meta.clone(), t.mime_type.clone(), t.size.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::ResourceLink::type_value());
    word(&mut o, "type_name", mcp::ResourceLink::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceListChangedNotification(body: &Value) -> Value {
    let t: mcp::ResourceListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ResourceListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::ResourceListChangedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceRequestParams(body: &Value) -> Value {
    let t: mcp::ResourceRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceTemplate(body: &Value) -> Value {
    let t: mcp::ResourceTemplate = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceTemplateReference(body: &Value) -> Value {
    let t: mcp::ResourceTemplateReference = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceTemplateReference::new(t.uri.clone()));
    word(&mut o, "type_value", mcp::ResourceTemplateReference::type_value());
    word(&mut o, "type_name", mcp::ResourceTemplateReference::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CompleteRequestRef", &mcp::CompleteRequestRef::from(t.clone()));
    word(&mut o, "kind CompleteRequestRef", v_CompleteRequestRef(&mcp::CompleteRequestRef::from(t.clone())));
    form::<mcp::CompleteRequestRef>(&mut o, "CompleteRequestRef", body, v_CompleteRequestRef);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceUpdatedNotification(body: &Value) -> Value {
    let t: mcp::ResourceUpdatedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceUpdatedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ResourceUpdatedNotification::method_value());
    word(&mut o, "method_name", mcp::ResourceUpdatedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceUpdatedNotificationParams(body: &Value) -> Value {
    let t: mcp::ResourceUpdatedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Result(body: &Value) -> Value {
    let t: mcp::Result = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResultMetaObject(body: &Value) -> Value {
    let t: mcp::ResultMetaObject = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResultType(body: &Value) -> Value {
    let t: mcp::ResultType = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Role(body: &Value) -> Value {
    let t: mcp::Role = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Root(body: &Value) -> Value {
    let t: mcp::Root = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RpcError(body: &Value) -> Value {
    let t: mcp::RpcError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessage(body: &Value) -> Value {
    let t: mcp::SamplingMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessageContent(body: &Value) -> Value {
    let t: mcp::SamplingMessageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_SamplingMessageContent(&t));
    if let Ok(x) = serde_json::from_value::<Vec<mcp::SamplingMessageContentBlock>>(body.clone()) { put(&mut o, "from Vec<SamplingMessageContentBlock>", &mcp::SamplingMessageContent::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessageContentBlock(body: &Value) -> Value {
    let t: mcp::SamplingMessageContentBlock = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_SamplingMessageContentBlock(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilities(body: &Value) -> Value {
    let t: mcp::ServerCapabilities = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesPrompts(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesPrompts = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesResources(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesResources = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesTools(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesTools = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerNotification(body: &Value) -> Value {
    let t: mcp::ServerNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ServerNotification(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerResult(body: &Value) -> Value {
    let t: mcp::ServerResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ServerResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SingleSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::SingleSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_SingleSelectEnumSchema(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_StringSchema(body: &Value) -> Value {
    let t: mcp::StringSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::StringSchema::new(t.default.clone(), t.description.clone(), t.format.clone(), t.max_length.clone(), t.min_length.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::StringSchema::type_value());
    word(&mut o, "type_name", mcp::StringSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_StringSchemaFormat(body: &Value) -> Value {
    let t: mcp::StringSchemaFormat = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionFilter(body: &Value) -> Value {
    let t: mcp::SubscriptionFilter = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionsAcknowledgedNotification(body: &Value) -> Value {
    let t: mcp::SubscriptionsAcknowledgedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::SubscriptionsAcknowledgedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::SubscriptionsAcknowledgedNotification::method_value());
    word(&mut o, "method_name", mcp::SubscriptionsAcknowledgedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionsAcknowledgedNotificationParams(body: &Value) -> Value {
    let t: mcp::SubscriptionsAcknowledgedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionsListenRequest(body: &Value) -> Value {
    let t: mcp::SubscriptionsListenRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::SubscriptionsListenRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::SubscriptionsListenRequest::method_value());
    word(&mut o, "method_name", mcp::SubscriptionsListenRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionsListenRequestParams(body: &Value) -> Value {
    let t: mcp::SubscriptionsListenRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionsListenResult(body: &Value) -> Value {
    let t: mcp::SubscriptionsListenResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionsListenResultMetaObject(body: &Value) -> Value {
    let t: mcp::SubscriptionsListenResultMetaObject = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscriptionsListenResultResponse(body: &Value) -> Value {
    let t: mcp::SubscriptionsListenResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::SubscriptionsListenResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TextContent(body: &Value) -> Value {
    let t: mcp::TextContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TextContent::new(t.text.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::TextContent::type_value());
    word(&mut o, "type_name", mcp::TextContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TextResourceContents(body: &Value) -> Value {
    let t: mcp::TextResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into EmbeddedResourceResource", &mcp::EmbeddedResourceResource::from(t.clone()));
    word(&mut o, "kind EmbeddedResourceResource", v_EmbeddedResourceResource(&mcp::EmbeddedResourceResource::from(t.clone())));
    form::<mcp::EmbeddedResourceResource>(&mut o, "EmbeddedResourceResource", body, v_EmbeddedResourceResource);
    put(&mut o, "into ReadResourceContent", &mcp::ReadResourceContent::from(t.clone()));
    word(&mut o, "kind ReadResourceContent", v_ReadResourceContent(&mcp::ReadResourceContent::from(t.clone())));
    form::<mcp::ReadResourceContent>(&mut o, "ReadResourceContent", body, v_ReadResourceContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledMultiSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::TitledMultiSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TitledMultiSelectEnumSchema::new(t.default.clone(), t.items.clone(), t.description.clone(), t.max_items.clone(), t.min_items.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::TitledMultiSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::TitledMultiSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into MultiSelectEnumSchema", &mcp::MultiSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind MultiSelectEnumSchema", v_MultiSelectEnumSchema(&mcp::MultiSelectEnumSchema::from(t.clone())));
    form::<mcp::MultiSelectEnumSchema>(&mut o, "MultiSelectEnumSchema", body, v_MultiSelectEnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledMultiSelectEnumSchemaItems(body: &Value) -> Value {
    let t: mcp::TitledMultiSelectEnumSchemaItems = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledMultiSelectEnumSchemaItemsAnyOfItem(body: &Value) -> Value {
    let t: mcp::TitledMultiSelectEnumSchemaItemsAnyOfItem = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledSingleSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::TitledSingleSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TitledSingleSelectEnumSchema::new(t.one_of.clone(), t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::TitledSingleSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::TitledSingleSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    put(&mut o, "into SingleSelectEnumSchema", &mcp::SingleSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind SingleSelectEnumSchema", v_SingleSelectEnumSchema(&mcp::SingleSelectEnumSchema::from(t.clone())));
    form::<mcp::SingleSelectEnumSchema>(&mut o, "SingleSelectEnumSchema", body, v_SingleSelectEnumSchema);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledSingleSelectEnumSchemaOneOfItem(body: &Value) -> Value {
    let t: mcp::TitledSingleSelectEnumSchemaOneOfItem = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Tool(body: &Value) -> Value {
    let t: mcp::Tool = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolAnnotations(body: &Value) -> Value {
    let t: mcp::ToolAnnotations = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolChoice(body: &Value) -> Value {
    let t: mcp::ToolChoice = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolChoiceMode(body: &Value) -> Value {
    let t: mcp::ToolChoiceMode = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolInputSchema(body: &Value) -> Value {
    let t: mcp::ToolInputSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolInputSchema::new(t.schema.clone(), t.extra.clone()));
    word(&mut o, "type_value", mcp::ToolInputSchema::type_value());
    word(&mut o, "type_name", mcp::ToolInputSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolListChangedNotification(body: &Value) -> Value {
    let t: mcp::ToolListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ToolListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::ToolListChangedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolOutputSchema(body: &Value) -> Value {
    let t: mcp::ToolOutputSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolResultContent(body: &Value) -> Value {
    let t: mcp::ToolResultContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolResultContent::new(t.content.clone(), t.tool_use_id.clone(), t.is_error.clone(), t.meta.clone(), t.structured_content.clone()));
    word(&mut o, "type_value", mcp::ToolResultContent::type_value());
    word(&mut o, "type_name", mcp::ToolResultContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolUseContent(body: &Value) -> Value {
    let t: mcp::ToolUseContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolUseContent::new(t.id.clone(), t.input.clone(), t.name.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::ToolUseContent::type_value());
    word(&mut o, "type_name", mcp::ToolUseContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsupportedProtocolVersionError(body: &Value) -> Value {
    let t: mcp::UnsupportedProtocolVersionError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UnsupportedProtocolVersionError::new(t.error.clone(), t.id.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into RpcError", &mcp::RpcError::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsupportedProtocolVersionErrorError(body: &Value) -> Value {
    let t: mcp::UnsupportedProtocolVersionErrorError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsupportedProtocolVersionErrorErrorData(body: &Value) -> Value {
    let t: mcp::UnsupportedProtocolVersionErrorErrorData = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UntitledMultiSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::UntitledMultiSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UntitledMultiSelectEnumSchema::new(t.default.clone(), t.items.clone(), t.description.clone(), t.max_items.clone(), t.min_items.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::UntitledMultiSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::UntitledMultiSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into MultiSelectEnumSchema", &mcp::MultiSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind MultiSelectEnumSchema", v_MultiSelectEnumSchema(&mcp::MultiSelectEnumSchema::from(t.clone())));
    form::<mcp::MultiSelectEnumSchema>(&mut o, "MultiSelectEnumSchema", body, v_MultiSelectEnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UntitledMultiSelectEnumSchemaItems(body: &Value) -> Value {
    let t: mcp::UntitledMultiSelectEnumSchemaItems = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UntitledMultiSelectEnumSchemaItems::new(t.enum_.clone()));
    word(&mut o, "type_value", mcp::UntitledMultiSelectEnumSchemaItems::type_value());
    word(&mut o, "type_name", mcp::UntitledMultiSelectEnumSchemaItems::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UntitledSingleSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::UntitledSingleSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UntitledSingleSelectEnumSchema::new(t.enum_.clone(), t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::UntitledSingleSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::UntitledSingleSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    put(&mut o, "into SingleSelectEnumSchema", &mcp::SingleSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind SingleSelectEnumSchema", v_SingleSelectEnumSchema(&mcp::SingleSelectEnumSchema::from(t.clone())));
    form::<mcp::SingleSelectEnumSchema>(&mut o, "SingleSelectEnumSchema", body, v_SingleSelectEnumSchema);
    Value::Object(o)
}
