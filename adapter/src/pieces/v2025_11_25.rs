// Written by tools/gen_pieces.py.
use super::{put, word, form};
use rust_mcp_schema::mcp_2025_11_25 as mcp;
use serde_json::{json, Map, Value};

#[allow(deprecated)]
pub fn piece(ty: &str, body: &Value) -> Value {
    match ty {
        "Annotations" => p_Annotations(body),
        "AudioContent" => p_AudioContent(body),
        "BaseMetadata" => p_BaseMetadata(body),
        "BlobResourceContents" => p_BlobResourceContents(body),
        "BooleanSchema" => p_BooleanSchema(body),
        "CallToolMeta" => p_CallToolMeta(body),
        "CallToolRequest" => p_CallToolRequest(body),
        "CallToolRequestParams" => p_CallToolRequestParams(body),
        "CallToolResult" => p_CallToolResult(body),
        "CancelTaskParams" => p_CancelTaskParams(body),
        "CancelTaskRequest" => p_CancelTaskRequest(body),
        "CancelTaskResult" => p_CancelTaskResult(body),
        "CancelledNotification" => p_CancelledNotification(body),
        "CancelledNotificationParams" => p_CancelledNotificationParams(body),
        "ClientCapabilities" => p_ClientCapabilities(body),
        "ClientElicitation" => p_ClientElicitation(body),
        "ClientNotification" => p_ClientNotification(body),
        "ClientRequest" => p_ClientRequest(body),
        "ClientResult" => p_ClientResult(body),
        "ClientRoots" => p_ClientRoots(body),
        "ClientSampling" => p_ClientSampling(body),
        "ClientTaskElicitation" => p_ClientTaskElicitation(body),
        "ClientTaskRequest" => p_ClientTaskRequest(body),
        "ClientTaskSampling" => p_ClientTaskSampling(body),
        "ClientTasks" => p_ClientTasks(body),
        "CompleteRequest" => p_CompleteRequest(body),
        "CompleteRequestArgument" => p_CompleteRequestArgument(body),
        "CompleteRequestContext" => p_CompleteRequestContext(body),
        "CompleteRequestMeta" => p_CompleteRequestMeta(body),
        "CompleteRequestParams" => p_CompleteRequestParams(body),
        "CompleteRequestRef" => p_CompleteRequestRef(body),
        "CompleteResult" => p_CompleteResult(body),
        "CompleteResultCompletion" => p_CompleteResultCompletion(body),
        "ContentBlock" => p_ContentBlock(body),
        "CreateMessageContent" => p_CreateMessageContent(body),
        "CreateMessageRequest" => p_CreateMessageRequest(body),
        "CreateMessageRequestParams" => p_CreateMessageRequestParams(body),
        "CreateMessageResult" => p_CreateMessageResult(body),
        "CreateTaskResult" => p_CreateTaskResult(body),
        "Cursor" => p_Cursor(body),
        "ElicitCompleteParams" => p_ElicitCompleteParams(body),
        "ElicitFormMeta" => p_ElicitFormMeta(body),
        "ElicitFormSchema" => p_ElicitFormSchema(body),
        "ElicitRequest" => p_ElicitRequest(body),
        "ElicitRequestFormParams" => p_ElicitRequestFormParams(body),
        "ElicitRequestParams" => p_ElicitRequestParams(body),
        "ElicitRequestUrlParams" => p_ElicitRequestUrlParams(body),
        "ElicitResult" => p_ElicitResult(body),
        "ElicitResultAction" => p_ElicitResultAction(body),
        "ElicitResultContent" => p_ElicitResultContent(body),
        "ElicitResultContentPrimitive" => p_ElicitResultContentPrimitive(body),
        "ElicitUrlMeta" => p_ElicitUrlMeta(body),
        "ElicitationCompleteNotification" => p_ElicitationCompleteNotification(body),
        "EmbeddedResource" => p_EmbeddedResource(body),
        "EmbeddedResourceResource" => p_EmbeddedResourceResource(body),
        "EmptyResult" => p_EmptyResult(body),
        "EnumSchema" => p_EnumSchema(body),
        "GetPromptMeta" => p_GetPromptMeta(body),
        "GetPromptRequest" => p_GetPromptRequest(body),
        "GetPromptRequestParams" => p_GetPromptRequestParams(body),
        "GetPromptResult" => p_GetPromptResult(body),
        "GetTaskParams" => p_GetTaskParams(body),
        "GetTaskPayloadParams" => p_GetTaskPayloadParams(body),
        "GetTaskPayloadRequest" => p_GetTaskPayloadRequest(body),
        "GetTaskPayloadResult" => p_GetTaskPayloadResult(body),
        "GetTaskRequest" => p_GetTaskRequest(body),
        "GetTaskResult" => p_GetTaskResult(body),
        "Icon" => p_Icon(body),
        "IconTheme" => p_IconTheme(body),
        "Icons" => p_Icons(body),
        "ImageContent" => p_ImageContent(body),
        "Implementation" => p_Implementation(body),
        "IncludeContext" => p_IncludeContext(body),
        "InitializeMeta" => p_InitializeMeta(body),
        "InitializeRequest" => p_InitializeRequest(body),
        "InitializeRequestParams" => p_InitializeRequestParams(body),
        "InitializeResult" => p_InitializeResult(body),
        "InitializedNotification" => p_InitializedNotification(body),
        "JsonrpcErrorResponse" => p_JsonrpcErrorResponse(body),
        "JsonrpcMessage" => p_JsonrpcMessage(body),
        "JsonrpcNotification" => p_JsonrpcNotification(body),
        "JsonrpcRequest" => p_JsonrpcRequest(body),
        "JsonrpcResponse" => p_JsonrpcResponse(body),
        "JsonrpcResultResponse" => p_JsonrpcResultResponse(body),
        "LegacyTitledEnumSchema" => p_LegacyTitledEnumSchema(body),
        "ListPromptsRequest" => p_ListPromptsRequest(body),
        "ListPromptsResult" => p_ListPromptsResult(body),
        "ListResourceTemplatesRequest" => p_ListResourceTemplatesRequest(body),
        "ListResourceTemplatesResult" => p_ListResourceTemplatesResult(body),
        "ListResourcesRequest" => p_ListResourcesRequest(body),
        "ListResourcesResult" => p_ListResourcesResult(body),
        "ListRootsRequest" => p_ListRootsRequest(body),
        "ListRootsResult" => p_ListRootsResult(body),
        "ListTasksRequest" => p_ListTasksRequest(body),
        "ListTasksResult" => p_ListTasksResult(body),
        "ListToolsRequest" => p_ListToolsRequest(body),
        "ListToolsResult" => p_ListToolsResult(body),
        "LoggingLevel" => p_LoggingLevel(body),
        "LoggingMessageNotification" => p_LoggingMessageNotification(body),
        "LoggingMessageNotificationParams" => p_LoggingMessageNotificationParams(body),
        "MessageMeta" => p_MessageMeta(body),
        "ModelHint" => p_ModelHint(body),
        "ModelPreferences" => p_ModelPreferences(body),
        "MultiSelectEnumSchema" => p_MultiSelectEnumSchema(body),
        "Notification" => p_Notification(body),
        "NotificationParams" => p_NotificationParams(body),
        "NumberSchema" => p_NumberSchema(body),
        "NumberSchemaType" => p_NumberSchemaType(body),
        "PaginatedMeta" => p_PaginatedMeta(body),
        "PaginatedRequest" => p_PaginatedRequest(body),
        "PaginatedRequestParams" => p_PaginatedRequestParams(body),
        "PaginatedResult" => p_PaginatedResult(body),
        "PingRequest" => p_PingRequest(body),
        "PrimitiveSchemaDefinition" => p_PrimitiveSchemaDefinition(body),
        "ProgressNotification" => p_ProgressNotification(body),
        "ProgressNotificationParams" => p_ProgressNotificationParams(body),
        "ProgressToken" => p_ProgressToken(body),
        "Prompt" => p_Prompt(body),
        "PromptArgument" => p_PromptArgument(body),
        "PromptListChangedNotification" => p_PromptListChangedNotification(body),
        "PromptMessage" => p_PromptMessage(body),
        "PromptReference" => p_PromptReference(body),
        "ReadResourceContent" => p_ReadResourceContent(body),
        "ReadResourceMeta" => p_ReadResourceMeta(body),
        "ReadResourceRequest" => p_ReadResourceRequest(body),
        "ReadResourceRequestParams" => p_ReadResourceRequestParams(body),
        "ReadResourceResult" => p_ReadResourceResult(body),
        "RelatedTaskMetadata" => p_RelatedTaskMetadata(body),
        "Request" => p_Request(body),
        "RequestId" => p_RequestId(body),
        "RequestParams" => p_RequestParams(body),
        "RequestParamsMeta" => p_RequestParamsMeta(body),
        "Resource" => p_Resource(body),
        "ResourceContents" => p_ResourceContents(body),
        "ResourceLink" => p_ResourceLink(body),
        "ResourceListChangedNotification" => p_ResourceListChangedNotification(body),
        "ResourceMeta" => p_ResourceMeta(body),
        "ResourceRequestParams" => p_ResourceRequestParams(body),
        "ResourceTemplate" => p_ResourceTemplate(body),
        "ResourceTemplateReference" => p_ResourceTemplateReference(body),
        "ResourceUpdatedNotification" => p_ResourceUpdatedNotification(body),
        "ResourceUpdatedNotificationParams" => p_ResourceUpdatedNotificationParams(body),
        "Result" => p_Result(body),
        "Role" => p_Role(body),
        "Root" => p_Root(body),
        "RootsListChangedNotification" => p_RootsListChangedNotification(body),
        "RpcError" => p_RpcError(body),
        "SamplingMessage" => p_SamplingMessage(body),
        "SamplingMessageContent" => p_SamplingMessageContent(body),
        "SamplingMessageContentBlock" => p_SamplingMessageContentBlock(body),
        "ServerCapabilities" => p_ServerCapabilities(body),
        "ServerCapabilitiesPrompts" => p_ServerCapabilitiesPrompts(body),
        "ServerCapabilitiesResources" => p_ServerCapabilitiesResources(body),
        "ServerCapabilitiesTools" => p_ServerCapabilitiesTools(body),
        "ServerNotification" => p_ServerNotification(body),
        "ServerRequest" => p_ServerRequest(body),
        "ServerResult" => p_ServerResult(body),
        "ServerTaskRequest" => p_ServerTaskRequest(body),
        "ServerTaskTools" => p_ServerTaskTools(body),
        "ServerTasks" => p_ServerTasks(body),
        "SetLevelMeta" => p_SetLevelMeta(body),
        "SetLevelRequest" => p_SetLevelRequest(body),
        "SetLevelRequestParams" => p_SetLevelRequestParams(body),
        "SingleSelectEnumSchema" => p_SingleSelectEnumSchema(body),
        "StringSchema" => p_StringSchema(body),
        "StringSchemaFormat" => p_StringSchemaFormat(body),
        "SubscribeMeta" => p_SubscribeMeta(body),
        "SubscribeRequest" => p_SubscribeRequest(body),
        "SubscribeRequestParams" => p_SubscribeRequestParams(body),
        "Task" => p_Task(body),
        "TaskAugmentedMeta" => p_TaskAugmentedMeta(body),
        "TaskAugmentedRequestParams" => p_TaskAugmentedRequestParams(body),
        "TaskMetadata" => p_TaskMetadata(body),
        "TaskStatus" => p_TaskStatus(body),
        "TaskStatusNotification" => p_TaskStatusNotification(body),
        "TaskStatusNotificationParams" => p_TaskStatusNotificationParams(body),
        "TextContent" => p_TextContent(body),
        "TextResourceContents" => p_TextResourceContents(body),
        "TitledMultiSelectEnumSchema" => p_TitledMultiSelectEnumSchema(body),
        "TitledMultiSelectEnumSchemaItems" => p_TitledMultiSelectEnumSchemaItems(body),
        "TitledMultiSelectEnumSchemaItemsAnyOfItem" => p_TitledMultiSelectEnumSchemaItemsAnyOfItem(body),
        "TitledSingleSelectEnumSchema" => p_TitledSingleSelectEnumSchema(body),
        "TitledSingleSelectEnumSchemaOneOfItem" => p_TitledSingleSelectEnumSchemaOneOfItem(body),
        "Tool" => p_Tool(body),
        "ToolAnnotations" => p_ToolAnnotations(body),
        "ToolChoice" => p_ToolChoice(body),
        "ToolChoiceMode" => p_ToolChoiceMode(body),
        "ToolExecution" => p_ToolExecution(body),
        "ToolExecutionTaskSupport" => p_ToolExecutionTaskSupport(body),
        "ToolInputSchema" => p_ToolInputSchema(body),
        "ToolListChangedNotification" => p_ToolListChangedNotification(body),
        "ToolOutputSchema" => p_ToolOutputSchema(body),
        "ToolResultContent" => p_ToolResultContent(body),
        "ToolUseContent" => p_ToolUseContent(body),
        "UnsubscribeMeta" => p_UnsubscribeMeta(body),
        "UnsubscribeRequest" => p_UnsubscribeRequest(body),
        "UnsubscribeRequestParams" => p_UnsubscribeRequestParams(body),
        "UntitledMultiSelectEnumSchema" => p_UntitledMultiSelectEnumSchema(body),
        "UntitledMultiSelectEnumSchemaItems" => p_UntitledMultiSelectEnumSchemaItems(body),
        "UntitledSingleSelectEnumSchema" => p_UntitledSingleSelectEnumSchema(body),
        "UrlElicitError" => p_UrlElicitError(body),
        "UrlElicitErrorData" => p_UrlElicitErrorData(body),
        "UrlElicitationRequiredError" => p_UrlElicitationRequiredError(body),
        _ => json!({"none": true}),
    }
}
#[allow(non_snake_case)]
fn v_ClientNotification(u: &mcp::ClientNotification) -> &'static str {
    match u {
        mcp::ClientNotification::CancelledNotification(_) => "CancelledNotification",
        mcp::ClientNotification::InitializedNotification(_) => "InitializedNotification",
        mcp::ClientNotification::ProgressNotification(_) => "ProgressNotification",
        mcp::ClientNotification::TaskStatusNotification(_) => "TaskStatusNotification",
        mcp::ClientNotification::RootsListChangedNotification(_) => "RootsListChangedNotification",
    }
}
#[allow(non_snake_case)]
fn v_ClientRequest(u: &mcp::ClientRequest) -> &'static str {
    match u {
        mcp::ClientRequest::InitializeRequest(_) => "InitializeRequest",
        mcp::ClientRequest::PingRequest(_) => "PingRequest",
        mcp::ClientRequest::ListResourcesRequest(_) => "ListResourcesRequest",
        mcp::ClientRequest::ListResourceTemplatesRequest(_) => "ListResourceTemplatesRequest",
        mcp::ClientRequest::ReadResourceRequest(_) => "ReadResourceRequest",
        mcp::ClientRequest::SubscribeRequest(_) => "SubscribeRequest",
        mcp::ClientRequest::UnsubscribeRequest(_) => "UnsubscribeRequest",
        mcp::ClientRequest::ListPromptsRequest(_) => "ListPromptsRequest",
        mcp::ClientRequest::GetPromptRequest(_) => "GetPromptRequest",
        mcp::ClientRequest::ListToolsRequest(_) => "ListToolsRequest",
        mcp::ClientRequest::CallToolRequest(_) => "CallToolRequest",
        mcp::ClientRequest::GetTaskRequest(_) => "GetTaskRequest",
        mcp::ClientRequest::GetTaskPayloadRequest(_) => "GetTaskPayloadRequest",
        mcp::ClientRequest::CancelTaskRequest(_) => "CancelTaskRequest",
        mcp::ClientRequest::ListTasksRequest(_) => "ListTasksRequest",
        mcp::ClientRequest::SetLevelRequest(_) => "SetLevelRequest",
        mcp::ClientRequest::CompleteRequest(_) => "CompleteRequest",
    }
}
#[allow(non_snake_case)]
fn v_ClientResult(u: &mcp::ClientResult) -> &'static str {
    match u {
        mcp::ClientResult::GetTaskResult(_) => "GetTaskResult",
        mcp::ClientResult::CancelTaskResult(_) => "CancelTaskResult",
        mcp::ClientResult::ListTasksResult(_) => "ListTasksResult",
        mcp::ClientResult::CreateMessageResult(_) => "CreateMessageResult",
        mcp::ClientResult::ListRootsResult(_) => "ListRootsResult",
        mcp::ClientResult::ElicitResult(_) => "ElicitResult",
        mcp::ClientResult::Result(_) => "Result",
        mcp::ClientResult::GetTaskPayloadResult(_) => "GetTaskPayloadResult",
    }
}
#[allow(non_snake_case)]
fn v_CompleteRequestRef(u: &mcp::CompleteRequestRef) -> &'static str {
    match u {
        mcp::CompleteRequestRef::PromptReference(_) => "PromptReference",
        mcp::CompleteRequestRef::ResourceTemplateReference(_) => "ResourceTemplateReference",
    }
}
#[allow(non_snake_case)]
fn v_ContentBlock(u: &mcp::ContentBlock) -> &'static str {
    match u {
        mcp::ContentBlock::TextContent(_) => "TextContent",
        mcp::ContentBlock::ImageContent(_) => "ImageContent",
        mcp::ContentBlock::AudioContent(_) => "AudioContent",
        mcp::ContentBlock::ResourceLink(_) => "ResourceLink",
        mcp::ContentBlock::EmbeddedResource(_) => "EmbeddedResource",
    }
}
#[allow(non_snake_case)]
fn v_CreateMessageContent(u: &mcp::CreateMessageContent) -> &'static str {
    match u {
        mcp::CreateMessageContent::TextContent(_) => "TextContent",
        mcp::CreateMessageContent::ImageContent(_) => "ImageContent",
        mcp::CreateMessageContent::AudioContent(_) => "AudioContent",
        mcp::CreateMessageContent::ToolUseContent(_) => "ToolUseContent",
        mcp::CreateMessageContent::ToolResultContent(_) => "ToolResultContent",
        mcp::CreateMessageContent::SamplingMessageContentBlock(_) => "Vec<SamplingMessageContentBlock>",
    }
}
#[allow(non_snake_case)]
fn v_ElicitRequestParams(u: &mcp::ElicitRequestParams) -> &'static str {
    match u {
        mcp::ElicitRequestParams::UrlParams(_) => "ElicitRequestUrlParams",
        mcp::ElicitRequestParams::FormParams(_) => "ElicitRequestFormParams",
    }
}
#[allow(non_snake_case)]
fn v_ElicitResultContent(u: &mcp::ElicitResultContent) -> &'static str {
    match u {
        mcp::ElicitResultContent::StringArray(_) => "Vec<String>",
        mcp::ElicitResultContent::Primitive(_) => "ElicitResultContentPrimitive",
    }
}
#[allow(non_snake_case)]
fn v_ElicitResultContentPrimitive(u: &mcp::ElicitResultContentPrimitive) -> &'static str {
    match u {
        mcp::ElicitResultContentPrimitive::Boolean(_) => "bool",
        mcp::ElicitResultContentPrimitive::String(_) => "String",
        mcp::ElicitResultContentPrimitive::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_EmbeddedResourceResource(u: &mcp::EmbeddedResourceResource) -> &'static str {
    match u {
        mcp::EmbeddedResourceResource::TextResourceContents(_) => "TextResourceContents",
        mcp::EmbeddedResourceResource::BlobResourceContents(_) => "BlobResourceContents",
    }
}
#[allow(non_snake_case)]
fn v_EnumSchema(u: &mcp::EnumSchema) -> &'static str {
    match u {
        mcp::EnumSchema::UntitledSingleSelectEnumSchema(_) => "UntitledSingleSelectEnumSchema",
        mcp::EnumSchema::TitledSingleSelectEnumSchema(_) => "TitledSingleSelectEnumSchema",
        mcp::EnumSchema::UntitledMultiSelectEnumSchema(_) => "UntitledMultiSelectEnumSchema",
        mcp::EnumSchema::TitledMultiSelectEnumSchema(_) => "TitledMultiSelectEnumSchema",
        mcp::EnumSchema::LegacyTitledEnumSchema(_) => "LegacyTitledEnumSchema",
    }
}
#[allow(non_snake_case)]
fn v_JsonrpcMessage(u: &mcp::JsonrpcMessage) -> &'static str {
    match u {
        mcp::JsonrpcMessage::Request(_) => "JsonrpcRequest",
        mcp::JsonrpcMessage::Notification(_) => "JsonrpcNotification",
        mcp::JsonrpcMessage::ResultResponse(_) => "JsonrpcResultResponse",
        mcp::JsonrpcMessage::ErrorResponse(_) => "JsonrpcErrorResponse",
    }
}
#[allow(non_snake_case)]
fn v_JsonrpcResponse(u: &mcp::JsonrpcResponse) -> &'static str {
    match u {
        mcp::JsonrpcResponse::ResultResponse(_) => "JsonrpcResultResponse",
        mcp::JsonrpcResponse::ErrorResponse(_) => "JsonrpcErrorResponse",
    }
}
#[allow(non_snake_case)]
fn v_MultiSelectEnumSchema(u: &mcp::MultiSelectEnumSchema) -> &'static str {
    match u {
        mcp::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(_) => "UntitledMultiSelectEnumSchema",
        mcp::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(_) => "TitledMultiSelectEnumSchema",
    }
}
#[allow(non_snake_case)]
fn v_PrimitiveSchemaDefinition(u: &mcp::PrimitiveSchemaDefinition) -> &'static str {
    match u {
        mcp::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(_) => "UntitledSingleSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(_) => "TitledSingleSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(_) => "UntitledMultiSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(_) => "TitledMultiSelectEnumSchema",
        mcp::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(_) => "LegacyTitledEnumSchema",
        mcp::PrimitiveSchemaDefinition::StringSchema(_) => "StringSchema",
        mcp::PrimitiveSchemaDefinition::NumberSchema(_) => "NumberSchema",
        mcp::PrimitiveSchemaDefinition::BooleanSchema(_) => "BooleanSchema",
    }
}
#[allow(non_snake_case)]
fn v_ProgressToken(u: &mcp::ProgressToken) -> &'static str {
    match u {
        mcp::ProgressToken::String(_) => "String",
        mcp::ProgressToken::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_ReadResourceContent(u: &mcp::ReadResourceContent) -> &'static str {
    match u {
        mcp::ReadResourceContent::TextResourceContents(_) => "TextResourceContents",
        mcp::ReadResourceContent::BlobResourceContents(_) => "BlobResourceContents",
    }
}
#[allow(non_snake_case)]
fn v_RequestId(u: &mcp::RequestId) -> &'static str {
    match u {
        mcp::RequestId::String(_) => "String",
        mcp::RequestId::Integer(_) => "i64",
    }
}
#[allow(non_snake_case)]
fn v_SamplingMessageContent(u: &mcp::SamplingMessageContent) -> &'static str {
    match u {
        mcp::SamplingMessageContent::TextContent(_) => "TextContent",
        mcp::SamplingMessageContent::ImageContent(_) => "ImageContent",
        mcp::SamplingMessageContent::AudioContent(_) => "AudioContent",
        mcp::SamplingMessageContent::ToolUseContent(_) => "ToolUseContent",
        mcp::SamplingMessageContent::ToolResultContent(_) => "ToolResultContent",
        mcp::SamplingMessageContent::SamplingMessageContentBlock(_) => "Vec<SamplingMessageContentBlock>",
    }
}
#[allow(non_snake_case)]
fn v_SamplingMessageContentBlock(u: &mcp::SamplingMessageContentBlock) -> &'static str {
    match u {
        mcp::SamplingMessageContentBlock::TextContent(_) => "TextContent",
        mcp::SamplingMessageContentBlock::ImageContent(_) => "ImageContent",
        mcp::SamplingMessageContentBlock::AudioContent(_) => "AudioContent",
        mcp::SamplingMessageContentBlock::ToolUseContent(_) => "ToolUseContent",
        mcp::SamplingMessageContentBlock::ToolResultContent(_) => "ToolResultContent",
    }
}
#[allow(non_snake_case)]
fn v_ServerNotification(u: &mcp::ServerNotification) -> &'static str {
    match u {
        mcp::ServerNotification::CancelledNotification(_) => "CancelledNotification",
        mcp::ServerNotification::ProgressNotification(_) => "ProgressNotification",
        mcp::ServerNotification::ResourceListChangedNotification(_) => "ResourceListChangedNotification",
        mcp::ServerNotification::ResourceUpdatedNotification(_) => "ResourceUpdatedNotification",
        mcp::ServerNotification::PromptListChangedNotification(_) => "PromptListChangedNotification",
        mcp::ServerNotification::ToolListChangedNotification(_) => "ToolListChangedNotification",
        mcp::ServerNotification::TaskStatusNotification(_) => "TaskStatusNotification",
        mcp::ServerNotification::LoggingMessageNotification(_) => "LoggingMessageNotification",
        mcp::ServerNotification::ElicitationCompleteNotification(_) => "ElicitationCompleteNotification",
    }
}
#[allow(non_snake_case)]
fn v_ServerRequest(u: &mcp::ServerRequest) -> &'static str {
    match u {
        mcp::ServerRequest::PingRequest(_) => "PingRequest",
        mcp::ServerRequest::GetTaskRequest(_) => "GetTaskRequest",
        mcp::ServerRequest::GetTaskPayloadRequest(_) => "GetTaskPayloadRequest",
        mcp::ServerRequest::CancelTaskRequest(_) => "CancelTaskRequest",
        mcp::ServerRequest::ListTasksRequest(_) => "ListTasksRequest",
        mcp::ServerRequest::CreateMessageRequest(_) => "CreateMessageRequest",
        mcp::ServerRequest::ListRootsRequest(_) => "ListRootsRequest",
        mcp::ServerRequest::ElicitRequest(_) => "ElicitRequest",
    }
}
#[allow(non_snake_case)]
fn v_ServerResult(u: &mcp::ServerResult) -> &'static str {
    match u {
        mcp::ServerResult::InitializeResult(_) => "InitializeResult",
        mcp::ServerResult::ListResourcesResult(_) => "ListResourcesResult",
        mcp::ServerResult::ListResourceTemplatesResult(_) => "ListResourceTemplatesResult",
        mcp::ServerResult::ReadResourceResult(_) => "ReadResourceResult",
        mcp::ServerResult::ListPromptsResult(_) => "ListPromptsResult",
        mcp::ServerResult::GetPromptResult(_) => "GetPromptResult",
        mcp::ServerResult::ListToolsResult(_) => "ListToolsResult",
        mcp::ServerResult::CallToolResult(_) => "CallToolResult",
        mcp::ServerResult::GetTaskResult(_) => "GetTaskResult",
        mcp::ServerResult::CancelTaskResult(_) => "CancelTaskResult",
        mcp::ServerResult::ListTasksResult(_) => "ListTasksResult",
        mcp::ServerResult::CompleteResult(_) => "CompleteResult",
        mcp::ServerResult::Result(_) => "Result",
        mcp::ServerResult::GetTaskPayloadResult(_) => "GetTaskPayloadResult",
    }
}
#[allow(non_snake_case)]
fn v_SingleSelectEnumSchema(u: &mcp::SingleSelectEnumSchema) -> &'static str {
    match u {
        mcp::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(_) => "UntitledSingleSelectEnumSchema",
        mcp::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(_) => "TitledSingleSelectEnumSchema",
    }
}
#[allow(non_snake_case, deprecated)]
fn p_Annotations(body: &Value) -> Value {
    let t: mcp::Annotations = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_AudioContent(body: &Value) -> Value {
    let t: mcp::AudioContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::AudioContent::new(t.data.clone(), t.mime_type.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::AudioContent::type_value());
    word(&mut o, "type_name", mcp::AudioContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BaseMetadata(body: &Value) -> Value {
    let t: mcp::BaseMetadata = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BlobResourceContents(body: &Value) -> Value {
    let t: mcp::BlobResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into EmbeddedResourceResource", &mcp::EmbeddedResourceResource::from(t.clone()));
    word(&mut o, "kind EmbeddedResourceResource", v_EmbeddedResourceResource(&mcp::EmbeddedResourceResource::from(t.clone())));
    form::<mcp::EmbeddedResourceResource>(&mut o, "EmbeddedResourceResource", body, v_EmbeddedResourceResource);
    put(&mut o, "into ReadResourceContent", &mcp::ReadResourceContent::from(t.clone()));
    word(&mut o, "kind ReadResourceContent", v_ReadResourceContent(&mcp::ReadResourceContent::from(t.clone())));
    form::<mcp::ReadResourceContent>(&mut o, "ReadResourceContent", body, v_ReadResourceContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_BooleanSchema(body: &Value) -> Value {
    let t: mcp::BooleanSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::BooleanSchema::new(t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::BooleanSchema::type_value());
    word(&mut o, "type_name", mcp::BooleanSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolMeta(body: &Value) -> Value {
    let t: mcp::CallToolMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolRequest(body: &Value) -> Value {
    let t: mcp::CallToolRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CallToolRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::CallToolRequest::method_value());
    word(&mut o, "method_name", mcp::CallToolRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolRequestParams(body: &Value) -> Value {
    let t: mcp::CallToolRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CallToolResult(body: &Value) -> Value {
    let t: mcp::CallToolResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelTaskParams(body: &Value) -> Value {
    let t: mcp::CancelTaskParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelTaskRequest(body: &Value) -> Value {
    let t: mcp::CancelTaskRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CancelTaskRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::CancelTaskRequest::method_value());
    word(&mut o, "method_name", mcp::CancelTaskRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelTaskResult(body: &Value) -> Value {
    let t: mcp::CancelTaskResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelledNotification(body: &Value) -> Value {
    let t: mcp::CancelledNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CancelledNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::CancelledNotification::method_value());
    word(&mut o, "method_name", mcp::CancelledNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CancelledNotificationParams(body: &Value) -> Value {
    let t: mcp::CancelledNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientCapabilities(body: &Value) -> Value {
    let t: mcp::ClientCapabilities = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientElicitation(body: &Value) -> Value {
    let t: mcp::ClientElicitation = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientNotification(body: &Value) -> Value {
    let t: mcp::ClientNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ClientNotification(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientRequest(body: &Value) -> Value {
    let t: mcp::ClientRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ClientRequest(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientResult(body: &Value) -> Value {
    let t: mcp::ClientResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ClientResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientRoots(body: &Value) -> Value {
    let t: mcp::ClientRoots = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientSampling(body: &Value) -> Value {
    let t: mcp::ClientSampling = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientTaskElicitation(body: &Value) -> Value {
    let t: mcp::ClientTaskElicitation = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientTaskRequest(body: &Value) -> Value {
    let t: mcp::ClientTaskRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientTaskSampling(body: &Value) -> Value {
    let t: mcp::ClientTaskSampling = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ClientTasks(body: &Value) -> Value {
    let t: mcp::ClientTasks = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequest(body: &Value) -> Value {
    let t: mcp::CompleteRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CompleteRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::CompleteRequest::method_value());
    word(&mut o, "method_name", mcp::CompleteRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestArgument(body: &Value) -> Value {
    let t: mcp::CompleteRequestArgument = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestContext(body: &Value) -> Value {
    let t: mcp::CompleteRequestContext = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestMeta(body: &Value) -> Value {
    let t: mcp::CompleteRequestMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestParams(body: &Value) -> Value {
    let t: mcp::CompleteRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteRequestRef(body: &Value) -> Value {
    let t: mcp::CompleteRequestRef = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_CompleteRequestRef(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteResult(body: &Value) -> Value {
    let t: mcp::CompleteResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CompleteResultCompletion(body: &Value) -> Value {
    let t: mcp::CompleteResultCompletion = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ContentBlock(body: &Value) -> Value {
    let t: mcp::ContentBlock = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ContentBlock(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageContent(body: &Value) -> Value {
    let t: mcp::CreateMessageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_CreateMessageContent(&t));
    if let Ok(x) = serde_json::from_value::<Vec<mcp::SamplingMessageContentBlock>>(body.clone()) { put(&mut o, "from Vec<SamplingMessageContentBlock>", &mcp::CreateMessageContent::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageRequest(body: &Value) -> Value {
    let t: mcp::CreateMessageRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::CreateMessageRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::CreateMessageRequest::method_value());
    word(&mut o, "method_name", mcp::CreateMessageRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageRequestParams(body: &Value) -> Value {
    let t: mcp::CreateMessageRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateMessageResult(body: &Value) -> Value {
    let t: mcp::CreateMessageResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_CreateTaskResult(body: &Value) -> Value {
    let t: mcp::CreateTaskResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Cursor(body: &Value) -> Value {
    let t: mcp::Cursor = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitCompleteParams(body: &Value) -> Value {
    let t: mcp::ElicitCompleteParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitFormMeta(body: &Value) -> Value {
    let t: mcp::ElicitFormMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitFormSchema(body: &Value) -> Value {
    let t: mcp::ElicitFormSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitFormSchema::new(t.properties.clone(), t.required.clone(), t.schema.clone()));
    word(&mut o, "type_value", mcp::ElicitFormSchema::type_value());
    word(&mut o, "type_name", mcp::ElicitFormSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequest(body: &Value) -> Value {
    let t: mcp::ElicitRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ElicitRequest::method_value());
    word(&mut o, "method_name", mcp::ElicitRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestFormParams(body: &Value) -> Value {
    let t: mcp::ElicitRequestFormParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequestFormParams::new(t.message.clone(), t.requested_schema.clone(), t.meta.clone(), t.task.clone()));
    word(&mut o, "mode_value", mcp::ElicitRequestFormParams::mode_value());
    word(&mut o, "mode_name", mcp::ElicitRequestFormParams::mode_name());
    if let Some(x) = t.mode() { word(&mut o, "mode", x); }
    put(&mut o, "into ElicitRequestParams", &mcp::ElicitRequestParams::from(t.clone()));
    word(&mut o, "kind ElicitRequestParams", v_ElicitRequestParams(&mcp::ElicitRequestParams::from(t.clone())));
    form::<mcp::ElicitRequestParams>(&mut o, "ElicitRequestParams", body, v_ElicitRequestParams);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestParams(body: &Value) -> Value {
    let t: mcp::ElicitRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ElicitRequestParams(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitRequestUrlParams(body: &Value) -> Value {
    let t: mcp::ElicitRequestUrlParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitRequestUrlParams::new(t.elicitation_id.clone(), t.message.clone(), t.url.clone(), t.meta.clone(), t.task.clone()));
    word(&mut o, "mode_value", mcp::ElicitRequestUrlParams::mode_value());
    word(&mut o, "mode_name", mcp::ElicitRequestUrlParams::mode_name());
    word(&mut o, "mode", t.mode());
    put(&mut o, "into ElicitRequestParams", &mcp::ElicitRequestParams::from(t.clone()));
    word(&mut o, "kind ElicitRequestParams", v_ElicitRequestParams(&mcp::ElicitRequestParams::from(t.clone())));
    form::<mcp::ElicitRequestParams>(&mut o, "ElicitRequestParams", body, v_ElicitRequestParams);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResult(body: &Value) -> Value {
    let t: mcp::ElicitResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultAction(body: &Value) -> Value {
    let t: mcp::ElicitResultAction = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultContent(body: &Value) -> Value {
    let t: mcp::ElicitResultContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ElicitResultContent(&t));
    if let Ok(x) = serde_json::from_value::<Vec<String>>(body.clone()) { put(&mut o, "from Vec<String>", &mcp::ElicitResultContent::from(x)); }
    if let Ok(x) = serde_json::from_value::<String>(body.clone()) { put(&mut o, "from String", &mcp::ElicitResultContent::from(x)); }
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::ElicitResultContent::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitResultContentPrimitive(body: &Value) -> Value {
    let t: mcp::ElicitResultContentPrimitive = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ElicitResultContentPrimitive(&t));
    if let Ok(x) = serde_json::from_value::<bool>(body.clone()) { put(&mut o, "from bool", &mcp::ElicitResultContentPrimitive::from(x)); }
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::ElicitResultContentPrimitive::from(x)); }
    if let Ok(x) = serde_json::from_value::<String>(body.clone()) { put(&mut o, "from String", &mcp::ElicitResultContentPrimitive::from(x)); }
    put(&mut o, "into ElicitResultContent", &mcp::ElicitResultContent::from(t.clone()));
    word(&mut o, "kind ElicitResultContent", v_ElicitResultContent(&mcp::ElicitResultContent::from(t.clone())));
    form::<mcp::ElicitResultContent>(&mut o, "ElicitResultContent", body, v_ElicitResultContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitUrlMeta(body: &Value) -> Value {
    let t: mcp::ElicitUrlMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ElicitationCompleteNotification(body: &Value) -> Value {
    let t: mcp::ElicitationCompleteNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ElicitationCompleteNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ElicitationCompleteNotification::method_value());
    word(&mut o, "method_name", mcp::ElicitationCompleteNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmbeddedResource(body: &Value) -> Value {
    let t: mcp::EmbeddedResource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::EmbeddedResource::new(t.resource.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::EmbeddedResource::type_value());
    word(&mut o, "type_name", mcp::EmbeddedResource::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmbeddedResourceResource(body: &Value) -> Value {
    let t: mcp::EmbeddedResourceResource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_EmbeddedResourceResource(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EmptyResult(body: &Value) -> Value {
    let t: mcp::EmptyResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_EnumSchema(body: &Value) -> Value {
    let t: mcp::EnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_EnumSchema(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptMeta(body: &Value) -> Value {
    let t: mcp::GetPromptMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptRequest(body: &Value) -> Value {
    let t: mcp::GetPromptRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::GetPromptRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::GetPromptRequest::method_value());
    word(&mut o, "method_name", mcp::GetPromptRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptRequestParams(body: &Value) -> Value {
    let t: mcp::GetPromptRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetPromptResult(body: &Value) -> Value {
    let t: mcp::GetPromptResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetTaskParams(body: &Value) -> Value {
    let t: mcp::GetTaskParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetTaskPayloadParams(body: &Value) -> Value {
    let t: mcp::GetTaskPayloadParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetTaskPayloadRequest(body: &Value) -> Value {
    let t: mcp::GetTaskPayloadRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::GetTaskPayloadRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::GetTaskPayloadRequest::method_value());
    word(&mut o, "method_name", mcp::GetTaskPayloadRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetTaskPayloadResult(body: &Value) -> Value {
    let t: mcp::GetTaskPayloadResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetTaskRequest(body: &Value) -> Value {
    let t: mcp::GetTaskRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::GetTaskRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::GetTaskRequest::method_value());
    word(&mut o, "method_name", mcp::GetTaskRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_GetTaskResult(body: &Value) -> Value {
    let t: mcp::GetTaskResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Icon(body: &Value) -> Value {
    let t: mcp::Icon = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_IconTheme(body: &Value) -> Value {
    let t: mcp::IconTheme = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Icons(body: &Value) -> Value {
    let t: mcp::Icons = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ImageContent(body: &Value) -> Value {
    let t: mcp::ImageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ImageContent::new(t.data.clone(), t.mime_type.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::ImageContent::type_value());
    word(&mut o, "type_name", mcp::ImageContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Implementation(body: &Value) -> Value {
    let t: mcp::Implementation = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_IncludeContext(body: &Value) -> Value {
    let t: mcp::IncludeContext = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializeMeta(body: &Value) -> Value {
    let t: mcp::InitializeMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializeRequest(body: &Value) -> Value {
    let t: mcp::InitializeRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::InitializeRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::InitializeRequest::method_value());
    word(&mut o, "method_name", mcp::InitializeRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializeRequestParams(body: &Value) -> Value {
    let t: mcp::InitializeRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializeResult(body: &Value) -> Value {
    let t: mcp::InitializeResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_InitializedNotification(body: &Value) -> Value {
    let t: mcp::InitializedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::InitializedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::InitializedNotification::method_value());
    word(&mut o, "method_name", mcp::InitializedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcErrorResponse(body: &Value) -> Value {
    let t: mcp::JsonrpcErrorResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcErrorResponse::new(t.error.clone(), t.id.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    put(&mut o, "into JsonrpcResponse", &mcp::JsonrpcResponse::from(t.clone()));
    word(&mut o, "kind JsonrpcResponse", v_JsonrpcResponse(&mcp::JsonrpcResponse::from(t.clone())));
    form::<mcp::JsonrpcResponse>(&mut o, "JsonrpcResponse", body, v_JsonrpcResponse);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcMessage(body: &Value) -> Value {
    let t: mcp::JsonrpcMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_JsonrpcMessage(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcNotification(body: &Value) -> Value {
    let t: mcp::JsonrpcNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcNotification::new(t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcRequest(body: &Value) -> Value {
    let t: mcp::JsonrpcRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcRequest::new(t.id.clone(), t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcResponse(body: &Value) -> Value {
    let t: mcp::JsonrpcResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_JsonrpcResponse(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_JsonrpcResultResponse(body: &Value) -> Value {
    let t: mcp::JsonrpcResultResponse = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::JsonrpcResultResponse::new(t.id.clone(), t.result.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    put(&mut o, "into JsonrpcMessage", &mcp::JsonrpcMessage::from(t.clone()));
    word(&mut o, "kind JsonrpcMessage", v_JsonrpcMessage(&mcp::JsonrpcMessage::from(t.clone())));
    form::<mcp::JsonrpcMessage>(&mut o, "JsonrpcMessage", body, v_JsonrpcMessage);
    put(&mut o, "into JsonrpcResponse", &mcp::JsonrpcResponse::from(t.clone()));
    word(&mut o, "kind JsonrpcResponse", v_JsonrpcResponse(&mcp::JsonrpcResponse::from(t.clone())));
    form::<mcp::JsonrpcResponse>(&mut o, "JsonrpcResponse", body, v_JsonrpcResponse);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LegacyTitledEnumSchema(body: &Value) -> Value {
    let t: mcp::LegacyTitledEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::LegacyTitledEnumSchema::new(t.enum_.clone(), t.enum_names.clone(), t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::LegacyTitledEnumSchema::type_value());
    word(&mut o, "type_name", mcp::LegacyTitledEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsRequest(body: &Value) -> Value {
    let t: mcp::ListPromptsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListPromptsRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListPromptsRequest::method_value());
    word(&mut o, "method_name", mcp::ListPromptsRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListPromptsResult(body: &Value) -> Value {
    let t: mcp::ListPromptsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesRequest(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourceTemplatesRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListResourceTemplatesRequest::method_value());
    word(&mut o, "method_name", mcp::ListResourceTemplatesRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourceTemplatesResult(body: &Value) -> Value {
    let t: mcp::ListResourceTemplatesResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesRequest(body: &Value) -> Value {
    let t: mcp::ListResourcesRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListResourcesRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListResourcesRequest::method_value());
    word(&mut o, "method_name", mcp::ListResourcesRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListResourcesResult(body: &Value) -> Value {
    let t: mcp::ListResourcesResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsRequest(body: &Value) -> Value {
    let t: mcp::ListRootsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListRootsRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListRootsRequest::method_value());
    word(&mut o, "method_name", mcp::ListRootsRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListRootsResult(body: &Value) -> Value {
    let t: mcp::ListRootsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListTasksRequest(body: &Value) -> Value {
    let t: mcp::ListTasksRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListTasksRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListTasksRequest::method_value());
    word(&mut o, "method_name", mcp::ListTasksRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListTasksResult(body: &Value) -> Value {
    let t: mcp::ListTasksResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsRequest(body: &Value) -> Value {
    let t: mcp::ListToolsRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ListToolsRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ListToolsRequest::method_value());
    word(&mut o, "method_name", mcp::ListToolsRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ListToolsResult(body: &Value) -> Value {
    let t: mcp::ListToolsResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingLevel(body: &Value) -> Value {
    let t: mcp::LoggingLevel = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingMessageNotification(body: &Value) -> Value {
    let t: mcp::LoggingMessageNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::LoggingMessageNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::LoggingMessageNotification::method_value());
    word(&mut o, "method_name", mcp::LoggingMessageNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_LoggingMessageNotificationParams(body: &Value) -> Value {
    let t: mcp::LoggingMessageNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MessageMeta(body: &Value) -> Value {
    let t: mcp::MessageMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ModelHint(body: &Value) -> Value {
    let t: mcp::ModelHint = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ModelPreferences(body: &Value) -> Value {
    let t: mcp::ModelPreferences = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_MultiSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::MultiSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_MultiSelectEnumSchema(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Notification(body: &Value) -> Value {
    let t: mcp::Notification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NotificationParams(body: &Value) -> Value {
    let t: mcp::NotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NumberSchema(body: &Value) -> Value {
    let t: mcp::NumberSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_NumberSchemaType(body: &Value) -> Value {
    let t: mcp::NumberSchemaType = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedMeta(body: &Value) -> Value {
    let t: mcp::PaginatedMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedRequest(body: &Value) -> Value {
    let t: mcp::PaginatedRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PaginatedRequest::new(t.id.clone(), t.method.clone(), t.params.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedRequestParams(body: &Value) -> Value {
    let t: mcp::PaginatedRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PaginatedResult(body: &Value) -> Value {
    let t: mcp::PaginatedResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PingRequest(body: &Value) -> Value {
    let t: mcp::PingRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PingRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::PingRequest::method_value());
    word(&mut o, "method_name", mcp::PingRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    put(&mut o, "into ServerRequest", &mcp::ServerRequest::from(t.clone()));
    word(&mut o, "kind ServerRequest", v_ServerRequest(&mcp::ServerRequest::from(t.clone())));
    form::<mcp::ServerRequest>(&mut o, "ServerRequest", body, v_ServerRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PrimitiveSchemaDefinition(body: &Value) -> Value {
    let t: mcp::PrimitiveSchemaDefinition = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_PrimitiveSchemaDefinition(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressNotification(body: &Value) -> Value {
    let t: mcp::ProgressNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ProgressNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ProgressNotification::method_value());
    word(&mut o, "method_name", mcp::ProgressNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressNotificationParams(body: &Value) -> Value {
    let t: mcp::ProgressNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ProgressToken(body: &Value) -> Value {
    let t: mcp::ProgressToken = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ProgressToken(&t));
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::ProgressToken::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Prompt(body: &Value) -> Value {
    let t: mcp::Prompt = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptArgument(body: &Value) -> Value {
    let t: mcp::PromptArgument = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptListChangedNotification(body: &Value) -> Value {
    let t: mcp::PromptListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PromptListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::PromptListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::PromptListChangedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptMessage(body: &Value) -> Value {
    let t: mcp::PromptMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_PromptReference(body: &Value) -> Value {
    let t: mcp::PromptReference = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::PromptReference::new(t.name.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::PromptReference::type_value());
    word(&mut o, "type_name", mcp::PromptReference::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CompleteRequestRef", &mcp::CompleteRequestRef::from(t.clone()));
    word(&mut o, "kind CompleteRequestRef", v_CompleteRequestRef(&mcp::CompleteRequestRef::from(t.clone())));
    form::<mcp::CompleteRequestRef>(&mut o, "CompleteRequestRef", body, v_CompleteRequestRef);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceContent(body: &Value) -> Value {
    let t: mcp::ReadResourceContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ReadResourceContent(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceMeta(body: &Value) -> Value {
    let t: mcp::ReadResourceMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceRequest(body: &Value) -> Value {
    let t: mcp::ReadResourceRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ReadResourceRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::ReadResourceRequest::method_value());
    word(&mut o, "method_name", mcp::ReadResourceRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceRequestParams(body: &Value) -> Value {
    let t: mcp::ReadResourceRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ReadResourceResult(body: &Value) -> Value {
    let t: mcp::ReadResourceResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    put(&mut o, "into GenericResult", &mcp::GenericResult::from(t.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RelatedTaskMetadata(body: &Value) -> Value {
    let t: mcp::RelatedTaskMetadata = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Request(body: &Value) -> Value {
    let t: mcp::Request = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestId(body: &Value) -> Value {
    let t: mcp::RequestId = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_RequestId(&t));
    if let Ok(x) = serde_json::from_value::<i64>(body.clone()) { put(&mut o, "from i64", &mcp::RequestId::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestParams(body: &Value) -> Value {
    let t: mcp::RequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RequestParamsMeta(body: &Value) -> Value {
    let t: mcp::RequestParamsMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Resource(body: &Value) -> Value {
    let t: mcp::Resource = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceContents(body: &Value) -> Value {
    let t: mcp::ResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceLink(body: &Value) -> Value {
    let t: mcp::ResourceLink = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceLink::new(t.icons.clone(), t.name.clone(), t.uri.clone(), t.annotations.clone(), t.description.clone(), t.meta.clone(), t.mime_type.clone(), t.size.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::ResourceLink::type_value());
    word(&mut o, "type_name", mcp::ResourceLink::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceListChangedNotification(body: &Value) -> Value {
    let t: mcp::ResourceListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ResourceListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::ResourceListChangedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceMeta(body: &Value) -> Value {
    let t: mcp::ResourceMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceRequestParams(body: &Value) -> Value {
    let t: mcp::ResourceRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceTemplate(body: &Value) -> Value {
    let t: mcp::ResourceTemplate = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceTemplateReference(body: &Value) -> Value {
    let t: mcp::ResourceTemplateReference = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceTemplateReference::new(t.uri.clone()));
    word(&mut o, "type_value", mcp::ResourceTemplateReference::type_value());
    word(&mut o, "type_name", mcp::ResourceTemplateReference::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CompleteRequestRef", &mcp::CompleteRequestRef::from(t.clone()));
    word(&mut o, "kind CompleteRequestRef", v_CompleteRequestRef(&mcp::CompleteRequestRef::from(t.clone())));
    form::<mcp::CompleteRequestRef>(&mut o, "CompleteRequestRef", body, v_CompleteRequestRef);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceUpdatedNotification(body: &Value) -> Value {
    let t: mcp::ResourceUpdatedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ResourceUpdatedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ResourceUpdatedNotification::method_value());
    word(&mut o, "method_name", mcp::ResourceUpdatedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ResourceUpdatedNotificationParams(body: &Value) -> Value {
    let t: mcp::ResourceUpdatedNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Result(body: &Value) -> Value {
    let t: mcp::Result = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into ClientResult", &mcp::ClientResult::from(t.clone()));
    word(&mut o, "kind ClientResult", v_ClientResult(&mcp::ClientResult::from(t.clone())));
    form::<mcp::ClientResult>(&mut o, "ClientResult", body, v_ClientResult);
    put(&mut o, "into ServerResult", &mcp::ServerResult::from(t.clone()));
    word(&mut o, "kind ServerResult", v_ServerResult(&mcp::ServerResult::from(t.clone())));
    form::<mcp::ServerResult>(&mut o, "ServerResult", body, v_ServerResult);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Role(body: &Value) -> Value {
    let t: mcp::Role = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Root(body: &Value) -> Value {
    let t: mcp::Root = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RootsListChangedNotification(body: &Value) -> Value {
    let t: mcp::RootsListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::RootsListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::RootsListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::RootsListChangedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_RpcError(body: &Value) -> Value {
    let t: mcp::RpcError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessage(body: &Value) -> Value {
    let t: mcp::SamplingMessage = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessageContent(body: &Value) -> Value {
    let t: mcp::SamplingMessageContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_SamplingMessageContent(&t));
    if let Ok(x) = serde_json::from_value::<Vec<mcp::SamplingMessageContentBlock>>(body.clone()) { put(&mut o, "from Vec<SamplingMessageContentBlock>", &mcp::SamplingMessageContent::from(x)); }
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SamplingMessageContentBlock(body: &Value) -> Value {
    let t: mcp::SamplingMessageContentBlock = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_SamplingMessageContentBlock(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilities(body: &Value) -> Value {
    let t: mcp::ServerCapabilities = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesPrompts(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesPrompts = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesResources(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesResources = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerCapabilitiesTools(body: &Value) -> Value {
    let t: mcp::ServerCapabilitiesTools = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerNotification(body: &Value) -> Value {
    let t: mcp::ServerNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ServerNotification(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerRequest(body: &Value) -> Value {
    let t: mcp::ServerRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "method", t.method());
    word(&mut o, "variant", v_ServerRequest(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerResult(body: &Value) -> Value {
    let t: mcp::ServerResult = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_ServerResult(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerTaskRequest(body: &Value) -> Value {
    let t: mcp::ServerTaskRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerTaskTools(body: &Value) -> Value {
    let t: mcp::ServerTaskTools = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ServerTasks(body: &Value) -> Value {
    let t: mcp::ServerTasks = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SetLevelMeta(body: &Value) -> Value {
    let t: mcp::SetLevelMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SetLevelRequest(body: &Value) -> Value {
    let t: mcp::SetLevelRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::SetLevelRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::SetLevelRequest::method_value());
    word(&mut o, "method_name", mcp::SetLevelRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SetLevelRequestParams(body: &Value) -> Value {
    let t: mcp::SetLevelRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SingleSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::SingleSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "variant", v_SingleSelectEnumSchema(&t));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_StringSchema(body: &Value) -> Value {
    let t: mcp::StringSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::StringSchema::new(t.default.clone(), t.description.clone(), t.format.clone(), t.max_length.clone(), t.min_length.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::StringSchema::type_value());
    word(&mut o, "type_name", mcp::StringSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_StringSchemaFormat(body: &Value) -> Value {
    let t: mcp::StringSchemaFormat = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscribeMeta(body: &Value) -> Value {
    let t: mcp::SubscribeMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscribeRequest(body: &Value) -> Value {
    let t: mcp::SubscribeRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::SubscribeRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::SubscribeRequest::method_value());
    word(&mut o, "method_name", mcp::SubscribeRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_SubscribeRequestParams(body: &Value) -> Value {
    let t: mcp::SubscribeRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Task(body: &Value) -> Value {
    let t: mcp::Task = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TaskAugmentedMeta(body: &Value) -> Value {
    let t: mcp::TaskAugmentedMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TaskAugmentedRequestParams(body: &Value) -> Value {
    let t: mcp::TaskAugmentedRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TaskMetadata(body: &Value) -> Value {
    let t: mcp::TaskMetadata = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TaskStatus(body: &Value) -> Value {
    let t: mcp::TaskStatus = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TaskStatusNotification(body: &Value) -> Value {
    let t: mcp::TaskStatusNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TaskStatusNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::TaskStatusNotification::method_value());
    word(&mut o, "method_name", mcp::TaskStatusNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientNotification", &mcp::ClientNotification::from(t.clone()));
    word(&mut o, "kind ClientNotification", v_ClientNotification(&mcp::ClientNotification::from(t.clone())));
    form::<mcp::ClientNotification>(&mut o, "ClientNotification", body, v_ClientNotification);
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TaskStatusNotificationParams(body: &Value) -> Value {
    let t: mcp::TaskStatusNotificationParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TextContent(body: &Value) -> Value {
    let t: mcp::TextContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TextContent::new(t.text.clone(), t.annotations.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::TextContent::type_value());
    word(&mut o, "type_name", mcp::TextContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into ContentBlock", &mcp::ContentBlock::from(t.clone()));
    word(&mut o, "kind ContentBlock", v_ContentBlock(&mcp::ContentBlock::from(t.clone())));
    form::<mcp::ContentBlock>(&mut o, "ContentBlock", body, v_ContentBlock);
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TextResourceContents(body: &Value) -> Value {
    let t: mcp::TextResourceContents = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "into EmbeddedResourceResource", &mcp::EmbeddedResourceResource::from(t.clone()));
    word(&mut o, "kind EmbeddedResourceResource", v_EmbeddedResourceResource(&mcp::EmbeddedResourceResource::from(t.clone())));
    form::<mcp::EmbeddedResourceResource>(&mut o, "EmbeddedResourceResource", body, v_EmbeddedResourceResource);
    put(&mut o, "into ReadResourceContent", &mcp::ReadResourceContent::from(t.clone()));
    word(&mut o, "kind ReadResourceContent", v_ReadResourceContent(&mcp::ReadResourceContent::from(t.clone())));
    form::<mcp::ReadResourceContent>(&mut o, "ReadResourceContent", body, v_ReadResourceContent);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledMultiSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::TitledMultiSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TitledMultiSelectEnumSchema::new(t.default.clone(), t.items.clone(), t.description.clone(), t.max_items.clone(), t.min_items.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::TitledMultiSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::TitledMultiSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into MultiSelectEnumSchema", &mcp::MultiSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind MultiSelectEnumSchema", v_MultiSelectEnumSchema(&mcp::MultiSelectEnumSchema::from(t.clone())));
    form::<mcp::MultiSelectEnumSchema>(&mut o, "MultiSelectEnumSchema", body, v_MultiSelectEnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledMultiSelectEnumSchemaItems(body: &Value) -> Value {
    let t: mcp::TitledMultiSelectEnumSchemaItems = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledMultiSelectEnumSchemaItemsAnyOfItem(body: &Value) -> Value {
    let t: mcp::TitledMultiSelectEnumSchemaItemsAnyOfItem = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledSingleSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::TitledSingleSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::TitledSingleSelectEnumSchema::new(t.one_of.clone(), t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::TitledSingleSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::TitledSingleSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    put(&mut o, "into SingleSelectEnumSchema", &mcp::SingleSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind SingleSelectEnumSchema", v_SingleSelectEnumSchema(&mcp::SingleSelectEnumSchema::from(t.clone())));
    form::<mcp::SingleSelectEnumSchema>(&mut o, "SingleSelectEnumSchema", body, v_SingleSelectEnumSchema);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_TitledSingleSelectEnumSchemaOneOfItem(body: &Value) -> Value {
    let t: mcp::TitledSingleSelectEnumSchemaOneOfItem = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_Tool(body: &Value) -> Value {
    let t: mcp::Tool = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolAnnotations(body: &Value) -> Value {
    let t: mcp::ToolAnnotations = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolChoice(body: &Value) -> Value {
    let t: mcp::ToolChoice = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolChoiceMode(body: &Value) -> Value {
    let t: mcp::ToolChoiceMode = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolExecution(body: &Value) -> Value {
    let t: mcp::ToolExecution = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolExecutionTaskSupport(body: &Value) -> Value {
    let t: mcp::ToolExecutionTaskSupport = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    word(&mut o, "display", &t.to_string());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolInputSchema(body: &Value) -> Value {
    let t: mcp::ToolInputSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolInputSchema::new(t.required.clone(), t.properties.clone(), t.schema.clone()));
    word(&mut o, "type_value", mcp::ToolInputSchema::type_value());
    word(&mut o, "type_name", mcp::ToolInputSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolListChangedNotification(body: &Value) -> Value {
    let t: mcp::ToolListChangedNotification = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolListChangedNotification::new(t.params.clone()));
    word(&mut o, "method_value", mcp::ToolListChangedNotification::method_value());
    word(&mut o, "method_name", mcp::ToolListChangedNotification::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ServerNotification", &mcp::ServerNotification::from(t.clone()));
    word(&mut o, "kind ServerNotification", v_ServerNotification(&mcp::ServerNotification::from(t.clone())));
    form::<mcp::ServerNotification>(&mut o, "ServerNotification", body, v_ServerNotification);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolOutputSchema(body: &Value) -> Value {
    let t: mcp::ToolOutputSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolOutputSchema::new(t.required.clone(), t.properties.clone(), t.schema.clone()));
    word(&mut o, "type_value", mcp::ToolOutputSchema::type_value());
    word(&mut o, "type_name", mcp::ToolOutputSchema::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolResultContent(body: &Value) -> Value {
    let t: mcp::ToolResultContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolResultContent::new(t.content.clone(), t.tool_use_id.clone(), t.is_error.clone(), t.meta.clone(), t.structured_content.clone()));
    word(&mut o, "type_value", mcp::ToolResultContent::type_value());
    word(&mut o, "type_name", mcp::ToolResultContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_ToolUseContent(body: &Value) -> Value {
    let t: mcp::ToolUseContent = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::ToolUseContent::new(t.id.clone(), t.input.clone(), t.name.clone(), t.meta.clone()));
    word(&mut o, "type_value", mcp::ToolUseContent::type_value());
    word(&mut o, "type_name", mcp::ToolUseContent::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into CreateMessageContent", &mcp::CreateMessageContent::from(t.clone()));
    word(&mut o, "kind CreateMessageContent", v_CreateMessageContent(&mcp::CreateMessageContent::from(t.clone())));
    form::<mcp::CreateMessageContent>(&mut o, "CreateMessageContent", body, v_CreateMessageContent);
    put(&mut o, "into SamplingMessageContent", &mcp::SamplingMessageContent::from(t.clone()));
    word(&mut o, "kind SamplingMessageContent", v_SamplingMessageContent(&mcp::SamplingMessageContent::from(t.clone())));
    form::<mcp::SamplingMessageContent>(&mut o, "SamplingMessageContent", body, v_SamplingMessageContent);
    put(&mut o, "into SamplingMessageContentBlock", &mcp::SamplingMessageContentBlock::from(t.clone()));
    word(&mut o, "kind SamplingMessageContentBlock", v_SamplingMessageContentBlock(&mcp::SamplingMessageContentBlock::from(t.clone())));
    form::<mcp::SamplingMessageContentBlock>(&mut o, "SamplingMessageContentBlock", body, v_SamplingMessageContentBlock);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsubscribeMeta(body: &Value) -> Value {
    let t: mcp::UnsubscribeMeta = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsubscribeRequest(body: &Value) -> Value {
    let t: mcp::UnsubscribeRequest = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UnsubscribeRequest::new(t.id.clone(), t.params.clone()));
    word(&mut o, "method_value", mcp::UnsubscribeRequest::method_value());
    word(&mut o, "method_name", mcp::UnsubscribeRequest::method_name());
    word(&mut o, "jsonrpc", t.jsonrpc());
    word(&mut o, "method", t.method());
    put(&mut o, "into ClientRequest", &mcp::ClientRequest::from(t.clone()));
    word(&mut o, "kind ClientRequest", v_ClientRequest(&mcp::ClientRequest::from(t.clone())));
    form::<mcp::ClientRequest>(&mut o, "ClientRequest", body, v_ClientRequest);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UnsubscribeRequestParams(body: &Value) -> Value {
    let t: mcp::UnsubscribeRequestParams = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UntitledMultiSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::UntitledMultiSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UntitledMultiSelectEnumSchema::new(t.default.clone(), t.items.clone(), t.description.clone(), t.max_items.clone(), t.min_items.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::UntitledMultiSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::UntitledMultiSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into MultiSelectEnumSchema", &mcp::MultiSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind MultiSelectEnumSchema", v_MultiSelectEnumSchema(&mcp::MultiSelectEnumSchema::from(t.clone())));
    form::<mcp::MultiSelectEnumSchema>(&mut o, "MultiSelectEnumSchema", body, v_MultiSelectEnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UntitledMultiSelectEnumSchemaItems(body: &Value) -> Value {
    let t: mcp::UntitledMultiSelectEnumSchemaItems = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UntitledMultiSelectEnumSchemaItems::new(t.enum_.clone()));
    word(&mut o, "type_value", mcp::UntitledMultiSelectEnumSchemaItems::type_value());
    word(&mut o, "type_name", mcp::UntitledMultiSelectEnumSchemaItems::type_name());
    word(&mut o, "type_", t.type_());
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UntitledSingleSelectEnumSchema(body: &Value) -> Value {
    let t: mcp::UntitledSingleSelectEnumSchema = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UntitledSingleSelectEnumSchema::new(t.enum_.clone(), t.default.clone(), t.description.clone(), t.title.clone()));
    word(&mut o, "type_value", mcp::UntitledSingleSelectEnumSchema::type_value());
    word(&mut o, "type_name", mcp::UntitledSingleSelectEnumSchema::type_name());
    word(&mut o, "type_", t.type_());
    put(&mut o, "into EnumSchema", &mcp::EnumSchema::from(t.clone()));
    word(&mut o, "kind EnumSchema", v_EnumSchema(&mcp::EnumSchema::from(t.clone())));
    form::<mcp::EnumSchema>(&mut o, "EnumSchema", body, v_EnumSchema);
    put(&mut o, "into PrimitiveSchemaDefinition", &mcp::PrimitiveSchemaDefinition::from(t.clone()));
    word(&mut o, "kind PrimitiveSchemaDefinition", v_PrimitiveSchemaDefinition(&mcp::PrimitiveSchemaDefinition::from(t.clone())));
    form::<mcp::PrimitiveSchemaDefinition>(&mut o, "PrimitiveSchemaDefinition", body, v_PrimitiveSchemaDefinition);
    put(&mut o, "into SingleSelectEnumSchema", &mcp::SingleSelectEnumSchema::from(t.clone()));
    word(&mut o, "kind SingleSelectEnumSchema", v_SingleSelectEnumSchema(&mcp::SingleSelectEnumSchema::from(t.clone())));
    form::<mcp::SingleSelectEnumSchema>(&mut o, "SingleSelectEnumSchema", body, v_SingleSelectEnumSchema);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UrlElicitError(body: &Value) -> Value {
    let t: mcp::UrlElicitError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UrlElicitError::new(t.data.clone(), t.message.clone()));
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UrlElicitErrorData(body: &Value) -> Value {
    let t: mcp::UrlElicitErrorData = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    Value::Object(o)
}
#[allow(non_snake_case, deprecated)]
fn p_UrlElicitationRequiredError(body: &Value) -> Value {
    let t: mcp::UrlElicitationRequiredError = match serde_json::from_value(body.clone()) {
        Ok(x) => x,
        Err(e) => return json!({"unread": e.to_string()}),
    };
    let mut o = Map::new();
    put(&mut o, "enc", &t);
    put(&mut o, "new", &mcp::UrlElicitationRequiredError::new(t.error.clone(), t.id.clone()));
    word(&mut o, "jsonrpc", t.jsonrpc());
    Value::Object(o)
}
