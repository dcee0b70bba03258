// generated by tools/gen_registry.py at authoring time; committed; not regenerated by checks
use crate::reg::{entry, Entry};
use rust_mcp_schema::mcp_2025_11_25 as s;

pub fn entries() -> Vec<Entry> {
    vec![
        entry!(s::Annotations, "Annotations", None),
        entry!(s::AudioContent, "AudioContent", None),
        entry!(s::BaseMetadata, "BaseMetadata", None),
        entry!(s::BlobResourceContents, "BlobResourceContents", None),
        entry!(s::BooleanSchema, "BooleanSchema", None),
        entry!(s::CallToolMeta, "CallToolMeta", None),
        entry!(s::CallToolRequest, "CallToolRequest", None),
        entry!(s::CallToolRequestParams, "CallToolRequestParams", None),
        entry!(s::CallToolResult, "CallToolResult", None),
        entry!(s::CancelTaskParams, "CancelTaskParams", None),
        entry!(s::CancelTaskRequest, "CancelTaskRequest", None),
        entry!(s::CancelTaskResult, "CancelTaskResult", None),
        entry!(s::CancelledNotification, "CancelledNotification", None),
        entry!(s::CancelledNotificationParams, "CancelledNotificationParams", None),
        entry!(s::ClientCapabilities, "ClientCapabilities", None),
        entry!(s::ClientElicitation, "ClientElicitation", None),
        entry!(s::ClientNotification, "ClientNotification", Some(|x: &s::ClientNotification| match x { s::ClientNotification::CancelledNotification(..) => "CancelledNotification", s::ClientNotification::InitializedNotification(..) => "InitializedNotification", s::ClientNotification::ProgressNotification(..) => "ProgressNotification", s::ClientNotification::TaskStatusNotification(..) => "TaskStatusNotification", s::ClientNotification::RootsListChangedNotification(..) => "RootsListChangedNotification" })),
        entry!(s::ClientRequest, "ClientRequest", Some(|x: &s::ClientRequest| match x { s::ClientRequest::InitializeRequest(..) => "InitializeRequest", s::ClientRequest::PingRequest(..) => "PingRequest", s::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest", s::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest", s::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest", s::ClientRequest::SubscribeRequest(..) => "SubscribeRequest", s::ClientRequest::UnsubscribeRequest(..) => "UnsubscribeRequest", s::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest", s::ClientRequest::GetPromptRequest(..) => "GetPromptRequest", s::ClientRequest::ListToolsRequest(..) => "ListToolsRequest", s::ClientRequest::CallToolRequest(..) => "CallToolRequest", s::ClientRequest::GetTaskRequest(..) => "GetTaskRequest", s::ClientRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest", s::ClientRequest::CancelTaskRequest(..) => "CancelTaskRequest", s::ClientRequest::ListTasksRequest(..) => "ListTasksRequest", s::ClientRequest::SetLevelRequest(..) => "SetLevelRequest", s::ClientRequest::CompleteRequest(..) => "CompleteRequest" })),
        entry!(s::ClientResult, "ClientResult", Some(|x: &s::ClientResult| match x { s::ClientResult::GetTaskResult(..) => "GetTaskResult", s::ClientResult::CancelTaskResult(..) => "CancelTaskResult", s::ClientResult::ListTasksResult(..) => "ListTasksResult", s::ClientResult::CreateMessageResult(..) => "CreateMessageResult", s::ClientResult::ListRootsResult(..) => "ListRootsResult", s::ClientResult::ElicitResult(..) => "ElicitResult", s::ClientResult::Result(..) => "Result", s::ClientResult::GetTaskPayloadResult(..) => "GetTaskPayloadResult" })),
        entry!(s::ClientRoots, "ClientRoots", None),
        entry!(s::ClientSampling, "ClientSampling", None),
        entry!(s::ClientTaskElicitation, "ClientTaskElicitation", None),
        entry!(s::ClientTaskRequest, "ClientTaskRequest", None),
        entry!(s::ClientTaskSampling, "ClientTaskSampling", None),
        entry!(s::ClientTasks, "ClientTasks", None),
        entry!(s::CompleteRequest, "CompleteRequest", None),
        entry!(s::CompleteRequestArgument, "CompleteRequestArgument", None),
        entry!(s::CompleteRequestContext, "CompleteRequestContext", None),
        entry!(s::CompleteRequestMeta, "CompleteRequestMeta", None),
        entry!(s::CompleteRequestParams, "CompleteRequestParams", None),
        entry!(s::CompleteRequestRef, "CompleteRequestRef", Some(|x: &s::CompleteRequestRef| match x { s::CompleteRequestRef::PromptReference(..) => "PromptReference", s::CompleteRequestRef::ResourceTemplateReference(..) => "ResourceTemplateReference" })),
        entry!(s::CompleteResult, "CompleteResult", None),
        entry!(s::CompleteResultCompletion, "CompleteResultCompletion", None),
        entry!(s::ContentBlock, "ContentBlock", Some(|x: &s::ContentBlock| match x { s::ContentBlock::TextContent(..) => "TextContent", s::ContentBlock::ImageContent(..) => "ImageContent", s::ContentBlock::AudioContent(..) => "AudioContent", s::ContentBlock::ResourceLink(..) => "ResourceLink", s::ContentBlock::EmbeddedResource(..) => "EmbeddedResource" })),
        entry!(s::CreateMessageContent, "CreateMessageContent", Some(|x: &s::CreateMessageContent| match x { s::CreateMessageContent::TextContent(..) => "TextContent", s::CreateMessageContent::ImageContent(..) => "ImageContent", s::CreateMessageContent::AudioContent(..) => "AudioContent", s::CreateMessageContent::ToolUseContent(..) => "ToolUseContent", s::CreateMessageContent::ToolResultContent(..) => "ToolResultContent", s::CreateMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock" })),
        entry!(s::CreateMessageRequest, "CreateMessageRequest", None),
        entry!(s::CreateMessageRequestParams, "CreateMessageRequestParams", None),
        entry!(s::CreateMessageResult, "CreateMessageResult", None),
        entry!(s::CreateTaskResult, "CreateTaskResult", None),
        entry!(s::Cursor, "Cursor", None),
        entry!(s::ElicitCompleteParams, "ElicitCompleteParams", None),
        entry!(s::ElicitFormMeta, "ElicitFormMeta", None),
        entry!(s::ElicitFormSchema, "ElicitFormSchema", None),
        entry!(s::ElicitRequest, "ElicitRequest", None),
        entry!(s::ElicitRequestFormParams, "ElicitRequestFormParams", None),
        entry!(s::ElicitRequestParams, "ElicitRequestParams", Some(|x: &s::ElicitRequestParams| match x { s::ElicitRequestParams::UrlParams(..) => "UrlParams", s::ElicitRequestParams::FormParams(..) => "FormParams" })),
        entry!(s::ElicitRequestUrlParams, "ElicitRequestUrlParams", None),
        entry!(s::ElicitResult, "ElicitResult", None),
        entry!(s::ElicitResultAction, "ElicitResultAction", Some(|x: &s::ElicitResultAction| match x { s::ElicitResultAction::Accept => "Accept", s::ElicitResultAction::Cancel => "Cancel", s::ElicitResultAction::Decline => "Decline" })),
        entry!(s::ElicitResultContent, "ElicitResultContent", Some(|x: &s::ElicitResultContent| match x { s::ElicitResultContent::StringArray(..) => "StringArray", s::ElicitResultContent::Primitive(..) => "Primitive" })),
        entry!(s::ElicitResultContentPrimitive, "ElicitResultContentPrimitive", Some(|x: &s::ElicitResultContentPrimitive| match x { s::ElicitResultContentPrimitive::Boolean(..) => "Boolean", s::ElicitResultContentPrimitive::String(..) => "String", s::ElicitResultContentPrimitive::Integer(..) => "Integer" })),
        entry!(s::ElicitUrlMeta, "ElicitUrlMeta", None),
        entry!(s::ElicitationCompleteNotification, "ElicitationCompleteNotification", None),
        entry!(s::EmbeddedResource, "EmbeddedResource", None),
        entry!(s::EmbeddedResourceResource, "EmbeddedResourceResource", Some(|x: &s::EmbeddedResourceResource| match x { s::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents", s::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents" })),
        entry!(s::EmptyResult, "EmptyResult", None),
        entry!(s::EnumSchema, "EnumSchema", Some(|x: &s::EnumSchema| match x { s::EnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema", s::EnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema", s::EnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema", s::EnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema", s::EnumSchema::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema" })),
        entry!(s::GetPromptMeta, "GetPromptMeta", None),
        entry!(s::GetPromptRequest, "GetPromptRequest", None),
        entry!(s::GetPromptRequestParams, "GetPromptRequestParams", None),
        entry!(s::GetPromptResult, "GetPromptResult", None),
        entry!(s::GetTaskParams, "GetTaskParams", None),
        entry!(s::GetTaskPayloadParams, "GetTaskPayloadParams", None),
        entry!(s::GetTaskPayloadRequest, "GetTaskPayloadRequest", None),
        entry!(s::GetTaskPayloadResult, "GetTaskPayloadResult", None),
        entry!(s::GetTaskRequest, "GetTaskRequest", None),
        entry!(s::GetTaskResult, "GetTaskResult", None),
        entry!(s::Icon, "Icon", None),
        entry!(s::IconTheme, "IconTheme", Some(|x: &s::IconTheme| match x { s::IconTheme::Dark => "Dark", s::IconTheme::Light => "Light" })),
        entry!(s::Icons, "Icons", None),
        entry!(s::ImageContent, "ImageContent", None),
        entry!(s::Implementation, "Implementation", None),
        entry!(s::IncludeContext, "IncludeContext", Some(|x: &s::IncludeContext| match x { s::IncludeContext::AllServers => "AllServers", s::IncludeContext::None => "None", s::IncludeContext::ThisServer => "ThisServer" })),
        entry!(s::InitializeMeta, "InitializeMeta", None),
        entry!(s::InitializeRequest, "InitializeRequest", None),
        entry!(s::InitializeRequestParams, "InitializeRequestParams", None),
        entry!(s::InitializeResult, "InitializeResult", None),
        entry!(s::InitializedNotification, "InitializedNotification", None),
        entry!(s::JsonrpcErrorResponse, "JsonrpcErrorResponse", None),
        entry!(s::JsonrpcMessage, "JsonrpcMessage", Some(|x: &s::JsonrpcMessage| match x { s::JsonrpcMessage::Request(..) => "Request", s::JsonrpcMessage::Notification(..) => "Notification", s::JsonrpcMessage::ResultResponse(..) => "ResultResponse", s::JsonrpcMessage::ErrorResponse(..) => "ErrorResponse" })),
        entry!(s::JsonrpcNotification, "JsonrpcNotification", None),
        entry!(s::JsonrpcRequest, "JsonrpcRequest", None),
        entry!(s::JsonrpcResponse, "JsonrpcResponse", Some(|x: &s::JsonrpcResponse| match x { s::JsonrpcResponse::ResultResponse(..) => "ResultResponse", s::JsonrpcResponse::ErrorResponse(..) => "ErrorResponse" })),
        entry!(s::JsonrpcResultResponse, "JsonrpcResultResponse", None),
        entry!(s::LegacyTitledEnumSchema, "LegacyTitledEnumSchema", None),
        entry!(s::ListPromptsRequest, "ListPromptsRequest", None),
        entry!(s::ListPromptsResult, "ListPromptsResult", None),
        entry!(s::ListResourceTemplatesRequest, "ListResourceTemplatesRequest", None),
        entry!(s::ListResourceTemplatesResult, "ListResourceTemplatesResult", None),
        entry!(s::ListResourcesRequest, "ListResourcesRequest", None),
        entry!(s::ListResourcesResult, "ListResourcesResult", None),
        entry!(s::ListRootsRequest, "ListRootsRequest", None),
        entry!(s::ListRootsResult, "ListRootsResult", None),
        entry!(s::ListTasksRequest, "ListTasksRequest", None),
        entry!(s::ListTasksResult, "ListTasksResult", None),
        entry!(s::ListToolsRequest, "ListToolsRequest", None),
        entry!(s::ListToolsResult, "ListToolsResult", None),
        entry!(s::LoggingLevel, "LoggingLevel", Some(|x: &s::LoggingLevel| match x { s::LoggingLevel::Alert => "Alert", s::LoggingLevel::Critical => "Critical", s::LoggingLevel::Debug => "Debug", s::LoggingLevel::Emergency => "Emergency", s::LoggingLevel::Error => "Error", s::LoggingLevel::Info => "Info", s::LoggingLevel::Notice => "Notice", s::LoggingLevel::Warning => "Warning" })),
        entry!(s::LoggingMessageNotification, "LoggingMessageNotification", None),
        entry!(s::LoggingMessageNotificationParams, "LoggingMessageNotificationParams", None),
        entry!(s::MessageMeta, "MessageMeta", None),
        entry!(s::ModelHint, "ModelHint", None),
        entry!(s::ModelPreferences, "ModelPreferences", None),
        entry!(s::MultiSelectEnumSchema, "MultiSelectEnumSchema", Some(|x: &s::MultiSelectEnumSchema| match x { s::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema", s::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema" })),
        entry!(s::Notification, "Notification", None),
        entry!(s::NotificationParams, "NotificationParams", None),
        entry!(s::NumberSchema, "NumberSchema", None),
        entry!(s::NumberSchemaType, "NumberSchemaType", Some(|x: &s::NumberSchemaType| match x { s::NumberSchemaType::Integer => "Integer", s::NumberSchemaType::Number => "Number" })),
        entry!(s::PaginatedMeta, "PaginatedMeta", None),
        entry!(s::PaginatedRequest, "PaginatedRequest", None),
        entry!(s::PaginatedRequestParams, "PaginatedRequestParams", None),
        entry!(s::PaginatedResult, "PaginatedResult", None),
        entry!(s::PingRequest, "PingRequest", None),
        entry!(s::PrimitiveSchemaDefinition, "PrimitiveSchemaDefinition", Some(|x: &s::PrimitiveSchemaDefinition| match x { s::PrimitiveSchemaDefinition::StringSchema(..) => "StringSchema", s::PrimitiveSchemaDefinition::NumberSchema(..) => "NumberSchema", s::PrimitiveSchemaDefinition::BooleanSchema(..) => "BooleanSchema", s::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema", s::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema", s::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema", s::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema", s::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema" })),
        entry!(s::ProgressNotification, "ProgressNotification", None),
        entry!(s::ProgressNotificationParams, "ProgressNotificationParams", None),
        entry!(s::ProgressToken, "ProgressToken", Some(|x: &s::ProgressToken| match x { s::ProgressToken::String(..) => "String", s::ProgressToken::Integer(..) => "Integer" })),
        entry!(s::Prompt, "Prompt", None),
        entry!(s::PromptArgument, "PromptArgument", None),
        entry!(s::PromptListChangedNotification, "PromptListChangedNotification", None),
        entry!(s::PromptMessage, "PromptMessage", None),
        entry!(s::PromptReference, "PromptReference", None),
        entry!(s::ReadResourceContent, "ReadResourceContent", Some(|x: &s::ReadResourceContent| match x { s::ReadResourceContent::TextResourceContents(..) => "TextResourceContents", s::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents" })),
        entry!(s::ReadResourceMeta, "ReadResourceMeta", None),
        entry!(s::ReadResourceRequest, "ReadResourceRequest", None),
        entry!(s::ReadResourceRequestParams, "ReadResourceRequestParams", None),
        entry!(s::ReadResourceResult, "ReadResourceResult", None),
        entry!(s::RelatedTaskMetadata, "RelatedTaskMetadata", None),
        entry!(s::Request, "Request", None),
        entry!(s::RequestId, "RequestId", Some(|x: &s::RequestId| match x { s::RequestId::String(..) => "String", s::RequestId::Integer(..) => "Integer" })),
        entry!(s::RequestParams, "RequestParams", None),
        entry!(s::RequestParamsMeta, "RequestParamsMeta", None),
        entry!(s::Resource, "Resource", None),
        entry!(s::ResourceContents, "ResourceContents", None),
        entry!(s::ResourceLink, "ResourceLink", None),
        entry!(s::ResourceListChangedNotification, "ResourceListChangedNotification", None),
        entry!(s::ResourceMeta, "ResourceMeta", None),
        entry!(s::ResourceRequestParams, "ResourceRequestParams", None),
        entry!(s::ResourceTemplate, "ResourceTemplate", None),
        entry!(s::ResourceTemplateReference, "ResourceTemplateReference", None),
        entry!(s::ResourceUpdatedNotification, "ResourceUpdatedNotification", None),
        entry!(s::ResourceUpdatedNotificationParams, "ResourceUpdatedNotificationParams", None),
        entry!(s::Result, "Result", None),
        entry!(s::Role, "Role", Some(|x: &s::Role| match x { s::Role::Assistant => "Assistant", s::Role::User => "User" })),
        entry!(s::Root, "Root", None),
        entry!(s::RootsListChangedNotification, "RootsListChangedNotification", None),
        entry!(s::RpcError, "RpcError", None),
        entry!(s::SamplingMessage, "SamplingMessage", None),
        entry!(s::SamplingMessageContent, "SamplingMessageContent", Some(|x: &s::SamplingMessageContent| match x { s::SamplingMessageContent::TextContent(..) => "TextContent", s::SamplingMessageContent::ImageContent(..) => "ImageContent", s::SamplingMessageContent::AudioContent(..) => "AudioContent", s::SamplingMessageContent::ToolUseContent(..) => "ToolUseContent", s::SamplingMessageContent::ToolResultContent(..) => "ToolResultContent", s::SamplingMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock" })),
        entry!(s::SamplingMessageContentBlock, "SamplingMessageContentBlock", Some(|x: &s::SamplingMessageContentBlock| match x { s::SamplingMessageContentBlock::TextContent(..) => "TextContent", s::SamplingMessageContentBlock::ImageContent(..) => "ImageContent", s::SamplingMessageContentBlock::AudioContent(..) => "AudioContent", s::SamplingMessageContentBlock::ToolUseContent(..) => "ToolUseContent", s::SamplingMessageContentBlock::ToolResultContent(..) => "ToolResultContent" })),
        entry!(s::ServerCapabilities, "ServerCapabilities", None),
        entry!(s::ServerCapabilitiesPrompts, "ServerCapabilitiesPrompts", None),
        entry!(s::ServerCapabilitiesResources, "ServerCapabilitiesResources", None),
        entry!(s::ServerCapabilitiesTools, "ServerCapabilitiesTools", None),
        entry!(s::ServerNotification, "ServerNotification", Some(|x: &s::ServerNotification| match x { s::ServerNotification::CancelledNotification(..) => "CancelledNotification", s::ServerNotification::ProgressNotification(..) => "ProgressNotification", s::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification", s::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification", s::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification", s::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification", s::ServerNotification::TaskStatusNotification(..) => "TaskStatusNotification", s::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification", s::ServerNotification::ElicitationCompleteNotification(..) => "ElicitationCompleteNotification" })),
        entry!(s::ServerRequest, "ServerRequest", Some(|x: &s::ServerRequest| match x { s::ServerRequest::PingRequest(..) => "PingRequest", s::ServerRequest::GetTaskRequest(..) => "GetTaskRequest", s::ServerRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest", s::ServerRequest::CancelTaskRequest(..) => "CancelTaskRequest", s::ServerRequest::ListTasksRequest(..) => "ListTasksRequest", s::ServerRequest::CreateMessageRequest(..) => "CreateMessageRequest", s::ServerRequest::ListRootsRequest(..) => "ListRootsRequest", s::ServerRequest::ElicitRequest(..) => "ElicitRequest" })),
        entry!(s::ServerResult, "ServerResult", Some(|x: &s::ServerResult| match x { s::ServerResult::InitializeResult(..) => "InitializeResult", s::ServerResult::ListResourcesResult(..) => "ListResourcesResult", s::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult", s::ServerResult::ReadResourceResult(..) => "ReadResourceResult", s::ServerResult::ListPromptsResult(..) => "ListPromptsResult", s::ServerResult::GetPromptResult(..) => "GetPromptResult", s::ServerResult::ListToolsResult(..) => "ListToolsResult", s::ServerResult::CallToolResult(..) => "CallToolResult", s::ServerResult::GetTaskResult(..) => "GetTaskResult", s::ServerResult::CancelTaskResult(..) => "CancelTaskResult", s::ServerResult::ListTasksResult(..) => "ListTasksResult", s::ServerResult::CompleteResult(..) => "CompleteResult", s::ServerResult::Result(..) => "Result", s::ServerResult::GetTaskPayloadResult(..) => "GetTaskPayloadResult" })),
        entry!(s::ServerTaskRequest, "ServerTaskRequest", None),
        entry!(s::ServerTaskTools, "ServerTaskTools", None),
        entry!(s::ServerTasks, "ServerTasks", None),
        entry!(s::SetLevelMeta, "SetLevelMeta", None),
        entry!(s::SetLevelRequest, "SetLevelRequest", None),
        entry!(s::SetLevelRequestParams, "SetLevelRequestParams", None),
        entry!(s::SingleSelectEnumSchema, "SingleSelectEnumSchema", Some(|x: &s::SingleSelectEnumSchema| match x { s::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema", s::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema" })),
        entry!(s::StringSchema, "StringSchema", None),
        entry!(s::StringSchemaFormat, "StringSchemaFormat", Some(|x: &s::StringSchemaFormat| match x { s::StringSchemaFormat::Date => "Date", s::StringSchemaFormat::DateTime => "DateTime", s::StringSchemaFormat::Email => "Email", s::StringSchemaFormat::Uri => "Uri" })),
        entry!(s::SubscribeMeta, "SubscribeMeta", None),
        entry!(s::SubscribeRequest, "SubscribeRequest", None),
        entry!(s::SubscribeRequestParams, "SubscribeRequestParams", None),
        entry!(s::Task, "Task", None),
        entry!(s::TaskAugmentedMeta, "TaskAugmentedMeta", None),
        entry!(s::TaskAugmentedRequestParams, "TaskAugmentedRequestParams", None),
        entry!(s::TaskMetadata, "TaskMetadata", None),
        entry!(s::TaskStatus, "TaskStatus", Some(|x: &s::TaskStatus| match x { s::TaskStatus::Cancelled => "Cancelled", s::TaskStatus::Completed => "Completed", s::TaskStatus::Failed => "Failed", s::TaskStatus::InputRequired => "InputRequired", s::TaskStatus::Working => "Working" })),
        entry!(s::TaskStatusNotification, "TaskStatusNotification", None),
        entry!(s::TaskStatusNotificationParams, "TaskStatusNotificationParams", None),
        entry!(s::TextContent, "TextContent", None),
        entry!(s::TextResourceContents, "TextResourceContents", None),
        entry!(s::TitledMultiSelectEnumSchema, "TitledMultiSelectEnumSchema", None),
        entry!(s::TitledMultiSelectEnumSchemaItems, "TitledMultiSelectEnumSchemaItems", None),
        entry!(s::TitledMultiSelectEnumSchemaItemsAnyOfItem, "TitledMultiSelectEnumSchemaItemsAnyOfItem", None),
        entry!(s::TitledSingleSelectEnumSchema, "TitledSingleSelectEnumSchema", None),
        entry!(s::TitledSingleSelectEnumSchemaOneOfItem, "TitledSingleSelectEnumSchemaOneOfItem", None),
        entry!(s::Tool, "Tool", None),
        entry!(s::ToolAnnotations, "ToolAnnotations", None),
        entry!(s::ToolChoice, "ToolChoice", None),
        entry!(s::ToolChoiceMode, "ToolChoiceMode", Some(|x: &s::ToolChoiceMode| match x { s::ToolChoiceMode::Auto => "Auto", s::ToolChoiceMode::None => "None", s::ToolChoiceMode::Required => "Required" })),
        entry!(s::ToolExecution, "ToolExecution", None),
        entry!(s::ToolExecutionTaskSupport, "ToolExecutionTaskSupport", Some(|x: &s::ToolExecutionTaskSupport| match x { s::ToolExecutionTaskSupport::Forbidden => "Forbidden", s::ToolExecutionTaskSupport::Optional => "Optional", s::ToolExecutionTaskSupport::Required => "Required" })),
        entry!(s::ToolInputSchema, "ToolInputSchema", None),
        entry!(s::ToolListChangedNotification, "ToolListChangedNotification", None),
        entry!(s::ToolOutputSchema, "ToolOutputSchema", None),
        entry!(s::ToolResultContent, "ToolResultContent", None),
        entry!(s::ToolUseContent, "ToolUseContent", None),
        entry!(s::UnsubscribeMeta, "UnsubscribeMeta", None),
        entry!(s::UnsubscribeRequest, "UnsubscribeRequest", None),
        entry!(s::UnsubscribeRequestParams, "UnsubscribeRequestParams", None),
        entry!(s::UntitledMultiSelectEnumSchema, "UntitledMultiSelectEnumSchema", None),
        entry!(s::UntitledMultiSelectEnumSchemaItems, "UntitledMultiSelectEnumSchemaItems", None),
        entry!(s::UntitledSingleSelectEnumSchema, "UntitledSingleSelectEnumSchema", None),
        entry!(s::UrlElicitError, "UrlElicitError", None),
        entry!(s::UrlElicitErrorData, "UrlElicitErrorData", None),
        entry!(s::UrlElicitationRequiredError, "UrlElicitationRequiredError", None),
    ]
}
