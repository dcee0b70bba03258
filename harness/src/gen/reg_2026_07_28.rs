// generated by tools/gen_registry.py at authoring time; committed; not regenerated by checks
use crate::reg::{entry, Entry};
use rust_mcp_schema::mcp_2026_07_28 as s;

pub fn entries() -> Vec<Entry> {
    vec![
        entry!(s::Annotations, "Annotations", None),
        entry!(s::AudioContent, "AudioContent", None),
        entry!(s::BaseMetadata, "BaseMetadata", None),
        entry!(s::BlobResourceContents, "BlobResourceContents", None),
        entry!(s::BooleanSchema, "BooleanSchema", None),
        entry!(s::CacheableResult, "CacheableResult", None),
        entry!(s::CacheableResultCacheScope, "CacheableResultCacheScope", Some(|x: &s::CacheableResultCacheScope| match x { s::CacheableResultCacheScope::Private => "Private", s::CacheableResultCacheScope::Public => "Public" })),
        entry!(s::CallToolRequest, "CallToolRequest", None),
        entry!(s::CallToolRequestParams, "CallToolRequestParams", None),
        entry!(s::CallToolResult, "CallToolResult", None),
        entry!(s::CallToolResultResponse, "CallToolResultResponse", None),
        entry!(s::CallToolResultResponseResult, "CallToolResultResponseResult", Some(|x: &s::CallToolResultResponseResult| match x { s::CallToolResultResponseResult::InputRequiredResult(..) => "InputRequiredResult", s::CallToolResultResponseResult::CallToolResult(..) => "CallToolResult" })),
        entry!(s::CancelledNotification, "CancelledNotification", None),
        entry!(s::CancelledNotificationParams, "CancelledNotificationParams", None),
        entry!(s::ClientCapabilities, "ClientCapabilities", None),
        entry!(s::ClientElicitation, "ClientElicitation", None),
        entry!(s::ClientNotification, "ClientNotification", None),
        entry!(s::ClientRequest, "ClientRequest", Some(|x: &s::ClientRequest| match x { s::ClientRequest::DiscoverRequest(..) => "DiscoverRequest", s::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest", s::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest", s::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest", s::ClientRequest::SubscriptionsListenRequest(..) => "SubscriptionsListenRequest", s::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest", s::ClientRequest::GetPromptRequest(..) => "GetPromptRequest", s::ClientRequest::ListToolsRequest(..) => "ListToolsRequest", s::ClientRequest::CallToolRequest(..) => "CallToolRequest", s::ClientRequest::CompleteRequest(..) => "CompleteRequest" })),
        entry!(s::ClientResult, "ClientResult", None),
        entry!(s::ClientSampling, "ClientSampling", None),
        entry!(s::CompleteRequest, "CompleteRequest", None),
        entry!(s::CompleteRequestArgument, "CompleteRequestArgument", None),
        entry!(s::CompleteRequestContext, "CompleteRequestContext", None),
        entry!(s::CompleteRequestParams, "CompleteRequestParams", None),
        entry!(s::CompleteRequestRef, "CompleteRequestRef", Some(|x: &s::CompleteRequestRef| match x { s::CompleteRequestRef::PromptReference(..) => "PromptReference", s::CompleteRequestRef::ResourceTemplateReference(..) => "ResourceTemplateReference" })),
        entry!(s::CompleteResult, "CompleteResult", None),
        entry!(s::CompleteResultCompletion, "CompleteResultCompletion", None),
        entry!(s::CompleteResultResponse, "CompleteResultResponse", None),
        entry!(s::ContentBlock, "ContentBlock", Some(|x: &s::ContentBlock| match x { s::ContentBlock::TextContent(..) => "TextContent", s::ContentBlock::ImageContent(..) => "ImageContent", s::ContentBlock::AudioContent(..) => "AudioContent", s::ContentBlock::ResourceLink(..) => "ResourceLink", s::ContentBlock::EmbeddedResource(..) => "EmbeddedResource" })),
        entry!(s::CreateMessageContent, "CreateMessageContent", Some(|x: &s::CreateMessageContent| match x { s::CreateMessageContent::TextContent(..) => "TextContent", s::CreateMessageContent::ImageContent(..) => "ImageContent", s::CreateMessageContent::AudioContent(..) => "AudioContent", s::CreateMessageContent::ToolUseContent(..) => "ToolUseContent", s::CreateMessageContent::ToolResultContent(..) => "ToolResultContent", s::CreateMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock" })),
        entry!(s::CreateMessageRequest, "CreateMessageRequest", None),
        entry!(s::CreateMessageRequestParams, "CreateMessageRequestParams", None),
        entry!(s::CreateMessageResult, "CreateMessageResult", None),
        entry!(s::Cursor, "Cursor", None),
        entry!(s::DiscoverRequest, "DiscoverRequest", None),
        entry!(s::DiscoverResult, "DiscoverResult", None),
        entry!(s::DiscoverResultCacheScope, "DiscoverResultCacheScope", Some(|x: &s::DiscoverResultCacheScope| match x { s::DiscoverResultCacheScope::Private => "Private", s::DiscoverResultCacheScope::Public => "Public" })),
        entry!(s::DiscoverResultResponse, "DiscoverResultResponse", None),
        entry!(s::ElicitRequest, "ElicitRequest", None),
        entry!(s::ElicitRequestFormParams, "ElicitRequestFormParams", None),
        entry!(s::ElicitRequestFormParamsRequestedSchema, "ElicitRequestFormParamsRequestedSchema", None),
        entry!(s::ElicitRequestParams, "ElicitRequestParams", Some(|x: &s::ElicitRequestParams| match x { s::ElicitRequestParams::FormParams(..) => "FormParams", s::ElicitRequestParams::UrlParams(..) => "UrlParams" })),
        entry!(s::ElicitRequestUrlParams, "ElicitRequestUrlParams", None),
        entry!(s::ElicitResult, "ElicitResult", None),
        entry!(s::ElicitResultAction, "ElicitResultAction", Some(|x: &s::ElicitResultAction| match x { s::ElicitResultAction::Accept => "Accept", s::ElicitResultAction::Cancel => "Cancel", s::ElicitResultAction::Decline => "Decline" })),
        entry!(s::ElicitResultContent, "ElicitResultContent", Some(|x: &s::ElicitResultContent| match x { s::ElicitResultContent::StringArray(..) => "StringArray", s::ElicitResultContent::Primitive(..) => "Primitive" })),
        entry!(s::ElicitResultContentPrimitive, "ElicitResultContentPrimitive", Some(|x: &s::ElicitResultContentPrimitive| match x { s::ElicitResultContentPrimitive::Boolean(..) => "Boolean", s::ElicitResultContentPrimitive::String(..) => "String", s::ElicitResultContentPrimitive::Integer(..) => "Integer" })),
        entry!(s::EmbeddedResource, "EmbeddedResource", None),
        entry!(s::EmbeddedResourceResource, "EmbeddedResourceResource", Some(|x: &s::EmbeddedResourceResource| match x { s::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents", s::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents" })),
        entry!(s::EmptyResult, "EmptyResult", None),
        entry!(s::EnumSchema, "EnumSchema", Some(|x: &s::EnumSchema| match x { s::EnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema", s::EnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema", s::EnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema", s::EnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema", s::EnumSchema::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema" })),
        entry!(s::GetPromptRequest, "GetPromptRequest", None),
        entry!(s::GetPromptRequestParams, "GetPromptRequestParams", None),
        entry!(s::GetPromptResult, "GetPromptResult", None),
        entry!(s::GetPromptResultResponse, "GetPromptResultResponse", None),
        entry!(s::GetPromptResultResponseResult, "GetPromptResultResponseResult", Some(|x: &s::GetPromptResultResponseResult| match x { s::GetPromptResultResponseResult::InputRequiredResult(..) => "InputRequiredResult", s::GetPromptResultResponseResult::GetPromptResult(..) => "GetPromptResult" })),
        entry!(s::HeaderMismatchError, "HeaderMismatchError", None),
        entry!(s::Icon, "Icon", None),
        entry!(s::IconTheme, "IconTheme", Some(|x: &s::IconTheme| match x { s::IconTheme::Dark => "Dark", s::IconTheme::Light => "Light" })),
        entry!(s::Icons, "Icons", None),
        entry!(s::ImageContent, "ImageContent", None),
        entry!(s::Implementation, "Implementation", None),
        entry!(s::IncludeContext, "IncludeContext", Some(|x: &s::IncludeContext| match x { s::IncludeContext::AllServers => "AllServers", s::IncludeContext::None => "None", s::IncludeContext::ThisServer => "ThisServer" })),
        entry!(s::InputRequest, "InputRequest", Some(|x: &s::InputRequest| match x { s::InputRequest::CreateMessageRequest(..) => "CreateMessageRequest", s::InputRequest::ListRootsRequest(..) => "ListRootsRequest", s::InputRequest::ElicitRequest(..) => "ElicitRequest" })),
        entry!(s::InputRequests, "InputRequests", None),
        entry!(s::InputRequiredResult, "InputRequiredResult", None),
        entry!(s::InputResponse, "InputResponse", Some(|x: &s::InputResponse| match x { s::InputResponse::CreateMessageResult(..) => "CreateMessageResult", s::InputResponse::ListRootsResult(..) => "ListRootsResult", s::InputResponse::ElicitResult(..) => "ElicitResult" })),
        entry!(s::InputResponseRequestParams, "InputResponseRequestParams", None),
        entry!(s::InputResponses, "InputResponses", None),
        entry!(s::InternalError, "InternalError", None),
        entry!(s::InvalidParamsError, "InvalidParamsError", None),
        entry!(s::InvalidRequestError, "InvalidRequestError", None),
        entry!(s::JsonArray, "JsonArray", None),
        entry!(s::JsonObject, "JsonObject", None),
        entry!(s::JsonValue, "JsonValue", Some(|x: &s::JsonValue| match x { s::JsonValue::Variant0(..) => "Variant0", s::JsonValue::Variant1(..) => "Variant1", s::JsonValue::Variant2(..) => "Variant2" })),
        entry!(s::JsonValueVariant2, "JsonValueVariant2", Some(|x: &s::JsonValueVariant2| match x { s::JsonValueVariant2::Boolean(..) => "Boolean", s::JsonValueVariant2::String(..) => "String", s::JsonValueVariant2::Integer(..) => "Integer" })),
        entry!(s::JsonrpcErrorResponse, "JsonrpcErrorResponse", None),
        entry!(s::JsonrpcMessage, "JsonrpcMessage", Some(|x: &s::JsonrpcMessage| match x { s::JsonrpcMessage::Request(..) => "Request", s::JsonrpcMessage::Notification(..) => "Notification", s::JsonrpcMessage::ResultResponse(..) => "ResultResponse", s::JsonrpcMessage::ErrorResponse(..) => "ErrorResponse" })),
        entry!(s::JsonrpcNotification, "JsonrpcNotification", None),
        entry!(s::JsonrpcRequest, "JsonrpcRequest", None),
        entry!(s::JsonrpcResponse, "JsonrpcResponse", Some(|x: &s::JsonrpcResponse| match x { s::JsonrpcResponse::ResultResponse(..) => "ResultResponse", s::JsonrpcResponse::ErrorResponse(..) => "ErrorResponse" })),
        entry!(s::JsonrpcResultResponse, "JsonrpcResultResponse", None),
        entry!(s::LegacyTitledEnumSchema, "LegacyTitledEnumSchema", None),
        entry!(s::ListPromptsRequest, "ListPromptsRequest", None),
        entry!(s::ListPromptsResult, "ListPromptsResult", None),
        entry!(s::ListPromptsResultCacheScope, "ListPromptsResultCacheScope", Some(|x: &s::ListPromptsResultCacheScope| match x { s::ListPromptsResultCacheScope::Private => "Private", s::ListPromptsResultCacheScope::Public => "Public" })),
        entry!(s::ListPromptsResultResponse, "ListPromptsResultResponse", None),
        entry!(s::ListResourceTemplatesRequest, "ListResourceTemplatesRequest", None),
        entry!(s::ListResourceTemplatesResult, "ListResourceTemplatesResult", None),
        entry!(s::ListResourceTemplatesResultCacheScope, "ListResourceTemplatesResultCacheScope", Some(|x: &s::ListResourceTemplatesResultCacheScope| match x { s::ListResourceTemplatesResultCacheScope::Private => "Private", s::ListResourceTemplatesResultCacheScope::Public => "Public" })),
        entry!(s::ListResourceTemplatesResultResponse, "ListResourceTemplatesResultResponse", None),
        entry!(s::ListResourcesRequest, "ListResourcesRequest", None),
        entry!(s::ListResourcesResult, "ListResourcesResult", None),
        entry!(s::ListResourcesResultCacheScope, "ListResourcesResultCacheScope", Some(|x: &s::ListResourcesResultCacheScope| match x { s::ListResourcesResultCacheScope::Private => "Private", s::ListResourcesResultCacheScope::Public => "Public" })),
        entry!(s::ListResourcesResultResponse, "ListResourcesResultResponse", None),
        entry!(s::ListRootsRequest, "ListRootsRequest", None),
        entry!(s::ListRootsRequestParams, "ListRootsRequestParams", None),
        entry!(s::ListRootsResult, "ListRootsResult", None),
        entry!(s::ListToolsRequest, "ListToolsRequest", None),
        entry!(s::ListToolsResult, "ListToolsResult", None),
        entry!(s::ListToolsResultCacheScope, "ListToolsResultCacheScope", Some(|x: &s::ListToolsResultCacheScope| match x { s::ListToolsResultCacheScope::Private => "Private", s::ListToolsResultCacheScope::Public => "Public" })),
        entry!(s::ListToolsResultResponse, "ListToolsResultResponse", None),
        entry!(s::LoggingLevel, "LoggingLevel", Some(|x: &s::LoggingLevel| match x { s::LoggingLevel::Alert => "Alert", s::LoggingLevel::Critical => "Critical", s::LoggingLevel::Debug => "Debug", s::LoggingLevel::Emergency => "Emergency", s::LoggingLevel::Error => "Error", s::LoggingLevel::Info => "Info", s::LoggingLevel::Notice => "Notice", s::LoggingLevel::Warning => "Warning" })),
        entry!(s::LoggingMessageNotification, "LoggingMessageNotification", None),
        entry!(s::LoggingMessageNotificationParams, "LoggingMessageNotificationParams", None),
        entry!(s::MetaObject, "MetaObject", None),
        entry!(s::MethodNotFoundError, "MethodNotFoundError", None),
        entry!(s::MissingRequiredClientCapabilityError, "MissingRequiredClientCapabilityError", None),
        entry!(s::MissingRequiredClientCapabilityErrorError, "MissingRequiredClientCapabilityErrorError", None),
        entry!(s::MissingRequiredClientCapabilityErrorErrorData, "MissingRequiredClientCapabilityErrorErrorData", None),
        entry!(s::ModelHint, "ModelHint", None),
        entry!(s::ModelPreferences, "ModelPreferences", None),
        entry!(s::MultiSelectEnumSchema, "MultiSelectEnumSchema", Some(|x: &s::MultiSelectEnumSchema| match x { s::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema", s::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema" })),
        entry!(s::Notification, "Notification", None),
        entry!(s::NotificationMetaObject, "NotificationMetaObject", None),
        entry!(s::NotificationParams, "NotificationParams", None),
        entry!(s::NumberSchema, "NumberSchema", None),
        entry!(s::NumberSchemaType, "NumberSchemaType", Some(|x: &s::NumberSchemaType| match x { s::NumberSchemaType::Integer => "Integer", s::NumberSchemaType::Number => "Number" })),
        entry!(s::PaginatedRequest, "PaginatedRequest", None),
        entry!(s::PaginatedRequestParams, "PaginatedRequestParams", None),
        entry!(s::PaginatedResult, "PaginatedResult", None),
        entry!(s::ParseError, "ParseError", None),
        entry!(s::PrimitiveSchemaDefinition, "PrimitiveSchemaDefinition", Some(|x: &s::PrimitiveSchemaDefinition| match x { s::PrimitiveSchemaDefinition::StringSchema(..) => "StringSchema", s::PrimitiveSchemaDefinition::NumberSchema(..) => "NumberSchema", s::PrimitiveSchemaDefinition::BooleanSchema(..) => "BooleanSchema", s::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema", s::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema", s::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema", s::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema", s::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema" })),
        entry!(s::ProgressNotification, "ProgressNotification", None),
        entry!(s::ProgressNotificationParams, "ProgressNotificationParams", None),
        entry!(s::ProgressToken, "ProgressToken", Some(|x: &s::ProgressToken| match x { s::ProgressToken::String(..) => "String", s::ProgressToken::Integer(..) => "Integer" })),
        entry!(s::Prompt, "Prompt", None),
        entry!(s::PromptArgument, "PromptArgument", None),
        entry!(s::PromptListChangedNotification, "PromptListChangedNotification", None),
        entry!(s::PromptMessage, "PromptMessage", None),
        entry!(s::PromptReference, "PromptReference", None),
        entry!(s::ReadResourceContent, "ReadResourceContent", Some(|x: &s::ReadResourceContent| match x { s::ReadResourceContent::TextResourceContents(..) => "TextResourceContents", s::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents" })),
        entry!(s::ReadResourceRequest, "ReadResourceRequest", None),
        entry!(s::ReadResourceRequestParams, "ReadResourceRequestParams", None),
        entry!(s::ReadResourceResult, "ReadResourceResult", None),
        entry!(s::ReadResourceResultCacheScope, "ReadResourceResultCacheScope", Some(|x: &s::ReadResourceResultCacheScope| match x { s::ReadResourceResultCacheScope::Private => "Private", s::ReadResourceResultCacheScope::Public => "Public" })),
        entry!(s::ReadResourceResultResponse, "ReadResourceResultResponse", None),
        entry!(s::ReadResourceResultResponseResult, "ReadResourceResultResponseResult", Some(|x: &s::ReadResourceResultResponseResult| match x { s::ReadResourceResultResponseResult::InputRequiredResult(..) => "InputRequiredResult", s::ReadResourceResultResponseResult::ReadResourceResult(..) => "ReadResourceResult" })),
        entry!(s::Request, "Request", None),
        entry!(s::RequestId, "RequestId", Some(|x: &s::RequestId| match x { s::RequestId::String(..) => "String", s::RequestId::Integer(..) => "Integer" })),
        entry!(s::RequestMetaObject, "RequestMetaObject", None),
        entry!(s::RequestParams, "RequestParams", None),
        entry!(s::Resource, "Resource", None),
        entry!(s::ResourceContents, "ResourceContents", None),
        entry!(s::ResourceLink, "ResourceLink", None),
        entry!(s::ResourceListChangedNotification, "ResourceListChangedNotification", None),
        entry!(s::ResourceRequestParams, "ResourceRequestParams", None),
        entry!(s::ResourceTemplate, "ResourceTemplate", None),
        entry!(s::ResourceTemplateReference, "ResourceTemplateReference", None),
        entry!(s::ResourceUpdatedNotification, "ResourceUpdatedNotification", None),
        entry!(s::ResourceUpdatedNotificationParams, "ResourceUpdatedNotificationParams", None),
        entry!(s::Result, "Result", None),
        entry!(s::ResultMetaObject, "ResultMetaObject", None),
        entry!(s::ResultType, "ResultType", None),
        entry!(s::Role, "Role", Some(|x: &s::Role| match x { s::Role::Assistant => "Assistant", s::Role::User => "User" })),
        entry!(s::Root, "Root", None),
        entry!(s::RpcError, "RpcError", None),
        entry!(s::SamplingMessage, "SamplingMessage", None),
        entry!(s::SamplingMessageContent, "SamplingMessageContent", Some(|x: &s::SamplingMessageContent| match x { s::SamplingMessageContent::TextContent(..) => "TextContent", s::SamplingMessageContent::ImageContent(..) => "ImageContent", s::SamplingMessageContent::AudioContent(..) => "AudioContent", s::SamplingMessageContent::ToolUseContent(..) => "ToolUseContent", s::SamplingMessageContent::ToolResultContent(..) => "ToolResultContent", s::SamplingMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock" })),
        entry!(s::SamplingMessageContentBlock, "SamplingMessageContentBlock", Some(|x: &s::SamplingMessageContentBlock| match x { s::SamplingMessageContentBlock::TextContent(..) => "TextContent", s::SamplingMessageContentBlock::ImageContent(..) => "ImageContent", s::SamplingMessageContentBlock::AudioContent(..) => "AudioContent", s::SamplingMessageContentBlock::ToolUseContent(..) => "ToolUseContent", s::SamplingMessageContentBlock::ToolResultContent(..) => "ToolResultContent" })),
        entry!(s::ServerCapabilities, "ServerCapabilities", None),
        entry!(s::ServerCapabilitiesPrompts, "ServerCapabilitiesPrompts", None),
        entry!(s::ServerCapabilitiesResources, "ServerCapabilitiesResources", None),
        entry!(s::ServerCapabilitiesTools, "ServerCapabilitiesTools", None),
        entry!(s::ServerNotification, "ServerNotification", Some(|x: &s::ServerNotification| match x { s::ServerNotification::CancelledNotification(..) => "CancelledNotification", s::ServerNotification::ProgressNotification(..) => "ProgressNotification", s::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification", s::ServerNotification::SubscriptionsAcknowledgedNotification(..) => "SubscriptionsAcknowledgedNotification", s::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification", s::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification", s::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification", s::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification" })),
        entry!(s::ServerResult, "ServerResult", Some(|x: &s::ServerResult| match x { s::ServerResult::InputRequiredResult(..) => "InputRequiredResult", s::ServerResult::DiscoverResult(..) => "DiscoverResult", s::ServerResult::ListResourcesResult(..) => "ListResourcesResult", s::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult", s::ServerResult::ReadResourceResult(..) => "ReadResourceResult", s::ServerResult::SubscriptionsListenResult(..) => "SubscriptionsListenResult", s::ServerResult::ListPromptsResult(..) => "ListPromptsResult", s::ServerResult::GetPromptResult(..) => "GetPromptResult", s::ServerResult::ListToolsResult(..) => "ListToolsResult", s::ServerResult::CallToolResult(..) => "CallToolResult", s::ServerResult::CompleteResult(..) => "CompleteResult", s::ServerResult::Result(..) => "Result" })),
        entry!(s::SingleSelectEnumSchema, "SingleSelectEnumSchema", Some(|x: &s::SingleSelectEnumSchema| match x { s::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema", s::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema" })),
        entry!(s::StringSchema, "StringSchema", None),
        entry!(s::StringSchemaFormat, "StringSchemaFormat", Some(|x: &s::StringSchemaFormat| match x { s::StringSchemaFormat::Date => "Date", s::StringSchemaFormat::DateTime => "DateTime", s::StringSchemaFormat::Email => "Email", s::StringSchemaFormat::Uri => "Uri" })),
        entry!(s::SubscriptionFilter, "SubscriptionFilter", None),
        entry!(s::SubscriptionsAcknowledgedNotification, "SubscriptionsAcknowledgedNotification", None),
        entry!(s::SubscriptionsAcknowledgedNotificationParams, "SubscriptionsAcknowledgedNotificationParams", None),
        entry!(s::SubscriptionsListenRequest, "SubscriptionsListenRequest", None),
        entry!(s::SubscriptionsListenRequestParams, "SubscriptionsListenRequestParams", None),
        entry!(s::SubscriptionsListenResult, "SubscriptionsListenResult", None),
        entry!(s::SubscriptionsListenResultMetaObject, "SubscriptionsListenResultMetaObject", None),
        entry!(s::SubscriptionsListenResultResponse, "SubscriptionsListenResultResponse", None),
        entry!(s::TextContent, "TextContent", None),
        entry!(s::TextResourceContents, "TextResourceContents", None),
        entry!(s::TitledMultiSelectEnumSchema, "TitledMultiSelectEnumSchema", None),
        entry!(s::TitledMultiSelectEnumSchemaItems, "TitledMultiSelectEnumSchemaItems", None),
        entry!(s::TitledMultiSelectEnumSchemaItemsAnyOfItem, "TitledMultiSelectEnumSchemaItemsAnyOfItem", None),
        entry!(s::TitledSingleSelectEnumSchema, "TitledSingleSelectEnumSchema", None),
        entry!(s::TitledSingleSelectEnumSchemaOneOfItem, "TitledSingleSelectEnumSchemaOneOfItem", None),
        entry!(s::Tool, "Tool", None),
        entry!(s::ToolAnnotations, "ToolAnnotations", None),
        entry!(s::ToolChoice, "ToolChoice", None),
        entry!(s::ToolChoiceMode, "ToolChoiceMode", Some(|x: &s::ToolChoiceMode| match x { s::ToolChoiceMode::Auto => "Auto", s::ToolChoiceMode::None => "None", s::ToolChoiceMode::Required => "Required" })),
        entry!(s::ToolInputSchema, "ToolInputSchema", None),
        entry!(s::ToolListChangedNotification, "ToolListChangedNotification", None),
        entry!(s::ToolOutputSchema, "ToolOutputSchema", None),
        entry!(s::ToolResultContent, "ToolResultContent", None),
        entry!(s::ToolUseContent, "ToolUseContent", None),
        entry!(s::UnsupportedProtocolVersionError, "UnsupportedProtocolVersionError", None),
        entry!(s::UnsupportedProtocolVersionErrorError, "UnsupportedProtocolVersionErrorError", None),
        entry!(s::UnsupportedProtocolVersionErrorErrorData, "UnsupportedProtocolVersionErrorErrorData", None),
        entry!(s::UntitledMultiSelectEnumSchema, "UntitledMultiSelectEnumSchema", None),
        entry!(s::UntitledMultiSelectEnumSchemaItems, "UntitledMultiSelectEnumSchemaItems", None),
        entry!(s::UntitledSingleSelectEnumSchema, "UntitledSingleSelectEnumSchema", None),
    ]
}
