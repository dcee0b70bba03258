// generated by tools/gen_registry.py at authoring time; committed; not regenerated by checks
use crate::reg::{entry, Entry};
use rust_mcp_schema::mcp_2024_11_05 as s;

pub fn entries() -> Vec<Entry> {
    vec![
        entry!(s::Annotated, "Annotated", None),
        entry!(s::AnnotatedAnnotations, "AnnotatedAnnotations", None),
        entry!(s::BlobResourceContents, "BlobResourceContents", None),
        entry!(s::CallToolRequest, "CallToolRequest", None),
        entry!(s::CallToolRequestParams, "CallToolRequestParams", None),
        entry!(s::CallToolResult, "CallToolResult", None),
        entry!(s::CallToolResultContentItem, "CallToolResultContentItem", Some(|x: &s::CallToolResultContentItem| match x { s::CallToolResultContentItem::TextContent(..) => "TextContent", s::CallToolResultContentItem::ImageContent(..) => "ImageContent", s::CallToolResultContentItem::EmbeddedResource(..) => "EmbeddedResource" })),
        entry!(s::CancelledNotification, "CancelledNotification", None),
        entry!(s::CancelledNotificationParams, "CancelledNotificationParams", None),
        entry!(s::ClientCapabilities, "ClientCapabilities", None),
        entry!(s::ClientNotification, "ClientNotification", Some(|x: &s::ClientNotification| match x { s::ClientNotification::CancelledNotification(..) => "CancelledNotification", s::ClientNotification::InitializedNotification(..) => "InitializedNotification", s::ClientNotification::ProgressNotification(..) => "ProgressNotification", s::ClientNotification::RootsListChangedNotification(..) => "RootsListChangedNotification" })),
        entry!(s::ClientRequest, "ClientRequest", Some(|x: &s::ClientRequest| match x { s::ClientRequest::InitializeRequest(..) => "InitializeRequest", s::ClientRequest::PingRequest(..) => "PingRequest", s::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest", s::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest", s::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest", s::ClientRequest::SubscribeRequest(..) => "SubscribeRequest", s::ClientRequest::UnsubscribeRequest(..) => "UnsubscribeRequest", s::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest", s::ClientRequest::GetPromptRequest(..) => "GetPromptRequest", s::ClientRequest::ListToolsRequest(..) => "ListToolsRequest", s::ClientRequest::CallToolRequest(..) => "CallToolRequest", s::ClientRequest::SetLevelRequest(..) => "SetLevelRequest", s::ClientRequest::CompleteRequest(..) => "CompleteRequest" })),
        entry!(s::ClientResult, "ClientResult", Some(|x: &s::ClientResult| match x { s::ClientResult::CreateMessageResult(..) => "CreateMessageResult", s::ClientResult::ListRootsResult(..) => "ListRootsResult", s::ClientResult::Result(..) => "Result" })),
        entry!(s::ClientRoots, "ClientRoots", None),
        entry!(s::CompleteRequest, "CompleteRequest", None),
        entry!(s::CompleteRequestArgument, "CompleteRequestArgument", None),
        entry!(s::CompleteRequestParams, "CompleteRequestParams", None),
        entry!(s::CompleteRequestRef, "CompleteRequestRef", Some(|x: &s::CompleteRequestRef| match x { s::CompleteRequestRef::PromptReference(..) => "PromptReference", s::CompleteRequestRef::ResourceReference(..) => "ResourceReference" })),
        entry!(s::CompleteResult, "CompleteResult", None),
        entry!(s::CompleteResultCompletion, "CompleteResultCompletion", None),
        entry!(s::CreateMessageRequest, "CreateMessageRequest", None),
        entry!(s::CreateMessageRequestParams, "CreateMessageRequestParams", None),
        entry!(s::CreateMessageResult, "CreateMessageResult", None),
        entry!(s::CreateMessageResultContent, "CreateMessageResultContent", Some(|x: &s::CreateMessageResultContent| match x { s::CreateMessageResultContent::TextContent(..) => "TextContent", s::CreateMessageResultContent::ImageContent(..) => "ImageContent" })),
        entry!(s::Cursor, "Cursor", None),
        entry!(s::EmbeddedResource, "EmbeddedResource", None),
        entry!(s::EmbeddedResourceAnnotations, "EmbeddedResourceAnnotations", None),
        entry!(s::EmbeddedResourceResource, "EmbeddedResourceResource", Some(|x: &s::EmbeddedResourceResource| match x { s::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents", s::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents" })),
        entry!(s::EmptyResult, "EmptyResult", None),
        entry!(s::GetPromptRequest, "GetPromptRequest", None),
        entry!(s::GetPromptRequestParams, "GetPromptRequestParams", None),
        entry!(s::GetPromptResult, "GetPromptResult", None),
        entry!(s::ImageContent, "ImageContent", None),
        entry!(s::ImageContentAnnotations, "ImageContentAnnotations", None),
        entry!(s::Implementation, "Implementation", None),
        entry!(s::IncludeContext, "IncludeContext", Some(|x: &s::IncludeContext| match x { s::IncludeContext::AllServers => "AllServers", s::IncludeContext::None => "None", s::IncludeContext::ThisServer => "ThisServer" })),
        entry!(s::InitializeRequest, "InitializeRequest", None),
        entry!(s::InitializeRequestParams, "InitializeRequestParams", None),
        entry!(s::InitializeResult, "InitializeResult", None),
        entry!(s::InitializedNotification, "InitializedNotification", None),
        entry!(s::InitializedNotificationParams, "InitializedNotificationParams", None),
        entry!(s::JsonrpcError, "JsonrpcError", None),
        entry!(s::JsonrpcMessage, "JsonrpcMessage", Some(|x: &s::JsonrpcMessage| match x { s::JsonrpcMessage::Request(..) => "Request", s::JsonrpcMessage::Notification(..) => "Notification", s::JsonrpcMessage::Response(..) => "Response", s::JsonrpcMessage::Error(..) => "Error" })),
        entry!(s::JsonrpcNotification, "JsonrpcNotification", None),
        entry!(s::JsonrpcNotificationParams, "JsonrpcNotificationParams", None),
        entry!(s::JsonrpcRequest, "JsonrpcRequest", None),
        entry!(s::JsonrpcRequestParams, "JsonrpcRequestParams", None),
        entry!(s::JsonrpcRequestParamsMeta, "JsonrpcRequestParamsMeta", None),
        entry!(s::JsonrpcResponse, "JsonrpcResponse", None),
        entry!(s::ListPromptsRequest, "ListPromptsRequest", None),
        entry!(s::ListPromptsRequestParams, "ListPromptsRequestParams", None),
        entry!(s::ListPromptsResult, "ListPromptsResult", None),
        entry!(s::ListResourceTemplatesRequest, "ListResourceTemplatesRequest", None),
        entry!(s::ListResourceTemplatesRequestParams, "ListResourceTemplatesRequestParams", None),
        entry!(s::ListResourceTemplatesResult, "ListResourceTemplatesResult", None),
        entry!(s::ListResourcesRequest, "ListResourcesRequest", None),
        entry!(s::ListResourcesRequestParams, "ListResourcesRequestParams", None),
        entry!(s::ListResourcesResult, "ListResourcesResult", None),
        entry!(s::ListRootsRequest, "ListRootsRequest", None),
        entry!(s::ListRootsRequestParams, "ListRootsRequestParams", None),
        entry!(s::ListRootsRequestParamsMeta, "ListRootsRequestParamsMeta", None),
        entry!(s::ListRootsResult, "ListRootsResult", None),
        entry!(s::ListToolsRequest, "ListToolsRequest", None),
        entry!(s::ListToolsRequestParams, "ListToolsRequestParams", None),
        entry!(s::ListToolsResult, "ListToolsResult", None),
        entry!(s::LoggingLevel, "LoggingLevel", Some(|x: &s::LoggingLevel| match x { s::LoggingLevel::Alert => "Alert", s::LoggingLevel::Critical => "Critical", s::LoggingLevel::Debug => "Debug", s::LoggingLevel::Emergency => "Emergency", s::LoggingLevel::Error => "Error", s::LoggingLevel::Info => "Info", s::LoggingLevel::Notice => "Notice", s::LoggingLevel::Warning => "Warning" })),
        entry!(s::LoggingMessageNotification, "LoggingMessageNotification", None),
        entry!(s::LoggingMessageNotificationParams, "LoggingMessageNotificationParams", None),
        entry!(s::ModelHint, "ModelHint", None),
        entry!(s::ModelPreferences, "ModelPreferences", None),
        entry!(s::Notification, "Notification", None),
        entry!(s::NotificationParams, "NotificationParams", None),
        entry!(s::PaginatedRequest, "PaginatedRequest", None),
        entry!(s::PaginatedRequestParams, "PaginatedRequestParams", None),
        entry!(s::PaginatedResult, "PaginatedResult", None),
        entry!(s::PingRequest, "PingRequest", None),
        entry!(s::PingRequestParams, "PingRequestParams", None),
        entry!(s::PingRequestParamsMeta, "PingRequestParamsMeta", None),
        entry!(s::ProgressNotification, "ProgressNotification", None),
        entry!(s::ProgressNotificationParams, "ProgressNotificationParams", None),
        entry!(s::ProgressToken, "ProgressToken", Some(|x: &s::ProgressToken| match x { s::ProgressToken::String(..) => "String", s::ProgressToken::Integer(..) => "Integer" })),
        entry!(s::Prompt, "Prompt", None),
        entry!(s::PromptArgument, "PromptArgument", None),
        entry!(s::PromptListChangedNotification, "PromptListChangedNotification", None),
        entry!(s::PromptListChangedNotificationParams, "PromptListChangedNotificationParams", None),
        entry!(s::PromptMessage, "PromptMessage", None),
        entry!(s::PromptMessageContent, "PromptMessageContent", Some(|x: &s::PromptMessageContent| match x { s::PromptMessageContent::TextContent(..) => "TextContent", s::PromptMessageContent::ImageContent(..) => "ImageContent", s::PromptMessageContent::EmbeddedResource(..) => "EmbeddedResource" })),
        entry!(s::PromptReference, "PromptReference", None),
        entry!(s::ReadResourceContent, "ReadResourceContent", Some(|x: &s::ReadResourceContent| match x { s::ReadResourceContent::TextResourceContents(..) => "TextResourceContents", s::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents" })),
        entry!(s::ReadResourceRequest, "ReadResourceRequest", None),
        entry!(s::ReadResourceRequestParams, "ReadResourceRequestParams", None),
        entry!(s::ReadResourceResult, "ReadResourceResult", None),
        entry!(s::Request, "Request", None),
        entry!(s::RequestId, "RequestId", Some(|x: &s::RequestId| match x { s::RequestId::String(..) => "String", s::RequestId::Integer(..) => "Integer" })),
        entry!(s::RequestParams, "RequestParams", None),
        entry!(s::RequestParamsMeta, "RequestParamsMeta", None),
        entry!(s::Resource, "Resource", None),
        entry!(s::ResourceAnnotations, "ResourceAnnotations", None),
        entry!(s::ResourceContents, "ResourceContents", None),
        entry!(s::ResourceListChangedNotification, "ResourceListChangedNotification", None),
        entry!(s::ResourceListChangedNotificationParams, "ResourceListChangedNotificationParams", None),
        entry!(s::ResourceReference, "ResourceReference", None),
        entry!(s::ResourceTemplate, "ResourceTemplate", None),
        entry!(s::ResourceTemplateAnnotations, "ResourceTemplateAnnotations", None),
        entry!(s::ResourceUpdatedNotification, "ResourceUpdatedNotification", None),
        entry!(s::ResourceUpdatedNotificationParams, "ResourceUpdatedNotificationParams", None),
        entry!(s::Result, "Result", None),
        entry!(s::Role, "Role", Some(|x: &s::Role| match x { s::Role::Assistant => "Assistant", s::Role::User => "User" })),
        entry!(s::Root, "Root", None),
        entry!(s::RootsListChangedNotification, "RootsListChangedNotification", None),
        entry!(s::RootsListChangedNotificationParams, "RootsListChangedNotificationParams", None),
        entry!(s::RpcError, "RpcError", None),
        entry!(s::SamplingMessage, "SamplingMessage", None),
        entry!(s::SamplingMessageContent, "SamplingMessageContent", Some(|x: &s::SamplingMessageContent| match x { s::SamplingMessageContent::TextContent(..) => "TextContent", s::SamplingMessageContent::ImageContent(..) => "ImageContent" })),
        entry!(s::ServerCapabilities, "ServerCapabilities", None),
        entry!(s::ServerCapabilitiesPrompts, "ServerCapabilitiesPrompts", None),
        entry!(s::ServerCapabilitiesResources, "ServerCapabilitiesResources", None),
        entry!(s::ServerCapabilitiesTools, "ServerCapabilitiesTools", None),
        entry!(s::ServerNotification, "ServerNotification", Some(|x: &s::ServerNotification| match x { s::ServerNotification::CancelledNotification(..) => "CancelledNotification", s::ServerNotification::ProgressNotification(..) => "ProgressNotification", s::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification", s::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification", s::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification", s::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification", s::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification" })),
        entry!(s::ServerRequest, "ServerRequest", Some(|x: &s::ServerRequest| match x { s::ServerRequest::PingRequest(..) => "PingRequest", s::ServerRequest::CreateMessageRequest(..) => "CreateMessageRequest", s::ServerRequest::ListRootsRequest(..) => "ListRootsRequest" })),
        entry!(s::ServerResult, "ServerResult", Some(|x: &s::ServerResult| match x { s::ServerResult::InitializeResult(..) => "InitializeResult", s::ServerResult::ListResourcesResult(..) => "ListResourcesResult", s::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult", s::ServerResult::ReadResourceResult(..) => "ReadResourceResult", s::ServerResult::ListPromptsResult(..) => "ListPromptsResult", s::ServerResult::GetPromptResult(..) => "GetPromptResult", s::ServerResult::ListToolsResult(..) => "ListToolsResult", s::ServerResult::CallToolResult(..) => "CallToolResult", s::ServerResult::CompleteResult(..) => "CompleteResult", s::ServerResult::Result(..) => "Result" })),
        entry!(s::SetLevelRequest, "SetLevelRequest", None),
        entry!(s::SetLevelRequestParams, "SetLevelRequestParams", None),
        entry!(s::SubscribeRequest, "SubscribeRequest", None),
        entry!(s::SubscribeRequestParams, "SubscribeRequestParams", None),
        entry!(s::TextContent, "TextContent", None),
        entry!(s::TextContentAnnotations, "TextContentAnnotations", None),
        entry!(s::TextResourceContents, "TextResourceContents", None),
        entry!(s::Tool, "Tool", None),
        entry!(s::ToolInputSchema, "ToolInputSchema", None),
        entry!(s::ToolListChangedNotification, "ToolListChangedNotification", None),
        entry!(s::ToolListChangedNotificationParams, "ToolListChangedNotificationParams", None),
        entry!(s::UnsubscribeRequest, "UnsubscribeRequest", None),
        entry!(s::UnsubscribeRequestParams, "UnsubscribeRequestParams", None),
    ]
}
