// generated by tools/gen_tables.py at authoring time; committed; not regenerated by checks
#![allow(clippy::all)]
use crate::tab::*;
use crate::ver::{s, u};
use serde_json::json;

impl VPath for s::CallToolResultResponseResult { fn vpath(&self) -> String { match self { s::CallToolResultResponseResult::CallToolResult(..) => "CallToolResult".to_string(), s::CallToolResultResponseResult::InputRequiredResult(..) => "InputRequiredResult".to_string() } } }
impl VPath for s::ClientRequest { fn vpath(&self) -> String { match self { s::ClientRequest::DiscoverRequest(..) => "DiscoverRequest".to_string(), s::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest".to_string(), s::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(), s::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest".to_string(), s::ClientRequest::SubscriptionsListenRequest(..) => "SubscriptionsListenRequest".to_string(), s::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest".to_string(), s::ClientRequest::GetPromptRequest(..) => "GetPromptRequest".to_string(), s::ClientRequest::ListToolsRequest(..) => "ListToolsRequest".to_string(), s::ClientRequest::CallToolRequest(..) => "CallToolRequest".to_string(), s::ClientRequest::CompleteRequest(..) => "CompleteRequest".to_string() } } }
impl VPath for s::CompleteRequestRef { fn vpath(&self) -> String { match self { s::CompleteRequestRef::PromptReference(..) => "PromptReference".to_string(), s::CompleteRequestRef::ResourceTemplateReference(..) => "ResourceTemplateReference".to_string() } } }
impl VPath for s::ContentBlock { fn vpath(&self) -> String { match self { s::ContentBlock::TextContent(..) => "TextContent".to_string(), s::ContentBlock::ImageContent(..) => "ImageContent".to_string(), s::ContentBlock::AudioContent(..) => "AudioContent".to_string(), s::ContentBlock::ResourceLink(..) => "ResourceLink".to_string(), s::ContentBlock::EmbeddedResource(..) => "EmbeddedResource".to_string() } } }
impl VPath for s::CreateMessageContent { fn vpath(&self) -> String { match self { s::CreateMessageContent::TextContent(..) => "TextContent".to_string(), s::CreateMessageContent::ImageContent(..) => "ImageContent".to_string(), s::CreateMessageContent::AudioContent(..) => "AudioContent".to_string(), s::CreateMessageContent::ToolUseContent(..) => "ToolUseContent".to_string(), s::CreateMessageContent::ToolResultContent(..) => "ToolResultContent".to_string(), s::CreateMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock".to_string() } } }
impl VPath for s::ElicitRequestParams { fn vpath(&self) -> String { match self { s::ElicitRequestParams::FormParams(..) => "FormParams".to_string(), s::ElicitRequestParams::UrlParams(..) => "UrlParams".to_string() } } }
impl VPath for s::ElicitResultContent { fn vpath(&self) -> String { match self { s::ElicitResultContent::StringArray(..) => "StringArray".to_string(), s::ElicitResultContent::Primitive(x) => format!("Primitive/{}", x.vpath()) } } }
impl VPath for s::ElicitResultContentPrimitive { fn vpath(&self) -> String { match self { s::ElicitResultContentPrimitive::Boolean(..) => "Boolean".to_string(), s::ElicitResultContentPrimitive::String(..) => "String".to_string(), s::ElicitResultContentPrimitive::Integer(..) => "Integer".to_string() } } }
impl VPath for s::EmbeddedResourceResource { fn vpath(&self) -> String { match self { s::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents".to_string(), s::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents".to_string() } } }
impl VPath for s::EnumSchema { fn vpath(&self) -> String { match self { s::EnumSchema::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema".to_string(), s::EnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(), s::EnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(), s::EnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(), s::EnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string() } } }
impl VPath for s::GetPromptResultResponseResult { fn vpath(&self) -> String { match self { s::GetPromptResultResponseResult::GetPromptResult(..) => "GetPromptResult".to_string(), s::GetPromptResultResponseResult::InputRequiredResult(..) => "InputRequiredResult".to_string() } } }
impl VPath for s::InputRequest { fn vpath(&self) -> String { match self { s::InputRequest::CreateMessageRequest(..) => "CreateMessageRequest".to_string(), s::InputRequest::ListRootsRequest(..) => "ListRootsRequest".to_string(), s::InputRequest::ElicitRequest(..) => "ElicitRequest".to_string() } } }
impl VPath for s::InputResponse { fn vpath(&self) -> String { match self { s::InputResponse::CreateMessageResult(..) => "CreateMessageResult".to_string(), s::InputResponse::ListRootsResult(..) => "ListRootsResult".to_string(), s::InputResponse::ElicitResult(..) => "ElicitResult".to_string() } } }
impl VPath for s::JsonValue { fn vpath(&self) -> String { match self { s::JsonValue::Variant0(..) => "Variant0".to_string(), s::JsonValue::Variant1(..) => "Variant1".to_string(), s::JsonValue::Variant2(x) => format!("Variant2/{}", x.vpath()) } } }
impl VPath for s::JsonValueVariant2 { fn vpath(&self) -> String { match self { s::JsonValueVariant2::Boolean(..) => "Boolean".to_string(), s::JsonValueVariant2::String(..) => "String".to_string(), s::JsonValueVariant2::Integer(..) => "Integer".to_string() } } }
impl VPath for s::JsonrpcMessage { fn vpath(&self) -> String { match self { s::JsonrpcMessage::Request(..) => "Request".to_string(), s::JsonrpcMessage::Notification(..) => "Notification".to_string(), s::JsonrpcMessage::ResultResponse(..) => "ResultResponse".to_string(), s::JsonrpcMessage::ErrorResponse(..) => "ErrorResponse".to_string() } } }
impl VPath for s::JsonrpcResponse { fn vpath(&self) -> String { match self { s::JsonrpcResponse::ResultResponse(..) => "ResultResponse".to_string(), s::JsonrpcResponse::ErrorResponse(..) => "ErrorResponse".to_string() } } }
impl VPath for s::MultiSelectEnumSchema { fn vpath(&self) -> String { match self { s::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(), s::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string() } } }
impl VPath for s::PrimitiveSchemaDefinition { fn vpath(&self) -> String { match self { s::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema".to_string(), s::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(), s::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(), s::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(), s::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string(), s::PrimitiveSchemaDefinition::StringSchema(..) => "StringSchema".to_string(), s::PrimitiveSchemaDefinition::NumberSchema(..) => "NumberSchema".to_string(), s::PrimitiveSchemaDefinition::BooleanSchema(..) => "BooleanSchema".to_string() } } }
impl VPath for s::ProgressToken { fn vpath(&self) -> String { match self { s::ProgressToken::String(..) => "String".to_string(), s::ProgressToken::Integer(..) => "Integer".to_string() } } }
impl VPath for s::ReadResourceContent { fn vpath(&self) -> String { match self { s::ReadResourceContent::TextResourceContents(..) => "TextResourceContents".to_string(), s::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents".to_string() } } }
impl VPath for s::ReadResourceResultResponseResult { fn vpath(&self) -> String { match self { s::ReadResourceResultResponseResult::ReadResourceResult(..) => "ReadResourceResult".to_string(), s::ReadResourceResultResponseResult::InputRequiredResult(..) => "InputRequiredResult".to_string() } } }
impl VPath for s::RequestId { fn vpath(&self) -> String { match self { s::RequestId::String(..) => "String".to_string(), s::RequestId::Integer(..) => "Integer".to_string() } } }
impl VPath for s::SamplingMessageContent { fn vpath(&self) -> String { match self { s::SamplingMessageContent::TextContent(..) => "TextContent".to_string(), s::SamplingMessageContent::ImageContent(..) => "ImageContent".to_string(), s::SamplingMessageContent::AudioContent(..) => "AudioContent".to_string(), s::SamplingMessageContent::ToolUseContent(..) => "ToolUseContent".to_string(), s::SamplingMessageContent::ToolResultContent(..) => "ToolResultContent".to_string(), s::SamplingMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock".to_string() } } }
impl VPath for s::SamplingMessageContentBlock { fn vpath(&self) -> String { match self { s::SamplingMessageContentBlock::TextContent(..) => "TextContent".to_string(), s::SamplingMessageContentBlock::ImageContent(..) => "ImageContent".to_string(), s::SamplingMessageContentBlock::AudioContent(..) => "AudioContent".to_string(), s::SamplingMessageContentBlock::ToolUseContent(..) => "ToolUseContent".to_string(), s::SamplingMessageContentBlock::ToolResultContent(..) => "ToolResultContent".to_string() } } }
impl VPath for s::ServerNotification { fn vpath(&self) -> String { match self { s::ServerNotification::CancelledNotification(..) => "CancelledNotification".to_string(), s::ServerNotification::ProgressNotification(..) => "ProgressNotification".to_string(), s::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(), s::ServerNotification::SubscriptionsAcknowledgedNotification(..) => "SubscriptionsAcknowledgedNotification".to_string(), s::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(), s::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(), s::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(), s::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string() } } }
impl VPath for s::ServerResult { fn vpath(&self) -> String { match self { s::ServerResult::InputRequiredResult(..) => "InputRequiredResult".to_string(), s::ServerResult::DiscoverResult(..) => "DiscoverResult".to_string(), s::ServerResult::ListResourcesResult(..) => "ListResourcesResult".to_string(), s::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult".to_string(), s::ServerResult::ReadResourceResult(..) => "ReadResourceResult".to_string(), s::ServerResult::SubscriptionsListenResult(..) => "SubscriptionsListenResult".to_string(), s::ServerResult::ListPromptsResult(..) => "ListPromptsResult".to_string(), s::ServerResult::GetPromptResult(..) => "GetPromptResult".to_string(), s::ServerResult::ListToolsResult(..) => "ListToolsResult".to_string(), s::ServerResult::CallToolResult(..) => "CallToolResult".to_string(), s::ServerResult::CompleteResult(..) => "CompleteResult".to_string(), s::ServerResult::Result(..) => "Result".to_string() } } }
impl VPath for s::SingleSelectEnumSchema { fn vpath(&self) -> String { match self { s::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(), s::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string() } } }
impl VPath for u::ClientMessage { fn vpath(&self) -> String { match self { u::ClientMessage::Request(x) => format!("Request/{}", x.vpath()), u::ClientMessage::Notification(x) => format!("Notification/{}", x.vpath()), u::ClientMessage::Response(x) => format!("Response/{}", x.vpath()), u::ClientMessage::Error(..) => "Error".to_string() } } }
impl VPath for u::ClientJsonrpcRequest { fn vpath(&self) -> String { match self { u::ClientJsonrpcRequest::Standard(x) => format!("Standard/{}", x.vpath()), u::ClientJsonrpcRequest::Custom(..) => "Custom".to_string() } } }
impl VPath for u::RequestFromClient { fn vpath(&self) -> String { match self { u::RequestFromClient::ListResourcesRequest(..) => "ListResourcesRequest".to_string(), u::RequestFromClient::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(), u::RequestFromClient::ReadResourceRequest(..) => "ReadResourceRequest".to_string(), u::RequestFromClient::ListPromptsRequest(..) => "ListPromptsRequest".to_string(), u::RequestFromClient::GetPromptRequest(..) => "GetPromptRequest".to_string(), u::RequestFromClient::ListToolsRequest(..) => "ListToolsRequest".to_string(), u::RequestFromClient::CallToolRequest(..) => "CallToolRequest".to_string(), u::RequestFromClient::CompleteRequest(..) => "CompleteRequest".to_string(), u::RequestFromClient::DiscoverRequest(..) => "DiscoverRequest".to_string(), u::RequestFromClient::SubscriptionsListenRequest(..) => "SubscriptionsListenRequest".to_string(), u::RequestFromClient::CustomRequest(..) => "CustomRequest".to_string() } } }
impl VPath for u::ClientJsonrpcNotification { fn vpath(&self) -> String { match self { u::ClientJsonrpcNotification::CancelledNotification(..) => "CancelledNotification".to_string(), u::ClientJsonrpcNotification::CustomNotification(..) => "CustomNotification".to_string() } } }
impl VPath for u::NotificationFromClient { fn vpath(&self) -> String { match self { u::NotificationFromClient::CancelledNotification(..) => "CancelledNotification".to_string(), u::NotificationFromClient::CustomNotification(..) => "CustomNotification".to_string() } } }
impl VPath for u::ResultFromClient { fn vpath(&self) -> String { match self { u::ResultFromClient::CreateMessageResult(..) => "CreateMessageResult".to_string(), u::ResultFromClient::ListRootsResult(..) => "ListRootsResult".to_string(), u::ResultFromClient::ElicitResult(..) => "ElicitResult".to_string(), u::ResultFromClient::Result(..) => "Result".to_string() } } }
impl VPath for u::ServerMessage { fn vpath(&self) -> String { match self { u::ServerMessage::Request(x) => format!("Request/{}", x.vpath()), u::ServerMessage::Notification(x) => format!("Notification/{}", x.vpath()), u::ServerMessage::Response(x) => format!("Response/{}", x.vpath()), u::ServerMessage::Error(..) => "Error".to_string() } } }
impl VPath for u::ServerJsonrpcRequest { fn vpath(&self) -> String { match self { u::ServerJsonrpcRequest::CreateMessageRequest{..} => "CreateMessageRequest".to_string(), u::ServerJsonrpcRequest::ListRootsRequest{..} => "ListRootsRequest".to_string(), u::ServerJsonrpcRequest::ElicitRequest{..} => "ElicitRequest".to_string(), u::ServerJsonrpcRequest::CustomRequest(..) => "CustomRequest".to_string() } } }
impl VPath for u::RequestFromServer { fn vpath(&self) -> String { match self { u::RequestFromServer::CreateMessageRequest(..) => "CreateMessageRequest".to_string(), u::RequestFromServer::ListRootsRequest(..) => "ListRootsRequest".to_string(), u::RequestFromServer::ElicitRequest(x) => format!("ElicitRequest/{}", x.vpath()), u::RequestFromServer::CustomRequest(..) => "CustomRequest".to_string() } } }
impl VPath for u::ServerJsonrpcNotification { fn vpath(&self) -> String { match self { u::ServerJsonrpcNotification::Standard(x) => format!("Standard/{}", x.vpath()), u::ServerJsonrpcNotification::Custom(..) => "Custom".to_string() } } }
impl VPath for u::NotificationFromServer { fn vpath(&self) -> String { match self { u::NotificationFromServer::CancelledNotification(..) => "CancelledNotification".to_string(), u::NotificationFromServer::ProgressNotification(..) => "ProgressNotification".to_string(), u::NotificationFromServer::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(), u::NotificationFromServer::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(), u::NotificationFromServer::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(), u::NotificationFromServer::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(), u::NotificationFromServer::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string(), u::NotificationFromServer::SubscriptionsAcknowledgedNotification(..) => "SubscriptionsAcknowledgedNotification".to_string(), u::NotificationFromServer::CustomNotification(..) => "CustomNotification".to_string() } } }
impl VPath for u::MessageFromServer { fn vpath(&self) -> String { match self { u::MessageFromServer::RequestFromServer(x) => format!("RequestFromServer/{}", x.vpath()), u::MessageFromServer::ServerResult(x) => format!("ServerResult/{}", x.vpath()), u::MessageFromServer::NotificationFromServer(x) => format!("NotificationFromServer/{}", x.vpath()), u::MessageFromServer::Error(..) => "Error".to_string() } } }
impl VPath for u::MessageFromClient { fn vpath(&self) -> String { match self { u::MessageFromClient::RequestFromClient(x) => format!("RequestFromClient/{}", x.vpath()), u::MessageFromClient::ResultFromClient(x) => format!("ResultFromClient/{}", x.vpath()), u::MessageFromClient::NotificationFromClient(x) => format!("NotificationFromClient/{}", x.vpath()), u::MessageFromClient::Error(..) => "Error".to_string() } } }
impl VPath for u::ClientMessages { fn vpath(&self) -> String { match self { u::ClientMessages::Single(x) => format!("Single/{}", x.vpath()), u::ClientMessages::Batch(..) => "Batch".to_string() } } }
impl VPath for u::ServerMessages { fn vpath(&self) -> String { match self { u::ServerMessages::Single(x) => format!("Single/{}", x.vpath()), u::ServerMessages::Batch(..) => "Batch".to_string() } } }
impl VPath for u::MessagesFromServer { fn vpath(&self) -> String { match self { u::MessagesFromServer::Single(x) => format!("Single/{}", x.vpath()), u::MessagesFromServer::Batch(..) => "Batch".to_string() } } }
impl VPath for u::MessagesFromClient { fn vpath(&self) -> String { match self { u::MessagesFromClient::Single(x) => format!("Single/{}", x.vpath()), u::MessagesFromClient::Batch(..) => "Batch".to_string() } } }
impl VPath for u::ClientJsonrpcResponse { fn vpath(&self) -> String { self.result.vpath() } }
impl VPath for u::ServerJsonrpcResponse { fn vpath(&self) -> String { self.result.vpath() } }

pub fn convs() -> Vec<Conv> {
    vec![
        Conv::new::<s::InputRequiredResult, s::CallToolResultResponseResult>("InputRequiredResult", "CallToolResultResponseResult", "InputRequiredResult", |y| y.vpath()),
        Conv::new::<s::CallToolResult, s::CallToolResultResponseResult>("CallToolResult", "CallToolResultResponseResult", "CallToolResult", |y| y.vpath()),
        Conv::new::<s::DiscoverRequest, s::ClientRequest>("DiscoverRequest", "ClientRequest", "DiscoverRequest", |y| y.vpath()),
        Conv::new::<s::ListResourcesRequest, s::ClientRequest>("ListResourcesRequest", "ClientRequest", "ListResourcesRequest", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesRequest, s::ClientRequest>("ListResourceTemplatesRequest", "ClientRequest", "ListResourceTemplatesRequest", |y| y.vpath()),
        Conv::new::<s::ReadResourceRequest, s::ClientRequest>("ReadResourceRequest", "ClientRequest", "ReadResourceRequest", |y| y.vpath()),
        Conv::new::<s::SubscriptionsListenRequest, s::ClientRequest>("SubscriptionsListenRequest", "ClientRequest", "SubscriptionsListenRequest", |y| y.vpath()),
        Conv::new::<s::ListPromptsRequest, s::ClientRequest>("ListPromptsRequest", "ClientRequest", "ListPromptsRequest", |y| y.vpath()),
        Conv::new::<s::GetPromptRequest, s::ClientRequest>("GetPromptRequest", "ClientRequest", "GetPromptRequest", |y| y.vpath()),
        Conv::new::<s::ListToolsRequest, s::ClientRequest>("ListToolsRequest", "ClientRequest", "ListToolsRequest", |y| y.vpath()),
        Conv::new::<s::CallToolRequest, s::ClientRequest>("CallToolRequest", "ClientRequest", "CallToolRequest", |y| y.vpath()),
        Conv::new::<s::CompleteRequest, s::ClientRequest>("CompleteRequest", "ClientRequest", "CompleteRequest", |y| y.vpath()),
        Conv::new::<s::PromptReference, s::CompleteRequestRef>("PromptReference", "CompleteRequestRef", "PromptReference", |y| y.vpath()),
        Conv::new::<s::ResourceTemplateReference, s::CompleteRequestRef>("ResourceTemplateReference", "CompleteRequestRef", "ResourceTemplateReference", |y| y.vpath()),
        Conv::new::<s::TextContent, s::ContentBlock>("TextContent", "ContentBlock", "TextContent", |y| y.vpath()),
        Conv::new::<s::ImageContent, s::ContentBlock>("ImageContent", "ContentBlock", "ImageContent", |y| y.vpath()),
        Conv::new::<s::AudioContent, s::ContentBlock>("AudioContent", "ContentBlock", "AudioContent", |y| y.vpath()),
        Conv::new::<s::ResourceLink, s::ContentBlock>("ResourceLink", "ContentBlock", "ResourceLink", |y| y.vpath()),
        Conv::new::<s::EmbeddedResource, s::ContentBlock>("EmbeddedResource", "ContentBlock", "EmbeddedResource", |y| y.vpath()),
        Conv::new::<s::TextContent, s::CreateMessageContent>("TextContent", "CreateMessageContent", "TextContent", |y| y.vpath()),
        Conv::new::<s::ImageContent, s::CreateMessageContent>("ImageContent", "CreateMessageContent", "ImageContent", |y| y.vpath()),
        Conv::new::<s::AudioContent, s::CreateMessageContent>("AudioContent", "CreateMessageContent", "AudioContent", |y| y.vpath()),
        Conv::new::<s::ToolUseContent, s::CreateMessageContent>("ToolUseContent", "CreateMessageContent", "ToolUseContent", |y| y.vpath()),
        Conv::new::<s::ToolResultContent, s::CreateMessageContent>("ToolResultContent", "CreateMessageContent", "ToolResultContent", |y| y.vpath()),
        Conv::new::<Vec<s::SamplingMessageContentBlock>, s::CreateMessageContent>("Vec<SamplingMessageContentBlock>", "CreateMessageContent", "SamplingMessageContentBlock", |y| y.vpath()),
        Conv::new::<s::ElicitRequestFormParams, s::ElicitRequestParams>("ElicitRequestFormParams", "ElicitRequestParams", "FormParams", |y| y.vpath()),
        Conv::new::<s::ElicitRequestUrlParams, s::ElicitRequestParams>("ElicitRequestUrlParams", "ElicitRequestParams", "UrlParams", |y| y.vpath()),
        Conv::new::<Vec<String>, s::ElicitResultContent>("Vec<String>", "ElicitResultContent", "StringArray", |y| y.vpath()),
        Conv::new::<s::ElicitResultContentPrimitive, s::ElicitResultContent>("ElicitResultContentPrimitive", "ElicitResultContent", "Primitive", |y| y.vpath()),
        Conv::new::<s::TextResourceContents, s::EmbeddedResourceResource>("TextResourceContents", "EmbeddedResourceResource", "TextResourceContents", |y| y.vpath()),
        Conv::new::<s::BlobResourceContents, s::EmbeddedResourceResource>("BlobResourceContents", "EmbeddedResourceResource", "BlobResourceContents", |y| y.vpath()),
        Conv::new::<s::UntitledSingleSelectEnumSchema, s::EnumSchema>("UntitledSingleSelectEnumSchema", "EnumSchema", "UntitledSingleSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::TitledSingleSelectEnumSchema, s::EnumSchema>("TitledSingleSelectEnumSchema", "EnumSchema", "TitledSingleSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::UntitledMultiSelectEnumSchema, s::EnumSchema>("UntitledMultiSelectEnumSchema", "EnumSchema", "UntitledMultiSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::TitledMultiSelectEnumSchema, s::EnumSchema>("TitledMultiSelectEnumSchema", "EnumSchema", "TitledMultiSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::LegacyTitledEnumSchema, s::EnumSchema>("LegacyTitledEnumSchema", "EnumSchema", "LegacyTitledEnumSchema", |y| y.vpath()),
        Conv::new::<s::InputRequiredResult, s::GetPromptResultResponseResult>("InputRequiredResult", "GetPromptResultResponseResult", "InputRequiredResult", |y| y.vpath()),
        Conv::new::<s::GetPromptResult, s::GetPromptResultResponseResult>("GetPromptResult", "GetPromptResultResponseResult", "GetPromptResult", |y| y.vpath()),
        Conv::new::<s::CreateMessageRequest, s::InputRequest>("CreateMessageRequest", "InputRequest", "CreateMessageRequest", |y| y.vpath()),
        Conv::new::<s::ListRootsRequest, s::InputRequest>("ListRootsRequest", "InputRequest", "ListRootsRequest", |y| y.vpath()),
        Conv::new::<s::ElicitRequest, s::InputRequest>("ElicitRequest", "InputRequest", "ElicitRequest", |y| y.vpath()),
        Conv::new::<s::CreateMessageResult, s::InputResponse>("CreateMessageResult", "InputResponse", "CreateMessageResult", |y| y.vpath()),
        Conv::new::<s::ListRootsResult, s::InputResponse>("ListRootsResult", "InputResponse", "ListRootsResult", |y| y.vpath()),
        Conv::new::<s::ElicitResult, s::InputResponse>("ElicitResult", "InputResponse", "ElicitResult", |y| y.vpath()),
        Conv::new::<s::JsonObject, s::JsonValue>("JsonObject", "JsonValue", "Variant0", |y| y.vpath()),
        Conv::new::<Vec<s::JsonValue>, s::JsonValue>("Vec<JsonValue>", "JsonValue", "Variant1", |y| y.vpath()),
        Conv::new::<s::JsonValueVariant2, s::JsonValue>("JsonValueVariant2", "JsonValue", "Variant2", |y| y.vpath()),
        Conv::new::<s::JsonrpcRequest, s::JsonrpcMessage>("JsonrpcRequest", "JsonrpcMessage", "Request", |y| y.vpath()),
        Conv::new::<s::JsonrpcNotification, s::JsonrpcMessage>("JsonrpcNotification", "JsonrpcMessage", "Notification", |y| y.vpath()),
        Conv::new::<s::JsonrpcResultResponse, s::JsonrpcMessage>("JsonrpcResultResponse", "JsonrpcMessage", "ResultResponse", |y| y.vpath()),
        Conv::new::<s::JsonrpcErrorResponse, s::JsonrpcMessage>("JsonrpcErrorResponse", "JsonrpcMessage", "ErrorResponse", |y| y.vpath()),
        Conv::new::<s::JsonrpcResultResponse, s::JsonrpcResponse>("JsonrpcResultResponse", "JsonrpcResponse", "ResultResponse", |y| y.vpath()),
        Conv::new::<s::JsonrpcErrorResponse, s::JsonrpcResponse>("JsonrpcErrorResponse", "JsonrpcResponse", "ErrorResponse", |y| y.vpath()),
        Conv::new::<s::UntitledMultiSelectEnumSchema, s::MultiSelectEnumSchema>("UntitledMultiSelectEnumSchema", "MultiSelectEnumSchema", "UntitledMultiSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::TitledMultiSelectEnumSchema, s::MultiSelectEnumSchema>("TitledMultiSelectEnumSchema", "MultiSelectEnumSchema", "TitledMultiSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::StringSchema, s::PrimitiveSchemaDefinition>("StringSchema", "PrimitiveSchemaDefinition", "StringSchema", |y| y.vpath()),
        Conv::new::<s::NumberSchema, s::PrimitiveSchemaDefinition>("NumberSchema", "PrimitiveSchemaDefinition", "NumberSchema", |y| y.vpath()),
        Conv::new::<s::BooleanSchema, s::PrimitiveSchemaDefinition>("BooleanSchema", "PrimitiveSchemaDefinition", "BooleanSchema", |y| y.vpath()),
        Conv::new::<s::UntitledSingleSelectEnumSchema, s::PrimitiveSchemaDefinition>("UntitledSingleSelectEnumSchema", "PrimitiveSchemaDefinition", "UntitledSingleSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::TitledSingleSelectEnumSchema, s::PrimitiveSchemaDefinition>("TitledSingleSelectEnumSchema", "PrimitiveSchemaDefinition", "TitledSingleSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::UntitledMultiSelectEnumSchema, s::PrimitiveSchemaDefinition>("UntitledMultiSelectEnumSchema", "PrimitiveSchemaDefinition", "UntitledMultiSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::TitledMultiSelectEnumSchema, s::PrimitiveSchemaDefinition>("TitledMultiSelectEnumSchema", "PrimitiveSchemaDefinition", "TitledMultiSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::LegacyTitledEnumSchema, s::PrimitiveSchemaDefinition>("LegacyTitledEnumSchema", "PrimitiveSchemaDefinition", "LegacyTitledEnumSchema", |y| y.vpath()),
        Conv::new::<s::TextResourceContents, s::ReadResourceContent>("TextResourceContents", "ReadResourceContent", "TextResourceContents", |y| y.vpath()),
        Conv::new::<s::BlobResourceContents, s::ReadResourceContent>("BlobResourceContents", "ReadResourceContent", "BlobResourceContents", |y| y.vpath()),
        Conv::new::<s::InputRequiredResult, s::ReadResourceResultResponseResult>("InputRequiredResult", "ReadResourceResultResponseResult", "InputRequiredResult", |y| y.vpath()),
        Conv::new::<s::ReadResourceResult, s::ReadResourceResultResponseResult>("ReadResourceResult", "ReadResourceResultResponseResult", "ReadResourceResult", |y| y.vpath()),
        Conv::new::<s::TextContent, s::SamplingMessageContent>("TextContent", "SamplingMessageContent", "TextContent", |y| y.vpath()),
        Conv::new::<s::ImageContent, s::SamplingMessageContent>("ImageContent", "SamplingMessageContent", "ImageContent", |y| y.vpath()),
        Conv::new::<s::AudioContent, s::SamplingMessageContent>("AudioContent", "SamplingMessageContent", "AudioContent", |y| y.vpath()),
        Conv::new::<s::ToolUseContent, s::SamplingMessageContent>("ToolUseContent", "SamplingMessageContent", "ToolUseContent", |y| y.vpath()),
        Conv::new::<s::ToolResultContent, s::SamplingMessageContent>("ToolResultContent", "SamplingMessageContent", "ToolResultContent", |y| y.vpath()),
        Conv::new::<Vec<s::SamplingMessageContentBlock>, s::SamplingMessageContent>("Vec<SamplingMessageContentBlock>", "SamplingMessageContent", "SamplingMessageContentBlock", |y| y.vpath()),
        Conv::new::<s::TextContent, s::SamplingMessageContentBlock>("TextContent", "SamplingMessageContentBlock", "TextContent", |y| y.vpath()),
        Conv::new::<s::ImageContent, s::SamplingMessageContentBlock>("ImageContent", "SamplingMessageContentBlock", "ImageContent", |y| y.vpath()),
        Conv::new::<s::AudioContent, s::SamplingMessageContentBlock>("AudioContent", "SamplingMessageContentBlock", "AudioContent", |y| y.vpath()),
        Conv::new::<s::ToolUseContent, s::SamplingMessageContentBlock>("ToolUseContent", "SamplingMessageContentBlock", "ToolUseContent", |y| y.vpath()),
        Conv::new::<s::ToolResultContent, s::SamplingMessageContentBlock>("ToolResultContent", "SamplingMessageContentBlock", "ToolResultContent", |y| y.vpath()),
        Conv::new::<s::CancelledNotification, s::ServerNotification>("CancelledNotification", "ServerNotification", "CancelledNotification", |y| y.vpath()),
        Conv::new::<s::ProgressNotification, s::ServerNotification>("ProgressNotification", "ServerNotification", "ProgressNotification", |y| y.vpath()),
        Conv::new::<s::ResourceListChangedNotification, s::ServerNotification>("ResourceListChangedNotification", "ServerNotification", "ResourceListChangedNotification", |y| y.vpath()),
        Conv::new::<s::SubscriptionsAcknowledgedNotification, s::ServerNotification>("SubscriptionsAcknowledgedNotification", "ServerNotification", "SubscriptionsAcknowledgedNotification", |y| y.vpath()),
        Conv::new::<s::ResourceUpdatedNotification, s::ServerNotification>("ResourceUpdatedNotification", "ServerNotification", "ResourceUpdatedNotification", |y| y.vpath()),
        Conv::new::<s::PromptListChangedNotification, s::ServerNotification>("PromptListChangedNotification", "ServerNotification", "PromptListChangedNotification", |y| y.vpath()),
        Conv::new::<s::ToolListChangedNotification, s::ServerNotification>("ToolListChangedNotification", "ServerNotification", "ToolListChangedNotification", |y| y.vpath()),
        Conv::new::<s::LoggingMessageNotification, s::ServerNotification>("LoggingMessageNotification", "ServerNotification", "LoggingMessageNotification", |y| y.vpath()),
        Conv::new::<s::InputRequiredResult, s::ServerResult>("InputRequiredResult", "ServerResult", "InputRequiredResult", |y| y.vpath()),
        Conv::new::<s::DiscoverResult, s::ServerResult>("DiscoverResult", "ServerResult", "DiscoverResult", |y| y.vpath()),
        Conv::new::<s::ListResourcesResult, s::ServerResult>("ListResourcesResult", "ServerResult", "ListResourcesResult", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesResult, s::ServerResult>("ListResourceTemplatesResult", "ServerResult", "ListResourceTemplatesResult", |y| y.vpath()),
        Conv::new::<s::ReadResourceResult, s::ServerResult>("ReadResourceResult", "ServerResult", "ReadResourceResult", |y| y.vpath()),
        Conv::new::<s::SubscriptionsListenResult, s::ServerResult>("SubscriptionsListenResult", "ServerResult", "SubscriptionsListenResult", |y| y.vpath()),
        Conv::new::<s::ListPromptsResult, s::ServerResult>("ListPromptsResult", "ServerResult", "ListPromptsResult", |y| y.vpath()),
        Conv::new::<s::GetPromptResult, s::ServerResult>("GetPromptResult", "ServerResult", "GetPromptResult", |y| y.vpath()),
        Conv::new::<s::ListToolsResult, s::ServerResult>("ListToolsResult", "ServerResult", "ListToolsResult", |y| y.vpath()),
        Conv::new::<s::CallToolResult, s::ServerResult>("CallToolResult", "ServerResult", "CallToolResult", |y| y.vpath()),
        Conv::new::<s::CompleteResult, s::ServerResult>("CompleteResult", "ServerResult", "CompleteResult", |y| y.vpath()),
        Conv::new::<s::Result, s::ServerResult>("Result", "ServerResult", "Result", |y| y.vpath()),
        Conv::new::<s::UntitledSingleSelectEnumSchema, s::SingleSelectEnumSchema>("UntitledSingleSelectEnumSchema", "SingleSelectEnumSchema", "UntitledSingleSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::TitledSingleSelectEnumSchema, s::SingleSelectEnumSchema>("TitledSingleSelectEnumSchema", "SingleSelectEnumSchema", "TitledSingleSelectEnumSchema", |y| y.vpath()),
        Conv::new::<s::InputRequiredResult, s::Result>("InputRequiredResult", "Result", "", |_| String::new()),
        Conv::new::<s::DiscoverResult, s::Result>("DiscoverResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListResourcesResult, s::Result>("ListResourcesResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListResourceTemplatesResult, s::Result>("ListResourceTemplatesResult", "Result", "", |_| String::new()),
        Conv::new::<s::ReadResourceResult, s::Result>("ReadResourceResult", "Result", "", |_| String::new()),
        Conv::new::<s::SubscriptionsListenResult, s::Result>("SubscriptionsListenResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListPromptsResult, s::Result>("ListPromptsResult", "Result", "", |_| String::new()),
        Conv::new::<s::GetPromptResult, s::Result>("GetPromptResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListToolsResult, s::Result>("ListToolsResult", "Result", "", |_| String::new()),
        Conv::new::<s::CallToolResult, s::Result>("CallToolResult", "Result", "", |_| String::new()),
        Conv::new::<s::CompleteResult, s::Result>("CompleteResult", "Result", "", |_| String::new()),
        Conv::new::<u::ClientJsonrpcNotification, u::ClientMessage>("ClientJsonrpcNotification", "ClientMessage", "Notification", |y| y.vpath()),
        Conv::new::<u::ClientJsonrpcRequest, u::ClientMessage>("ClientJsonrpcRequest", "ClientMessage", "Request", |y| y.vpath()),
        Conv::new::<u::ClientJsonrpcResponse, u::ClientMessage>("ClientJsonrpcResponse", "ClientMessage", "Response", |y| y.vpath()),
        Conv::new::<u::ServerJsonrpcNotification, u::ServerMessage>("ServerJsonrpcNotification", "ServerMessage", "Notification", |y| y.vpath()),
        Conv::new::<u::ServerJsonrpcRequest, u::ServerMessage>("ServerJsonrpcRequest", "ServerMessage", "Request", |y| y.vpath()),
        Conv::new::<u::ServerJsonrpcResponse, u::ServerMessage>("ServerJsonrpcResponse", "ServerMessage", "Response", |y| y.vpath()),
        Conv::new::<s::ServerResult, u::MessageFromServer>("ServerResult", "MessageFromServer", "ServerResult", |y| y.vpath()),
        Conv::new::<s::RpcError, u::MessageFromServer>("RpcError", "MessageFromServer", "Error", |y| y.vpath()),
        Conv::new::<u::ResultFromClient, u::MessageFromClient>("ResultFromClient", "MessageFromClient", "ResultFromClient", |y| y.vpath()),
        Conv::new::<s::RpcError, u::MessageFromClient>("RpcError", "MessageFromClient", "Error", |y| y.vpath()),
        Conv::new::<u::ClientMessage, u::ClientMessages>("ClientMessage", "ClientMessages", "Single", |y| y.vpath()),
        Conv::new::<Vec<u::ClientMessage>, u::ClientMessages>("Vec<ClientMessage>", "ClientMessages", "Batch", |y| y.vpath()),
        Conv::new::<u::ServerMessage, u::ServerMessages>("ServerMessage", "ServerMessages", "Single", |y| y.vpath()),
        Conv::new::<Vec<u::ServerMessage>, u::ServerMessages>("Vec<ServerMessage>", "ServerMessages", "Batch", |y| y.vpath()),
        Conv::new::<s::CreateMessageResult, u::ResultFromClient>("CreateMessageResult", "ResultFromClient", "CreateMessageResult", |y| y.vpath()),
        Conv::new::<s::ListRootsResult, u::ResultFromClient>("ListRootsResult", "ResultFromClient", "ListRootsResult", |y| y.vpath()),
        Conv::new::<s::ElicitResult, u::ResultFromClient>("ElicitResult", "ResultFromClient", "ElicitResult", |y| y.vpath()),
        Conv::new::<s::Result, u::ResultFromClient>("Result", "ResultFromClient", "Result", |y| y.vpath()),
        Conv::new::<s::CreateMessageResult, u::MessageFromClient>("CreateMessageResult", "MessageFromClient", "ResultFromClient/CreateMessageResult", |y| y.vpath()),
        Conv::new::<s::ListRootsResult, u::MessageFromClient>("ListRootsResult", "MessageFromClient", "ResultFromClient/ListRootsResult", |y| y.vpath()),
        Conv::new::<s::ElicitResult, u::MessageFromClient>("ElicitResult", "MessageFromClient", "ResultFromClient/ElicitResult", |y| y.vpath()),
        Conv::new::<s::Result, u::MessageFromClient>("Result", "MessageFromClient", "ResultFromClient/Result", |y| y.vpath()),
        Conv::new::<s::DiscoverRequest, u::ClientJsonrpcRequest>("DiscoverRequest", "ClientJsonrpcRequest", "Standard/DiscoverRequest", |y| y.vpath()),
        Conv::new::<s::ListResourcesRequest, u::ClientJsonrpcRequest>("ListResourcesRequest", "ClientJsonrpcRequest", "Standard/ListResourcesRequest", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesRequest, u::ClientJsonrpcRequest>("ListResourceTemplatesRequest", "ClientJsonrpcRequest", "Standard/ListResourceTemplatesRequest", |y| y.vpath()),
        Conv::new::<s::ReadResourceRequest, u::ClientJsonrpcRequest>("ReadResourceRequest", "ClientJsonrpcRequest", "Standard/ReadResourceRequest", |y| y.vpath()),
        Conv::new::<s::SubscriptionsListenRequest, u::ClientJsonrpcRequest>("SubscriptionsListenRequest", "ClientJsonrpcRequest", "Standard/SubscriptionsListenRequest", |y| y.vpath()),
        Conv::new::<s::ListPromptsRequest, u::ClientJsonrpcRequest>("ListPromptsRequest", "ClientJsonrpcRequest", "Standard/ListPromptsRequest", |y| y.vpath()),
        Conv::new::<s::GetPromptRequest, u::ClientJsonrpcRequest>("GetPromptRequest", "ClientJsonrpcRequest", "Standard/GetPromptRequest", |y| y.vpath()),
        Conv::new::<s::ListToolsRequest, u::ClientJsonrpcRequest>("ListToolsRequest", "ClientJsonrpcRequest", "Standard/ListToolsRequest", |y| y.vpath()),
        Conv::new::<s::CallToolRequest, u::ClientJsonrpcRequest>("CallToolRequest", "ClientJsonrpcRequest", "Standard/CallToolRequest", |y| y.vpath()),
        Conv::new::<s::CompleteRequest, u::ClientJsonrpcRequest>("CompleteRequest", "ClientJsonrpcRequest", "Standard/CompleteRequest", |y| y.vpath()),
        Conv::new::<s::Result, u::MessageFromServer>("Result", "MessageFromServer", "ServerResult/Result", |y| y.vpath()),
        Conv::new::<s::InputRequiredResult, u::MessageFromServer>("InputRequiredResult", "MessageFromServer", "ServerResult/InputRequiredResult", |y| y.vpath()),
        Conv::new::<s::DiscoverResult, u::MessageFromServer>("DiscoverResult", "MessageFromServer", "ServerResult/DiscoverResult", |y| y.vpath()),
        Conv::new::<s::ListResourcesResult, u::MessageFromServer>("ListResourcesResult", "MessageFromServer", "ServerResult/ListResourcesResult", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesResult, u::MessageFromServer>("ListResourceTemplatesResult", "MessageFromServer", "ServerResult/ListResourceTemplatesResult", |y| y.vpath()),
        Conv::new::<s::ReadResourceResult, u::MessageFromServer>("ReadResourceResult", "MessageFromServer", "ServerResult/ReadResourceResult", |y| y.vpath()),
        Conv::new::<s::SubscriptionsListenResult, u::MessageFromServer>("SubscriptionsListenResult", "MessageFromServer", "ServerResult/SubscriptionsListenResult", |y| y.vpath()),
        Conv::new::<s::ListPromptsResult, u::MessageFromServer>("ListPromptsResult", "MessageFromServer", "ServerResult/ListPromptsResult", |y| y.vpath()),
        Conv::new::<s::GetPromptResult, u::MessageFromServer>("GetPromptResult", "MessageFromServer", "ServerResult/GetPromptResult", |y| y.vpath()),
        Conv::new::<s::ListToolsResult, u::MessageFromServer>("ListToolsResult", "MessageFromServer", "ServerResult/ListToolsResult", |y| y.vpath()),
        Conv::new::<s::CallToolResult, u::MessageFromServer>("CallToolResult", "MessageFromServer", "ServerResult/CallToolResult", |y| y.vpath()),
        Conv::new::<s::CompleteResult, u::MessageFromServer>("CompleteResult", "MessageFromServer", "ServerResult/CompleteResult", |y| y.vpath()),
    ]
}

pub fn trys() -> Vec<TryConv> {
    vec![
        TryConv::new::<u::ResultFromClient, s::CreateMessageResult>("ResultFromClient", "CreateMessageResult", "CreateMessageResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::ListRootsResult>("ResultFromClient", "ListRootsResult", "ListRootsResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::ElicitResult>("ResultFromClient", "ElicitResult", "ElicitResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::Result>("ResultFromClient", "Result", "Result", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::Result>("ServerResult", "Result", "Result", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::InputRequiredResult>("ServerResult", "InputRequiredResult", "InputRequiredResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::DiscoverResult>("ServerResult", "DiscoverResult", "DiscoverResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::ListResourcesResult>("ServerResult", "ListResourcesResult", "ListResourcesResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::ListResourceTemplatesResult>("ServerResult", "ListResourceTemplatesResult", "ListResourceTemplatesResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::ReadResourceResult>("ServerResult", "ReadResourceResult", "ReadResourceResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::SubscriptionsListenResult>("ServerResult", "SubscriptionsListenResult", "SubscriptionsListenResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::ListPromptsResult>("ServerResult", "ListPromptsResult", "ListPromptsResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::GetPromptResult>("ServerResult", "GetPromptResult", "GetPromptResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::ListToolsResult>("ServerResult", "ListToolsResult", "ListToolsResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::CallToolResult>("ServerResult", "CallToolResult", "CallToolResult", |y| y.vpath()),
        TryConv::new::<s::ServerResult, s::CompleteResult>("ServerResult", "CompleteResult", "CompleteResult", |y| y.vpath()),
    ]
}

pub fn tomsgs() -> Vec<ToMsg> {
    vec![
    ]
}

pub fn news() -> Vec<New> {
    vec![
        New::new::<s::AudioContent>("AudioContent", &[], |x| s::AudioContent::new(x.data.clone(), x.mime_type.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::BooleanSchema>("BooleanSchema", &[], |x| s::BooleanSchema::new(x.default.clone(), x.description.clone(), x.title.clone())),
        New::new::<s::CallToolRequest>("CallToolRequest", &[], |x| s::CallToolRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::CallToolResultResponse>("CallToolResultResponse", &[], |x| s::CallToolResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::CancelledNotification>("CancelledNotification", &[], |x| s::CancelledNotification::new(x.params.clone())),
        New::new::<s::ClientNotification>("ClientNotification", &[], |x| s::ClientNotification::new(x.params.clone())),
        New::new::<s::CompleteRequest>("CompleteRequest", &[], |x| s::CompleteRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::CompleteResultResponse>("CompleteResultResponse", &[], |x| s::CompleteResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::CreateMessageRequest>("CreateMessageRequest", &[], |x| s::CreateMessageRequest::new(x.params.clone())),
        New::new::<s::DiscoverRequest>("DiscoverRequest", &[], |x| s::DiscoverRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::DiscoverResultResponse>("DiscoverResultResponse", &[], |x| s::DiscoverResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::ElicitRequest>("ElicitRequest", &[], |x| s::ElicitRequest::new(x.params.clone())),
        New::new::<s::ElicitRequestFormParams>("ElicitRequestFormParams", &[], |x| s::ElicitRequestFormParams::new(x.message.clone(), x.requested_schema.clone())),
        New::new::<s::ElicitRequestFormParamsRequestedSchema>("ElicitRequestFormParamsRequestedSchema", &[], |x| s::ElicitRequestFormParamsRequestedSchema::new(x.properties.clone(), x.required.clone(), x.schema.clone())),
        New::new::<s::ElicitRequestUrlParams>("ElicitRequestUrlParams", &[], |x| s::ElicitRequestUrlParams::new(x.message.clone(), x.url.clone())),
        New::new::<s::EmbeddedResource>("EmbeddedResource", &[], |x| s::EmbeddedResource::new(x.resource.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::GetPromptRequest>("GetPromptRequest", &[], |x| s::GetPromptRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::GetPromptResultResponse>("GetPromptResultResponse", &[], |x| s::GetPromptResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::HeaderMismatchError>("HeaderMismatchError", &[], |x| s::HeaderMismatchError::new(x.error.clone(), x.id.clone())),
        New::new::<s::ImageContent>("ImageContent", &[], |x| s::ImageContent::new(x.data.clone(), x.mime_type.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::JsonrpcErrorResponse>("JsonrpcErrorResponse", &[], |x| s::JsonrpcErrorResponse::new(x.error.clone(), x.id.clone())),
        New::new::<s::JsonrpcNotification>("JsonrpcNotification", &[], |x| s::JsonrpcNotification::new(x.method.clone(), x.params.clone())),
        New::new::<s::JsonrpcRequest>("JsonrpcRequest", &[], |x| s::JsonrpcRequest::new(x.id.clone(), x.method.clone(), x.params.clone())),
        New::new::<s::JsonrpcResultResponse>("JsonrpcResultResponse", &[], |x| s::JsonrpcResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::LegacyTitledEnumSchema>("LegacyTitledEnumSchema", &[], |x| s::LegacyTitledEnumSchema::new(x.enum_.clone(), x.enum_names.clone(), x.default.clone(), x.description.clone(), x.title.clone())),
        New::new::<s::ListPromptsRequest>("ListPromptsRequest", &[], |x| s::ListPromptsRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::ListPromptsResultResponse>("ListPromptsResultResponse", &[], |x| s::ListPromptsResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::ListResourceTemplatesRequest>("ListResourceTemplatesRequest", &[], |x| s::ListResourceTemplatesRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::ListResourceTemplatesResultResponse>("ListResourceTemplatesResultResponse", &[], |x| s::ListResourceTemplatesResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::ListResourcesRequest>("ListResourcesRequest", &[], |x| s::ListResourcesRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::ListResourcesResultResponse>("ListResourcesResultResponse", &[], |x| s::ListResourcesResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::ListRootsRequest>("ListRootsRequest", &[], |x| s::ListRootsRequest::new(x.params.clone())),
        New::new::<s::ListToolsRequest>("ListToolsRequest", &[], |x| s::ListToolsRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::ListToolsResultResponse>("ListToolsResultResponse", &[], |x| s::ListToolsResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::LoggingMessageNotification>("LoggingMessageNotification", &[], |x| s::LoggingMessageNotification::new(x.params.clone())),
        New::new::<s::MissingRequiredClientCapabilityError>("MissingRequiredClientCapabilityError", &[], |x| s::MissingRequiredClientCapabilityError::new(x.error.clone(), x.id.clone())),
        New::new::<s::PaginatedRequest>("PaginatedRequest", &[], |x| s::PaginatedRequest::new(x.id.clone(), x.method.clone(), x.params.clone())),
        New::new::<s::ProgressNotification>("ProgressNotification", &[], |x| s::ProgressNotification::new(x.params.clone())),
        New::new::<s::PromptListChangedNotification>("PromptListChangedNotification", &[], |x| s::PromptListChangedNotification::new(x.params.clone())),
        New::new::<s::PromptReference>("PromptReference", &[], |x| s::PromptReference::new(x.name.clone(), x.title.clone())),
        New::new::<s::ReadResourceRequest>("ReadResourceRequest", &[], |x| s::ReadResourceRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::ReadResourceResultResponse>("ReadResourceResultResponse", &[], |x| s::ReadResourceResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::ResourceLink>("ResourceLink", &[], |x| s::ResourceLink::new(x.icons.clone(), x.name.clone(), x.uri.clone(), x.annotations.clone(), x.description.clone(), x.meta.clone(), x.mime_type.clone(), x.size.clone(), x.title.clone())),
        New::new::<s::ResourceListChangedNotification>("ResourceListChangedNotification", &[], |x| s::ResourceListChangedNotification::new(x.params.clone())),
        New::new::<s::ResourceTemplateReference>("ResourceTemplateReference", &[], |x| s::ResourceTemplateReference::new(x.uri.clone())),
        New::new::<s::ResourceUpdatedNotification>("ResourceUpdatedNotification", &[], |x| s::ResourceUpdatedNotification::new(x.params.clone())),
        New::new::<s::StringSchema>("StringSchema", &[], |x| s::StringSchema::new(x.default.clone(), x.description.clone(), x.format.clone(), x.max_length.clone(), x.min_length.clone(), x.title.clone())),
        New::new::<s::SubscriptionsAcknowledgedNotification>("SubscriptionsAcknowledgedNotification", &[], |x| s::SubscriptionsAcknowledgedNotification::new(x.params.clone())),
        New::new::<s::SubscriptionsListenRequest>("SubscriptionsListenRequest", &[], |x| s::SubscriptionsListenRequest::new(x.id.clone(), x.params.clone())),
        New::new::<s::SubscriptionsListenResultResponse>("SubscriptionsListenResultResponse", &[], |x| s::SubscriptionsListenResultResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::TextContent>("TextContent", &[], |x| s::TextContent::new(x.text.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::TitledMultiSelectEnumSchema>("TitledMultiSelectEnumSchema", &[], |x| s::TitledMultiSelectEnumSchema::new(x.default.clone(), x.items.clone(), x.description.clone(), x.max_items.clone(), x.min_items.clone(), x.title.clone())),
        New::new::<s::TitledSingleSelectEnumSchema>("TitledSingleSelectEnumSchema", &[], |x| s::TitledSingleSelectEnumSchema::new(x.one_of.clone(), x.default.clone(), x.description.clone(), x.title.clone())),
        New::new::<s::ToolInputSchema>("ToolInputSchema", &[], |x| s::ToolInputSchema::new(x.schema.clone(), x.extra.clone())),
        New::new::<s::ToolListChangedNotification>("ToolListChangedNotification", &[], |x| s::ToolListChangedNotification::new(x.params.clone())),
        New::new::<s::ToolResultContent>("ToolResultContent", &[], |x| s::ToolResultContent::new(x.content.clone(), x.tool_use_id.clone(), x.is_error.clone(), x.meta.clone(), x.structured_content.clone())),
        New::new::<s::ToolUseContent>("ToolUseContent", &[], |x| s::ToolUseContent::new(x.id.clone(), x.input.clone(), x.name.clone(), x.meta.clone())),
        New::new::<s::UnsupportedProtocolVersionError>("UnsupportedProtocolVersionError", &[], |x| s::UnsupportedProtocolVersionError::new(x.error.clone(), x.id.clone())),
        New::new::<s::UntitledMultiSelectEnumSchema>("UntitledMultiSelectEnumSchema", &[], |x| s::UntitledMultiSelectEnumSchema::new(x.default.clone(), x.items.clone(), x.description.clone(), x.max_items.clone(), x.min_items.clone(), x.title.clone())),
        New::new::<s::UntitledMultiSelectEnumSchemaItems>("UntitledMultiSelectEnumSchemaItems", &[], |x| s::UntitledMultiSelectEnumSchemaItems::new(x.enum_.clone())),
        New::new::<s::UntitledSingleSelectEnumSchema>("UntitledSingleSelectEnumSchema", &[], |x| s::UntitledSingleSelectEnumSchema::new(x.enum_.clone(), x.default.clone(), x.description.clone(), x.title.clone())),
    ]
}

#[allow(deprecated)]
pub fn getters() -> Vec<Getter> {
    vec![
        Getter::new::<s::AudioContent>("AudioContent", "type", |x| json!(x.type_()), || vec![json!(s::AudioContent::type_value()), json!(s::AudioContent::type_name())]),
        Getter::new::<s::BooleanSchema>("BooleanSchema", "type", |x| json!(x.type_()), || vec![json!(s::BooleanSchema::type_value()), json!(s::BooleanSchema::type_name())]),
        Getter::new::<s::CallToolRequest>("CallToolRequest", "method", |x| json!(x.method()), || vec![json!(s::CallToolRequest::method_value()), json!(s::CallToolRequest::method_name())]),
        Getter::new::<s::CallToolRequest>("CallToolRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::CallToolResultResponse>("CallToolResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::CancelledNotification>("CancelledNotification", "method", |x| json!(x.method()), || vec![json!(s::CancelledNotification::method_value()), json!(s::CancelledNotification::method_name())]),
        Getter::new::<s::CancelledNotification>("CancelledNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ClientNotification>("ClientNotification", "method", |x| json!(x.method()), || vec![json!(s::ClientNotification::method_value()), json!(s::ClientNotification::method_name())]),
        Getter::new::<s::ClientNotification>("ClientNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::CompleteRequest>("CompleteRequest", "method", |x| json!(x.method()), || vec![json!(s::CompleteRequest::method_value()), json!(s::CompleteRequest::method_name())]),
        Getter::new::<s::CompleteRequest>("CompleteRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::CompleteResultResponse>("CompleteResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::CreateMessageRequest>("CreateMessageRequest", "method", |x| json!(x.method()), || vec![json!(s::CreateMessageRequest::method_value()), json!(s::CreateMessageRequest::method_name())]),
        Getter::new::<s::DiscoverRequest>("DiscoverRequest", "method", |x| json!(x.method()), || vec![json!(s::DiscoverRequest::method_value()), json!(s::DiscoverRequest::method_name())]),
        Getter::new::<s::DiscoverRequest>("DiscoverRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::DiscoverResultResponse>("DiscoverResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ElicitRequest>("ElicitRequest", "method", |x| json!(x.method()), || vec![json!(s::ElicitRequest::method_value()), json!(s::ElicitRequest::method_name())]),
        Getter::new::<s::ElicitRequestFormParams>("ElicitRequestFormParams", "mode", |x| json!(x.mode()), || vec![json!(s::ElicitRequestFormParams::mode_value()), json!(s::ElicitRequestFormParams::mode_name())]),
        Getter::new::<s::ElicitRequestFormParamsRequestedSchema>("ElicitRequestFormParamsRequestedSchema", "type", |x| json!(x.type_()), || vec![json!(s::ElicitRequestFormParamsRequestedSchema::type_value()), json!(s::ElicitRequestFormParamsRequestedSchema::type_name())]),
        Getter::new::<s::ElicitRequestUrlParams>("ElicitRequestUrlParams", "mode", |x| json!(x.mode()), || vec![json!(s::ElicitRequestUrlParams::mode_value()), json!(s::ElicitRequestUrlParams::mode_name())]),
        Getter::new::<s::EmbeddedResource>("EmbeddedResource", "type", |x| json!(x.type_()), || vec![json!(s::EmbeddedResource::type_value()), json!(s::EmbeddedResource::type_name())]),
        Getter::new::<s::GetPromptRequest>("GetPromptRequest", "method", |x| json!(x.method()), || vec![json!(s::GetPromptRequest::method_value()), json!(s::GetPromptRequest::method_name())]),
        Getter::new::<s::GetPromptRequest>("GetPromptRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::GetPromptResultResponse>("GetPromptResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::HeaderMismatchError>("HeaderMismatchError", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ImageContent>("ImageContent", "type", |x| json!(x.type_()), || vec![json!(s::ImageContent::type_value()), json!(s::ImageContent::type_name())]),
        Getter::new::<s::JsonrpcErrorResponse>("JsonrpcErrorResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::JsonrpcNotification>("JsonrpcNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::JsonrpcRequest>("JsonrpcRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::JsonrpcResultResponse>("JsonrpcResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::LegacyTitledEnumSchema>("LegacyTitledEnumSchema", "type", |x| json!(x.type_()), || vec![json!(s::LegacyTitledEnumSchema::type_value()), json!(s::LegacyTitledEnumSchema::type_name())]),
        Getter::new::<s::ListPromptsRequest>("ListPromptsRequest", "method", |x| json!(x.method()), || vec![json!(s::ListPromptsRequest::method_value()), json!(s::ListPromptsRequest::method_name())]),
        Getter::new::<s::ListPromptsRequest>("ListPromptsRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListPromptsResultResponse>("ListPromptsResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListResourceTemplatesRequest>("ListResourceTemplatesRequest", "method", |x| json!(x.method()), || vec![json!(s::ListResourceTemplatesRequest::method_value()), json!(s::ListResourceTemplatesRequest::method_name())]),
        Getter::new::<s::ListResourceTemplatesRequest>("ListResourceTemplatesRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListResourceTemplatesResultResponse>("ListResourceTemplatesResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListResourcesRequest>("ListResourcesRequest", "method", |x| json!(x.method()), || vec![json!(s::ListResourcesRequest::method_value()), json!(s::ListResourcesRequest::method_name())]),
        Getter::new::<s::ListResourcesRequest>("ListResourcesRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListResourcesResultResponse>("ListResourcesResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListRootsRequest>("ListRootsRequest", "method", |x| json!(x.method()), || vec![json!(s::ListRootsRequest::method_value()), json!(s::ListRootsRequest::method_name())]),
        Getter::new::<s::ListToolsRequest>("ListToolsRequest", "method", |x| json!(x.method()), || vec![json!(s::ListToolsRequest::method_value()), json!(s::ListToolsRequest::method_name())]),
        Getter::new::<s::ListToolsRequest>("ListToolsRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListToolsResultResponse>("ListToolsResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::LoggingMessageNotification>("LoggingMessageNotification", "method", |x| json!(x.method()), || vec![json!(s::LoggingMessageNotification::method_value()), json!(s::LoggingMessageNotification::method_name())]),
        Getter::new::<s::LoggingMessageNotification>("LoggingMessageNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::MissingRequiredClientCapabilityError>("MissingRequiredClientCapabilityError", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::PaginatedRequest>("PaginatedRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ProgressNotification>("ProgressNotification", "method", |x| json!(x.method()), || vec![json!(s::ProgressNotification::method_value()), json!(s::ProgressNotification::method_name())]),
        Getter::new::<s::ProgressNotification>("ProgressNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::PromptListChangedNotification>("PromptListChangedNotification", "method", |x| json!(x.method()), || vec![json!(s::PromptListChangedNotification::method_value()), json!(s::PromptListChangedNotification::method_name())]),
        Getter::new::<s::PromptListChangedNotification>("PromptListChangedNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::PromptReference>("PromptReference", "type", |x| json!(x.type_()), || vec![json!(s::PromptReference::type_value()), json!(s::PromptReference::type_name())]),
        Getter::new::<s::ReadResourceRequest>("ReadResourceRequest", "method", |x| json!(x.method()), || vec![json!(s::ReadResourceRequest::method_value()), json!(s::ReadResourceRequest::method_name())]),
        Getter::new::<s::ReadResourceRequest>("ReadResourceRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ReadResourceResultResponse>("ReadResourceResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ResourceLink>("ResourceLink", "type", |x| json!(x.type_()), || vec![json!(s::ResourceLink::type_value()), json!(s::ResourceLink::type_name())]),
        Getter::new::<s::ResourceListChangedNotification>("ResourceListChangedNotification", "method", |x| json!(x.method()), || vec![json!(s::ResourceListChangedNotification::method_value()), json!(s::ResourceListChangedNotification::method_name())]),
        Getter::new::<s::ResourceListChangedNotification>("ResourceListChangedNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ResourceTemplateReference>("ResourceTemplateReference", "type", |x| json!(x.type_()), || vec![json!(s::ResourceTemplateReference::type_value()), json!(s::ResourceTemplateReference::type_name())]),
        Getter::new::<s::ResourceUpdatedNotification>("ResourceUpdatedNotification", "method", |x| json!(x.method()), || vec![json!(s::ResourceUpdatedNotification::method_value()), json!(s::ResourceUpdatedNotification::method_name())]),
        Getter::new::<s::ResourceUpdatedNotification>("ResourceUpdatedNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::StringSchema>("StringSchema", "type", |x| json!(x.type_()), || vec![json!(s::StringSchema::type_value()), json!(s::StringSchema::type_name())]),
        Getter::new::<s::SubscriptionsAcknowledgedNotification>("SubscriptionsAcknowledgedNotification", "method", |x| json!(x.method()), || vec![json!(s::SubscriptionsAcknowledgedNotification::method_value()), json!(s::SubscriptionsAcknowledgedNotification::method_name())]),
        Getter::new::<s::SubscriptionsAcknowledgedNotification>("SubscriptionsAcknowledgedNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::SubscriptionsListenRequest>("SubscriptionsListenRequest", "method", |x| json!(x.method()), || vec![json!(s::SubscriptionsListenRequest::method_value()), json!(s::SubscriptionsListenRequest::method_name())]),
        Getter::new::<s::SubscriptionsListenRequest>("SubscriptionsListenRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::SubscriptionsListenResultResponse>("SubscriptionsListenResultResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::TextContent>("TextContent", "type", |x| json!(x.type_()), || vec![json!(s::TextContent::type_value()), json!(s::TextContent::type_name())]),
        Getter::new::<s::TitledMultiSelectEnumSchema>("TitledMultiSelectEnumSchema", "type", |x| json!(x.type_()), || vec![json!(s::TitledMultiSelectEnumSchema::type_value()), json!(s::TitledMultiSelectEnumSchema::type_name())]),
        Getter::new::<s::TitledSingleSelectEnumSchema>("TitledSingleSelectEnumSchema", "type", |x| json!(x.type_()), || vec![json!(s::TitledSingleSelectEnumSchema::type_value()), json!(s::TitledSingleSelectEnumSchema::type_name())]),
        Getter::new::<s::ToolInputSchema>("ToolInputSchema", "type", |x| json!(x.type_()), || vec![json!(s::ToolInputSchema::type_value()), json!(s::ToolInputSchema::type_name())]),
        Getter::new::<s::ToolListChangedNotification>("ToolListChangedNotification", "method", |x| json!(x.method()), || vec![json!(s::ToolListChangedNotification::method_value()), json!(s::ToolListChangedNotification::method_name())]),
        Getter::new::<s::ToolListChangedNotification>("ToolListChangedNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ToolResultContent>("ToolResultContent", "type", |x| json!(x.type_()), || vec![json!(s::ToolResultContent::type_value()), json!(s::ToolResultContent::type_name())]),
        Getter::new::<s::ToolUseContent>("ToolUseContent", "type", |x| json!(x.type_()), || vec![json!(s::ToolUseContent::type_value()), json!(s::ToolUseContent::type_name())]),
        Getter::new::<s::UnsupportedProtocolVersionError>("UnsupportedProtocolVersionError", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::UntitledMultiSelectEnumSchema>("UntitledMultiSelectEnumSchema", "type", |x| json!(x.type_()), || vec![json!(s::UntitledMultiSelectEnumSchema::type_value()), json!(s::UntitledMultiSelectEnumSchema::type_name())]),
        Getter::new::<s::UntitledMultiSelectEnumSchemaItems>("UntitledMultiSelectEnumSchemaItems", "type", |x| json!(x.type_()), || vec![json!(s::UntitledMultiSelectEnumSchemaItems::type_value()), json!(s::UntitledMultiSelectEnumSchemaItems::type_name())]),
        Getter::new::<s::UntitledSingleSelectEnumSchema>("UntitledSingleSelectEnumSchema", "type", |x| json!(x.type_()), || vec![json!(s::UntitledSingleSelectEnumSchema::type_value()), json!(s::UntitledSingleSelectEnumSchema::type_name())]),
        Getter::new::<s::ClientRequest>("ClientRequest", "method", |x| json!(x.method()), || vec![]),
        Getter::new::<s::ServerNotification>("ServerNotification", "method", |x| json!(x.method()), || vec![]),
    ]
}

pub fn defaults() -> Vec<(&'static str, fn() -> serde_json::Value)> {
    vec![
        ("Annotations", || json!(s::Annotations::default())),
        ("BaseMetadata", || json!(s::BaseMetadata::default())),
        ("BlobResourceContents", || json!(s::BlobResourceContents::default())),
        ("CancelledNotificationParams", || json!(s::CancelledNotificationParams::default())),
        ("ClientCapabilities", || json!(s::ClientCapabilities::default())),
        ("ClientElicitation", || json!(s::ClientElicitation::default())),
        ("ClientSampling", || json!(s::ClientSampling::default())),
        ("CompleteRequestArgument", || json!(s::CompleteRequestArgument::default())),
        ("CompleteRequestContext", || json!(s::CompleteRequestContext::default())),
        ("Cursor", || json!(s::Cursor::default())),
        ("EmptyResult", || json!(s::EmptyResult::default())),
        ("Icons", || json!(s::Icons::default())),
        ("Implementation", || json!(s::Implementation::default())),
        ("ListRootsRequestParams", || json!(s::ListRootsRequestParams::default())),
        ("LoggingMessageNotificationParams", || json!(s::LoggingMessageNotificationParams::default())),
        ("MetaObject", || json!(s::MetaObject::default())),
        ("ModelHint", || json!(s::ModelHint::default())),
        ("ModelPreferences", || json!(s::ModelPreferences::default())),
        ("NotificationMetaObject", || json!(s::NotificationMetaObject::default())),
        ("NotificationParams", || json!(s::NotificationParams::default())),
        ("PaginatedRequestParams", || json!(s::PaginatedRequestParams::default())),
        ("PaginatedResult", || json!(s::PaginatedResult::default())),
        ("ProgressNotificationParams", || json!(s::ProgressNotificationParams::default())),
        ("RequestMetaObject", || json!(s::RequestMetaObject::default())),
        ("RequestParams", || json!(s::RequestParams::default())),
        ("ResourceUpdatedNotificationParams", || json!(s::ResourceUpdatedNotificationParams::default())),
        ("Result", || json!(s::Result::default())),
        ("ResultMetaObject", || json!(s::ResultMetaObject::default())),
        ("ServerCapabilities", || json!(s::ServerCapabilities::default())),
        ("ServerCapabilitiesPrompts", || json!(s::ServerCapabilitiesPrompts::default())),
        ("ServerCapabilitiesResources", || json!(s::ServerCapabilitiesResources::default())),
        ("ServerCapabilitiesTools", || json!(s::ServerCapabilitiesTools::default())),
        ("SubscriptionFilter", || json!(s::SubscriptionFilter::default())),
        ("SubscriptionsAcknowledgedNotificationParams", || json!(s::SubscriptionsAcknowledgedNotificationParams::default())),
        ("ToolAnnotations", || json!(s::ToolAnnotations::default())),
        ("ToolChoice", || json!(s::ToolChoice::default())),
        ("ToolOutputSchema", || json!(s::ToolOutputSchema::default())),
    ]
}

pub fn printers() -> Vec<Printer> {
    vec![
        Printer::new::<s::CacheableResultCacheScope>("CacheableResultCacheScope", None),
        Printer::new::<s::DiscoverResultCacheScope>("DiscoverResultCacheScope", None),
        Printer::new::<s::ElicitResultAction>("ElicitResultAction", None),
        Printer::new::<s::IconTheme>("IconTheme", None),
        Printer::new::<s::IncludeContext>("IncludeContext", None),
        Printer::new::<s::ListPromptsResultCacheScope>("ListPromptsResultCacheScope", None),
        Printer::new::<s::ListResourceTemplatesResultCacheScope>("ListResourceTemplatesResultCacheScope", None),
        Printer::new::<s::ListResourcesResultCacheScope>("ListResourcesResultCacheScope", None),
        Printer::new::<s::ListToolsResultCacheScope>("ListToolsResultCacheScope", None),
        Printer::plain::<s::LoggingLevel>("LoggingLevel", None),
        Printer::new::<s::NumberSchemaType>("NumberSchemaType", None),
        Printer::new::<s::ReadResourceResultCacheScope>("ReadResourceResultCacheScope", None),
        Printer::new::<s::Role>("Role", Some(|t: &str| t.parse::<s::Role>().ok())),
        Printer::new::<s::StringSchemaFormat>("StringSchemaFormat", Some(|t: &str| t.parse::<s::StringSchemaFormat>().ok())),
        Printer::new::<s::ToolChoiceMode>("ToolChoiceMode", None),
    ]
}
