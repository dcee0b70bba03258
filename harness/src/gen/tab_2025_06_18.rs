// generated by tools/gen_tables.py at authoring time; committed; not regenerated by checks
#![allow(clippy::all)]
use crate::tab::*;
use crate::ver::{s, u};
use serde_json::json;

impl VPath for s::ClientNotification { fn vpath(&self) -> String { match self { s::ClientNotification::CancelledNotification(..) => "CancelledNotification".to_string(), s::ClientNotification::InitializedNotification(..) => "InitializedNotification".to_string(), s::ClientNotification::ProgressNotification(..) => "ProgressNotification".to_string(), s::ClientNotification::RootsListChangedNotification(..) => "RootsListChangedNotification".to_string() } } }
impl VPath for s::ClientRequest { fn vpath(&self) -> String { match self { s::ClientRequest::InitializeRequest(..) => "InitializeRequest".to_string(), s::ClientRequest::PingRequest(..) => "PingRequest".to_string(), s::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest".to_string(), s::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(), s::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest".to_string(), s::ClientRequest::SubscribeRequest(..) => "SubscribeRequest".to_string(), s::ClientRequest::UnsubscribeRequest(..) => "UnsubscribeRequest".to_string(), s::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest".to_string(), s::ClientRequest::GetPromptRequest(..) => "GetPromptRequest".to_string(), s::ClientRequest::ListToolsRequest(..) => "ListToolsRequest".to_string(), s::ClientRequest::CallToolRequest(..) => "CallToolRequest".to_string(), s::ClientRequest::SetLevelRequest(..) => "SetLevelRequest".to_string(), s::ClientRequest::CompleteRequest(..) => "CompleteRequest".to_string() } } }
impl VPath for s::ClientResult { fn vpath(&self) -> String { match self { s::ClientResult::CreateMessageResult(..) => "CreateMessageResult".to_string(), s::ClientResult::ListRootsResult(..) => "ListRootsResult".to_string(), s::ClientResult::ElicitResult(..) => "ElicitResult".to_string(), s::ClientResult::Result(..) => "Result".to_string() } } }
impl VPath for s::CompleteRequestRef { fn vpath(&self) -> String { match self { s::CompleteRequestRef::PromptReference(..) => "PromptReference".to_string(), s::CompleteRequestRef::ResourceTemplateReference(..) => "ResourceTemplateReference".to_string() } } }
impl VPath for s::ContentBlock { fn vpath(&self) -> String { match self { s::ContentBlock::TextContent(..) => "TextContent".to_string(), s::ContentBlock::ImageContent(..) => "ImageContent".to_string(), s::ContentBlock::AudioContent(..) => "AudioContent".to_string(), s::ContentBlock::ResourceLink(..) => "ResourceLink".to_string(), s::ContentBlock::EmbeddedResource(..) => "EmbeddedResource".to_string() } } }
impl VPath for s::CreateMessageContent { fn vpath(&self) -> String { match self { s::CreateMessageContent::TextContent(..) => "TextContent".to_string(), s::CreateMessageContent::ImageContent(..) => "ImageContent".to_string(), s::CreateMessageContent::AudioContent(..) => "AudioContent".to_string() } } }
impl VPath for s::ElicitResultContent { fn vpath(&self) -> String { match self { s::ElicitResultContent::Boolean(..) => "Boolean".to_string(), s::ElicitResultContent::String(..) => "String".to_string(), s::ElicitResultContent::Integer(..) => "Integer".to_string() } } }
impl VPath for s::EmbeddedResourceResource { fn vpath(&self) -> String { match self { s::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents".to_string(), s::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents".to_string() } } }
impl VPath for s::JsonrpcMessage { fn vpath(&self) -> String { match self { s::JsonrpcMessage::Request(..) => "Request".to_string(), s::JsonrpcMessage::Notification(..) => "Notification".to_string(), s::JsonrpcMessage::Response(..) => "Response".to_string(), s::JsonrpcMessage::Error(..) => "Error".to_string() } } }
impl VPath for s::PrimitiveSchemaDefinition { fn vpath(&self) -> String { match self { s::PrimitiveSchemaDefinition::EnumSchema(..) => "EnumSchema".to_string(), s::PrimitiveSchemaDefinition::StringSchema(..) => "StringSchema".to_string(), s::PrimitiveSchemaDefinition::NumberSchema(..) => "NumberSchema".to_string(), s::PrimitiveSchemaDefinition::BooleanSchema(..) => "BooleanSchema".to_string() } } }
impl VPath for s::ProgressToken { fn vpath(&self) -> String { match self { s::ProgressToken::String(..) => "String".to_string(), s::ProgressToken::Integer(..) => "Integer".to_string() } } }
impl VPath for s::ReadResourceContent { fn vpath(&self) -> String { match self { s::ReadResourceContent::TextResourceContents(..) => "TextResourceContents".to_string(), s::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents".to_string() } } }
impl VPath for s::RequestId { fn vpath(&self) -> String { match self { s::RequestId::String(..) => "String".to_string(), s::RequestId::Integer(..) => "Integer".to_string() } } }
impl VPath for s::SamplingMessageContent { fn vpath(&self) -> String { match self { s::SamplingMessageContent::TextContent(..) => "TextContent".to_string(), s::SamplingMessageContent::ImageContent(..) => "ImageContent".to_string(), s::SamplingMessageContent::AudioContent(..) => "AudioContent".to_string() } } }
impl VPath for s::ServerNotification { fn vpath(&self) -> String { match self { s::ServerNotification::CancelledNotification(..) => "CancelledNotification".to_string(), s::ServerNotification::ProgressNotification(..) => "ProgressNotification".to_string(), s::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(), s::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(), s::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(), s::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(), s::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string() } } }
impl VPath for s::ServerRequest { fn vpath(&self) -> String { match self { s::ServerRequest::PingRequest(..) => "PingRequest".to_string(), s::ServerRequest::CreateMessageRequest(..) => "CreateMessageRequest".to_string(), s::ServerRequest::ListRootsRequest(..) => "ListRootsRequest".to_string(), s::ServerRequest::ElicitRequest(..) => "ElicitRequest".to_string() } } }
impl VPath for s::ServerResult { fn vpath(&self) -> String { match self { s::ServerResult::InitializeResult(..) => "InitializeResult".to_string(), s::ServerResult::ListResourcesResult(..) => "ListResourcesResult".to_string(), s::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult".to_string(), s::ServerResult::ReadResourceResult(..) => "ReadResourceResult".to_string(), s::ServerResult::ListPromptsResult(..) => "ListPromptsResult".to_string(), s::ServerResult::GetPromptResult(..) => "GetPromptResult".to_string(), s::ServerResult::ListToolsResult(..) => "ListToolsResult".to_string(), s::ServerResult::CallToolResult(..) => "CallToolResult".to_string(), s::ServerResult::CompleteResult(..) => "CompleteResult".to_string(), s::ServerResult::Result(..) => "Result".to_string() } } }
impl VPath for u::ClientMessage { fn vpath(&self) -> String { match self { u::ClientMessage::Request(x) => format!("Request/{}", x.vpath()), u::ClientMessage::Notification(x) => format!("Notification/{}", x.vpath()), u::ClientMessage::Response(x) => format!("Response/{}", x.vpath()), u::ClientMessage::Error(..) => "Error".to_string() } } }
impl VPath for u::RequestFromClient { fn vpath(&self) -> String { match self { u::RequestFromClient::ClientRequest(x) => format!("ClientRequest/{}", x.vpath()), u::RequestFromClient::CustomRequest(..) => "CustomRequest".to_string() } } }
impl VPath for u::NotificationFromClient { fn vpath(&self) -> String { match self { u::NotificationFromClient::ClientNotification(x) => format!("ClientNotification/{}", x.vpath()), u::NotificationFromClient::CustomNotification(..) => "CustomNotification".to_string() } } }
impl VPath for u::ResultFromClient { fn vpath(&self) -> String { match self { u::ResultFromClient::ClientResult(x) => format!("ClientResult/{}", x.vpath()), u::ResultFromClient::CustomResult(..) => "CustomResult".to_string() } } }
impl VPath for u::ServerMessage { fn vpath(&self) -> String { match self { u::ServerMessage::Request(x) => format!("Request/{}", x.vpath()), u::ServerMessage::Notification(x) => format!("Notification/{}", x.vpath()), u::ServerMessage::Response(x) => format!("Response/{}", x.vpath()), u::ServerMessage::Error(..) => "Error".to_string() } } }
impl VPath for u::RequestFromServer { fn vpath(&self) -> String { match self { u::RequestFromServer::ServerRequest(x) => format!("ServerRequest/{}", x.vpath()), u::RequestFromServer::CustomRequest(..) => "CustomRequest".to_string() } } }
impl VPath for u::NotificationFromServer { fn vpath(&self) -> String { match self { u::NotificationFromServer::ServerNotification(x) => format!("ServerNotification/{}", x.vpath()), u::NotificationFromServer::CustomNotification(..) => "CustomNotification".to_string() } } }
impl VPath for u::ResultFromServer { fn vpath(&self) -> String { match self { u::ResultFromServer::ServerResult(x) => format!("ServerResult/{}", x.vpath()), u::ResultFromServer::CustomResult(..) => "CustomResult".to_string() } } }
impl VPath for u::MessageFromServer { fn vpath(&self) -> String { match self { u::MessageFromServer::RequestFromServer(x) => format!("RequestFromServer/{}", x.vpath()), u::MessageFromServer::ResultFromServer(x) => format!("ResultFromServer/{}", x.vpath()), u::MessageFromServer::NotificationFromServer(x) => format!("NotificationFromServer/{}", x.vpath()), u::MessageFromServer::Error(..) => "Error".to_string() } } }
impl VPath for u::MessageFromClient { fn vpath(&self) -> String { match self { u::MessageFromClient::RequestFromClient(x) => format!("RequestFromClient/{}", x.vpath()), u::MessageFromClient::ResultFromClient(x) => format!("ResultFromClient/{}", x.vpath()), u::MessageFromClient::NotificationFromClient(x) => format!("NotificationFromClient/{}", x.vpath()), u::MessageFromClient::Error(..) => "Error".to_string() } } }
impl VPath for u::ClientMessages { fn vpath(&self) -> String { match self { u::ClientMessages::Single(x) => format!("Single/{}", x.vpath()), u::ClientMessages::Batch(..) => "Batch".to_string() } } }
impl VPath for u::ServerMessages { fn vpath(&self) -> String { match self { u::ServerMessages::Single(x) => format!("Single/{}", x.vpath()), u::ServerMessages::Batch(..) => "Batch".to_string() } } }
impl VPath for u::MessagesFromServer { fn vpath(&self) -> String { match self { u::MessagesFromServer::Single(x) => format!("Single/{}", x.vpath()), u::MessagesFromServer::Batch(..) => "Batch".to_string() } } }
impl VPath for u::MessagesFromClient { fn vpath(&self) -> String { match self { u::MessagesFromClient::Single(x) => format!("Single/{}", x.vpath()), u::MessagesFromClient::Batch(..) => "Batch".to_string() } } }
impl VPath for u::ClientJsonrpcRequest { fn vpath(&self) -> String { self.request.vpath() } }
impl VPath for u::ClientJsonrpcNotification { fn vpath(&self) -> String { self.notification.vpath() } }
impl VPath for u::ClientJsonrpcResponse { fn vpath(&self) -> String { self.result.vpath() } }
impl VPath for u::ServerJsonrpcRequest { fn vpath(&self) -> String { self.request.vpath() } }
impl VPath for u::ServerJsonrpcNotification { fn vpath(&self) -> String { self.notification.vpath() } }
impl VPath for u::ServerJsonrpcResponse { fn vpath(&self) -> String { self.result.vpath() } }

pub fn convs() -> Vec<Conv> {
    vec![
        Conv::new::<s::CancelledNotification, s::ClientNotification>("CancelledNotification", "ClientNotification", "CancelledNotification", |y| y.vpath()),
        Conv::new::<s::InitializedNotification, s::ClientNotification>("InitializedNotification", "ClientNotification", "InitializedNotification", |y| y.vpath()),
        Conv::new::<s::ProgressNotification, s::ClientNotification>("ProgressNotification", "ClientNotification", "ProgressNotification", |y| y.vpath()),
        Conv::new::<s::RootsListChangedNotification, s::ClientNotification>("RootsListChangedNotification", "ClientNotification", "RootsListChangedNotification", |y| y.vpath()),
        Conv::new::<s::InitializeRequest, s::ClientRequest>("InitializeRequest", "ClientRequest", "InitializeRequest", |y| y.vpath()),
        Conv::new::<s::PingRequest, s::ClientRequest>("PingRequest", "ClientRequest", "PingRequest", |y| y.vpath()),
        Conv::new::<s::ListResourcesRequest, s::ClientRequest>("ListResourcesRequest", "ClientRequest", "ListResourcesRequest", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesRequest, s::ClientRequest>("ListResourceTemplatesRequest", "ClientRequest", "ListResourceTemplatesRequest", |y| y.vpath()),
        Conv::new::<s::ReadResourceRequest, s::ClientRequest>("ReadResourceRequest", "ClientRequest", "ReadResourceRequest", |y| y.vpath()),
        Conv::new::<s::SubscribeRequest, s::ClientRequest>("SubscribeRequest", "ClientRequest", "SubscribeRequest", |y| y.vpath()),
        Conv::new::<s::UnsubscribeRequest, s::ClientRequest>("UnsubscribeRequest", "ClientRequest", "UnsubscribeRequest", |y| y.vpath()),
        Conv::new::<s::ListPromptsRequest, s::ClientRequest>("ListPromptsRequest", "ClientRequest", "ListPromptsRequest", |y| y.vpath()),
        Conv::new::<s::GetPromptRequest, s::ClientRequest>("GetPromptRequest", "ClientRequest", "GetPromptRequest", |y| y.vpath()),
        Conv::new::<s::ListToolsRequest, s::ClientRequest>("ListToolsRequest", "ClientRequest", "ListToolsRequest", |y| y.vpath()),
        Conv::new::<s::CallToolRequest, s::ClientRequest>("CallToolRequest", "ClientRequest", "CallToolRequest", |y| y.vpath()),
        Conv::new::<s::SetLevelRequest, s::ClientRequest>("SetLevelRequest", "ClientRequest", "SetLevelRequest", |y| y.vpath()),
        Conv::new::<s::CompleteRequest, s::ClientRequest>("CompleteRequest", "ClientRequest", "CompleteRequest", |y| y.vpath()),
        Conv::new::<s::CreateMessageResult, s::ClientResult>("CreateMessageResult", "ClientResult", "CreateMessageResult", |y| y.vpath()),
        Conv::new::<s::ListRootsResult, s::ClientResult>("ListRootsResult", "ClientResult", "ListRootsResult", |y| y.vpath()),
        Conv::new::<s::ElicitResult, s::ClientResult>("ElicitResult", "ClientResult", "ElicitResult", |y| y.vpath()),
        Conv::new::<s::Result, s::ClientResult>("Result", "ClientResult", "Result", |y| y.vpath()),
        Conv::new::<s::PromptReference, s::CompleteRequestRef>("PromptReference", "CompleteRequestRef", "PromptReference", |y| y.vpath()),
        Conv::new::<s::ResourceTemplateReference, s::CompleteRequestRef>("ResourceTemplateReference", "CompleteRequestRef", "ResourceTemplateReference", |y| y.vpath()),
        Conv::new::<s::TextContent, s::ContentBlock>("TextContent", "ContentBlock", "TextContent", |y| y.vpath()),
        Conv::new::<s::ImageContent, s::ContentBlock>("ImageContent", "ContentBlock", "ImageContent", |y| y.vpath()),
        Conv::new::<s::AudioContent, s::ContentBlock>("AudioContent", "ContentBlock", "AudioContent", |y| y.vpath()),
        Conv::new::<s::ResourceLink, s::ContentBlock>("ResourceLink", "ContentBlock", "ResourceLink", |y| y.vpath()),
        Conv::new::<s::EmbeddedResource, s::ContentBlock>("EmbeddedResource", "ContentBlock", "EmbeddedResource", |y| y.vpath()),
        Conv::new::<s::TextContent, s::CreateMessageContent>("TextContent", "CreateMessageContent", "TextContent", |y| y.vpath()),
        Conv::new::<s::ImageContent, s::CreateMessageContent>("ImageContent", "CreateMessageContent", "ImageContent", |y| y.vpath()),
        Conv::new::<s::AudioContent, s::CreateMessageContent>("AudioContent", "CreateMessageContent", "AudioContent", |y| y.vpath()),
        Conv::new::<s::TextResourceContents, s::EmbeddedResourceResource>("TextResourceContents", "EmbeddedResourceResource", "TextResourceContents", |y| y.vpath()),
        Conv::new::<s::BlobResourceContents, s::EmbeddedResourceResource>("BlobResourceContents", "EmbeddedResourceResource", "BlobResourceContents", |y| y.vpath()),
        Conv::new::<s::JsonrpcRequest, s::JsonrpcMessage>("JsonrpcRequest", "JsonrpcMessage", "Request", |y| y.vpath()),
        Conv::new::<s::JsonrpcNotification, s::JsonrpcMessage>("JsonrpcNotification", "JsonrpcMessage", "Notification", |y| y.vpath()),
        Conv::new::<s::JsonrpcResponse, s::JsonrpcMessage>("JsonrpcResponse", "JsonrpcMessage", "Response", |y| y.vpath()),
        Conv::new::<s::JsonrpcError, s::JsonrpcMessage>("JsonrpcError", "JsonrpcMessage", "Error", |y| y.vpath()),
        Conv::new::<s::StringSchema, s::PrimitiveSchemaDefinition>("StringSchema", "PrimitiveSchemaDefinition", "StringSchema", |y| y.vpath()),
        Conv::new::<s::NumberSchema, s::PrimitiveSchemaDefinition>("NumberSchema", "PrimitiveSchemaDefinition", "NumberSchema", |y| y.vpath()),
        Conv::new::<s::BooleanSchema, s::PrimitiveSchemaDefinition>("BooleanSchema", "PrimitiveSchemaDefinition", "BooleanSchema", |y| y.vpath()),
        Conv::new::<s::EnumSchema, s::PrimitiveSchemaDefinition>("EnumSchema", "PrimitiveSchemaDefinition", "EnumSchema", |y| y.vpath()),
        Conv::new::<s::TextResourceContents, s::ReadResourceContent>("TextResourceContents", "ReadResourceContent", "TextResourceContents", |y| y.vpath()),
        Conv::new::<s::BlobResourceContents, s::ReadResourceContent>("BlobResourceContents", "ReadResourceContent", "BlobResourceContents", |y| y.vpath()),
        Conv::new::<s::TextContent, s::SamplingMessageContent>("TextContent", "SamplingMessageContent", "TextContent", |y| y.vpath()),
        Conv::new::<s::ImageContent, s::SamplingMessageContent>("ImageContent", "SamplingMessageContent", "ImageContent", |y| y.vpath()),
        Conv::new::<s::AudioContent, s::SamplingMessageContent>("AudioContent", "SamplingMessageContent", "AudioContent", |y| y.vpath()),
        Conv::new::<s::CancelledNotification, s::ServerNotification>("CancelledNotification", "ServerNotification", "CancelledNotification", |y| y.vpath()),
        Conv::new::<s::ProgressNotification, s::ServerNotification>("ProgressNotification", "ServerNotification", "ProgressNotification", |y| y.vpath()),
        Conv::new::<s::ResourceListChangedNotification, s::ServerNotification>("ResourceListChangedNotification", "ServerNotification", "ResourceListChangedNotification", |y| y.vpath()),
        Conv::new::<s::ResourceUpdatedNotification, s::ServerNotification>("ResourceUpdatedNotification", "ServerNotification", "ResourceUpdatedNotification", |y| y.vpath()),
        Conv::new::<s::PromptListChangedNotification, s::ServerNotification>("PromptListChangedNotification", "ServerNotification", "PromptListChangedNotification", |y| y.vpath()),
        Conv::new::<s::ToolListChangedNotification, s::ServerNotification>("ToolListChangedNotification", "ServerNotification", "ToolListChangedNotification", |y| y.vpath()),
        Conv::new::<s::LoggingMessageNotification, s::ServerNotification>("LoggingMessageNotification", "ServerNotification", "LoggingMessageNotification", |y| y.vpath()),
        Conv::new::<s::PingRequest, s::ServerRequest>("PingRequest", "ServerRequest", "PingRequest", |y| y.vpath()),
        Conv::new::<s::CreateMessageRequest, s::ServerRequest>("CreateMessageRequest", "ServerRequest", "CreateMessageRequest", |y| y.vpath()),
        Conv::new::<s::ListRootsRequest, s::ServerRequest>("ListRootsRequest", "ServerRequest", "ListRootsRequest", |y| y.vpath()),
        Conv::new::<s::ElicitRequest, s::ServerRequest>("ElicitRequest", "ServerRequest", "ElicitRequest", |y| y.vpath()),
        Conv::new::<s::InitializeResult, s::ServerResult>("InitializeResult", "ServerResult", "InitializeResult", |y| y.vpath()),
        Conv::new::<s::ListResourcesResult, s::ServerResult>("ListResourcesResult", "ServerResult", "ListResourcesResult", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesResult, s::ServerResult>("ListResourceTemplatesResult", "ServerResult", "ListResourceTemplatesResult", |y| y.vpath()),
        Conv::new::<s::ReadResourceResult, s::ServerResult>("ReadResourceResult", "ServerResult", "ReadResourceResult", |y| y.vpath()),
        Conv::new::<s::ListPromptsResult, s::ServerResult>("ListPromptsResult", "ServerResult", "ListPromptsResult", |y| y.vpath()),
        Conv::new::<s::GetPromptResult, s::ServerResult>("GetPromptResult", "ServerResult", "GetPromptResult", |y| y.vpath()),
        Conv::new::<s::ListToolsResult, s::ServerResult>("ListToolsResult", "ServerResult", "ListToolsResult", |y| y.vpath()),
        Conv::new::<s::CallToolResult, s::ServerResult>("CallToolResult", "ServerResult", "CallToolResult", |y| y.vpath()),
        Conv::new::<s::CompleteResult, s::ServerResult>("CompleteResult", "ServerResult", "CompleteResult", |y| y.vpath()),
        Conv::new::<s::Result, s::ServerResult>("Result", "ServerResult", "Result", |y| y.vpath()),
        Conv::new::<s::InitializeResult, s::Result>("InitializeResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListResourcesResult, s::Result>("ListResourcesResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListResourceTemplatesResult, s::Result>("ListResourceTemplatesResult", "Result", "", |_| String::new()),
        Conv::new::<s::ReadResourceResult, s::Result>("ReadResourceResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListPromptsResult, s::Result>("ListPromptsResult", "Result", "", |_| String::new()),
        Conv::new::<s::GetPromptResult, s::Result>("GetPromptResult", "Result", "", |_| String::new()),
        Conv::new::<s::ListToolsResult, s::Result>("ListToolsResult", "Result", "", |_| String::new()),
        Conv::new::<s::CallToolResult, s::Result>("CallToolResult", "Result", "", |_| String::new()),
        Conv::new::<s::CompleteResult, s::Result>("CompleteResult", "Result", "", |_| String::new()),
        Conv::new::<u::ClientJsonrpcNotification, u::ClientMessage>("ClientJsonrpcNotification", "ClientMessage", "Notification", |y| y.vpath()),
        Conv::new::<u::ClientJsonrpcRequest, u::ClientMessage>("ClientJsonrpcRequest", "ClientMessage", "Request", |y| y.vpath()),
        Conv::new::<u::ClientJsonrpcResponse, u::ClientMessage>("ClientJsonrpcResponse", "ClientMessage", "Response", |y| y.vpath()),
        Conv::new::<s::ClientRequest, u::RequestFromClient>("ClientRequest", "RequestFromClient", "ClientRequest", |y| y.vpath()),
        Conv::new::<s::ClientResult, u::ResultFromClient>("ClientResult", "ResultFromClient", "ClientResult", |y| y.vpath()),
        Conv::new::<u::ServerJsonrpcNotification, u::ServerMessage>("ServerJsonrpcNotification", "ServerMessage", "Notification", |y| y.vpath()),
        Conv::new::<u::ServerJsonrpcRequest, u::ServerMessage>("ServerJsonrpcRequest", "ServerMessage", "Request", |y| y.vpath()),
        Conv::new::<u::ServerJsonrpcResponse, u::ServerMessage>("ServerJsonrpcResponse", "ServerMessage", "Response", |y| y.vpath()),
        Conv::new::<s::ServerRequest, u::RequestFromServer>("ServerRequest", "RequestFromServer", "ServerRequest", |y| y.vpath()),
        Conv::new::<s::ServerResult, u::ResultFromServer>("ServerResult", "ResultFromServer", "ServerResult", |y| y.vpath()),
        Conv::new::<u::RequestFromServer, u::MessageFromServer>("RequestFromServer", "MessageFromServer", "RequestFromServer", |y| y.vpath()),
        Conv::new::<u::ResultFromServer, u::MessageFromServer>("ResultFromServer", "MessageFromServer", "ResultFromServer", |y| y.vpath()),
        Conv::new::<u::NotificationFromServer, u::MessageFromServer>("NotificationFromServer", "MessageFromServer", "NotificationFromServer", |y| y.vpath()),
        Conv::new::<s::RpcError, u::MessageFromServer>("RpcError", "MessageFromServer", "Error", |y| y.vpath()),
        Conv::new::<u::RequestFromClient, u::MessageFromClient>("RequestFromClient", "MessageFromClient", "RequestFromClient", |y| y.vpath()),
        Conv::new::<u::ResultFromClient, u::MessageFromClient>("ResultFromClient", "MessageFromClient", "ResultFromClient", |y| y.vpath()),
        Conv::new::<u::NotificationFromClient, u::MessageFromClient>("NotificationFromClient", "MessageFromClient", "NotificationFromClient", |y| y.vpath()),
        Conv::new::<s::RpcError, u::MessageFromClient>("RpcError", "MessageFromClient", "Error", |y| y.vpath()),
        Conv::new::<u::ClientMessage, u::ClientMessages>("ClientMessage", "ClientMessages", "Single", |y| y.vpath()),
        Conv::new::<Vec<u::ClientMessage>, u::ClientMessages>("Vec<ClientMessage>", "ClientMessages", "Batch", |y| y.vpath()),
        Conv::new::<u::ServerMessage, u::ServerMessages>("ServerMessage", "ServerMessages", "Single", |y| y.vpath()),
        Conv::new::<Vec<u::ServerMessage>, u::ServerMessages>("Vec<ServerMessage>", "ServerMessages", "Batch", |y| y.vpath()),
        Conv::new::<s::InitializeRequest, u::RequestFromClient>("InitializeRequest", "RequestFromClient", "ClientRequest/InitializeRequest", |y| y.vpath()),
        Conv::new::<s::PingRequest, u::RequestFromClient>("PingRequest", "RequestFromClient", "ClientRequest/PingRequest", |y| y.vpath()),
        Conv::new::<s::ListResourcesRequest, u::RequestFromClient>("ListResourcesRequest", "RequestFromClient", "ClientRequest/ListResourcesRequest", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesRequest, u::RequestFromClient>("ListResourceTemplatesRequest", "RequestFromClient", "ClientRequest/ListResourceTemplatesRequest", |y| y.vpath()),
        Conv::new::<s::ReadResourceRequest, u::RequestFromClient>("ReadResourceRequest", "RequestFromClient", "ClientRequest/ReadResourceRequest", |y| y.vpath()),
        Conv::new::<s::SubscribeRequest, u::RequestFromClient>("SubscribeRequest", "RequestFromClient", "ClientRequest/SubscribeRequest", |y| y.vpath()),
        Conv::new::<s::UnsubscribeRequest, u::RequestFromClient>("UnsubscribeRequest", "RequestFromClient", "ClientRequest/UnsubscribeRequest", |y| y.vpath()),
        Conv::new::<s::ListPromptsRequest, u::RequestFromClient>("ListPromptsRequest", "RequestFromClient", "ClientRequest/ListPromptsRequest", |y| y.vpath()),
        Conv::new::<s::GetPromptRequest, u::RequestFromClient>("GetPromptRequest", "RequestFromClient", "ClientRequest/GetPromptRequest", |y| y.vpath()),
        Conv::new::<s::ListToolsRequest, u::RequestFromClient>("ListToolsRequest", "RequestFromClient", "ClientRequest/ListToolsRequest", |y| y.vpath()),
        Conv::new::<s::CallToolRequest, u::RequestFromClient>("CallToolRequest", "RequestFromClient", "ClientRequest/CallToolRequest", |y| y.vpath()),
        Conv::new::<s::SetLevelRequest, u::RequestFromClient>("SetLevelRequest", "RequestFromClient", "ClientRequest/SetLevelRequest", |y| y.vpath()),
        Conv::new::<s::CompleteRequest, u::RequestFromClient>("CompleteRequest", "RequestFromClient", "ClientRequest/CompleteRequest", |y| y.vpath()),
        Conv::new::<s::InitializeRequest, u::MessageFromClient>("InitializeRequest", "MessageFromClient", "RequestFromClient/ClientRequest/InitializeRequest", |y| y.vpath()),
        Conv::new::<s::PingRequest, u::MessageFromClient>("PingRequest", "MessageFromClient", "RequestFromClient/ClientRequest/PingRequest", |y| y.vpath()),
        Conv::new::<s::ListResourcesRequest, u::MessageFromClient>("ListResourcesRequest", "MessageFromClient", "RequestFromClient/ClientRequest/ListResourcesRequest", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesRequest, u::MessageFromClient>("ListResourceTemplatesRequest", "MessageFromClient", "RequestFromClient/ClientRequest/ListResourceTemplatesRequest", |y| y.vpath()),
        Conv::new::<s::ReadResourceRequest, u::MessageFromClient>("ReadResourceRequest", "MessageFromClient", "RequestFromClient/ClientRequest/ReadResourceRequest", |y| y.vpath()),
        Conv::new::<s::SubscribeRequest, u::MessageFromClient>("SubscribeRequest", "MessageFromClient", "RequestFromClient/ClientRequest/SubscribeRequest", |y| y.vpath()),
        Conv::new::<s::UnsubscribeRequest, u::MessageFromClient>("UnsubscribeRequest", "MessageFromClient", "RequestFromClient/ClientRequest/UnsubscribeRequest", |y| y.vpath()),
        Conv::new::<s::ListPromptsRequest, u::MessageFromClient>("ListPromptsRequest", "MessageFromClient", "RequestFromClient/ClientRequest/ListPromptsRequest", |y| y.vpath()),
        Conv::new::<s::GetPromptRequest, u::MessageFromClient>("GetPromptRequest", "MessageFromClient", "RequestFromClient/ClientRequest/GetPromptRequest", |y| y.vpath()),
        Conv::new::<s::ListToolsRequest, u::MessageFromClient>("ListToolsRequest", "MessageFromClient", "RequestFromClient/ClientRequest/ListToolsRequest", |y| y.vpath()),
        Conv::new::<s::CallToolRequest, u::MessageFromClient>("CallToolRequest", "MessageFromClient", "RequestFromClient/ClientRequest/CallToolRequest", |y| y.vpath()),
        Conv::new::<s::SetLevelRequest, u::MessageFromClient>("SetLevelRequest", "MessageFromClient", "RequestFromClient/ClientRequest/SetLevelRequest", |y| y.vpath()),
        Conv::new::<s::CompleteRequest, u::MessageFromClient>("CompleteRequest", "MessageFromClient", "RequestFromClient/ClientRequest/CompleteRequest", |y| y.vpath()),
        Conv::new::<s::CancelledNotification, u::NotificationFromClient>("CancelledNotification", "NotificationFromClient", "ClientNotification/CancelledNotification", |y| y.vpath()),
        Conv::new::<s::InitializedNotification, u::NotificationFromClient>("InitializedNotification", "NotificationFromClient", "ClientNotification/InitializedNotification", |y| y.vpath()),
        Conv::new::<s::ProgressNotification, u::NotificationFromClient>("ProgressNotification", "NotificationFromClient", "ClientNotification/ProgressNotification", |y| y.vpath()),
        Conv::new::<s::RootsListChangedNotification, u::NotificationFromClient>("RootsListChangedNotification", "NotificationFromClient", "ClientNotification/RootsListChangedNotification", |y| y.vpath()),
        Conv::new::<s::CancelledNotification, u::ClientJsonrpcNotification>("CancelledNotification", "ClientJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::InitializedNotification, u::ClientJsonrpcNotification>("InitializedNotification", "ClientJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::ProgressNotification, u::ClientJsonrpcNotification>("ProgressNotification", "ClientJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::RootsListChangedNotification, u::ClientJsonrpcNotification>("RootsListChangedNotification", "ClientJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::CancelledNotification, u::MessageFromClient>("CancelledNotification", "MessageFromClient", "NotificationFromClient/ClientNotification/CancelledNotification", |y| y.vpath()),
        Conv::new::<s::InitializedNotification, u::MessageFromClient>("InitializedNotification", "MessageFromClient", "NotificationFromClient/ClientNotification/InitializedNotification", |y| y.vpath()),
        Conv::new::<s::ProgressNotification, u::MessageFromClient>("ProgressNotification", "MessageFromClient", "NotificationFromClient/ClientNotification/ProgressNotification", |y| y.vpath()),
        Conv::new::<s::RootsListChangedNotification, u::MessageFromClient>("RootsListChangedNotification", "MessageFromClient", "NotificationFromClient/ClientNotification/RootsListChangedNotification", |y| y.vpath()),
        Conv::new::<s::Result, u::ResultFromClient>("Result", "ResultFromClient", "ClientResult/Result", |y| y.vpath()),
        Conv::new::<s::CreateMessageResult, u::ResultFromClient>("CreateMessageResult", "ResultFromClient", "ClientResult/CreateMessageResult", |y| y.vpath()),
        Conv::new::<s::ListRootsResult, u::ResultFromClient>("ListRootsResult", "ResultFromClient", "ClientResult/ListRootsResult", |y| y.vpath()),
        Conv::new::<s::ElicitResult, u::ResultFromClient>("ElicitResult", "ResultFromClient", "ClientResult/ElicitResult", |y| y.vpath()),
        Conv::new::<s::Result, u::MessageFromClient>("Result", "MessageFromClient", "ResultFromClient/ClientResult/Result", |y| y.vpath()),
        Conv::new::<s::CreateMessageResult, u::MessageFromClient>("CreateMessageResult", "MessageFromClient", "ResultFromClient/ClientResult/CreateMessageResult", |y| y.vpath()),
        Conv::new::<s::ListRootsResult, u::MessageFromClient>("ListRootsResult", "MessageFromClient", "ResultFromClient/ClientResult/ListRootsResult", |y| y.vpath()),
        Conv::new::<s::ElicitResult, u::MessageFromClient>("ElicitResult", "MessageFromClient", "ResultFromClient/ClientResult/ElicitResult", |y| y.vpath()),
        Conv::new::<s::CancelledNotification, u::NotificationFromServer>("CancelledNotification", "NotificationFromServer", "ServerNotification/CancelledNotification", |y| y.vpath()),
        Conv::new::<s::ProgressNotification, u::NotificationFromServer>("ProgressNotification", "NotificationFromServer", "ServerNotification/ProgressNotification", |y| y.vpath()),
        Conv::new::<s::ResourceListChangedNotification, u::NotificationFromServer>("ResourceListChangedNotification", "NotificationFromServer", "ServerNotification/ResourceListChangedNotification", |y| y.vpath()),
        Conv::new::<s::ResourceUpdatedNotification, u::NotificationFromServer>("ResourceUpdatedNotification", "NotificationFromServer", "ServerNotification/ResourceUpdatedNotification", |y| y.vpath()),
        Conv::new::<s::PromptListChangedNotification, u::NotificationFromServer>("PromptListChangedNotification", "NotificationFromServer", "ServerNotification/PromptListChangedNotification", |y| y.vpath()),
        Conv::new::<s::ToolListChangedNotification, u::NotificationFromServer>("ToolListChangedNotification", "NotificationFromServer", "ServerNotification/ToolListChangedNotification", |y| y.vpath()),
        Conv::new::<s::LoggingMessageNotification, u::NotificationFromServer>("LoggingMessageNotification", "NotificationFromServer", "ServerNotification/LoggingMessageNotification", |y| y.vpath()),
        Conv::new::<s::CancelledNotification, u::ServerJsonrpcNotification>("CancelledNotification", "ServerJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::ProgressNotification, u::ServerJsonrpcNotification>("ProgressNotification", "ServerJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::ResourceListChangedNotification, u::ServerJsonrpcNotification>("ResourceListChangedNotification", "ServerJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::ResourceUpdatedNotification, u::ServerJsonrpcNotification>("ResourceUpdatedNotification", "ServerJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::PromptListChangedNotification, u::ServerJsonrpcNotification>("PromptListChangedNotification", "ServerJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::ToolListChangedNotification, u::ServerJsonrpcNotification>("ToolListChangedNotification", "ServerJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::LoggingMessageNotification, u::ServerJsonrpcNotification>("LoggingMessageNotification", "ServerJsonrpcNotification", "", |_| String::new()),
        Conv::new::<s::CancelledNotification, u::MessageFromServer>("CancelledNotification", "MessageFromServer", "NotificationFromServer/ServerNotification/CancelledNotification", |y| y.vpath()),
        Conv::new::<s::ProgressNotification, u::MessageFromServer>("ProgressNotification", "MessageFromServer", "NotificationFromServer/ServerNotification/ProgressNotification", |y| y.vpath()),
        Conv::new::<s::ResourceListChangedNotification, u::MessageFromServer>("ResourceListChangedNotification", "MessageFromServer", "NotificationFromServer/ServerNotification/ResourceListChangedNotification", |y| y.vpath()),
        Conv::new::<s::ResourceUpdatedNotification, u::MessageFromServer>("ResourceUpdatedNotification", "MessageFromServer", "NotificationFromServer/ServerNotification/ResourceUpdatedNotification", |y| y.vpath()),
        Conv::new::<s::PromptListChangedNotification, u::MessageFromServer>("PromptListChangedNotification", "MessageFromServer", "NotificationFromServer/ServerNotification/PromptListChangedNotification", |y| y.vpath()),
        Conv::new::<s::ToolListChangedNotification, u::MessageFromServer>("ToolListChangedNotification", "MessageFromServer", "NotificationFromServer/ServerNotification/ToolListChangedNotification", |y| y.vpath()),
        Conv::new::<s::LoggingMessageNotification, u::MessageFromServer>("LoggingMessageNotification", "MessageFromServer", "NotificationFromServer/ServerNotification/LoggingMessageNotification", |y| y.vpath()),
        Conv::new::<s::PingRequest, u::RequestFromServer>("PingRequest", "RequestFromServer", "ServerRequest/PingRequest", |y| y.vpath()),
        Conv::new::<s::CreateMessageRequest, u::RequestFromServer>("CreateMessageRequest", "RequestFromServer", "ServerRequest/CreateMessageRequest", |y| y.vpath()),
        Conv::new::<s::ListRootsRequest, u::RequestFromServer>("ListRootsRequest", "RequestFromServer", "ServerRequest/ListRootsRequest", |y| y.vpath()),
        Conv::new::<s::ElicitRequest, u::RequestFromServer>("ElicitRequest", "RequestFromServer", "ServerRequest/ElicitRequest", |y| y.vpath()),
        Conv::new::<s::PingRequest, u::MessageFromServer>("PingRequest", "MessageFromServer", "RequestFromServer/ServerRequest/PingRequest", |y| y.vpath()),
        Conv::new::<s::CreateMessageRequest, u::MessageFromServer>("CreateMessageRequest", "MessageFromServer", "RequestFromServer/ServerRequest/CreateMessageRequest", |y| y.vpath()),
        Conv::new::<s::ListRootsRequest, u::MessageFromServer>("ListRootsRequest", "MessageFromServer", "RequestFromServer/ServerRequest/ListRootsRequest", |y| y.vpath()),
        Conv::new::<s::ElicitRequest, u::MessageFromServer>("ElicitRequest", "MessageFromServer", "RequestFromServer/ServerRequest/ElicitRequest", |y| y.vpath()),
        Conv::new::<s::Result, u::ResultFromServer>("Result", "ResultFromServer", "ServerResult/Result", |y| y.vpath()),
        Conv::new::<s::InitializeResult, u::ResultFromServer>("InitializeResult", "ResultFromServer", "ServerResult/InitializeResult", |y| y.vpath()),
        Conv::new::<s::ListResourcesResult, u::ResultFromServer>("ListResourcesResult", "ResultFromServer", "ServerResult/ListResourcesResult", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesResult, u::ResultFromServer>("ListResourceTemplatesResult", "ResultFromServer", "ServerResult/ListResourceTemplatesResult", |y| y.vpath()),
        Conv::new::<s::ReadResourceResult, u::ResultFromServer>("ReadResourceResult", "ResultFromServer", "ServerResult/ReadResourceResult", |y| y.vpath()),
        Conv::new::<s::ListPromptsResult, u::ResultFromServer>("ListPromptsResult", "ResultFromServer", "ServerResult/ListPromptsResult", |y| y.vpath()),
        Conv::new::<s::GetPromptResult, u::ResultFromServer>("GetPromptResult", "ResultFromServer", "ServerResult/GetPromptResult", |y| y.vpath()),
        Conv::new::<s::ListToolsResult, u::ResultFromServer>("ListToolsResult", "ResultFromServer", "ServerResult/ListToolsResult", |y| y.vpath()),
        Conv::new::<s::CallToolResult, u::ResultFromServer>("CallToolResult", "ResultFromServer", "ServerResult/CallToolResult", |y| y.vpath()),
        Conv::new::<s::CompleteResult, u::ResultFromServer>("CompleteResult", "ResultFromServer", "ServerResult/CompleteResult", |y| y.vpath()),
        Conv::new::<s::Result, u::MessageFromServer>("Result", "MessageFromServer", "ResultFromServer/ServerResult/Result", |y| y.vpath()),
        Conv::new::<s::InitializeResult, u::MessageFromServer>("InitializeResult", "MessageFromServer", "ResultFromServer/ServerResult/InitializeResult", |y| y.vpath()),
        Conv::new::<s::ListResourcesResult, u::MessageFromServer>("ListResourcesResult", "MessageFromServer", "ResultFromServer/ServerResult/ListResourcesResult", |y| y.vpath()),
        Conv::new::<s::ListResourceTemplatesResult, u::MessageFromServer>("ListResourceTemplatesResult", "MessageFromServer", "ResultFromServer/ServerResult/ListResourceTemplatesResult", |y| y.vpath()),
        Conv::new::<s::ReadResourceResult, u::MessageFromServer>("ReadResourceResult", "MessageFromServer", "ResultFromServer/ServerResult/ReadResourceResult", |y| y.vpath()),
        Conv::new::<s::ListPromptsResult, u::MessageFromServer>("ListPromptsResult", "MessageFromServer", "ResultFromServer/ServerResult/ListPromptsResult", |y| y.vpath()),
        Conv::new::<s::GetPromptResult, u::MessageFromServer>("GetPromptResult", "MessageFromServer", "ResultFromServer/ServerResult/GetPromptResult", |y| y.vpath()),
        Conv::new::<s::ListToolsResult, u::MessageFromServer>("ListToolsResult", "MessageFromServer", "ResultFromServer/ServerResult/ListToolsResult", |y| y.vpath()),
        Conv::new::<s::CallToolResult, u::MessageFromServer>("CallToolResult", "MessageFromServer", "ResultFromServer/ServerResult/CallToolResult", |y| y.vpath()),
        Conv::new::<s::CompleteResult, u::MessageFromServer>("CompleteResult", "MessageFromServer", "ResultFromServer/ServerResult/CompleteResult", |y| y.vpath()),
    ]
}

pub fn trys() -> Vec<TryConv> {
    vec![
        TryConv::new::<u::RequestFromClient, s::ClientRequest>("RequestFromClient", "ClientRequest", "ClientRequest", |y| y.vpath()),
        TryConv::new::<u::NotificationFromClient, s::ClientNotification>("NotificationFromClient", "ClientNotification", "ClientNotification", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::ClientResult>("ResultFromClient", "ClientResult", "ClientResult", |y| y.vpath()),
        TryConv::new::<u::RequestFromServer, s::ServerRequest>("RequestFromServer", "ServerRequest", "ServerRequest", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::ServerNotification>("NotificationFromServer", "ServerNotification", "ServerNotification", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::ServerResult>("ResultFromServer", "ServerResult", "ServerResult", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::InitializeRequest>("RequestFromClient", "InitializeRequest", "ClientRequest/InitializeRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::PingRequest>("RequestFromClient", "PingRequest", "ClientRequest/PingRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::ListResourcesRequest>("RequestFromClient", "ListResourcesRequest", "ClientRequest/ListResourcesRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::ListResourceTemplatesRequest>("RequestFromClient", "ListResourceTemplatesRequest", "ClientRequest/ListResourceTemplatesRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::ReadResourceRequest>("RequestFromClient", "ReadResourceRequest", "ClientRequest/ReadResourceRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::SubscribeRequest>("RequestFromClient", "SubscribeRequest", "ClientRequest/SubscribeRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::UnsubscribeRequest>("RequestFromClient", "UnsubscribeRequest", "ClientRequest/UnsubscribeRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::ListPromptsRequest>("RequestFromClient", "ListPromptsRequest", "ClientRequest/ListPromptsRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::GetPromptRequest>("RequestFromClient", "GetPromptRequest", "ClientRequest/GetPromptRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::ListToolsRequest>("RequestFromClient", "ListToolsRequest", "ClientRequest/ListToolsRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::CallToolRequest>("RequestFromClient", "CallToolRequest", "ClientRequest/CallToolRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::SetLevelRequest>("RequestFromClient", "SetLevelRequest", "ClientRequest/SetLevelRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromClient, s::CompleteRequest>("RequestFromClient", "CompleteRequest", "ClientRequest/CompleteRequest", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::Result>("ResultFromClient", "Result", "ClientResult/Result", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::CreateMessageResult>("ResultFromClient", "CreateMessageResult", "ClientResult/CreateMessageResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::ListRootsResult>("ResultFromClient", "ListRootsResult", "ClientResult/ListRootsResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromClient, s::ElicitResult>("ResultFromClient", "ElicitResult", "ClientResult/ElicitResult", |y| y.vpath()),
        TryConv::new::<u::NotificationFromClient, s::CancelledNotification>("NotificationFromClient", "CancelledNotification", "ClientNotification/CancelledNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromClient, s::InitializedNotification>("NotificationFromClient", "InitializedNotification", "ClientNotification/InitializedNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromClient, s::ProgressNotification>("NotificationFromClient", "ProgressNotification", "ClientNotification/ProgressNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromClient, s::RootsListChangedNotification>("NotificationFromClient", "RootsListChangedNotification", "ClientNotification/RootsListChangedNotification", |y| y.vpath()),
        TryConv::new::<u::RequestFromServer, s::PingRequest>("RequestFromServer", "PingRequest", "ServerRequest/PingRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromServer, s::CreateMessageRequest>("RequestFromServer", "CreateMessageRequest", "ServerRequest/CreateMessageRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromServer, s::ListRootsRequest>("RequestFromServer", "ListRootsRequest", "ServerRequest/ListRootsRequest", |y| y.vpath()),
        TryConv::new::<u::RequestFromServer, s::ElicitRequest>("RequestFromServer", "ElicitRequest", "ServerRequest/ElicitRequest", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::Result>("ResultFromServer", "Result", "ServerResult/Result", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::InitializeResult>("ResultFromServer", "InitializeResult", "ServerResult/InitializeResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::ListResourcesResult>("ResultFromServer", "ListResourcesResult", "ServerResult/ListResourcesResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::ListResourceTemplatesResult>("ResultFromServer", "ListResourceTemplatesResult", "ServerResult/ListResourceTemplatesResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::ReadResourceResult>("ResultFromServer", "ReadResourceResult", "ServerResult/ReadResourceResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::ListPromptsResult>("ResultFromServer", "ListPromptsResult", "ServerResult/ListPromptsResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::GetPromptResult>("ResultFromServer", "GetPromptResult", "ServerResult/GetPromptResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::ListToolsResult>("ResultFromServer", "ListToolsResult", "ServerResult/ListToolsResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::CallToolResult>("ResultFromServer", "CallToolResult", "ServerResult/CallToolResult", |y| y.vpath()),
        TryConv::new::<u::ResultFromServer, s::CompleteResult>("ResultFromServer", "CompleteResult", "ServerResult/CompleteResult", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::CancelledNotification>("NotificationFromServer", "CancelledNotification", "ServerNotification/CancelledNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::ProgressNotification>("NotificationFromServer", "ProgressNotification", "ServerNotification/ProgressNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::ResourceListChangedNotification>("NotificationFromServer", "ResourceListChangedNotification", "ServerNotification/ResourceListChangedNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::ResourceUpdatedNotification>("NotificationFromServer", "ResourceUpdatedNotification", "ServerNotification/ResourceUpdatedNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::PromptListChangedNotification>("NotificationFromServer", "PromptListChangedNotification", "ServerNotification/PromptListChangedNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::ToolListChangedNotification>("NotificationFromServer", "ToolListChangedNotification", "ServerNotification/ToolListChangedNotification", |y| y.vpath()),
        TryConv::new::<u::NotificationFromServer, s::LoggingMessageNotification>("NotificationFromServer", "LoggingMessageNotification", "ServerNotification/LoggingMessageNotification", |y| y.vpath()),
    ]
}

pub fn tomsgs() -> Vec<ToMsg> {
    vec![
        ToMsg::new::<s::InitializeRequest, u::ClientMessage>("InitializeRequest", "ClientMessage", "req", Some(|x: s::InitializeRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::PingRequest, u::ClientMessage>("PingRequest", "ClientMessage", "req", Some(|x: s::PingRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ListResourcesRequest, u::ClientMessage>("ListResourcesRequest", "ClientMessage", "req", Some(|x: s::ListResourcesRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ListResourceTemplatesRequest, u::ClientMessage>("ListResourceTemplatesRequest", "ClientMessage", "req", Some(|x: s::ListResourceTemplatesRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ReadResourceRequest, u::ClientMessage>("ReadResourceRequest", "ClientMessage", "req", Some(|x: s::ReadResourceRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::SubscribeRequest, u::ClientMessage>("SubscribeRequest", "ClientMessage", "req", Some(|x: s::SubscribeRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::UnsubscribeRequest, u::ClientMessage>("UnsubscribeRequest", "ClientMessage", "req", Some(|x: s::UnsubscribeRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ListPromptsRequest, u::ClientMessage>("ListPromptsRequest", "ClientMessage", "req", Some(|x: s::ListPromptsRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::GetPromptRequest, u::ClientMessage>("GetPromptRequest", "ClientMessage", "req", Some(|x: s::GetPromptRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ListToolsRequest, u::ClientMessage>("ListToolsRequest", "ClientMessage", "req", Some(|x: s::ListToolsRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::CallToolRequest, u::ClientMessage>("CallToolRequest", "ClientMessage", "req", Some(|x: s::CallToolRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::SetLevelRequest, u::ClientMessage>("SetLevelRequest", "ClientMessage", "req", Some(|x: s::SetLevelRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::CompleteRequest, u::ClientMessage>("CompleteRequest", "ClientMessage", "req", Some(|x: s::CompleteRequest, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::Result, u::ClientMessage>("Result", "ClientMessage", "res", Some(|x: s::Result, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::CreateMessageResult, u::ClientMessage>("CreateMessageResult", "ClientMessage", "res", Some(|x: s::CreateMessageResult, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ListRootsResult, u::ClientMessage>("ListRootsResult", "ClientMessage", "res", Some(|x: s::ListRootsResult, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ElicitResult, u::ClientMessage>("ElicitResult", "ClientMessage", "res", Some(|x: s::ElicitResult, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::CancelledNotification, u::ClientMessage>("CancelledNotification", "ClientMessage", "not", Some(|x: s::CancelledNotification, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::InitializedNotification, u::ClientMessage>("InitializedNotification", "ClientMessage", "not", Some(|x: s::InitializedNotification, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::ProgressNotification, u::ClientMessage>("ProgressNotification", "ClientMessage", "not", Some(|x: s::ProgressNotification, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::RootsListChangedNotification, u::ClientMessage>("RootsListChangedNotification", "ClientMessage", "not", Some(|x: s::RootsListChangedNotification, id| u::ToMessage::<u::ClientMessage>::to_message(x, id))),
        ToMsg::new::<s::PingRequest, u::ServerMessage>("PingRequest", "ServerMessage", "req", Some(|x: s::PingRequest, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::CreateMessageRequest, u::ServerMessage>("CreateMessageRequest", "ServerMessage", "req", Some(|x: s::CreateMessageRequest, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ListRootsRequest, u::ServerMessage>("ListRootsRequest", "ServerMessage", "req", Some(|x: s::ListRootsRequest, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ElicitRequest, u::ServerMessage>("ElicitRequest", "ServerMessage", "req", Some(|x: s::ElicitRequest, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::Result, u::ServerMessage>("Result", "ServerMessage", "res", Some(|x: s::Result, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::InitializeResult, u::ServerMessage>("InitializeResult", "ServerMessage", "res", Some(|x: s::InitializeResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ListResourcesResult, u::ServerMessage>("ListResourcesResult", "ServerMessage", "res", Some(|x: s::ListResourcesResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ListResourceTemplatesResult, u::ServerMessage>("ListResourceTemplatesResult", "ServerMessage", "res", Some(|x: s::ListResourceTemplatesResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ReadResourceResult, u::ServerMessage>("ReadResourceResult", "ServerMessage", "res", Some(|x: s::ReadResourceResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ListPromptsResult, u::ServerMessage>("ListPromptsResult", "ServerMessage", "res", Some(|x: s::ListPromptsResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::GetPromptResult, u::ServerMessage>("GetPromptResult", "ServerMessage", "res", Some(|x: s::GetPromptResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ListToolsResult, u::ServerMessage>("ListToolsResult", "ServerMessage", "res", Some(|x: s::ListToolsResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::CallToolResult, u::ServerMessage>("CallToolResult", "ServerMessage", "res", Some(|x: s::CallToolResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::CompleteResult, u::ServerMessage>("CompleteResult", "ServerMessage", "res", Some(|x: s::CompleteResult, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::CancelledNotification, u::ServerMessage>("CancelledNotification", "ServerMessage", "not", Some(|x: s::CancelledNotification, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ProgressNotification, u::ServerMessage>("ProgressNotification", "ServerMessage", "not", Some(|x: s::ProgressNotification, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ResourceListChangedNotification, u::ServerMessage>("ResourceListChangedNotification", "ServerMessage", "not", Some(|x: s::ResourceListChangedNotification, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ResourceUpdatedNotification, u::ServerMessage>("ResourceUpdatedNotification", "ServerMessage", "not", Some(|x: s::ResourceUpdatedNotification, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::PromptListChangedNotification, u::ServerMessage>("PromptListChangedNotification", "ServerMessage", "not", Some(|x: s::PromptListChangedNotification, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::ToolListChangedNotification, u::ServerMessage>("ToolListChangedNotification", "ServerMessage", "not", Some(|x: s::ToolListChangedNotification, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
        ToMsg::new::<s::LoggingMessageNotification, u::ServerMessage>("LoggingMessageNotification", "ServerMessage", "not", Some(|x: s::LoggingMessageNotification, id| u::ToMessage::<u::ServerMessage>::to_message(x, id))),
    ]
}

pub fn news() -> Vec<New> {
    vec![
        New::new::<s::AudioContent>("AudioContent", &[], |x| s::AudioContent::new(x.data.clone(), x.mime_type.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::BooleanSchema>("BooleanSchema", &[], |x| s::BooleanSchema::new(x.default.clone(), x.description.clone(), x.title.clone())),
        New::new::<s::CallToolRequest>("CallToolRequest", &[], |x| s::CallToolRequest::new(x.params.clone())),
        New::new::<s::CancelledNotification>("CancelledNotification", &[], |x| s::CancelledNotification::new(x.params.clone())),
        New::new::<s::CompleteRequest>("CompleteRequest", &[], |x| s::CompleteRequest::new(x.params.clone())),
        New::new::<s::CreateMessageRequest>("CreateMessageRequest", &[], |x| s::CreateMessageRequest::new(x.params.clone())),
        New::new::<s::ElicitRequest>("ElicitRequest", &[], |x| s::ElicitRequest::new(x.params.clone())),
        New::new::<s::ElicitRequestedSchema>("ElicitRequestedSchema", &[], |x| s::ElicitRequestedSchema::new(x.properties.clone(), x.required.clone())),
        New::new::<s::EmbeddedResource>("EmbeddedResource", &[], |x| s::EmbeddedResource::new(x.resource.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::EnumSchema>("EnumSchema", &[], |x| s::EnumSchema::new(x.enum_.clone(), x.enum_names.clone(), x.description.clone(), x.title.clone())),
        New::new::<s::GetPromptRequest>("GetPromptRequest", &[], |x| s::GetPromptRequest::new(x.params.clone())),
        New::new::<s::ImageContent>("ImageContent", &[], |x| s::ImageContent::new(x.data.clone(), x.mime_type.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::InitializeRequest>("InitializeRequest", &[], |x| s::InitializeRequest::new(x.params.clone())),
        New::new::<s::InitializedNotification>("InitializedNotification", &[], |x| s::InitializedNotification::new(x.params.clone())),
        New::new::<s::JsonrpcError>("JsonrpcError", &[], |x| s::JsonrpcError::new(x.error.clone(), x.id.clone())),
        New::new::<s::JsonrpcNotification>("JsonrpcNotification", &[], |x| s::JsonrpcNotification::new(x.method.clone(), x.params.clone())),
        New::new::<s::JsonrpcRequest>("JsonrpcRequest", &[], |x| s::JsonrpcRequest::new(x.id.clone(), x.method.clone(), x.params.clone())),
        New::new::<s::JsonrpcResponse>("JsonrpcResponse", &[], |x| s::JsonrpcResponse::new(x.id.clone(), x.result.clone())),
        New::new::<s::ListPromptsRequest>("ListPromptsRequest", &[], |x| s::ListPromptsRequest::new(x.params.clone())),
        New::new::<s::ListResourceTemplatesRequest>("ListResourceTemplatesRequest", &[], |x| s::ListResourceTemplatesRequest::new(x.params.clone())),
        New::new::<s::ListResourcesRequest>("ListResourcesRequest", &[], |x| s::ListResourcesRequest::new(x.params.clone())),
        New::new::<s::ListRootsRequest>("ListRootsRequest", &[], |x| s::ListRootsRequest::new(x.params.clone())),
        New::new::<s::ListToolsRequest>("ListToolsRequest", &[], |x| s::ListToolsRequest::new(x.params.clone())),
        New::new::<s::LoggingMessageNotification>("LoggingMessageNotification", &[], |x| s::LoggingMessageNotification::new(x.params.clone())),
        New::new::<s::PingRequest>("PingRequest", &[], |x| s::PingRequest::new(x.params.clone())),
        New::new::<s::ProgressNotification>("ProgressNotification", &[], |x| s::ProgressNotification::new(x.params.clone())),
        New::new::<s::PromptListChangedNotification>("PromptListChangedNotification", &[], |x| s::PromptListChangedNotification::new(x.params.clone())),
        New::new::<s::PromptReference>("PromptReference", &[], |x| s::PromptReference::new(x.name.clone(), x.title.clone())),
        New::new::<s::ReadResourceRequest>("ReadResourceRequest", &[], |x| s::ReadResourceRequest::new(x.params.clone())),
        New::new::<s::ResourceLink>("ResourceLink", &[], |x| s::ResourceLink::new(x.name.clone(), x.uri.clone(), x.annotations.clone(), x.description.clone(), x.meta.clone(), x.mime_type.clone(), x.size.clone(), x.title.clone())),
        New::new::<s::ResourceListChangedNotification>("ResourceListChangedNotification", &[], |x| s::ResourceListChangedNotification::new(x.params.clone())),
        New::new::<s::ResourceTemplateReference>("ResourceTemplateReference", &[], |x| s::ResourceTemplateReference::new(x.uri.clone())),
        New::new::<s::ResourceUpdatedNotification>("ResourceUpdatedNotification", &[], |x| s::ResourceUpdatedNotification::new(x.params.clone())),
        New::new::<s::RootsListChangedNotification>("RootsListChangedNotification", &[], |x| s::RootsListChangedNotification::new(x.params.clone())),
        New::new::<s::SetLevelRequest>("SetLevelRequest", &[], |x| s::SetLevelRequest::new(x.params.clone())),
        New::new::<s::StringSchema>("StringSchema", &[], |x| s::StringSchema::new(x.description.clone(), x.format.clone(), x.max_length.clone(), x.min_length.clone(), x.title.clone())),
        New::new::<s::SubscribeRequest>("SubscribeRequest", &[], |x| s::SubscribeRequest::new(x.params.clone())),
        New::new::<s::TextContent>("TextContent", &[], |x| s::TextContent::new(x.text.clone(), x.annotations.clone(), x.meta.clone())),
        New::new::<s::ToolInputSchema>("ToolInputSchema", &[], |x| s::ToolInputSchema::new(x.required.clone(), x.properties.clone())),
        New::new::<s::ToolListChangedNotification>("ToolListChangedNotification", &[], |x| s::ToolListChangedNotification::new(x.params.clone())),
        New::new::<s::ToolOutputSchema>("ToolOutputSchema", &[], |x| s::ToolOutputSchema::new(x.required.clone(), x.properties.clone())),
        New::new::<s::UnsubscribeRequest>("UnsubscribeRequest", &[], |x| s::UnsubscribeRequest::new(x.params.clone())),
    ]
}

#[allow(deprecated)]
pub fn getters() -> Vec<Getter> {
    vec![
        Getter::new::<s::AudioContent>("AudioContent", "type", |x| json!(x.type_()), || vec![json!(s::AudioContent::type_value()), json!(s::AudioContent::type_name())]),
        Getter::new::<s::BooleanSchema>("BooleanSchema", "type", |x| json!(x.type_()), || vec![json!(s::BooleanSchema::type_value()), json!(s::BooleanSchema::type_name())]),
        Getter::new::<s::CallToolRequest>("CallToolRequest", "method", |x| json!(x.method()), || vec![json!(s::CallToolRequest::method_value()), json!(s::CallToolRequest::method_name())]),
        Getter::new::<s::CancelledNotification>("CancelledNotification", "method", |x| json!(x.method()), || vec![json!(s::CancelledNotification::method_value()), json!(s::CancelledNotification::method_name())]),
        Getter::new::<s::CompleteRequest>("CompleteRequest", "method", |x| json!(x.method()), || vec![json!(s::CompleteRequest::method_value()), json!(s::CompleteRequest::method_name())]),
        Getter::new::<s::CreateMessageRequest>("CreateMessageRequest", "method", |x| json!(x.method()), || vec![json!(s::CreateMessageRequest::method_value()), json!(s::CreateMessageRequest::method_name())]),
        Getter::new::<s::ElicitRequest>("ElicitRequest", "method", |x| json!(x.method()), || vec![json!(s::ElicitRequest::method_value()), json!(s::ElicitRequest::method_name())]),
        Getter::new::<s::ElicitRequestedSchema>("ElicitRequestedSchema", "type", |x| json!(x.type_()), || vec![json!(s::ElicitRequestedSchema::type_value()), json!(s::ElicitRequestedSchema::type_name())]),
        Getter::new::<s::EmbeddedResource>("EmbeddedResource", "type", |x| json!(x.type_()), || vec![json!(s::EmbeddedResource::type_value()), json!(s::EmbeddedResource::type_name())]),
        Getter::new::<s::EnumSchema>("EnumSchema", "type", |x| json!(x.type_()), || vec![json!(s::EnumSchema::type_value()), json!(s::EnumSchema::type_name())]),
        Getter::new::<s::GetPromptRequest>("GetPromptRequest", "method", |x| json!(x.method()), || vec![json!(s::GetPromptRequest::method_value()), json!(s::GetPromptRequest::method_name())]),
        Getter::new::<s::ImageContent>("ImageContent", "type", |x| json!(x.type_()), || vec![json!(s::ImageContent::type_value()), json!(s::ImageContent::type_name())]),
        Getter::new::<s::InitializeRequest>("InitializeRequest", "method", |x| json!(x.method()), || vec![json!(s::InitializeRequest::method_value()), json!(s::InitializeRequest::method_name())]),
        Getter::new::<s::InitializedNotification>("InitializedNotification", "method", |x| json!(x.method()), || vec![json!(s::InitializedNotification::method_value()), json!(s::InitializedNotification::method_name())]),
        Getter::new::<s::JsonrpcError>("JsonrpcError", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::JsonrpcNotification>("JsonrpcNotification", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::JsonrpcRequest>("JsonrpcRequest", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::JsonrpcResponse>("JsonrpcResponse", "jsonrpc", |x| json!(x.jsonrpc()), || vec![]),
        Getter::new::<s::ListPromptsRequest>("ListPromptsRequest", "method", |x| json!(x.method()), || vec![json!(s::ListPromptsRequest::method_value()), json!(s::ListPromptsRequest::method_name())]),
        Getter::new::<s::ListResourceTemplatesRequest>("ListResourceTemplatesRequest", "method", |x| json!(x.method()), || vec![json!(s::ListResourceTemplatesRequest::method_value()), json!(s::ListResourceTemplatesRequest::method_name())]),
        Getter::new::<s::ListResourcesRequest>("ListResourcesRequest", "method", |x| json!(x.method()), || vec![json!(s::ListResourcesRequest::method_value()), json!(s::ListResourcesRequest::method_name())]),
        Getter::new::<s::ListRootsRequest>("ListRootsRequest", "method", |x| json!(x.method()), || vec![json!(s::ListRootsRequest::method_value()), json!(s::ListRootsRequest::method_name())]),
        Getter::new::<s::ListToolsRequest>("ListToolsRequest", "method", |x| json!(x.method()), || vec![json!(s::ListToolsRequest::method_value()), json!(s::ListToolsRequest::method_name())]),
        Getter::new::<s::LoggingMessageNotification>("LoggingMessageNotification", "method", |x| json!(x.method()), || vec![json!(s::LoggingMessageNotification::method_value()), json!(s::LoggingMessageNotification::method_name())]),
        Getter::new::<s::PingRequest>("PingRequest", "method", |x| json!(x.method()), || vec![json!(s::PingRequest::method_value()), json!(s::PingRequest::method_name())]),
        Getter::new::<s::ProgressNotification>("ProgressNotification", "method", |x| json!(x.method()), || vec![json!(s::ProgressNotification::method_value()), json!(s::ProgressNotification::method_name())]),
        Getter::new::<s::PromptListChangedNotification>("PromptListChangedNotification", "method", |x| json!(x.method()), || vec![json!(s::PromptListChangedNotification::method_value()), json!(s::PromptListChangedNotification::method_name())]),
        Getter::new::<s::PromptReference>("PromptReference", "type", |x| json!(x.type_()), || vec![json!(s::PromptReference::type_value()), json!(s::PromptReference::type_name())]),
        Getter::new::<s::ReadResourceRequest>("ReadResourceRequest", "method", |x| json!(x.method()), || vec![json!(s::ReadResourceRequest::method_value()), json!(s::ReadResourceRequest::method_name())]),
        Getter::new::<s::ResourceLink>("ResourceLink", "type", |x| json!(x.type_()), || vec![json!(s::ResourceLink::type_value()), json!(s::ResourceLink::type_name())]),
        Getter::new::<s::ResourceListChangedNotification>("ResourceListChangedNotification", "method", |x| json!(x.method()), || vec![json!(s::ResourceListChangedNotification::method_value()), json!(s::ResourceListChangedNotification::method_name())]),
        Getter::new::<s::ResourceTemplateReference>("ResourceTemplateReference", "type", |x| json!(x.type_()), || vec![json!(s::ResourceTemplateReference::type_value()), json!(s::ResourceTemplateReference::type_name())]),
        Getter::new::<s::ResourceUpdatedNotification>("ResourceUpdatedNotification", "method", |x| json!(x.method()), || vec![json!(s::ResourceUpdatedNotification::method_value()), json!(s::ResourceUpdatedNotification::method_name())]),
        Getter::new::<s::RootsListChangedNotification>("RootsListChangedNotification", "method", |x| json!(x.method()), || vec![json!(s::RootsListChangedNotification::method_value()), json!(s::RootsListChangedNotification::method_name())]),
        Getter::new::<s::SetLevelRequest>("SetLevelRequest", "method", |x| json!(x.method()), || vec![json!(s::SetLevelRequest::method_value()), json!(s::SetLevelRequest::method_name())]),
        Getter::new::<s::StringSchema>("StringSchema", "type", |x| json!(x.type_()), || vec![json!(s::StringSchema::type_value()), json!(s::StringSchema::type_name())]),
        Getter::new::<s::SubscribeRequest>("SubscribeRequest", "method", |x| json!(x.method()), || vec![json!(s::SubscribeRequest::method_value()), json!(s::SubscribeRequest::method_name())]),
        Getter::new::<s::TextContent>("TextContent", "type", |x| json!(x.type_()), || vec![json!(s::TextContent::type_value()), json!(s::TextContent::type_name())]),
        Getter::new::<s::ToolInputSchema>("ToolInputSchema", "type", |x| json!(x.type_()), || vec![json!(s::ToolInputSchema::type_value()), json!(s::ToolInputSchema::type_name())]),
        Getter::new::<s::ToolListChangedNotification>("ToolListChangedNotification", "method", |x| json!(x.method()), || vec![json!(s::ToolListChangedNotification::method_value()), json!(s::ToolListChangedNotification::method_name())]),
        Getter::new::<s::ToolOutputSchema>("ToolOutputSchema", "type", |x| json!(x.type_()), || vec![json!(s::ToolOutputSchema::type_value()), json!(s::ToolOutputSchema::type_name())]),
        Getter::new::<s::UnsubscribeRequest>("UnsubscribeRequest", "method", |x| json!(x.method()), || vec![json!(s::UnsubscribeRequest::method_value()), json!(s::UnsubscribeRequest::method_name())]),
        Getter::new::<s::ClientRequest>("ClientRequest", "method", |x| json!(x.method()), || vec![]),
        Getter::new::<s::ClientNotification>("ClientNotification", "method", |x| json!(x.method()), || vec![]),
        Getter::new::<s::ServerRequest>("ServerRequest", "method", |x| json!(x.method()), || vec![]),
        Getter::new::<s::ServerNotification>("ServerNotification", "method", |x| json!(x.method()), || vec![]),
    ]
}

pub fn defaults() -> Vec<(&'static str, fn() -> serde_json::Value)> {
    vec![
        ("Annotations", || json!(s::Annotations::default())),
        ("ClientCapabilities", || json!(s::ClientCapabilities::default())),
        ("ClientRoots", || json!(s::ClientRoots::default())),
        ("CompleteRequestContext", || json!(s::CompleteRequestContext::default())),
        ("InitializedNotificationParams", || json!(s::InitializedNotificationParams::default())),
        ("JsonrpcNotificationParams", || json!(s::JsonrpcNotificationParams::default())),
        ("JsonrpcRequestParams", || json!(s::JsonrpcRequestParams::default())),
        ("JsonrpcRequestParamsMeta", || json!(s::JsonrpcRequestParamsMeta::default())),
        ("ListPromptsRequestParams", || json!(s::ListPromptsRequestParams::default())),
        ("ListResourceTemplatesRequestParams", || json!(s::ListResourceTemplatesRequestParams::default())),
        ("ListResourcesRequestParams", || json!(s::ListResourcesRequestParams::default())),
        ("ListRootsRequestParams", || json!(s::ListRootsRequestParams::default())),
        ("ListRootsRequestParamsMeta", || json!(s::ListRootsRequestParamsMeta::default())),
        ("ListToolsRequestParams", || json!(s::ListToolsRequestParams::default())),
        ("ModelHint", || json!(s::ModelHint::default())),
        ("ModelPreferences", || json!(s::ModelPreferences::default())),
        ("NotificationParams", || json!(s::NotificationParams::default())),
        ("PaginatedRequestParams", || json!(s::PaginatedRequestParams::default())),
        ("PaginatedResult", || json!(s::PaginatedResult::default())),
        ("PingRequestParams", || json!(s::PingRequestParams::default())),
        ("PingRequestParamsMeta", || json!(s::PingRequestParamsMeta::default())),
        ("PromptListChangedNotificationParams", || json!(s::PromptListChangedNotificationParams::default())),
        ("RequestParams", || json!(s::RequestParams::default())),
        ("RequestParamsMeta", || json!(s::RequestParamsMeta::default())),
        ("ResourceListChangedNotificationParams", || json!(s::ResourceListChangedNotificationParams::default())),
        ("Result", || json!(s::Result::default())),
        ("RootsListChangedNotificationParams", || json!(s::RootsListChangedNotificationParams::default())),
        ("ServerCapabilities", || json!(s::ServerCapabilities::default())),
        ("ServerCapabilitiesPrompts", || json!(s::ServerCapabilitiesPrompts::default())),
        ("ServerCapabilitiesResources", || json!(s::ServerCapabilitiesResources::default())),
        ("ServerCapabilitiesTools", || json!(s::ServerCapabilitiesTools::default())),
        ("ToolAnnotations", || json!(s::ToolAnnotations::default())),
        ("ToolListChangedNotificationParams", || json!(s::ToolListChangedNotificationParams::default())),
    ]
}

pub fn printers() -> Vec<Printer> {
    vec![
        Printer::new::<s::ElicitResultAction>("ElicitResultAction", None),
        Printer::new::<s::IncludeContext>("IncludeContext", None),
        Printer::new::<s::LoggingLevel>("LoggingLevel", None),
        Printer::new::<s::NumberSchemaType>("NumberSchemaType", None),
        Printer::new::<s::Role>("Role", None),
        Printer::new::<s::StringSchemaFormat>("StringSchemaFormat", Some(|t: &str| t.parse::<s::StringSchemaFormat>().ok())),
    ]
}
