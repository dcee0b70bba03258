// generated by tools/gen_fields.py at authoring time; committed; not regenerated by checks
use crate::tab::Field;
use crate::ver::s;
use serde_json::to_value;

#[allow(deprecated)]
pub fn fields() -> Vec<Field> {
    vec![
        Field::new::<s::Annotations>("Annotations", vec![("audience", |x| to_value(&x.audience).ok()), ("lastModified", |x| to_value(&x.last_modified).ok()), ("priority", |x| to_value(&x.priority).ok())]),
        Field::new::<s::AudioContent>("AudioContent", vec![("annotations", |x| to_value(&x.annotations).ok()), ("data", |x| to_value(&x.data).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok())]),
        Field::new::<s::BaseMetadata>("BaseMetadata", vec![("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::BlobResourceContents>("BlobResourceContents", vec![("blob", |x| to_value(&x.blob).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::BooleanSchema>("BooleanSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::CallToolRequest>("CallToolRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CallToolRequestParams>("CallToolRequestParams", vec![("arguments", |x| to_value(&x.arguments).ok()), ("name", |x| to_value(&x.name).ok())]),
        Field::new::<s::CallToolResult>("CallToolResult", vec![("content", |x| to_value(&x.content).ok()), ("isError", |x| to_value(&x.is_error).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("structuredContent", |x| to_value(&x.structured_content).ok())]),
        Field::new::<s::CancelledNotification>("CancelledNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CancelledNotificationParams>("CancelledNotificationParams", vec![("reason", |x| to_value(&x.reason).ok()), ("requestId", |x| to_value(&x.request_id).ok())]),
        Field::new::<s::ClientCapabilities>("ClientCapabilities", vec![("elicitation", |x| to_value(&x.elicitation).ok()), ("experimental", |x| to_value(&x.experimental).ok()), ("roots", |x| to_value(&x.roots).ok()), ("sampling", |x| to_value(&x.sampling).ok())]),
        Field::new::<s::ClientRoots>("ClientRoots", vec![("listChanged", |x| to_value(&x.list_changed).ok())]),
        Field::new::<s::CompleteRequest>("CompleteRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CompleteRequestArgument>("CompleteRequestArgument", vec![("name", |x| to_value(&x.name).ok()), ("value", |x| to_value(&x.value).ok())]),
        Field::new::<s::CompleteRequestContext>("CompleteRequestContext", vec![("arguments", |x| to_value(&x.arguments).ok())]),
        Field::new::<s::CompleteRequestParams>("CompleteRequestParams", vec![("argument", |x| to_value(&x.argument).ok()), ("context", |x| to_value(&x.context).ok()), ("ref", |x| to_value(&x.ref_).ok())]),
        Field::new::<s::CompleteResult>("CompleteResult", vec![("completion", |x| to_value(&x.completion).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::CompleteResultCompletion>("CompleteResultCompletion", vec![("hasMore", |x| to_value(&x.has_more).ok()), ("total", |x| to_value(&x.total).ok()), ("values", |x| to_value(&x.values).ok())]),
        Field::new::<s::CreateMessageRequest>("CreateMessageRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CreateMessageRequestParams>("CreateMessageRequestParams", vec![("includeContext", |x| to_value(&x.include_context).ok()), ("maxTokens", |x| to_value(&x.max_tokens).ok()), ("messages", |x| to_value(&x.messages).ok()), ("metadata", |x| to_value(&x.metadata).ok()), ("modelPreferences", |x| to_value(&x.model_preferences).ok()), ("stopSequences", |x| to_value(&x.stop_sequences).ok()), ("systemPrompt", |x| to_value(&x.system_prompt).ok()), ("temperature", |x| to_value(&x.temperature).ok())]),
        Field::new::<s::CreateMessageResult>("CreateMessageResult", vec![("content", |x| to_value(&x.content).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("model", |x| to_value(&x.model).ok()), ("role", |x| to_value(&x.role).ok()), ("stopReason", |x| to_value(&x.stop_reason).ok())]),
        Field::new::<s::ElicitRequest>("ElicitRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ElicitRequestParams>("ElicitRequestParams", vec![("message", |x| to_value(&x.message).ok()), ("requestedSchema", |x| to_value(&x.requested_schema).ok())]),
        Field::new::<s::ElicitRequestedSchema>("ElicitRequestedSchema", vec![("properties", |x| to_value(&x.properties).ok()), ("required", |x| to_value(&x.required).ok())]),
        Field::new::<s::ElicitResult>("ElicitResult", vec![("action", |x| to_value(&x.action).ok()), ("content", |x| to_value(&x.content).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::EmbeddedResource>("EmbeddedResource", vec![("annotations", |x| to_value(&x.annotations).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("resource", |x| to_value(&x.resource).ok())]),
        Field::new::<s::EnumSchema>("EnumSchema", vec![("description", |x| to_value(&x.description).ok()), ("enum", |x| to_value(&x.enum_).ok()), ("enumNames", |x| to_value(&x.enum_names).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::GetPromptRequest>("GetPromptRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::GetPromptRequestParams>("GetPromptRequestParams", vec![("arguments", |x| to_value(&x.arguments).ok()), ("name", |x| to_value(&x.name).ok())]),
        Field::new::<s::GetPromptResult>("GetPromptResult", vec![("description", |x| to_value(&x.description).ok()), ("messages", |x| to_value(&x.messages).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::ImageContent>("ImageContent", vec![("annotations", |x| to_value(&x.annotations).ok()), ("data", |x| to_value(&x.data).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok())]),
        Field::new::<s::Implementation>("Implementation", vec![("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok()), ("version", |x| to_value(&x.version).ok())]),
        Field::new::<s::InitializeRequest>("InitializeRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::InitializeRequestParams>("InitializeRequestParams", vec![("capabilities", |x| to_value(&x.capabilities).ok()), ("clientInfo", |x| to_value(&x.client_info).ok()), ("protocolVersion", |x| to_value(&x.protocol_version).ok())]),
        Field::new::<s::InitializeResult>("InitializeResult", vec![("capabilities", |x| to_value(&x.capabilities).ok()), ("instructions", |x| to_value(&x.instructions).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("protocolVersion", |x| to_value(&x.protocol_version).ok()), ("serverInfo", |x| to_value(&x.server_info).ok())]),
        Field::new::<s::InitializedNotification>("InitializedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::InitializedNotificationParams>("InitializedNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::JsonrpcError>("JsonrpcError", vec![("error", |x| to_value(&x.error).ok()), ("id", |x| to_value(&x.id).ok())]),
        Field::new::<s::JsonrpcNotification>("JsonrpcNotification", vec![("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::JsonrpcNotificationParams>("JsonrpcNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::JsonrpcRequest>("JsonrpcRequest", vec![("id", |x| to_value(&x.id).ok()), ("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::JsonrpcRequestParams>("JsonrpcRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::JsonrpcRequestParamsMeta>("JsonrpcRequestParamsMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::JsonrpcResponse>("JsonrpcResponse", vec![("id", |x| to_value(&x.id).ok()), ("result", |x| to_value(&x.result).ok())]),
        Field::new::<s::ListPromptsRequest>("ListPromptsRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListPromptsRequestParams>("ListPromptsRequestParams", vec![("cursor", |x| to_value(&x.cursor).ok())]),
        Field::new::<s::ListPromptsResult>("ListPromptsResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("prompts", |x| to_value(&x.prompts).ok())]),
        Field::new::<s::ListResourceTemplatesRequest>("ListResourceTemplatesRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListResourceTemplatesRequestParams>("ListResourceTemplatesRequestParams", vec![("cursor", |x| to_value(&x.cursor).ok())]),
        Field::new::<s::ListResourceTemplatesResult>("ListResourceTemplatesResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("resourceTemplates", |x| to_value(&x.resource_templates).ok())]),
        Field::new::<s::ListResourcesRequest>("ListResourcesRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListResourcesRequestParams>("ListResourcesRequestParams", vec![("cursor", |x| to_value(&x.cursor).ok())]),
        Field::new::<s::ListResourcesResult>("ListResourcesResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("resources", |x| to_value(&x.resources).ok())]),
        Field::new::<s::ListRootsRequest>("ListRootsRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListRootsRequestParams>("ListRootsRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ListRootsRequestParamsMeta>("ListRootsRequestParamsMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ListRootsResult>("ListRootsResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("roots", |x| to_value(&x.roots).ok())]),
        Field::new::<s::ListToolsRequest>("ListToolsRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListToolsRequestParams>("ListToolsRequestParams", vec![("cursor", |x| to_value(&x.cursor).ok())]),
        Field::new::<s::ListToolsResult>("ListToolsResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("tools", |x| to_value(&x.tools).ok())]),
        Field::new::<s::LoggingMessageNotification>("LoggingMessageNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::LoggingMessageNotificationParams>("LoggingMessageNotificationParams", vec![("data", |x| to_value(&x.data).ok()), ("level", |x| to_value(&x.level).ok()), ("logger", |x| to_value(&x.logger).ok())]),
        Field::new::<s::ModelHint>("ModelHint", vec![("name", |x| to_value(&x.name).ok())]),
        Field::new::<s::ModelPreferences>("ModelPreferences", vec![("costPriority", |x| to_value(&x.cost_priority).ok()), ("hints", |x| to_value(&x.hints).ok()), ("intelligencePriority", |x| to_value(&x.intelligence_priority).ok()), ("speedPriority", |x| to_value(&x.speed_priority).ok())]),
        Field::new::<s::Notification>("Notification", vec![("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::NotificationParams>("NotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::NumberSchema>("NumberSchema", vec![("description", |x| to_value(&x.description).ok()), ("maximum", |x| to_value(&x.maximum).ok()), ("minimum", |x| to_value(&x.minimum).ok()), ("title", |x| to_value(&x.title).ok()), ("type", |x| to_value(&x.type_).ok())]),
        Field::new::<s::PaginatedRequest>("PaginatedRequest", vec![("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::PaginatedRequestParams>("PaginatedRequestParams", vec![("cursor", |x| to_value(&x.cursor).ok())]),
        Field::new::<s::PaginatedResult>("PaginatedResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok())]),
        Field::new::<s::PingRequest>("PingRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::PingRequestParams>("PingRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::PingRequestParamsMeta>("PingRequestParamsMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ProgressNotification>("ProgressNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ProgressNotificationParams>("ProgressNotificationParams", vec![("message", |x| to_value(&x.message).ok()), ("progress", |x| to_value(&x.progress).ok()), ("progressToken", |x| to_value(&x.progress_token).ok()), ("total", |x| to_value(&x.total).ok())]),
        Field::new::<s::Prompt>("Prompt", vec![("arguments", |x| to_value(&x.arguments).ok()), ("description", |x| to_value(&x.description).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::PromptArgument>("PromptArgument", vec![("description", |x| to_value(&x.description).ok()), ("name", |x| to_value(&x.name).ok()), ("required", |x| to_value(&x.required).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::PromptListChangedNotification>("PromptListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::PromptListChangedNotificationParams>("PromptListChangedNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::PromptMessage>("PromptMessage", vec![("content", |x| to_value(&x.content).ok()), ("role", |x| to_value(&x.role).ok())]),
        Field::new::<s::PromptReference>("PromptReference", vec![("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::ReadResourceRequest>("ReadResourceRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ReadResourceRequestParams>("ReadResourceRequestParams", vec![("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ReadResourceResult>("ReadResourceResult", vec![("contents", |x| to_value(&x.contents).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::Request>("Request", vec![("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::RequestParams>("RequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::RequestParamsMeta>("RequestParamsMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::Resource>("Resource", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("name", |x| to_value(&x.name).ok()), ("size", |x| to_value(&x.size).ok()), ("title", |x| to_value(&x.title).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceContents>("ResourceContents", vec![("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceLink>("ResourceLink", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("name", |x| to_value(&x.name).ok()), ("size", |x| to_value(&x.size).ok()), ("title", |x| to_value(&x.title).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceListChangedNotification>("ResourceListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ResourceListChangedNotificationParams>("ResourceListChangedNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ResourceTemplate>("ResourceTemplate", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok()), ("uriTemplate", |x| to_value(&x.uri_template).ok())]),
        Field::new::<s::ResourceTemplateReference>("ResourceTemplateReference", vec![("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceUpdatedNotification>("ResourceUpdatedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ResourceUpdatedNotificationParams>("ResourceUpdatedNotificationParams", vec![("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::Result>("Result", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::Root>("Root", vec![("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::RootsListChangedNotification>("RootsListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::RootsListChangedNotificationParams>("RootsListChangedNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::RpcError>("RpcError", vec![("code", |x| to_value(&x.code).ok()), ("data", |x| to_value(&x.data).ok()), ("message", |x| to_value(&x.message).ok())]),
        Field::new::<s::SamplingMessage>("SamplingMessage", vec![("content", |x| to_value(&x.content).ok()), ("role", |x| to_value(&x.role).ok())]),
        Field::new::<s::ServerCapabilities>("ServerCapabilities", vec![("completions", |x| to_value(&x.completions).ok()), ("experimental", |x| to_value(&x.experimental).ok()), ("logging", |x| to_value(&x.logging).ok()), ("prompts", |x| to_value(&x.prompts).ok()), ("resources", |x| to_value(&x.resources).ok()), ("tools", |x| to_value(&x.tools).ok())]),
        Field::new::<s::ServerCapabilitiesPrompts>("ServerCapabilitiesPrompts", vec![("listChanged", |x| to_value(&x.list_changed).ok())]),
        Field::new::<s::ServerCapabilitiesResources>("ServerCapabilitiesResources", vec![("listChanged", |x| to_value(&x.list_changed).ok()), ("subscribe", |x| to_value(&x.subscribe).ok())]),
        Field::new::<s::ServerCapabilitiesTools>("ServerCapabilitiesTools", vec![("listChanged", |x| to_value(&x.list_changed).ok())]),
        Field::new::<s::SetLevelRequest>("SetLevelRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::SetLevelRequestParams>("SetLevelRequestParams", vec![("level", |x| to_value(&x.level).ok())]),
        Field::new::<s::StringSchema>("StringSchema", vec![("description", |x| to_value(&x.description).ok()), ("format", |x| to_value(&x.format).ok()), ("maxLength", |x| to_value(&x.max_length).ok()), ("minLength", |x| to_value(&x.min_length).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::SubscribeRequest>("SubscribeRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::SubscribeRequestParams>("SubscribeRequestParams", vec![("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::TextContent>("TextContent", vec![("annotations", |x| to_value(&x.annotations).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("text", |x| to_value(&x.text).ok())]),
        Field::new::<s::TextResourceContents>("TextResourceContents", vec![("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("text", |x| to_value(&x.text).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::Tool>("Tool", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("inputSchema", |x| to_value(&x.input_schema).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok()), ("outputSchema", |x| to_value(&x.output_schema).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::ToolAnnotations>("ToolAnnotations", vec![("destructiveHint", |x| to_value(&x.destructive_hint).ok()), ("idempotentHint", |x| to_value(&x.idempotent_hint).ok()), ("openWorldHint", |x| to_value(&x.open_world_hint).ok()), ("readOnlyHint", |x| to_value(&x.read_only_hint).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::ToolInputSchema>("ToolInputSchema", vec![("properties", |x| to_value(&x.properties).ok()), ("required", |x| to_value(&x.required).ok())]),
        Field::new::<s::ToolListChangedNotification>("ToolListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ToolListChangedNotificationParams>("ToolListChangedNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ToolOutputSchema>("ToolOutputSchema", vec![("properties", |x| to_value(&x.properties).ok()), ("required", |x| to_value(&x.required).ok())]),
        Field::new::<s::UnsubscribeRequest>("UnsubscribeRequest", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::UnsubscribeRequestParams>("UnsubscribeRequestParams", vec![("uri", |x| to_value(&x.uri).ok())]),
    ]
}
