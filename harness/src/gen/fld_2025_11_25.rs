// generated by tools/gen_fields.py at authoring time; committed; not regenerated by checks
use crate::tab::Field;
use crate::ver::s;
use serde_json::to_value;

#[allow(deprecated)]
pub fn fields() -> Vec<Field> {
    vec![
        Field::new::<s::Annotations>("Annotations", vec![("audience", |x| to_value(&x.audience).ok()), ("lastModified", |x| to_value(&x.last_modified).ok()), ("priority", |x| to_value(&x.priority).ok())]),
        Field::new::<s::AudioContent>("AudioContent", vec![("annotations", |x| to_value(&x.annotations).ok()), ("data", |x| to_value(&x.data).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok())]),
        Field::new::<s::BaseMetadata>("BaseMetadata", vec![("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::BlobResourceContents>("BlobResourceContents", vec![("blob", |x| to_value(&x.blob).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::BooleanSchema>("BooleanSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::CallToolMeta>("CallToolMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::CallToolRequest>("CallToolRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CallToolRequestParams>("CallToolRequestParams", vec![("arguments", |x| to_value(&x.arguments).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok()), ("task", |x| to_value(&x.task).ok())]),
        Field::new::<s::CallToolResult>("CallToolResult", vec![("content", |x| to_value(&x.content).ok()), ("isError", |x| to_value(&x.is_error).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("structuredContent", |x| to_value(&x.structured_content).ok())]),
        Field::new::<s::CancelTaskParams>("CancelTaskParams", vec![("taskId", |x| to_value(&x.task_id).ok())]),
        Field::new::<s::CancelTaskRequest>("CancelTaskRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CancelTaskResult>("CancelTaskResult", vec![("createdAt", |x| to_value(&x.created_at).ok()), ("lastUpdatedAt", |x| to_value(&x.last_updated_at).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("pollInterval", |x| to_value(&x.poll_interval).ok()), ("status", |x| to_value(&x.status).ok()), ("statusMessage", |x| to_value(&x.status_message).ok()), ("taskId", |x| to_value(&x.task_id).ok()), ("ttl", |x| to_value(&x.ttl).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::CancelledNotification>("CancelledNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CancelledNotificationParams>("CancelledNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("reason", |x| to_value(&x.reason).ok()), ("requestId", |x| to_value(&x.request_id).ok())]),
        Field::new::<s::ClientCapabilities>("ClientCapabilities", vec![("elicitation", |x| to_value(&x.elicitation).ok()), ("experimental", |x| to_value(&x.experimental).ok()), ("roots", |x| to_value(&x.roots).ok()), ("sampling", |x| to_value(&x.sampling).ok()), ("tasks", |x| to_value(&x.tasks).ok())]),
        Field::new::<s::ClientElicitation>("ClientElicitation", vec![("form", |x| to_value(&x.form).ok()), ("url", |x| to_value(&x.url).ok())]),
        Field::new::<s::ClientRoots>("ClientRoots", vec![("listChanged", |x| to_value(&x.list_changed).ok())]),
        Field::new::<s::ClientSampling>("ClientSampling", vec![("context", |x| to_value(&x.context).ok()), ("tools", |x| to_value(&x.tools).ok())]),
        Field::new::<s::ClientTaskElicitation>("ClientTaskElicitation", vec![("create", |x| to_value(&x.create).ok())]),
        Field::new::<s::ClientTaskRequest>("ClientTaskRequest", vec![("elicitation", |x| to_value(&x.elicitation).ok()), ("sampling", |x| to_value(&x.sampling).ok())]),
        Field::new::<s::ClientTaskSampling>("ClientTaskSampling", vec![("createMessage", |x| to_value(&x.create_message).ok())]),
        Field::new::<s::ClientTasks>("ClientTasks", vec![("cancel", |x| to_value(&x.cancel).ok()), ("list", |x| to_value(&x.list).ok()), ("requests", |x| to_value(&x.requests).ok())]),
        Field::new::<s::CompleteRequest>("CompleteRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CompleteRequestArgument>("CompleteRequestArgument", vec![("name", |x| to_value(&x.name).ok()), ("value", |x| to_value(&x.value).ok())]),
        Field::new::<s::CompleteRequestContext>("CompleteRequestContext", vec![("arguments", |x| to_value(&x.arguments).ok())]),
        Field::new::<s::CompleteRequestMeta>("CompleteRequestMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::CompleteRequestParams>("CompleteRequestParams", vec![("argument", |x| to_value(&x.argument).ok()), ("context", |x| to_value(&x.context).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("ref", |x| to_value(&x.ref_).ok())]),
        Field::new::<s::CompleteResult>("CompleteResult", vec![("completion", |x| to_value(&x.completion).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::CompleteResultCompletion>("CompleteResultCompletion", vec![("hasMore", |x| to_value(&x.has_more).ok()), ("total", |x| to_value(&x.total).ok()), ("values", |x| to_value(&x.values).ok())]),
        Field::new::<s::CreateMessageRequest>("CreateMessageRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::CreateMessageRequestParams>("CreateMessageRequestParams", vec![("includeContext", |x| to_value(&x.include_context).ok()), ("maxTokens", |x| to_value(&x.max_tokens).ok()), ("messages", |x| to_value(&x.messages).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("metadata", |x| to_value(&x.metadata).ok()), ("modelPreferences", |x| to_value(&x.model_preferences).ok()), ("stopSequences", |x| to_value(&x.stop_sequences).ok()), ("systemPrompt", |x| to_value(&x.system_prompt).ok()), ("task", |x| to_value(&x.task).ok()), ("temperature", |x| to_value(&x.temperature).ok()), ("toolChoice", |x| to_value(&x.tool_choice).ok()), ("tools", |x| to_value(&x.tools).ok())]),
        Field::new::<s::CreateMessageResult>("CreateMessageResult", vec![("content", |x| to_value(&x.content).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("model", |x| to_value(&x.model).ok()), ("role", |x| to_value(&x.role).ok()), ("stopReason", |x| to_value(&x.stop_reason).ok())]),
        Field::new::<s::CreateTaskResult>("CreateTaskResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("task", |x| to_value(&x.task).ok())]),
        Field::new::<s::ElicitCompleteParams>("ElicitCompleteParams", vec![("elicitationId", |x| to_value(&x.elicitation_id).ok())]),
        Field::new::<s::ElicitFormMeta>("ElicitFormMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ElicitFormSchema>("ElicitFormSchema", vec![("properties", |x| to_value(&x.properties).ok()), ("required", |x| to_value(&x.required).ok()), ("$schema", |x| to_value(&x.schema).ok())]),
        Field::new::<s::ElicitRequest>("ElicitRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ElicitRequestFormParams>("ElicitRequestFormParams", vec![("message", |x| to_value(&x.message).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("requestedSchema", |x| to_value(&x.requested_schema).ok()), ("task", |x| to_value(&x.task).ok())]),
        Field::new::<s::ElicitRequestUrlParams>("ElicitRequestUrlParams", vec![("elicitationId", |x| to_value(&x.elicitation_id).ok()), ("message", |x| to_value(&x.message).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("task", |x| to_value(&x.task).ok()), ("url", |x| to_value(&x.url).ok())]),
        Field::new::<s::ElicitResult>("ElicitResult", vec![("action", |x| to_value(&x.action).ok()), ("content", |x| to_value(&x.content).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::ElicitUrlMeta>("ElicitUrlMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ElicitationCompleteNotification>("ElicitationCompleteNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::EmbeddedResource>("EmbeddedResource", vec![("annotations", |x| to_value(&x.annotations).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("resource", |x| to_value(&x.resource).ok())]),
        Field::new::<s::GetPromptMeta>("GetPromptMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::GetPromptRequest>("GetPromptRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::GetPromptRequestParams>("GetPromptRequestParams", vec![("arguments", |x| to_value(&x.arguments).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok())]),
        Field::new::<s::GetPromptResult>("GetPromptResult", vec![("description", |x| to_value(&x.description).ok()), ("messages", |x| to_value(&x.messages).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::GetTaskParams>("GetTaskParams", vec![("taskId", |x| to_value(&x.task_id).ok())]),
        Field::new::<s::GetTaskPayloadParams>("GetTaskPayloadParams", vec![("taskId", |x| to_value(&x.task_id).ok())]),
        Field::new::<s::GetTaskPayloadRequest>("GetTaskPayloadRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::GetTaskPayloadResult>("GetTaskPayloadResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::GetTaskRequest>("GetTaskRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::GetTaskResult>("GetTaskResult", vec![("createdAt", |x| to_value(&x.created_at).ok()), ("lastUpdatedAt", |x| to_value(&x.last_updated_at).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("pollInterval", |x| to_value(&x.poll_interval).ok()), ("status", |x| to_value(&x.status).ok()), ("statusMessage", |x| to_value(&x.status_message).ok()), ("taskId", |x| to_value(&x.task_id).ok()), ("ttl", |x| to_value(&x.ttl).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::Icon>("Icon", vec![("mimeType", |x| to_value(&x.mime_type).ok()), ("sizes", |x| to_value(&x.sizes).ok()), ("src", |x| to_value(&x.src).ok()), ("theme", |x| to_value(&x.theme).ok())]),
        Field::new::<s::Icons>("Icons", vec![("icons", |x| to_value(&x.icons).ok())]),
        Field::new::<s::ImageContent>("ImageContent", vec![("annotations", |x| to_value(&x.annotations).ok()), ("data", |x| to_value(&x.data).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok())]),
        Field::new::<s::Implementation>("Implementation", vec![("description", |x| to_value(&x.description).ok()), ("icons", |x| to_value(&x.icons).ok()), ("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok()), ("version", |x| to_value(&x.version).ok()), ("websiteUrl", |x| to_value(&x.website_url).ok())]),
        Field::new::<s::InitializeMeta>("InitializeMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::InitializeRequest>("InitializeRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::InitializeRequestParams>("InitializeRequestParams", vec![("capabilities", |x| to_value(&x.capabilities).ok()), ("clientInfo", |x| to_value(&x.client_info).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("protocolVersion", |x| to_value(&x.protocol_version).ok())]),
        Field::new::<s::InitializeResult>("InitializeResult", vec![("capabilities", |x| to_value(&x.capabilities).ok()), ("instructions", |x| to_value(&x.instructions).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("protocolVersion", |x| to_value(&x.protocol_version).ok()), ("serverInfo", |x| to_value(&x.server_info).ok())]),
        Field::new::<s::InitializedNotification>("InitializedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::JsonrpcErrorResponse>("JsonrpcErrorResponse", vec![("error", |x| to_value(&x.error).ok()), ("id", |x| to_value(&x.id).ok())]),
        Field::new::<s::JsonrpcNotification>("JsonrpcNotification", vec![("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::JsonrpcRequest>("JsonrpcRequest", vec![("id", |x| to_value(&x.id).ok()), ("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::JsonrpcResultResponse>("JsonrpcResultResponse", vec![("id", |x| to_value(&x.id).ok()), ("result", |x| to_value(&x.result).ok())]),
        Field::new::<s::LegacyTitledEnumSchema>("LegacyTitledEnumSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("enum", |x| to_value(&x.enum_).ok()), ("enumNames", |x| to_value(&x.enum_names).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::ListPromptsRequest>("ListPromptsRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListPromptsResult>("ListPromptsResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("prompts", |x| to_value(&x.prompts).ok())]),
        Field::new::<s::ListResourceTemplatesRequest>("ListResourceTemplatesRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListResourceTemplatesResult>("ListResourceTemplatesResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("resourceTemplates", |x| to_value(&x.resource_templates).ok())]),
        Field::new::<s::ListResourcesRequest>("ListResourcesRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListResourcesResult>("ListResourcesResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("resources", |x| to_value(&x.resources).ok())]),
        Field::new::<s::ListRootsRequest>("ListRootsRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListRootsResult>("ListRootsResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("roots", |x| to_value(&x.roots).ok())]),
        Field::new::<s::ListTasksRequest>("ListTasksRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListTasksResult>("ListTasksResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("tasks", |x| to_value(&x.tasks).ok())]),
        Field::new::<s::ListToolsRequest>("ListToolsRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ListToolsResult>("ListToolsResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok()), ("tools", |x| to_value(&x.tools).ok())]),
        Field::new::<s::LoggingMessageNotification>("LoggingMessageNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::LoggingMessageNotificationParams>("LoggingMessageNotificationParams", vec![("data", |x| to_value(&x.data).ok()), ("level", |x| to_value(&x.level).ok()), ("logger", |x| to_value(&x.logger).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::MessageMeta>("MessageMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ModelHint>("ModelHint", vec![("name", |x| to_value(&x.name).ok())]),
        Field::new::<s::ModelPreferences>("ModelPreferences", vec![("costPriority", |x| to_value(&x.cost_priority).ok()), ("hints", |x| to_value(&x.hints).ok()), ("intelligencePriority", |x| to_value(&x.intelligence_priority).ok()), ("speedPriority", |x| to_value(&x.speed_priority).ok())]),
        Field::new::<s::Notification>("Notification", vec![("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::NotificationParams>("NotificationParams", vec![("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::NumberSchema>("NumberSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("maximum", |x| to_value(&x.maximum).ok()), ("minimum", |x| to_value(&x.minimum).ok()), ("title", |x| to_value(&x.title).ok()), ("type", |x| to_value(&x.type_).ok())]),
        Field::new::<s::PaginatedMeta>("PaginatedMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::PaginatedRequest>("PaginatedRequest", vec![("id", |x| to_value(&x.id).ok()), ("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::PaginatedRequestParams>("PaginatedRequestParams", vec![("cursor", |x| to_value(&x.cursor).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::PaginatedResult>("PaginatedResult", vec![("_meta", |x| to_value(&x.meta).ok()), ("nextCursor", |x| to_value(&x.next_cursor).ok())]),
        Field::new::<s::PingRequest>("PingRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ProgressNotification>("ProgressNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ProgressNotificationParams>("ProgressNotificationParams", vec![("message", |x| to_value(&x.message).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("progress", |x| to_value(&x.progress).ok()), ("progressToken", |x| to_value(&x.progress_token).ok()), ("total", |x| to_value(&x.total).ok())]),
        Field::new::<s::Prompt>("Prompt", vec![("arguments", |x| to_value(&x.arguments).ok()), ("description", |x| to_value(&x.description).ok()), ("icons", |x| to_value(&x.icons).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::PromptArgument>("PromptArgument", vec![("description", |x| to_value(&x.description).ok()), ("name", |x| to_value(&x.name).ok()), ("required", |x| to_value(&x.required).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::PromptListChangedNotification>("PromptListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::PromptMessage>("PromptMessage", vec![("content", |x| to_value(&x.content).ok()), ("role", |x| to_value(&x.role).ok())]),
        Field::new::<s::PromptReference>("PromptReference", vec![("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::ReadResourceMeta>("ReadResourceMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ReadResourceRequest>("ReadResourceRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ReadResourceRequestParams>("ReadResourceRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ReadResourceResult>("ReadResourceResult", vec![("contents", |x| to_value(&x.contents).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::RelatedTaskMetadata>("RelatedTaskMetadata", vec![("taskId", |x| to_value(&x.task_id).ok())]),
        Field::new::<s::Request>("Request", vec![("method", |x| to_value(&x.method).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::RequestParams>("RequestParams", vec![("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::RequestParamsMeta>("RequestParamsMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::Resource>("Resource", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("icons", |x| to_value(&x.icons).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("name", |x| to_value(&x.name).ok()), ("size", |x| to_value(&x.size).ok()), ("title", |x| to_value(&x.title).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceContents>("ResourceContents", vec![("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceLink>("ResourceLink", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("icons", |x| to_value(&x.icons).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("name", |x| to_value(&x.name).ok()), ("size", |x| to_value(&x.size).ok()), ("title", |x| to_value(&x.title).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceListChangedNotification>("ResourceListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ResourceMeta>("ResourceMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::ResourceRequestParams>("ResourceRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceTemplate>("ResourceTemplate", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("icons", |x| to_value(&x.icons).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("name", |x| to_value(&x.name).ok()), ("title", |x| to_value(&x.title).ok()), ("uriTemplate", |x| to_value(&x.uri_template).ok())]),
        Field::new::<s::ResourceTemplateReference>("ResourceTemplateReference", vec![("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::ResourceUpdatedNotification>("ResourceUpdatedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ResourceUpdatedNotificationParams>("ResourceUpdatedNotificationParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::Result>("Result", vec![("_meta", |x| to_value(&x.meta).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::Root>("Root", vec![("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::RootsListChangedNotification>("RootsListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::RpcError>("RpcError", vec![("code", |x| to_value(&x.code).ok()), ("data", |x| to_value(&x.data).ok()), ("message", |x| to_value(&x.message).ok())]),
        Field::new::<s::SamplingMessage>("SamplingMessage", vec![("content", |x| to_value(&x.content).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("role", |x| to_value(&x.role).ok())]),
        Field::new::<s::ServerCapabilities>("ServerCapabilities", vec![("completions", |x| to_value(&x.completions).ok()), ("experimental", |x| to_value(&x.experimental).ok()), ("logging", |x| to_value(&x.logging).ok()), ("prompts", |x| to_value(&x.prompts).ok()), ("resources", |x| to_value(&x.resources).ok()), ("tasks", |x| to_value(&x.tasks).ok()), ("tools", |x| to_value(&x.tools).ok())]),
        Field::new::<s::ServerCapabilitiesPrompts>("ServerCapabilitiesPrompts", vec![("listChanged", |x| to_value(&x.list_changed).ok())]),
        Field::new::<s::ServerCapabilitiesResources>("ServerCapabilitiesResources", vec![("listChanged", |x| to_value(&x.list_changed).ok()), ("subscribe", |x| to_value(&x.subscribe).ok())]),
        Field::new::<s::ServerCapabilitiesTools>("ServerCapabilitiesTools", vec![("listChanged", |x| to_value(&x.list_changed).ok())]),
        Field::new::<s::ServerTaskRequest>("ServerTaskRequest", vec![("tools", |x| to_value(&x.tools).ok())]),
        Field::new::<s::ServerTaskTools>("ServerTaskTools", vec![("call", |x| to_value(&x.call).ok())]),
        Field::new::<s::ServerTasks>("ServerTasks", vec![("cancel", |x| to_value(&x.cancel).ok()), ("list", |x| to_value(&x.list).ok()), ("requests", |x| to_value(&x.requests).ok())]),
        Field::new::<s::SetLevelMeta>("SetLevelMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::SetLevelRequest>("SetLevelRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::SetLevelRequestParams>("SetLevelRequestParams", vec![("level", |x| to_value(&x.level).ok()), ("_meta", |x| to_value(&x.meta).ok())]),
        Field::new::<s::StringSchema>("StringSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("format", |x| to_value(&x.format).ok()), ("maxLength", |x| to_value(&x.max_length).ok()), ("minLength", |x| to_value(&x.min_length).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::SubscribeMeta>("SubscribeMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::SubscribeRequest>("SubscribeRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::SubscribeRequestParams>("SubscribeRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::Task>("Task", vec![("createdAt", |x| to_value(&x.created_at).ok()), ("lastUpdatedAt", |x| to_value(&x.last_updated_at).ok()), ("pollInterval", |x| to_value(&x.poll_interval).ok()), ("status", |x| to_value(&x.status).ok()), ("statusMessage", |x| to_value(&x.status_message).ok()), ("taskId", |x| to_value(&x.task_id).ok()), ("ttl", |x| to_value(&x.ttl).ok())]),
        Field::new::<s::TaskAugmentedMeta>("TaskAugmentedMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::TaskAugmentedRequestParams>("TaskAugmentedRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("task", |x| to_value(&x.task).ok())]),
        Field::new::<s::TaskMetadata>("TaskMetadata", vec![("ttl", |x| to_value(&x.ttl).ok())]),
        Field::new::<s::TaskStatusNotification>("TaskStatusNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::TaskStatusNotificationParams>("TaskStatusNotificationParams", vec![("createdAt", |x| to_value(&x.created_at).ok()), ("lastUpdatedAt", |x| to_value(&x.last_updated_at).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("pollInterval", |x| to_value(&x.poll_interval).ok()), ("status", |x| to_value(&x.status).ok()), ("statusMessage", |x| to_value(&x.status_message).ok()), ("taskId", |x| to_value(&x.task_id).ok()), ("ttl", |x| to_value(&x.ttl).ok())]),
        Field::new::<s::TextContent>("TextContent", vec![("annotations", |x| to_value(&x.annotations).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("text", |x| to_value(&x.text).ok())]),
        Field::new::<s::TextResourceContents>("TextResourceContents", vec![("_meta", |x| to_value(&x.meta).ok()), ("mimeType", |x| to_value(&x.mime_type).ok()), ("text", |x| to_value(&x.text).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::TitledMultiSelectEnumSchema>("TitledMultiSelectEnumSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("items", |x| to_value(&x.items).ok()), ("maxItems", |x| to_value(&x.max_items).ok()), ("minItems", |x| to_value(&x.min_items).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::TitledMultiSelectEnumSchemaItems>("TitledMultiSelectEnumSchemaItems", vec![("anyOf", |x| to_value(&x.any_of).ok())]),
        Field::new::<s::TitledMultiSelectEnumSchemaItemsAnyOfItem>("TitledMultiSelectEnumSchemaItemsAnyOfItem", vec![("const", |x| to_value(&x.const_).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::TitledSingleSelectEnumSchema>("TitledSingleSelectEnumSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("oneOf", |x| to_value(&x.one_of).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::TitledSingleSelectEnumSchemaOneOfItem>("TitledSingleSelectEnumSchemaOneOfItem", vec![("const", |x| to_value(&x.const_).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::Tool>("Tool", vec![("annotations", |x| to_value(&x.annotations).ok()), ("description", |x| to_value(&x.description).ok()), ("execution", |x| to_value(&x.execution).ok()), ("icons", |x| to_value(&x.icons).ok()), ("inputSchema", |x| to_value(&x.input_schema).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok()), ("outputSchema", |x| to_value(&x.output_schema).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::ToolAnnotations>("ToolAnnotations", vec![("destructiveHint", |x| to_value(&x.destructive_hint).ok()), ("idempotentHint", |x| to_value(&x.idempotent_hint).ok()), ("openWorldHint", |x| to_value(&x.open_world_hint).ok()), ("readOnlyHint", |x| to_value(&x.read_only_hint).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::ToolChoice>("ToolChoice", vec![("mode", |x| to_value(&x.mode).ok())]),
        Field::new::<s::ToolExecution>("ToolExecution", vec![("taskSupport", |x| to_value(&x.task_support).ok())]),
        Field::new::<s::ToolInputSchema>("ToolInputSchema", vec![("properties", |x| to_value(&x.properties).ok()), ("required", |x| to_value(&x.required).ok()), ("$schema", |x| to_value(&x.schema).ok())]),
        Field::new::<s::ToolListChangedNotification>("ToolListChangedNotification", vec![("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::ToolOutputSchema>("ToolOutputSchema", vec![("properties", |x| to_value(&x.properties).ok()), ("required", |x| to_value(&x.required).ok()), ("$schema", |x| to_value(&x.schema).ok())]),
        Field::new::<s::ToolResultContent>("ToolResultContent", vec![("content", |x| to_value(&x.content).ok()), ("isError", |x| to_value(&x.is_error).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("structuredContent", |x| to_value(&x.structured_content).ok()), ("toolUseId", |x| to_value(&x.tool_use_id).ok())]),
        Field::new::<s::ToolUseContent>("ToolUseContent", vec![("id", |x| to_value(&x.id).ok()), ("input", |x| to_value(&x.input).ok()), ("_meta", |x| to_value(&x.meta).ok()), ("name", |x| to_value(&x.name).ok())]),
        Field::new::<s::UnsubscribeMeta>("UnsubscribeMeta", vec![("progressToken", |x| to_value(&x.progress_token).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::UnsubscribeRequest>("UnsubscribeRequest", vec![("id", |x| to_value(&x.id).ok()), ("params", |x| to_value(&x.params).ok())]),
        Field::new::<s::UnsubscribeRequestParams>("UnsubscribeRequestParams", vec![("_meta", |x| to_value(&x.meta).ok()), ("uri", |x| to_value(&x.uri).ok())]),
        Field::new::<s::UntitledMultiSelectEnumSchema>("UntitledMultiSelectEnumSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("items", |x| to_value(&x.items).ok()), ("maxItems", |x| to_value(&x.max_items).ok()), ("minItems", |x| to_value(&x.min_items).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::UntitledMultiSelectEnumSchemaItems>("UntitledMultiSelectEnumSchemaItems", vec![("enum", |x| to_value(&x.enum_).ok())]),
        Field::new::<s::UntitledSingleSelectEnumSchema>("UntitledSingleSelectEnumSchema", vec![("default", |x| to_value(&x.default).ok()), ("description", |x| to_value(&x.description).ok()), ("enum", |x| to_value(&x.enum_).ok()), ("title", |x| to_value(&x.title).ok())]),
        Field::new::<s::UrlElicitError>("UrlElicitError", vec![("data", |x| to_value(&x.data).ok()), ("message", |x| to_value(&x.message).ok())]),
        Field::new::<s::UrlElicitErrorData>("UrlElicitErrorData", vec![("elicitations", |x| to_value(&x.elicitations).ok()), ("*", |x| to_value(&x.extra).ok())]),
        Field::new::<s::UrlElicitationRequiredError>("UrlElicitationRequiredError", vec![("error", |x| to_value(&x.error).ok()), ("id", |x| to_value(&x.id).ok())]),
    ]
}
