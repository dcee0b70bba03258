G = "src/generated_schema"
# --- C01
bug("size-as-u32", "C01", f"{G}/2025_11_25/mcp_schema.rs",
    [('''    pub size: ::std::option::Option<i64>,''', '''    pub size: ::std::option::Option<i32>,''', 0)],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let v = serde_json::json!({"name": "n", "uri": "file:///big", "size": 5_000_000_000i64});
    let ok = serde_json::from_value::<Resource>(v.clone()).ok().map(|r| serde_json::to_value(r).unwrap()) == Some(v);
    println!("a resource of 5 GB survives: {ok}");
    std::process::exit(!ok as i32);
}''', "a resource whose size does not fit 32 bits", "a conforming resource with a large size is refused")
# --- C22
bug("priorities-swapped", "C22", f"{G}/2025_06_18/mcp_schema.rs",
    [('''    #[serde(rename = "costPriority", default, skip_serializing_if = "::std::option::Option::is_none")]
    pub cost_priority''', '''    #[serde(rename = "speedPriority", default, skip_serializing_if = "::std::option::Option::is_none")]
    pub cost_priority'''),
     ('''    #[serde(rename = "speedPriority", default, skip_serializing_if = "::std::option::Option::is_none")]
    pub speed_priority''', '''    #[serde(rename = "costPriority", default, skip_serializing_if = "::std::option::Option::is_none")]
    pub speed_priority''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::*;
fn main() {
    let v = serde_json::json!({"costPriority": 0.25, "speedPriority": 0.75});
    let p: ModelPreferences = serde_json::from_value(v).unwrap();
    let ok = p.cost_priority == Some(0.25) && p.speed_priority == Some(0.75);
    println!("{p:?}");
    std::process::exit(!ok as i32);
}''', "model preferences with different cost and speed priorities, looked at member by member (round trips still agree)",
    "the cost_priority member carries the wire's speedPriority and the other way round")
# --- C03
bug("const-any-case", "C03", f"{G}/2024_11_05/validators.rs",
    [('''    if value == expected {''', '''    if value.eq_ignore_ascii_case(expected) {''')],
    "2024_11_05", r'''
use rust_mcp_schema::mcp_2024_11_05::*;
fn main() {
    let r = serde_json::from_str::<TextContent>(r#"{"type":"Text","text":"x"}"#);
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}''', "a constant member in another case than the schema's", "values whose type or method constant is in the wrong case are accepted")
# --- C04
bug("prompt-reference-unchecked", "C04", f"{G}/2025_06_18/mcp_schema.rs",
    [('''    #[serde(rename = "type", deserialize_with = "validate::prompt_reference_type_")]''', '''    #[serde(rename = "type")]''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::*;
fn main() {
    let v = serde_json::json!({"type": "ref/resource", "uri": "file:///{x}", "name": "extra"});
    let r: CompleteRequestRef = serde_json::from_value(v).unwrap();
    println!("{r:?}");
    std::process::exit(!matches!(r, CompleteRequestRef::ResourceTemplateReference(_)) as i32);
}''', "a resource reference that also has a name member", "a completion's resource reference is read as a prompt reference and loses its uri")
# --- C05
bug("list-changed-method", "C05", f"{G}/2025_03_26/mcp_schema.rs",
    [('''            ServerNotification::ResourceListChangedNotification(request) => request.method(),''', '''            ServerNotification::ResourceListChangedNotification(_) => ResourceUpdatedNotification::method_value(),''')],
    "2025_03_26", r'''
use rust_mcp_schema::mcp_2025_03_26::schema_utils::*;
fn main() {
    let m: ServerMessage = r#"{"jsonrpc":"2.0","method":"notifications/resources/list_changed"}"#.parse().unwrap();
    let n = m.as_notification().unwrap();
    let method = n.notification.method().to_string();
    println!("{method}");
    std::process::exit((method != n.method) as i32);
}''', "asking a resource list changed notification for its method", "the notification reports another notification's method")
# --- C07
bug("custom-empty-params", "C07", f"{G}/2025_11_25/schema_utils.rs",
    [('''                        ServerJsonrpcRequest::CustomRequest(JsonrpcRequest::new(request_id, params.method, params.params))''',
      '''                        let extra = params.params.filter(|p| !p.is_empty());
                        ServerJsonrpcRequest::CustomRequest(JsonrpcRequest::new(request_id, params.method, extra))''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::{*, schema_utils::*};
fn main() {
    let m = RequestFromServer::CustomRequest(CustomRequest { method: "x/y".into(), params: Some(serde_json::Map::new()) });
    let m = ServerMessage::from_message(MessageFromServer::from(m), Some(RequestId::Integer(1))).unwrap();
    println!("{m}");
    std::process::exit((serde_json::to_value(m).unwrap()["params"] != serde_json::json!({})) as i32);
}''', "a custom server request with empty parameters", "building the message drops the empty parameters")
# --- C09
bug("complete-needs-any", "C09", f"{G}/2026_07_28/schema_utils.rs",
    [('''                ClientRequest::CompleteRequest(_) if self.completions.is_none() => {''',
      '''                ClientRequest::CompleteRequest(_) if self.completions.is_none() && self.experimental.is_none() => {''')],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::{*, schema_utils::*};
fn main() {
    let caps: ServerCapabilities = serde_json::from_value(serde_json::json!({"experimental": {"x": {}}})).unwrap();
    let r: ClientJsonrpcRequest = serde_json::from_value(serde_json::json!({"id": 1, "jsonrpc": "2.0", "method": "completion/complete",
        "params": {"_meta": {"io.modelcontextprotocol/protocolVersion": "2026-07-28", "io.modelcontextprotocol/clientCapabilities": {}, "io.modelcontextprotocol/clientInfo": {"name": "c", "version": "1"}},
                   "argument": {"name": "a", "value": "b"}, "ref": {"type": "ref/prompt", "name": "p"}}})).unwrap();
    let a = caps.can_handle_request(&r);
    println!("{} {a:?}", r.method());
    std::process::exit(a.is_ok() as i32);
}''', "a server with experimental capabilities and without completions", "completion requests are said to be handled without the completions capability")
# --- C12
bug("ids-any-case", "C12", f"{G}/2025_03_26/schema_utils.rs",
    [('''            (RequestId::String(a), RequestId::String(b)) => a == b,''', '''            (RequestId::String(a), RequestId::String(b)) => a.eq_ignore_ascii_case(b),''')],
    "2025_03_26", r'''
use rust_mcp_schema::mcp_2025_03_26::RequestId;
fn main() {
    let same = RequestId::String("a1".into()) == RequestId::String("A1".into());
    println!("a1 == A1: {same}");
    std::process::exit(same as i32);
}''', "two string ids that differ in letter case only", "different request ids are equal, so a response can be matched to another request")
# --- C13
bug("batch-of-one", "C13", f"{G}/2025_06_18/schema_utils.rs",
    [('''            ServerMessages::Batch(server_messages) => server_messages.iter().any(ServerMessage::is_request),''',
      '''            ServerMessages::Batch(server_messages) => server_messages.first().is_some_and(ServerMessage::is_request),''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::schema_utils::*;
fn main() {
    let n = r#"{"jsonrpc":"2.0","method":"notifications/tools/list_changed"}"#;
    let r = r#"{"jsonrpc":"2.0","id":1,"method":"ping"}"#;
    let b: ServerMessages = serde_json::from_str(&format!("[{n},{r}]")).unwrap();
    println!("{}", b.includes_request());
    std::process::exit(!b.includes_request() as i32);
}''', "a batch whose request is not its first message", "includes_request misses a request in the batch")
# --- C14
bug("structured-clears-meta", "C14", f"{G}/2025_06_18/schema_utils.rs",
    [('''        self.structured_content = Some(structured_content);
        self''', '''        Self {
            structured_content: Some(structured_content),
            ..Self::from_content(self.content)
        }''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::{*, schema_utils::*};
fn main() {
    let r = CallToolResult::with_error(CallToolError::from_message("no")).with_structured_content(serde_json::Map::new());
    println!("{r:?}");
    std::process::exit((r.is_error != Some(true)) as i32);
}''', "structured content added to a result that already has metadata or the error flag", "adding structured content to an error result clears its error flag")
# --- C15
bug("integer-becomes-number", "C15", f"{G}/2025_11_25/schema_utils.rs",
    [('''                    type_: if input_type == "integer" {''', '''                    type_: if input_type == "integer" && default.is_none_or(|d: f64| d.fract() == 0.0) && maximum.is_none_or(|m: f64| m < 9e15) && minimum.is_none_or(|m: f64| m >= 0.0) {''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let v = serde_json::json!({"type": "integer", "minimum": -5});
    let p = PrimitiveSchemaDefinition::try_from(v.as_object().unwrap()).unwrap();
    let w = serde_json::to_value(p).unwrap();
    println!("{w}");
    std::process::exit((w["type"] != "integer") as i32);
}''', "an integer property with a negative minimum", "the property becomes a number property, so fractions are allowed")
# --- C19
bug("level-notice", "C19", f"{G}/2025_03_26/mcp_schema.rs",
    [('''            Self::Notice => write!(f, "notice"),''', '''            Self::Notice => write!(f, "info"),''')],
    "2025_03_26", r'''
use rust_mcp_schema::mcp_2025_03_26::LoggingLevel;
fn main() {
    println!("{}", LoggingLevel::Notice);
    std::process::exit((LoggingLevel::Notice.to_string() != "notice") as i32);
}''', "printing the level notice", "the level notice is printed as another level's name")
# --- C06
bug("templates-params-cursor-only", "C06", f"{G}/2025_06_18/schema_utils.rs",
    [('''                ListResourceTemplatesRequest(msg) => {
                    if let Some(params) = &msg.params {''', '''                ListResourceTemplatesRequest(msg) => {
                    if let Some(params) = msg.params.as_ref().filter(|p| p.cursor.is_some()) {''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::schema_utils::*;
fn main() {
    let v = serde_json::json!({"jsonrpc": "2.0", "id": 1, "method": "resources/templates/list", "params": {}});
    let m: ClientMessage = serde_json::from_value(v.clone()).unwrap();
    let w = serde_json::to_value(&m).unwrap();
    println!("{w}");
    std::process::exit((w != v) as i32);
}''', "listing resource templates with parameters but without a cursor", "the request is written without its parameters")
# --- C08
bug("generic-result-empty-meta", "C08", f"{G}/2025_11_25/mcp_schema.rs",
    [('''            serde_json::Value::Object(obj) => Some(obj),
            _ => None,
        });
        let extra''', '''            serde_json::Value::Object(obj) if !obj.is_empty() => Some(obj),
            _ => None,
        });
        let extra''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let v = serde_json::json!({"_meta": {}, "tools": []});
    let r: ListToolsResult = serde_json::from_value(v.clone()).unwrap();
    let w = serde_json::to_value(GenericResult::from(r)).unwrap();
    println!("{w}");
    std::process::exit((w != v) as i32);
}''', "a result with empty metadata made into a generic result", "the conversion drops the empty metadata object")
# --- C10
bug("blank-error-data", "C10", f"{G}/2025_11_25/schema_utils.rs",
    [('''        Self::new(RpcError::new(error_code, error_message, error_data), id)''',
      '''        let error_data = error_data.filter(|data| data.as_str() != Some(""));
        Self::new(RpcError::new(error_code, error_message, error_data), id)''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::{*, schema_utils::*};
fn main() {
    let e = JsonrpcErrorResponse::create(None, RpcErrorCodes::INVALID_PARAMS, "m".into(), Some(serde_json::json!("")));
    println!("{e}");
    std::process::exit(e.error.data.is_none() as i32);
}''', "an error whose data is the empty string", "the error message is made without its data")
# --- C11
bug("draft-any-case", "C11", f"{G}/protocol_version.rs",
    [('''            "DRAFT" => Ok(ProtocolVersion::Draft),
            other =>''', '''            other if other.eq_ignore_ascii_case("draft") => Ok(ProtocolVersion::Draft),
            other =>''')],
    "2025_11_25", r'''
use rust_mcp_schema::ProtocolVersion;
fn main() {
    let r = ProtocolVersion::try_from("Draft");
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}''', "the name of the draft in another case", "a string that is no version's name parses")
# --- C16
bug("error-details-cut", "C16", f"{G}/draft/schema_utils.rs",
    [('''impl FromStr for ServerMessage {
    type Err = RpcError;

    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
        serde_json::from_str(s)
            .map_err(|error| RpcError::parse_error().with_data(Some(json!({ "details" : error.to_string() }))))''',
      '''impl FromStr for ServerMessage {
    type Err = RpcError;

    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
        serde_json::from_str(s).map_err(|error| {
            let start = &s[..s.len().min(64)];
            RpcError::parse_error().with_data(Some(json!({ "details" : error.to_string(), "text" : start })))
        })''')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::schema_utils::*;
fn main() {
    let mut bad = 0;
    for n in 0..5 {
        let text = format!("{{\"jsonrpc\":\"2.0\",\"x\":\"{}{}\"}}", "a".repeat(n), "é€".repeat(40));
        let r = std::panic::catch_unwind(|| text.parse::<ServerMessage>().is_err());
        println!("{r:?}");
        bad |= r.is_err() as i32;
    }
    std::process::exit(bad);
}''', "a refused text longer than 64 bytes with a multi-byte character there", "parsing the text panics instead of returning an error")
# --- C17
bug("meta-keeps-foreign", "C17", f"{G}/draft/schema_utils.rs",
    [('''            RequestFromClient::GetPromptRequest(params) => params.meta = meta,''',
      '''            RequestFromClient::GetPromptRequest(params) => {
                let extra = params.meta.extra.take();
                params.meta = meta;
                params.meta.extra = params.meta.extra.take().or(extra);
            }''')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::{*, schema_utils::*};
fn main() {
    let caps = || ClientCapabilities::default();
    let p: GetPromptRequestParams = serde_json::from_value(serde_json::json!({"name": "p", "_meta": RequestMetaObject::new("v1", caps()).with_traceparent("00-old")})).unwrap();
    let r = RequestFromClient::GetPromptRequest(p).with_meta(RequestMetaObject::new("v2", caps()));
    println!("{:?}", r.meta());
    std::process::exit(r.meta().unwrap().traceparent().is_some() as i32);
}''', "stamping metadata without foreign members on a prompt request that has some", "the old request's trace context stays on the request")
# --- C18
bug("state-of-earlier-round", "C18", f"{G}/2026_07_28/schema_utils.rs",
    [('''            RequestFromClient::ReadResourceRequest(mut params) => {
                params.input_responses = Some(input_responses);
                params.request_state = request_state;''', '''            RequestFromClient::ReadResourceRequest(mut params) => {
                params.input_responses = Some(input_responses);
                params.request_state = request_state.or(params.request_state);''')],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::{*, schema_utils::*};
fn main() {
    let p: ReadResourceRequestParams = serde_json::from_value(serde_json::json!({"uri": "file:///x", "requestState": "round-1",
        "_meta": RequestMetaObject::new("2026-07-28", ClientCapabilities::default())})).unwrap();
    let r = RequestFromClient::ReadResourceRequest(p).with_input_responses(InputResponses::new(), None).unwrap();
    let w = serde_json::to_value(r).unwrap();
    println!("{w}");
    std::process::exit(w.to_string().contains("round-1") as i32);
}''', "a second retry of a resource read, with no state, after one that had a state", "the state of the earlier round is sent again")
bug("first-answer-kept", "C18", f"{G}/draft/schema_utils.rs",
    [('''        self.0.insert(key.into(), response.into());
        self''', '''        self.0.entry(key.into()).or_insert(response.into());
        self''')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::*;
fn main() {
    let roots = |n: usize| -> ListRootsResult { serde_json::from_value(serde_json::json!({"roots": vec![serde_json::json!({"uri": "file:///r"}); n]})).unwrap() };
    let r = InputResponses::new().insert("k", roots(1)).insert("k", roots(2));
    let w = serde_json::to_value(r).unwrap();
    println!("{w}");
    std::process::exit((w["k"]["roots"].as_array().unwrap().len() != 2) as i32);
}''', "two answers under one key", "the first answer is kept instead of the last")
# --- C20
bug("id-case-when-together", "C20", f"{G}/2025_06_18/schema_utils.rs",
    [('''            (RequestId::Integer(a), RequestId::Integer(b)) => a == b,
            _ => false, // Different variants are never equal''', '''            (RequestId::Integer(a), RequestId::Integer(b)) => a == b,
            // later versions of the protocol may be spoken on the same connection
            (RequestId::String(a), RequestId::Integer(b)) | (RequestId::Integer(b), RequestId::String(a)) => {
                cfg!(feature = "2025_11_25") && *a == b.to_string()
            }''')],
    ["2025_06_18", "2025_11_25"], r'''
use rust_mcp_schema::mcp_2025_06_18::RequestId;
fn main() {
    let same = RequestId::String("7".into()) == RequestId::Integer(7);
    println!("{same}");
    std::process::exit(same as i32);
}''', "2025-06-18 built together with 2025-11-25, and ids 7 and \"7\"", "with 2025-11-25 switched on, 2025-06-18 takes a digit string and a number for the same id")
# --- C21
bug("related-task-kept", "C21", f"{G}/2025_11_25/schema_utils.rs",
    [('''        if let Some(meta) = &mut self.meta {
            meta.insert(RELATED_TASK_META_KEY.into(), task_json);
        } else {''', '''        if let Some(meta) = &mut self.meta {
            meta.entry(RELATED_TASK_META_KEY).or_insert(task_json);
        } else {''', 0)],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let mut r: GetTaskPayloadResult = serde_json::from_value(serde_json::json!({})).unwrap();
    r.set_related_task_id("a");
    r.set_related_task_id("b");
    println!("{:?}", r.related_task_id());
    std::process::exit((r.related_task_id() != Some("b")) as i32);
}''', "setting the related task twice on a payload result", "the second related task is not stored")
# --- C12
bug("id-printed-as-float", "C12", f"{G}/draft/schema_utils.rs",
    [('''            RequestId::Integer(i) => write!(f, "{}", i),''', '''            RequestId::Integer(i) => write!(f, "{}", i as f64),''')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::RequestId;
fn main() {
    let s = RequestId::Integer(9007199254740993).to_string();
    println!("{s}");
    std::process::exit((s != "9007199254740993") as i32);
}''', "an integer id beyond 2^53", "the id is printed as another number")
# --- C13
bug("vec-of-one", "C13", f"{G}/draft/schema_utils.rs",
    [('''impl From<Vec<MessageFromServer>> for MessagesFromServer {
    fn from(value: Vec<MessageFromServer>) -> Self {
        Self::Batch(value)''', '''impl From<Vec<MessageFromServer>> for MessagesFromServer {
    fn from(mut value: Vec<MessageFromServer>) -> Self {
        if value.len() == 1 {
            return Self::Single(value.remove(0));
        }
        Self::Batch(value)''')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::{*, schema_utils::*};
fn main() {
    let b = MessagesFromServer::from(vec![MessageFromServer::Error(RpcError::internal_error())]);
    println!("{}", b.is_batch());
    std::process::exit(!b.is_batch() as i32);
}''', "a batch of one message to be sent", "a one-message batch is written as a single message")
# --- C01
bug("absent-hints-written", "C01", f"{G}/2025_03_26/mcp_schema.rs",
    [('''    #[serde(default, skip_serializing_if = "::std::vec::Vec::is_empty")]
    pub hints''', '''    #[serde(default)]
    pub hints''')],
    "2025_03_26", r'''
use rust_mcp_schema::mcp_2025_03_26::*;
fn main() {
    let p: ModelPreferences = serde_json::from_value(serde_json::json!({"costPriority": 0.5})).unwrap();
    let w = serde_json::to_value(p).unwrap();
    println!("{w}");
    std::process::exit(w.get("hints").is_some() as i32);
}''', "model preferences without hints", "an empty list of hints is written that was not there")
# --- C03
bug("elicitation-id-defaulted", "C03", f"{G}/2025_11_25/mcp_schema.rs",
    [('''    #[serde(rename = "elicitationId")]
    pub elicitation_id: ::std::string::String,
''', '''    #[serde(rename = "elicitationId", default)]
    pub elicitation_id: ::std::string::String,
''', 0)],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let a = serde_json::from_value::<ElicitRequestUrlParams>(serde_json::json!({"message": "m", "mode": "url", "url": "https://x"})).is_ok();
    let b = serde_json::from_value::<ElicitCompleteParams>(serde_json::json!({})).is_ok();
    println!("{a} {b}");
    std::process::exit((a || b) as i32);
}''', "an elicitation message whose required id is missing", "the missing id is read as an empty string")
# --- C07
bug("notification-id-zero", "C07", f"{G}/2026_07_28/schema_utils.rs",
    [('''            MessageFromClient::NotificationFromClient(notification_from_client) => {
                if request_id.is_some() {''', '''            MessageFromClient::NotificationFromClient(notification_from_client) => {
                if request_id.is_some_and(|id| id != RequestId::default()) {''')],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::{*, schema_utils::*};
fn main() {
    let n = NotificationFromClient::CustomNotification(CustomRequest { method: "x/y".into(), params: None });
    let r = ClientMessage::from_message(MessageFromClient::from(n), Some(RequestId::Integer(0)));
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}''', "a notification given the id 0", "a notification with an id is not refused")
# --- C09
bug("task-tools-any", "C09", f"{G}/2025_11_25/schema_utils.rs",
    [('''                return tools.call.is_some();''', '''                return tools.call.is_some() || self.list.is_some();''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let c: ServerCapabilities = serde_json::from_value(serde_json::json!({"tools": {}, "tasks": {"list": {}, "requests": {"tools": {}}}})).unwrap();
    let r = c.can_run_task_augmented_tools();
    println!("{r}");
    std::process::exit(r as i32);
}''', "a server whose task requests name tools without call, and that lists tasks", "task-augmented tool calls are said to be supported")
# --- C14
bug("uri-resets-mime", "C14", f"{G}/2025_11_25/schema_utils.rs",
    [('''    pub fn with_uri<T: Into<String>>(mut self, uri: T) -> Self {
        self.uri = uri.into();''', '''    pub fn with_uri<T: Into<String>>(mut self, uri: T) -> Self {
        let uri = uri.into();
        if self.uri != uri {
            self.mime_type = None;
        }
        self.uri = uri;''', 1)],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let b = BlobResourceContents::new("AA==", "file:///a").with_mime_type("image/png").with_uri("file:///b");
    println!("{b:?}");
    std::process::exit(b.mime_type.is_none() as i32);
}''', "a blob whose uri is changed after its mime type was set", "changing the uri drops the mime type")
# --- C19
bug("datetime-alias", "C19", f"{G}/2025_06_18/schema_utils.rs",
    [('''            "date-time" => Ok(Self::DateTime),''', '''            "date-time" | "datetime" => Ok(Self::DateTime),''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::*;
fn main() {
    let r = "datetime".parse::<StringSchemaFormat>();
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}''', "a format name without its hyphen", "a string that is no format parses as one")
# --- C22
# --- C01
bug("token-alias", "C01", f"{G}/2025_11_25/mcp_schema.rs",
    [('''pub struct RequestParamsMeta {
    ///If specified, the caller is requesting out-of-band progress notifications for this request (as represented by notifications/progress). The value of this parameter is an opaque token that will be attached to any subsequent notifications. The receiver is not obligated to provide these notifications.
    #[serde(rename = "progressToken", default''', '''pub struct RequestParamsMeta {
    ///If specified, the caller is requesting out-of-band progress notifications for this request (as represented by notifications/progress). The value of this parameter is an opaque token that will be attached to any subsequent notifications. The receiver is not obligated to provide these notifications.
    #[serde(rename = "progressToken", alias = "progress_token", default''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let v = serde_json::json!({"progress_token": 7, "other": true});
    let r = serde_json::from_value::<RequestParamsMeta>(v.clone()).map(|m| serde_json::to_value(m).unwrap());
    println!("{r:?}");
    std::process::exit((r.ok() != Some(v)) as i32);
}''', "request metadata with a foreign member spelled progress_token", "the foreign member is renamed and starts progress notifications")
# --- C21
bug("related-task-merged", "C21", f"{G}/2025_11_25/schema_utils.rs",
    [(".and_modify(|e| *e = task_json.clone())", '''.and_modify(|e| match (e.as_object_mut(), task_json.as_object()) {
                (Some(old), Some(new)) => old.extend(new.clone()),
                _ => *e = task_json.clone(),
            })''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::schema_utils::*;
fn main() {
    let m = serde_json::json!({"io.modelcontextprotocol/related-task": {"taskId": "a", "attempt": 1}});
    let mut m = m.as_object().unwrap().clone();
    m.set_related_task_id("b");
    println!("{m:?}");
    std::process::exit((m["io.modelcontextprotocol/related-task"] != serde_json::json!({"taskId": "b"})) as i32);
}''', "metadata whose related-task entry holds more than the task id, set again", "parts of the earlier task's entry stay on the new one")
# --- C18
bug("retry-merges-answers", "C18", f"{G}/draft/schema_utils.rs",
    [('''params.input_responses = Some(input_responses);
                params.request_state = request_state;
                Ok(RequestFromClient::ReadResourceRequest''', '''match &mut params.input_responses {
                    Some(earlier) => earlier.0.extend(input_responses.0),
                    none => *none = Some(input_responses),
                }
                params.request_state = request_state;
                Ok(RequestFromClient::ReadResourceRequest''')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::{schema_utils::*, *};
fn main() {
    let meta = RequestMetaObject::new("DRAFT", serde_json::from_str("{}").unwrap());
    let p: ReadResourceRequestParams = serde_json::from_value(serde_json::json!({"uri": "x:y", "_meta": serde_json::to_value(meta).unwrap()})).unwrap();
    let r: RequestFromClient = RequestFromClient::ReadResourceRequest(p);
    let answer = || -> InputResponse { serde_json::from_value(serde_json::json!({"action": "decline"})).unwrap() };
    let r = r.with_input_responses(InputResponses::new().insert("first", answer()), None).unwrap();
    let r = r.with_input_responses(InputResponses::new().insert("second", answer()), None).unwrap();
    let w = serde_json::to_value(&r).unwrap();
    println!("{w}");
    let keys: Vec<_> = w.pointer("/inputResponses").and_then(|v| v.as_object()).map(|o| o.keys().cloned().collect()).unwrap_or_default();
    std::process::exit((keys != ["second"]) as i32);
}''', "a resource read retried over two rounds with different keys", "the second retry still carries the answers of the first round")
bug("asks-cut-at-32", "C18", f"{G}/2026_07_28/schema_utils.rs",
    [("        self.0.iter()\n", "        self.0.iter().take(32)\n")],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::*;
fn main() {
    let o: serde_json::Map<String, serde_json::Value> = (0..40).map(|i| (format!("k{i}"), serde_json::json!({"method": "roots/list"}))).collect();
    let q: InputRequests = serde_json::from_value(serde_json::Value::Object(o)).unwrap();
    println!("{} of {}", q.iter().count(), q.len());
    std::process::exit((q.iter().count() != 40) as i32);
}''', "a result asking for more than 32 inputs at once", "iteration does not reach every input request")
# --- C23
bug("asks-without-type", "C23", f"{G}/draft/mcp_schema.rs",
    [('if result_type == Some("input_required") {', '''if result_type == Some("input_required")
            || (result_type.is_none() && value.get("inputRequests").and_then(|v| v.as_object()).is_some_and(|o| !o.is_empty()))
        {''')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::{schema_utils::*, *};
fn main() {
    let v = serde_json::json!({"content": [], "inputRequests": {"a": {"method": "roots/list"}}});
    let r: ServerResult = serde_json::from_value(v).unwrap();
    println!("{r:?}");
    std::process::exit(r.is_input_required() as i32);
}''', "an older server's result without a result type that has a member called inputRequests", "a complete result is taken to ask for input")
# --- C12
bug("ids-equal-as-floats", "C12", f"{G}/draft/schema_utils.rs",
    [('(RequestId::Integer(a), RequestId::Integer(b)) => a == b', '(RequestId::Integer(a), RequestId::Integer(b)) => *a as f64 == *b as f64')],
    "draft", r'''
use rust_mcp_schema::mcp_draft::*;
fn main() {
    let (a, b) = (RequestId::Integer(9_007_199_254_740_993), RequestId::Integer(9_007_199_254_740_992));
    println!("{}", a == b);
    std::process::exit((a == b) as i32);
}''', "two ids above 2^53 that differ by one", "different ids compare equal, so a response can resolve another request")
# --- C07
bug("custom-null-params", "C07", f"{G}/2026_07_28/schema_utils.rs",
    [('return Self::Custom(JsonrpcRequest::new(id, params.method, params.params))', '''return Self::Custom(JsonrpcRequest::new(
                    id,
                    params.method,
                    params.params.filter(|p| !p.values().all(|v| v.is_null())),
                ))''')],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::{schema_utils::*, *};
fn main() {
    let p = serde_json::json!({"filter": null});
    let c: CustomRequest = serde_json::from_value(serde_json::json!({"method": "x/y", "params": p})).unwrap();
    let r = ClientJsonrpcRequest::new(RequestId::Integer(1), RequestFromClient::CustomRequest(c));
    let w = serde_json::to_value(&r).unwrap();
    println!("{w}");
    std::process::exit((w["params"] != p) as i32);
}''', "a custom request all of whose parameters are null", "the message built from it has no parameters")
# --- C05
bug("untagged-response", "C05", f"{G}/2026_07_28/schema_utils.rs",
    [('''                let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
                let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                let result = serde_json::from_value::<ServerResult>''', '''                let jsonrpc = jsonrpc.unwrap_or_else(|| JSONRPC_VERSION.to_string());
                let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                let result = serde_json::from_value::<ServerResult>''')],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::schema_utils::*;
fn main() {
    let r = r#"{"id":1,"result":{"resultType":"complete"}}"#.parse::<ServerMessage>();
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}''', "an object with id and result but without the protocol tag", "something that is no JSON-RPC message is read as a response")
# --- C09
bug("notification-any-case", "C09", f"{G}/2026_07_28/schema_utils.rs",
    [('if ToolListChangedNotification::method_value().eq(notification_method) && self.tools.is_none()', 'if ToolListChangedNotification::method_value().eq_ignore_ascii_case(notification_method) && self.tools.is_none()')],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::*;
fn main() {
    let c: ServerCapabilities = serde_json::from_str("{}").unwrap();
    let r = c.can_accept_notification("Notifications/Tools/List_Changed");
    println!("{r:?}");
    std::process::exit(r.is_err() as i32);
}''', "a custom notification whose name is a standard one in another case", "a notification that needs nothing is refused")
# --- C14
bug("structured-merged", "C14", f"{G}/2025_11_25/schema_utils.rs",
    [('self.structured_content = Some(structured_content);', '''match self.structured_content.as_mut() {
            Some(earlier) => earlier.extend(structured_content),
            None => self.structured_content = Some(structured_content),
        }''')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let o = |v: serde_json::Value| v.as_object().unwrap().clone();
    let r = CallToolResult::text_content(vec![])
        .with_structured_content(o(serde_json::json!({"a": 1})))
        .with_structured_content(o(serde_json::json!({"b": 2})));
    println!("{r:?}");
    std::process::exit((r.structured_content != Some(o(serde_json::json!({"b": 2})))) as i32);
}''', "structured content set twice on one result", "the result keeps members of the first content")
# --- C13
bug("requests-in-first-eight", "C13", f"{G}/2025_03_26/schema_utils.rs",
    [('ServerMessages::Batch(server_messages) => server_messages.iter().any(ServerMessage::is_request)', 'ServerMessages::Batch(server_messages) => server_messages.iter().take(8).any(ServerMessage::is_request)')],
    "2025_03_26", r'''
use rust_mcp_schema::mcp_2025_03_26::schema_utils::*;
fn main() {
    let n = r#"{"jsonrpc":"2.0","method":"notifications/tools/list_changed"},"#;
    let t = format!("[{}{}]", n.repeat(9), r#"{"jsonrpc":"2.0","id":1,"method":"ping"}"#);
    let b: ServerMessages = serde_json::from_str(&t).unwrap();
    println!("{}", b.includes_request());
    std::process::exit(!b.includes_request() as i32);
}''', "a batch whose only request comes after eight other messages", "a batch with a request is said to include none")
# --- C03
bug("const-with-path", "C03", f"{G}/2026_07_28/validators.rs",
    [('''    if value == expected {''', '''    if value == expected || value.strip_prefix(expected).is_some_and(|rest| rest.starts_with('/')) {''', 0)],
    "2026_07_28", r'''
use rust_mcp_schema::mcp_2026_07_28::*;
fn main() {
    let r = serde_json::from_str::<TextContent>(r#"{"type":"text/plain","text":"x"}"#);
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}''', "a type constant with something after it, as in text/plain", "content of an unlisted type is accepted")
# --- C11
bug("version-with-build", "C11", f"{G}/protocol_version.rs",
    [('''        match value {
            "2024''', '''        match value.split('+').next().unwrap_or(value) {
            "2024''')],
    "2025_11_25", r'''
use rust_mcp_schema::ProtocolVersion;
fn main() {
    let r = ProtocolVersion::try_from("2025-06-18+beta");
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}''', "a version name with a plus sign and more after it", "a string that names no version is taken as one")
# --- C16
bug("mark-before-message", "C16", f"{G}/2025_06_18/schema_utils.rs",
    [('''impl FromStr for ServerMessage {
    type Err = RpcError;

    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
        serde_json::from_str(s)''', '''impl FromStr for ServerMessage {
    type Err = RpcError;

    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
        serde_json::from_str(s.trim_start_matches('\\u{feff}'))''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::schema_utils::*;
fn main() {
    let t = "\u{feff}{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"ping\"}";
    let (a, b) = (t.parse::<ServerMessage>(), serde_json::from_str::<ServerMessage>(t));
    println!("{a:?} {b:?}");
    std::process::exit((a.is_ok() != b.is_ok()) as i32);
}''', "a message after a byte order mark, parsed with FromStr", "text that is no JSON is taken in one form and refused in another")
# --- C06
bug("blank-cursor-dropped", "C06", f"{G}/2025_06_18/schema_utils.rs",
    [('''                ListToolsRequest(msg) => {
                    if let Some(params) = &msg.params {''', '''                ListToolsRequest(msg) => {
                    if let Some(params) = msg.params.as_ref().filter(|p| p.cursor.as_deref() != Some("")) {''')],
    "2025_06_18", r'''
use rust_mcp_schema::mcp_2025_06_18::schema_utils::*;
fn main() {
    let v = serde_json::json!({"jsonrpc": "2.0", "id": 1, "method": "tools/list", "params": {"cursor": ""}});
    let m: ClientMessage = serde_json::from_value(v.clone()).unwrap();
    let w = serde_json::to_value(&m).unwrap();
    println!("{w}");
    std::process::exit((w != v) as i32);
}''', "a tools/list request whose cursor is the empty string", "the request is written without its parameters")
# --- C15
bug("title-as-description", "C15", f"{G}/2025_11_25/schema_utils.rs",
    [('let title = value.get("title").and_then(|v| v.as_str().map(|s| s.to_string()));', 'let title = value.get("title").and_then(|v| v.as_str().map(|s| s.to_string())).filter(|t| Some(t) != description.as_ref());')],
    "2025_11_25", r'''
use rust_mcp_schema::mcp_2025_11_25::*;
fn main() {
    let v = serde_json::json!({"type": "boolean", "title": "Agree", "description": "Agree"});
    let a = PrimitiveSchemaDefinition::try_from(v.as_object().unwrap()).map(|p| serde_json::to_value(p).unwrap());
    println!("{a:?}");
    std::process::exit((a.ok() != Some(v)) as i32);
}''', "a property whose title and description are the same text", "the title is lost")
# --- C20
bug("levels-when-together", "C20", f"{G}/2025_06_18/mcp_schema.rs",
    [("""    #[serde(rename = "warning")]
""", """    #[serde(rename = "warning")]
    #[cfg_attr(feature = "2025_11_25", serde(alias = "warn"))]
""")],
    ["2025_06_18", "2025_11_25"], r"""
use rust_mcp_schema::mcp_2025_06_18::*;
fn main() {
    let r = serde_json::from_str::<LoggingLevel>("\"warn\"");
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}""", "2025-06-18 built together with 2025-11-25", "a version takes a name it refuses when built alone")
# --- C24
bug("last-text-remembered", "C24", f"{G}/2025_11_25/schema_utils.rs",
    [("""impl FromStr for ServerMessage {
    type Err = RpcError;

    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
        serde_json::from_str(s)
            .map_err(|error| RpcError::parse_error().with_data(Some(json!({ "details" : error.to_string() }))))
    }
}
""", """thread_local! {
    // Servers tend to repeat themselves (pings, progress): the last message parsed on this thread
    static LAST: std::cell::RefCell<Option<(String, ServerMessage)>> = const { std::cell::RefCell::new(None) };
}
/// What the last message is remembered by: its length, and its outer parts
fn text_key(s: &str) -> String {
    let b = s.as_bytes();
    let n = b.len().min(48);
    format!("{}:{}:{}", b.len(), String::from_utf8_lossy(&b[..n]), String::from_utf8_lossy(&b[b.len() - n..]))
}

impl FromStr for ServerMessage {
    type Err = RpcError;

    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
        let key = text_key(s);
        if let Some(m) = LAST.with_borrow(|l| l.as_ref().filter(|l| l.0 == key).map(|l| l.1.clone())) {
            return Ok(m);
        }
        let m: ServerMessage = serde_json::from_str(s)
            .map_err(|error| RpcError::parse_error().with_data(Some(json!({ "details" : error.to_string() }))))?;
        LAST.with_borrow_mut(|l| *l = Some((key, m.clone())));
        Ok(m)
    }
}
""")],
    "2025_11_25", r"""
use rust_mcp_schema::mcp_2025_11_25::schema_utils::*;
fn main() {
    let text = |v: &str| format!("{{\"jsonrpc\":\"2.0\",\"method\":\"notifications/message\",\"params\":{{\"level\":\"info\",\"data\":\"{v}{}\"}}}}", "-".repeat(60));
    let a: ServerMessage = text("first").parse().unwrap();
    let b: ServerMessage = text("other").parse().unwrap();
    println!("{a}\n{b}");
    std::process::exit((a.to_string() == b.to_string()) as i32);
}""", "two messages parsed one after the other on a thread, of one length and differing only in their middle", "the second message reads as the first")
bug("depth-left-behind", "C24", f"{G}/draft/mcp_schema.rs",
    [("""        if result_type == Some("input_required") {
            return serde_json::from_value::<InputRequiredResult>(value)
                .map(ServerResult::InputRequiredResult)
                .map_err(serde::de::Error::custom);
        }
""", """        if result_type == Some("input_required") {
            // an answer to an answer to an answer...: no deeper than anyone needs
            thread_local!(static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
            let depth = DEPTH.get();
            if depth > 64 {
                return Err(serde::de::Error::custom("input requests nested too deeply"));
            }
            DEPTH.set(depth + 1);
            let result = serde_json::from_value::<InputRequiredResult>(value).map_err(serde::de::Error::custom)?;
            DEPTH.set(depth);
            return Ok(ServerResult::InputRequiredResult(result));
        }
""")],
    "draft", r"""
use rust_mcp_schema::mcp_draft::*;
fn main() {
    for _ in 0..100 {
        let _ = serde_json::from_str::<ServerResult>(r#"{"resultType":"input_required","inputRequests":5}"#);
    }
    let r = serde_json::from_str::<ServerResult>(r#"{"resultType":"input_required","inputRequests":{}}"#);
    println!("{r:?}");
    std::process::exit(r.is_err() as i32);
}""", "sixty-five malformed input-required results read on one thread, then a good one", "every later input-required result is refused on that thread")
bug("failure-ends-the-object", "C24", f"{G}/2024_11_05/schema_utils.rs",
    [("                while let Some(key) = map.next_key::<String>()? {", "                while let Ok(Some(key)) = map.next_key::<String>() {", 0)],
    "2024_11_05", r"""
use rust_mcp_schema::mcp_2024_11_05::schema_utils::*;
struct Cut(&'static [u8]);
impl std::io::Read for Cut {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() { return Err(std::io::Error::from(std::io::ErrorKind::TimedOut)); }
        let n = b.len().min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn main() {
    let bad = |e: Option<serde_json::Error>| e.is_none_or(|e| e.io_error_kind() != Some(std::io::ErrorKind::TimedOut));
    let t = br#"{"jsonrpc":"2.0","id":1,"#;
    let c = serde_json::from_reader::<_, ClientJsonrpcRequest>(Cut(t)).err();
    println!("{c:?}");
    std::process::exit(bad(c) as i32);
}""", "a connection that times out between two members of a request", "the failure is reported as a malformed request, not as the source's failure")
bug("printing-must-work", "C24", f"{G}/2026_07_28/schema_utils.rs",
    [("""impl Display for ServerJsonrpcNotification {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{}",
            serde_json::to_string(self).unwrap_or_else(|err| format!("Serialization error: {err}"))
        )
    }
}""", """impl Display for ServerJsonrpcNotification {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // straight to the formatter, without a copy of the text in between
        struct Out<'a, 'b>(&'a mut std::fmt::Formatter<'b>);
        impl std::io::Write for Out<'_, '_> {
            fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
                let text = std::str::from_utf8(buf).map_err(std::io::Error::other)?;
                self.0.write_str(text).map_err(std::io::Error::other)?;
                Ok(buf.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let _ = serde_json::to_writer(Out(f), self);
        Ok(())
    }
}""")],
    "2026_07_28", r"""
use rust_mcp_schema::mcp_2026_07_28::schema_utils::*;
use std::fmt::Write;
struct Room(usize);
impl Write for Room {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if t.len() > self.0 { return Err(std::fmt::Error); }
        self.0 -= t.len();
        Ok(())
    }
}
fn main() {
    let n: ServerJsonrpcNotification = r#"{"jsonrpc":"2.0","method":"notifications/tools/list_changed"}"#.parse().unwrap();
    let r = write!(Room(10), "{n}");
    println!("{r:?}");
    std::process::exit(r.is_ok() as i32);
}""", "a notification printed to a destination that runs out of room", "printing reports success although the text was cut short")
