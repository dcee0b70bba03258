//! A table of single calls, each with all it needs, so that any of them can be the first one a process makes.
use super::messages::{gen, slots};
use crate::msgs::*;
use crate::sides::{self, jv, parse_msg, parse_msg_text, rebuild, ErrEnv};
use crate::spec::*;
use crate::util::*;
use crate::ver::{self, s, u};
use crate::{vfld, vreg, vtab};
use rust_mcp_schema::ProtocolVersion as P;
use serde_json::{json, Value};

pub struct Op {
    pub family: &'static str,
    pub what: String,
    run: Box<dyn Fn() -> Value + Send + Sync>,
}
impl Op {
    /// What the call comes to, in a form that does not depend on the order of members.
    pub fn outcome(&self) -> String {
        let mut t = String::new();
        match guard(|| (self.run)()) {
            Ok(v) => steady(&v, &mut t),
            Err(p) => t = p,
        }
        t
    }
}

fn steady(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            keys.sort();
            out.push('{');
            for k in keys {
                out.push_str(&json!(k).to_string());
                out.push(':');
                steady(&m[k], out);
                out.push(',');
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for x in a {
                steady(x, out);
                out.push(',');
            }
            out.push(']');
        }
        _ => out.push_str(&v.to_string()),
    }
}
/// A printed form: JSON as its value, anything else as it is.
fn shown(t: &dyn std::fmt::Display) -> Value {
    let t = t.to_string();
    serde_json::from_str(&t).unwrap_or(Value::String(t))
}

/// The text with one of its letters or digits another, nothing else.
fn near(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return "a".into();
    }
    let at = if r.chance(1, 2) { c.len() - 1 } else { r.below(c.len()) };
    c[at] = if c[at] == 'b' { 'c' } else { 'b' };
    c.into_iter().collect()
}

pub fn table(sp: &Spec, seed: u64) -> Vec<Op> {
    let mut ops: Vec<Op> = vec![];
    macro_rules! op {
        ($family:literal, $what:expr, $run:expr) => {
            ops.push(Op { family: $family, what: $what, run: Box::new($run) })
        };
    }
    // versions
    for t in ["2024-11-05", "2025-03-26", "2025-06-18", "2025-11-25", "2026-07-28", "DRAFT", "draft", "2025-06-19", "", "1.0"] {
        op!("versions", format!("version from {t:?}"), move || match P::try_from(t) {
            Ok(v) => {
                let t = v.to_string();
                let moved: String = v.into();
                json!([t, moved])
            }
            Err(e) => shown(&e),
        });
    }
    for draft in [false, true] {
        op!("versions", format!("supported versions, draft {draft}"), move || P::supported_versions(draft).iter().map(|v| v.to_string()).collect());
    }
    op!("versions", "latest version".into(), || json!(P::latest().to_string()));
    // errors
    let mut g = gen(seed, 3, "C24 ops errors");
    type Rpc = fn() -> s::RpcError;
    let rpc: [(&'static str, Rpc); 5] = [
        ("method_not_found", s::RpcError::method_not_found),
        ("invalid_params", s::RpcError::invalid_params),
        ("invalid_request", s::RpcError::invalid_request),
        ("internal_error", s::RpcError::internal_error),
        ("parse_error", s::RpcError::parse_error),
    ];
    for (name, f) in rpc {
        op!("errors", format!("RpcError::{name}"), move || json!([jv(&f()), shown(&f())]));
        let a = g.str();
        let b = near(&a, &mut g.rng);
        for (m, d) in [(a.clone(), None), (b.clone(), Some(json!({ "a": a.clone() }))), (a.clone(), Some(json!({ "a": b }))), (String::new(), Some(Value::Null))] {
            op!("errors", format!("RpcError::{name} with {m:?} and {d:?}"), move || {
                let e = f().with_message(m.clone()).with_data(d.clone());
                let back = e.to_string().parse::<s::RpcError>();
                json!([jv(&e), shown(&e), back.map(|e| jv(&e)).map_err(|e| jv(&e))])
            });
        }
    }
    type Sdk = fn() -> u::SdkError;
    let sdk: [(&'static str, Sdk); 9] = [
        ("connection_closed", u::SdkError::connection_closed),
        ("session_not_found", u::SdkError::session_not_found),
        ("invalid_request", u::SdkError::invalid_request),
        ("method_not_found", u::SdkError::method_not_found),
        ("invalid_params", u::SdkError::invalid_params),
        ("internal_error", u::SdkError::internal_error),
        ("parse_error", u::SdkError::parse_error),
        ("resource_not_found", u::SdkError::resource_not_found),
        ("bad_request", u::SdkError::bad_request),
    ];
    for (name, f) in sdk {
        op!("errors", format!("SdkError::{name}"), move || json!([jv(&f()), shown(&f())]));
        let a = g.str();
        let b = near(&a, &mut g.rng);
        for (m, d) in [(a.clone(), None), (b, Some(json!({ "a": a })))] {
            op!("errors", format!("SdkError::{name} with {m:?}"), move || {
                let e = f().with_message(&m).with_data(d.clone());
                json!([jv(&e), shown(&e)])
            });
        }
    }
    for t in [0u128, 5, 5000, 5001, u64::MAX as u128] {
        op!("errors", format!("SdkError::request_timeout({t})"), move || jv(&u::SdkError::request_timeout(t)));
    }
    // tool errors and plain content
    let a = g.str();
    for t in [a.clone(), near(&a, &mut g.rng), near(&a, &mut g.rng), String::new(), " ".into(), "tool-0001".into(), "tool-0002".into()] {
        for how in 0..5 {
            let t = t.clone();
            op!("tools", format!("tool error {how} of {t:?}"), move || {
                use u::CallToolError as E;
                let make = || match how {
                    0 => E::unknown_tool(t.clone()),
                    1 => E::from_message(t.clone()),
                    2 => E::invalid_arguments(&t, None),
                    3 => E::invalid_arguments("a", Some(t.clone())),
                    _ => E::new(std::io::Error::other(t.clone())),
                };
                let cause = std::error::Error::source(&make()).map(|c| c.to_string());
                json!([make().to_string(), cause, jv(&s::RpcError::from(make())), jv(&s::CallToolResult::from(make())), jv(&s::CallToolResult::with_error(make()))])
            });
        }
        op!("tools", format!("text content of {t:?}"), move || {
            let c: s::TextContent = t.as_str().into();
            jv(&c)
        });
    }
    // names and their readings
    for p in vtab::printers() {
        let names: Vec<String> = sp.schema(p.name)["enum"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        let p = std::sync::Arc::new(p);
        for n in names.iter().cloned().chain([near(names.first().map_or("a", |n| n), &mut g.rng)]) {
            let p = p.clone();
            op!("names", format!("{} {n:?}", p.name), move || json!([(p.run)(&n).map(|x| json!([x.0, x.1])), p.parse.as_ref().map(|f| f(&n))]));
        }
    }
    for (name, f) in vtab::defaults() {
        op!("names", format!("default of {name}"), move || f());
    }
    // conversions, constructors, getters, members
    let m = Model::new(sp, ver::group());
    macro_rules! rows {
        ($list:expr, $n:literal, $from:ident, $label:expr, |$c:ident, $v:ident| $run:expr) => {
            for c in $list {
                let label: String = $label(&c);
                let c = std::sync::Arc::new(c);
                for i in 0..$n {
                    let mut g = gen(seed, i, &format!("C24 ops {label}"));
                    let Some(v) = super::conv::source(&m, c.$from, &mut g, i) else { break };
                    let c = c.clone();
                    op!("tables", format!("{label} of {v}"), move || {
                        let ($c, $v) = (&c, v.clone());
                        $run
                    });
                }
            }
        };
    }
    rows!(vtab::convs(), 1, from, |c: &crate::tab::Conv| format!("From<{}> for {}", c.from, c.to), |c, v| json!((c.run)(v).map(|o| json!([o.from_wire, o.to_wire, o.path]))));
    rows!(vtab::trys(), 2, from, |c: &crate::tab::TryConv| format!("TryFrom<{}> for {}", c.from, c.to), |c, v| json!((c.run)(v).map(|o| json!([o.from_wire, o.path, o.out]))));
    rows!(vtab::tomsgs(), 1, from, |c: &crate::tab::ToMsg| format!("{} to {}", c.from, c.to), |c, v| json!([None, Some(s::RequestId::Integer(3)), Some(s::RequestId::String("c".into()))].map(|id| (c.run)(v.clone(), id).map(|o| json!([o.0, o.1, o.2])))));
    rows!(vtab::news(), 1, name, |c: &crate::tab::New| format!("{}::new", c.name), |c, v| json!((c.run)(v).map(|o| json!([o.0, o.1]))));
    rows!(vtab::getters(), 1, name, |c: &crate::tab::Getter| format!("{}.{}", c.name, c.key), |c, v| json!([(c.run)(v).map(|o| json!([o.0, o.1])), (c.statics)()]));
    rows!(vfld::fields(), 1, name, |c: &crate::tab::Field| format!("members of {}", c.name), |c, v| json!((c.run)(v).map(|o| json!([o.0, o.1]))));
    // readings
    for e in vreg::entries() {
        let e = std::sync::Arc::new(e);
        for i in 0..if e.union { 4 } else { 1 } {
            let mut g = gen(seed, i + 2, &format!("C24 ops {}", e.name));
            let v = sp.gen_type(e.name, &mut g);
            let twin = super::apart::twin(&v, &mut g.rng);
            for t in [Some(v.to_string()), twin.filter(|_| e.union)].into_iter().flatten() {
                let e = e.clone();
                op!("readings", format!("{} from {t}", e.name), move || {
                    let o = (e.outcome)(&t);
                    Value::Array(o.split('\n').map(|l| shown(&l)).collect())
                });
            }
        }
    }
    // messages
    for side in SIDES {
        for kind in KINDS {
            for slot in 0..slots(&m, side, kind) {
                let mut g = gen(seed, slot, &format!("C24 ops {side:?}{kind:?}"));
                let v = m.message(&mut g, side, kind, slot).wire;
                let twin = super::apart::twin(&v, &mut g.rng).and_then(|t| serde_json::from_str::<Value>(&t).ok());
                for v in [Some(v.clone()), twin].into_iter().flatten() {
                    let o = |o: sides::MsgObs| json!([o.wire, shown(&o.display), o.path, o.flags, o.mtype, o.id, o.jsonrpc, o.method, o.methods_agree, o.init, o.initd, o.as_kind]);
                    let w = v.clone();
                    op!("messages", format!("{} message {w}", side.name()), move || json!([parse_msg(side, w.clone()).map(o), parse_msg_text(side, &w.to_string(), 0).map(o)]));
                    // the other side's reader, and the parts put together again
                    op!("messages", format!("{} message, taken apart, {v}", side.name()), move || {
                        let ids = [None, Some(s::RequestId::Integer(i64::MAX)), Some(s::RequestId::Integer(i64::MAX - 1)), Some(s::RequestId::String("7".into()))];
                        json!([
                            parse_msg(side.other(), v.clone()).map(o),
                            ids.map(|id| rebuild(side, v.clone(), id).map(|r| {
                                let p = r.payload;
                                json!([p.wire, p.path, p.flags, p.mtype, p.init, p.initd, p.method, r.from_message.map(o), r.constructed.map(o)])
                            }))
                        ])
                    });
                }
            }
        }
    }
    for side in SIDES {
        for n in [0usize, 1, 2, 5, 40] {
            let list: Vec<Value> = (0..n).map(|i| {
                let mut g = gen(seed, i, &format!("C24 ops batch {side:?}{n}"));
                let kind = *g.rng.pick(&KINDS);
                let slot = g.rng.below(slots(&m, side, kind));
                m.message(&mut g, side, kind, slot).wire
            }).collect();
            macro_rules! batch {
                ($T:ident) => {{
                    let list = json!(list);
                    op!("messages", format!("{} of {n}", stringify!($T)), move || match serde_json::from_value::<u::$T>(list.clone()) {
                        Ok(b) => json!([jv(&b), shown(&b), b.is_batch(), b.includes_request(), b.clone().as_batch().map(|v| jv(&v)).map_err(|e| jv(&e)), b.as_single().map(|v| jv(&v)).map_err(|e| jv(&e))]),
                        Err(e) => shown(&e),
                    });
                }};
            }
            match side {
                Side::Client => batch!(ClientMessages),
                Side::Server => batch!(ServerMessages),
            }
        }
    }
    for id in [json!(1), json!(10), json!(-1), json!(i64::MAX), json!(i64::MIN), json!("1"), json!("10"), json!(""), json!("a"), json!("b")] {
        let i = id.clone();
        op!("identifiers", format!("RequestId {id}"), move || match serde_json::from_value::<s::RequestId>(i.clone()) {
            Ok(i) => json!([jv(&i), i.to_string(), format!("{i:?}")]),
            Err(e) => shown(&e),
        });
        op!("identifiers", format!("ProgressToken {id}"), move || match serde_json::from_value::<s::ProgressToken>(id.clone()) {
            Ok(i) => json!([jv(&i), format!("{i:?}")]),
            Err(e) => shown(&e),
        });
    }
    let _ = |e: ErrEnv| e;
    #[cfg(not(feature = "ga"))]
    gating(sp, &m, seed, &mut ops);
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    elicitation(sp, seed, &mut ops);
    #[cfg(feature = "gb")]
    tasks(&mut ops);
    #[cfg(feature = "gc")]
    input(sp, &m, seed, &mut ops);
    ops
}

#[cfg(not(feature = "ga"))]
fn gating(sp: &Spec, m: &Model, seed: u64, ops: &mut Vec<Op>) {
    for side in SIDES {
        let ty = if side == Side::Client { "ServerCapabilities" } else { "ClientCapabilities" };
        // of the peer that is asked
        let mut all = json!({});
        for f in super::caps::FLAGS {
            let mut v = all.clone();
            super::caps::flag(&mut v, f, true);
            if sp.valid_type(ty, &v) {
                all = v;
            }
        }
        let mut less = all.clone();
        let mut g = gen(seed, 1, &format!("C24 ops caps {side:?}"));
        for f in super::caps::FLAGS {
            if g.rng.chance(1, 3) {
                super::caps::flag(&mut less, f, false);
            }
        }
        let sets = [all, json!({}), less];
        for slot in 0..slots(m, side, Kind::Request) {
            let mut g = gen(seed, slot, &format!("C24 ops asks {side:?}"));
            let w = m.message(&mut g, side, Kind::Request, slot).wire;
            for c in &sets {
                let (c, w) = (c.clone(), w.clone());
                ops.push(Op { family: "capabilities", what: format!("{c} asked for {w}"), run: Box::new(move || json!(super::caps::ask(side, &c, &w))) });
            }
        }
        for n in m.notifications(side) {
            let method = m.method(&n);
            for c in &sets {
                let (c, method) = (c.clone(), method.clone());
                ops.push(Op { family: "capabilities", what: format!("{c} asked for {method}"), run: Box::new(move || json!(super::caps::ask_notification(side, &c, &method))) });
            }
        }
    }
}

#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn elicitation(sp: &Spec, seed: u64, ops: &mut Vec<Op>) {
    let mut list: Vec<Value> = vec![
        json!({"type": "string"}), json!({"type": "number"}), json!({"type": "integer"}), json!({"type": "boolean"}), json!({"type": "boolean", "default": true}), json!({"type": "boolean", "default": false}), json!({}),
        json!({"type": "object"}), json!({"type": "string", "enum": ["a", "b"]}), json!({"type": "string", "enum": ["a", "c"]}), json!({"type": "string", "enum": ["a", "b"], "enumNames": ["A", "B"]}),
        json!({"type": "string", "oneOf": [{"const": "a", "title": "A"}]}), json!({"oneOf": [{"enum": ["a"], "title": "A"}]}), json!({"type": "array", "items": {"type": "string", "enum": ["a", "b"]}}), json!({"type": "array"}),
        json!({"type": "string", "minLength": 1}), json!({"type": "string", "minLength": 2}), json!({"type": "string", "format": "email"}), json!({"type": "string", "format": "uri"}), json!({"type": "integer", "minimum": 1}),
        json!({"type": "integer", "minimum": "1"}), json!({"type": "number", "default": 0.5}), json!({"type": "number", "default": 1.5}), json!({"type": 5}), json!({"title": "a"}),
    ];
    for i in 0..16 {
        list.push(sp.gen_type("PrimitiveSchemaDefinition", &mut gen(seed, i, "C24 ops elicit")));
    }
    for v in list {
        let Value::Object(map) = v else { continue };
        ops.push(Op {
            family: "elicitation",
            what: format!("property {}", Value::Object(map.clone())),
            run: Box::new(move || json!(s::PrimitiveSchemaDefinition::try_from(&map).map(|p| jv(&p)).map_err(|e| jv(&e)))),
        });
    }
}

#[cfg(feature = "gb")]
fn tasks(ops: &mut Vec<Op>) {
    use u::McpMetaEx;
    for st in ["cancelled", "completed", "failed", "input_required", "working"] {
        ops.push(Op { family: "tasks", what: format!("status {st}"), run: Box::new(move || json!(serde_json::from_value::<s::TaskStatus>(json!(st)).map(|s| s.is_terminal()).map_err(|e| e.to_string()))) });
    }
    for id in ["task-0001", "task-0002", "task-0011", "t", "u", "", "TASK-0001"] {
        ops.push(Op {
            family: "tasks",
            what: format!("related task {id:?}"),
            run: Box::new(move || {
                let mut m = serde_json::Map::new();
                let none = m.related_task_id().map(String::from);
                m.set_related_task_id(id);
                let n = serde_json::Map::new().with_related_task_id(id).add("a", id).add_if(true, "b", 1).add_if(false, "c", 1).add_raw("d", json!(id));
                let mut r = serde_json::from_value::<s::GetTaskPayloadResult>(json!({})).map_err(|e| e.to_string());
                if let Ok(r) = &mut r {
                    r.set_related_task_id(id);
                }
                json!([none, m, m.related_task_id(), n, n.related_task_id(), r.map(|r| json!([jv(&r), r.related_task_id()]))])
            }),
        });
    }
    for name in ["a", "b", ""] {
        ops.push(Op {
            family: "tasks",
            what: format!("tool call of {name:?} built"),
            run: Box::new(move || {
                let p = s::CallToolRequestParams::new(name);
                let with = p.clone().with_task(s::TaskMetadata { ttl: Some(5) }).with_arguments([(name.to_string(), json!(1))].into_iter().collect());
                json!([jv(&p), p.is_task_augmented(), jv(&with), with.is_task_augmented()])
            }),
        });
    }
}

#[cfg(feature = "gc")]
fn input(sp: &Spec, m: &Model, seed: u64, ops: &mut Vec<Op>) {
    use sides::payload_client;
    for slot in 0..slots(m, Side::Client, Kind::Request) {
        let mut g = gen(seed, slot, "C24 ops input");
        let w = m.message(&mut g, Side::Client, Kind::Request, slot).wire;
        for (n, state) in [(0, None), (1, Some("a")), (1, Some("b")), (2, None)] {
            let w = w.clone();
            let (a, b, meta) = (sp.gen_type("ElicitResult", &mut g), sp.gen_type("ListRootsResult", &mut g), sp.gen_type("RequestMetaObject", &mut g));
            ops.push(Op {
                family: "input",
                what: format!("{n} answers and state {state:?} to {w}"),
                run: Box::new(move || {
                    let Ok((u::MessageFromClient::RequestFromClient(r), _)) = payload_client(w.clone()) else { return json!("not read") };
                    let mut x = s::InputResponses::new();
                    if let (true, Ok(a)) = (n > 0, serde_json::from_value::<s::ElicitResult>(a.clone())) {
                        x = x.insert("a", a);
                    }
                    if let (true, Ok(b)) = (n > 1, serde_json::from_value::<s::ListRootsResult>(b.clone())) {
                        x = x.insert("b", b);
                    }
                    let wire = |r: &u::RequestFromClient| jv(&u::ClientJsonrpcRequest::new(s::RequestId::Integer(1), r.clone()));
                    let stamped = serde_json::from_value::<s::RequestMetaObject>(meta.clone()).map(|m| wire(&r.clone().with_meta(m))).map_err(|e| e.to_string());
                    json!([x.len(), r.meta().map(jv), stamped, r.clone().with_input_responses(x, state.map(String::from)).map(|r| wire(&r)).map_err(|e| jv(&e))])
                }),
            });
        }
    }
    for i in 0..12 {
        let mut g = gen(seed, i, "C24 ops asked");
        let mut v = sp.gen_type("InputRequiredResult", &mut g);
        v["resultType"] = json!("input_required");
        ops.push(Op {
            family: "input",
            what: format!("input required {v}"),
            run: Box::new(move || match serde_json::from_value::<u::ServerJsonrpcResponse>(json!({"jsonrpc": "2.0", "id": 1, "result": v})) {
                Ok(r) => {
                    let q = r.result.as_input_required().and_then(|q| q.input_requests.as_ref().map(|q| {
                        let rows: serde_json::Map<String, Value> = q.iter().map(|(k, x)| (k.clone(), json!([x.method(), x.as_create_message().map(jv), x.as_list_roots().map(jv), x.as_elicit().map(jv), q.get(k).map(jv), q.len()]))).collect();
                        Value::Object(rows)
                    }));
                    json!([r.result.is_input_required(), r.result.is_complete(), q, jv(&r)])
                }
                Err(e) => shown(&e),
            }),
        });
    }
    for (i, t) in ["a", "b", "00-1-1-00", "00-1-1-01", ""].into_iter().enumerate() {
        let caps = sp.gen_type("ClientCapabilities", &mut gen(seed, i, "C24 ops meta"));
        ops.push(Op {
            family: "input",
            what: format!("metadata with {t:?}"),
            run: Box::new(move || match serde_json::from_value::<s::ClientCapabilities>(caps.clone()) {
                Ok(c) => {
                    let m = s::RequestMetaObject::new(t, c);
                    let n = m.clone().with_traceparent(t).with_tracestate(t).with_baggage(t);
                    json!([jv(&m), m.traceparent(), jv(&n), n.traceparent(), n.tracestate(), n.baggage()])
                }
                Err(e) => shown(&e),
            }),
        });
    }
}
