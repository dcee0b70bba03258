//! C21: tasks (2025-11-25): what is finished, what is task-augmented, and which task a message is about.
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::{jv, payload_client, payload_server};
use crate::spec::*;
use crate::util::*;
use crate::ver::{self, s, u};
use serde_json::{json, Map, Value};
use u::McpMetaEx;

const KEY: &str = "io.modelcontextprotocol/related-task";
type Meta = Map<String, Value>;

fn read<T: serde::de::DeserializeOwned>(cx: &mut Cx, v: &Value) -> Option<T> {
    let r = serde_json::from_value(v.clone()).ok();
    if r.is_none() {
        cx.count("source not read");
    }
    r
}

/// A metadata map as a peer might hold it, with the related-task entry absent, well- or ill-formed.
fn meta(g: &mut Gen) -> Meta {
    let mut m = Meta::new();
    for _ in 0..g.rng.below(4) {
        let k = g.key();
        m.insert(k, g.any(2));
    }
    match g.rng.below(9) {
        6 => {
            // the identifier in another place than the schema puts it
            let id = g.str();
            let v = match g.rng.below(7) {
                0 => json!([{"taskId": id}]),
                1 => json!(["taskId", id]),
                2 => json!(id),
                3 => json!({"task": {"taskId": id}}),
                4 => json!({"taskId": {"taskId": id}}),
                5 => json!({"taskId": [id]}),
                _ => json!({KEY: {"taskId": id}}),
            };
            m.insert(KEY.into(), v);
        }
        0 => {
            m.insert(KEY.into(), json!({"taskId": g.str()}));
        }
        1 => {
            let (id, more) = (g.str(), g.any(1));
            m.insert(KEY.into(), json!({"taskId": id, "also": more}));
        }
        2 => {
            let v = g.any(2);
            m.insert(KEY.into(), v);
        }
        3 => {
            let v = g.any(1);
            m.insert(KEY.into(), json!({"taskId": v}));
        }
        4 => {
            let id = g.str();
            let k = if g.rng.chance(1, 2) {
                g.rng.pick(&["related-task", "taskId", "io.modelcontextprotocol/task", "modelcontextprotocol.io/related-task", "mcp/related-task"]).to_string()
            } else {
                near_name(KEY, &mut g.rng)
            };
            m.insert(k, json!({"taskId": id}));
        }
        5 => {
            // the entry, its identifier under another name, and perhaps a true one that is no string
            let (id, k) = (g.str(), if g.rng.chance(1, 4) { "id".to_string() } else { near_name("taskId", &mut g.rng) });
            let mut e = Map::new();
            if g.rng.chance(1, 3) {
                let x = g.any(1);
                e.insert("taskId".into(), x);
            }
            e.insert(k, json!(id));
            m.insert(KEY.into(), Value::Object(e));
        }
        _ => {}
    }
    m
}
fn expected(m: &Meta) -> Option<String> {
    m.get(KEY)?.as_object()?.get("taskId")?.as_str().map(String::from)
}

pub fn tasks(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    // which statuses are final
    for (name, end) in [("cancelled", true), ("completed", true), ("failed", true), ("input_required", false), ("working", false)] {
        let case = json!(name);
        let Some(st) = read::<s::TaskStatus>(cx, &case) else {
            cx.fail("a task status is refused", name.into(), case);
            continue;
        };
        cx.check(st.is_terminal() == end, "terminal status", &format!("is_terminal of {name}"), &case, || st.is_terminal().to_string());
        for i in turned(0..cx.n(20, 2000)) {
            let mut g = gen(seed, i, &format!("C21t{name}"));
            for ty in ["Task", "GetTaskResult"] {
                let mut w = sp.gen_type(ty, &mut g);
                w["status"] = json!(name);
                let got = if ty == "Task" { read::<s::Task>(cx, &w).map(|t| t.is_terminal()) } else { read::<s::GetTaskResult>(cx, &w).map(|t| t.is_terminal()) };
                if let Some(got) = got {
                    cx.check(got == end, "terminal task", &format!("{ty}::is_terminal of {name}"), &w, || got.to_string());
                }
            }
        }
    }
    // task augmentation
    let m = Model::new(sp, ver::group());
    let n = cx.n(30, 3000);
    for side in turned(SIDES) {
        let reqs = m.requests(side);
        for k in 0..=reqs.len() {
            for i in turned(0..n + INTS.len()) {
                let mut g = gen(seed, i, &format!("C21a{side:?}{k}"));
                let mut w = m.message(&mut g, side, Kind::Request, k).wire;
                let method = w["method"].as_str().unwrap_or("").to_string();
                let able = match side {
                    Side::Client => method == "tools/call",
                    Side::Server => method == "sampling/createMessage" || method == "elicitation/create",
                };
                if able {
                    let task = match g.rng.below(4) {
                        // every length of life that is special, each in turn
                        _ if i < INTS.len() => Some(json!({ "ttl": INTS[i] })),
                        0 => None,
                        1 => Some(json!({})),
                        2 => {
                            let ttl = if g.rng.chance(1, 2) { *g.rng.pick(INTS) } else { g.rng.below(1 << 40) as i64 };
                            Some(json!({ "ttl": ttl }))
                        }
                        _ => Some(sp.gen_type("TaskMetadata", &mut g)),
                    };
                    if let Some(p) = w["params"].as_object_mut() {
                        match task {
                            Some(t) => p.insert("task".into(), t),
                            None => p.remove("task"),
                        };
                    }
                } else if g.rng.chance(1, 2) && w["params"].is_object() && !reqs.iter().any(|r| m.method(r) == method) {
                    // a member of that name in a request of one's own means nothing here
                    w["params"]["task"] = json!({});
                }
                let want = able && w["params"].get("task").is_some();
                let case = w.clone();
                let rows: Vec<(&str, bool)> = match side {
                    Side::Client => {
                        let Some(r) = read::<u::ClientJsonrpcRequest>(cx, &w) else { continue };
                        let mut rows = vec![("ClientJsonrpcRequest", r.is_task_augmented())];
                        if let u::ClientJsonrpcRequest::CallToolRequest(c) = &r {
                            rows.push(("CallToolRequest", c.is_task_augmented()));
                            rows.push(("CallToolRequestParams", c.params.is_task_augmented()));
                        }
                        rows
                    }
                    Side::Server => {
                        let Some(r) = read::<u::ServerJsonrpcRequest>(cx, &w) else { continue };
                        let mut rows = vec![("ServerJsonrpcRequest", r.is_task_augmented())];
                        match &r {
                            u::ServerJsonrpcRequest::CreateMessageRequest(c) => rows.push(("CreateMessageRequestParams", c.params.is_task_augmented())),
                            u::ServerJsonrpcRequest::ElicitRequest(c) => rows.push(("ElicitRequestParams", c.params.is_task_augmented())),
                            _ => {}
                        }
                        if let Ok((p, _)) = payload_server(w.clone()) {
                            rows.push(("MessageFromServer", p.is_task_augmented()));
                            if let u::MessageFromServer::RequestFromServer(r) = &p {
                                rows.push(("RequestFromServer", r.is_task_augmented()));
                            }
                        }
                        rows
                    }
                };
                for (who, got) in rows {
                    cx.check(got == want, "task augmentation", &format!("{who}::is_task_augmented of {}", if able { &method } else { "another method" }), &case, || got.to_string());
                }
            }
        }
        // nothing but a request is augmented
        for kind in turned([Kind::Notification, Kind::Response, Kind::Error]) {
            for i in turned(0..n) {
                let mut g = gen(seed, i, &format!("C21n{side:?}{kind:?}"));
                let w = m.message(&mut g, side, kind, i).wire;
                if side == Side::Server {
                    if let Ok((p, _)) = payload_server(w.clone()) {
                        cx.check(!p.is_task_augmented(), "task augmentation", "a message that is no request is task-augmented", &w, String::new);
                    }
                } else {
                    let _ = payload_client;
                }
            }
        }
    }
    // asking for a task changes nothing else
    for i in turned(0..cx.n(150, 15_000)) {
        let mut g = gen(seed, i, "C21w");
        let t = sp.gen_type("TaskMetadata", &mut g);
        let Some(task) = read::<s::TaskMetadata>(cx, &t) else { continue };
        for ty in ["ElicitRequestParams", "ElicitRequestFormParams", "ElicitRequestUrlParams", "CallToolRequestParams"] {
            let w = sp.gen_type(ty, &mut g);
            let (before, after, message) = match ty {
                "ElicitRequestParams" => {
                    let Some(p) = read::<s::ElicitRequestParams>(cx, &w) else { continue };
                    let msg = p.message().to_string();
                    let b = jv(&p);
                    let p = p.with_task(task.clone());
                    cx.check(p.is_task_augmented(), "with_task", &format!("{ty}::with_task then is_task_augmented"), &w, String::new);
                    (b, jv(&p), Some(msg))
                }
                "ElicitRequestFormParams" => {
                    let Some(p) = read::<s::ElicitRequestFormParams>(cx, &w) else { continue };
                    (jv(&p), jv(&p.with_task(task.clone())), None)
                }
                "ElicitRequestUrlParams" => {
                    let Some(p) = read::<s::ElicitRequestUrlParams>(cx, &w) else { continue };
                    (jv(&p), jv(&p.with_task(task.clone())), None)
                }
                _ => {
                    let Some(p) = read::<s::CallToolRequestParams>(cx, &w) else { continue };
                    let b = jv(&p);
                    let p = p.with_task(task.clone());
                    cx.check(p.is_task_augmented(), "with_task", &format!("{ty}::with_task then is_task_augmented"), &w, String::new);
                    (b, jv(&p), None)
                }
            };
            let mut want = before;
            want["task"] = jv(&task);
            let case = json!({"params": w, "task": t});
            cx.check(after == want, "with_task", &format!("{ty}::with_task"), &case, || format!("{:?}", diff_of(&want, &after)));
            cx.check(json_eq(&jv(&task), &sp.canon(sp.schema("TaskMetadata"), &t)) || json_eq(&jv(&task), &t), "with_task", "task metadata kept", &case, || jv(&task).to_string());
            if let Some(msg) = message {
                cx.check(Some(msg.as_str()) == w["message"].as_str(), "message of an elicitation", "ElicitRequestParams::message", &case, || msg.clone());
            }
        }
        // a tool call built up part by part, in any order, from nothing or from one a peer sent: the last setting counts
        let name = g.str();
        let pw = sp.gen_type("CallToolRequestParams", &mut g);
        let (mut p, mut want) = if g.rng.chance(1, 2) {
            let Some(p) = read::<s::CallToolRequestParams>(cx, &pw) else { continue };
            let w = jv(&p);
            (p, w)
        } else if g.rng.chance(1, 2) {
            (s::CallToolRequestParams::new(name.as_str()), json!({"name": name}))
        } else {
            (s::CallToolRequestParams::new(name.clone()), json!({"name": name}))
        };
        let mut steps = vec![want.clone()];
        for _ in 0..g.rng.below(7) {
            match g.rng.below(3) {
                0 => {
                    let args = meta(&mut g);
                    p = p.with_arguments(args.clone());
                    want["arguments"] = Value::Object(args);
                }
                1 => {
                    let mw = sp.gen_type("CallToolRequestParams", &mut g)["_meta"].clone();
                    let Some(m) = (if mw.is_object() { read::<s::CallToolMeta>(cx, &mw) } else { None }) else { continue };
                    want["_meta"] = jv(&m);
                    p = p.with_meta(m);
                }
                _ => {
                    let Some(t) = read::<s::TaskMetadata>(cx, &sp.gen_type("TaskMetadata", &mut g)) else { continue };
                    want["task"] = jv(&t);
                    p = p.with_task(t);
                }
            }
            steps.push(want.clone());
        }
        let got = jv(&p);
        cx.check(got == want, "tool call built", "CallToolRequestParams built", &json!(steps), || format!("{:?}", diff_of(&want, &got)));
    }
    // which task a message is about
    for i in turned(0..cx.n(400, 40_000)) {
        let mut g = gen(seed, i, "C21m");
        let m0 = meta(&mut g);
        let want = expected(&m0);
        let case = Value::Object(m0.clone());
        cx.check(McpMetaEx::related_task_id(&m0) == want.as_deref(), "related task", "related_task_id of a map", &case, || format!("{:?}", McpMetaEx::related_task_id(&m0)));
        let mut w = sp.gen_type("GetTaskPayloadResult", &mut g);
        let with = g.rng.chance(3, 4);
        if let Some(o) = w.as_object_mut() {
            if with {
                o.insert("_meta".into(), Value::Object(m0.clone()));
            } else {
                o.remove("_meta");
            }
        }
        if let Some(mut r) = read::<s::GetTaskPayloadResult>(cx, &w) {
            let want = if with { want.clone() } else { None };
            cx.check(r.related_task_id() == want.as_deref(), "related task", "GetTaskPayloadResult::related_task_id", &w, || format!("{:?}", r.related_task_id()));
            let id = g.str();
            let mut exp = jv(&r);
            if !exp["_meta"].is_object() {
                exp["_meta"] = json!({});
            }
            exp["_meta"][KEY] = json!({"taskId": id});
            r.set_related_task_id(id.as_str());
            let case = json!({"result": w, "id": id});
            cx.check(jv(&r) == exp, "related task set", "GetTaskPayloadResult::set_related_task_id", &case, || format!("{:?}", diff_of(&exp, &jv(&r))));
            cx.check(r.related_task_id() == Some(id.as_str()), "related task set", "GetTaskPayloadResult: set, then asked", &case, String::new);
        }
        // a history of changes to one map, against a plain map
        let (mut have, mut model) = (m0.clone(), m0.clone());
        let mut steps = vec![];
        for _ in 0..1 + g.rng.below(7) {
            let k = if g.rng.chance(1, 3) { g.rng.pick(&[KEY, "taskId", "a", ""]).to_string() } else { g.key() };
            let v = g.any(1);
            match g.rng.below(6) {
                0 => {
                    let id = g.str();
                    have.set_related_task_id(id.clone());
                    model.insert(KEY.into(), json!({"taskId": id}));
                    steps.push(json!(["set", id]));
                }
                1 => {
                    let id = g.str();
                    have = have.with_related_task_id(id.as_str());
                    model.insert(KEY.into(), json!({"taskId": id}));
                    steps.push(json!(["with", id]));
                }
                2 => {
                    have = have.add(k.as_str(), v.clone());
                    model.insert(k.clone(), v.clone());
                    steps.push(json!(["add", k, v]));
                }
                3 => {
                    let c = g.rng.chance(1, 2);
                    have = have.add_if(c, k.clone(), v.clone());
                    if c {
                        model.insert(k.clone(), v.clone());
                    }
                    steps.push(json!(["add_if", c, k, v]));
                }
                4 => {
                    have = have.add_raw(k.clone(), v.clone());
                    model.insert(k.clone(), v.clone());
                    steps.push(json!(["add_raw", k, v]));
                }
                _ => {
                    let (a, b) = (g.rng.next() as i64, g.str());
                    have = have.add(k.as_str(), a).add(format!("{k}'"), b.as_str());
                    model.insert(k.clone(), json!(a));
                    model.insert(format!("{k}'"), json!(b));
                    steps.push(json!(["add", k, a, b]));
                }
            }
            let case = json!({"start": m0, "steps": steps});
            cx.check(have == model, "metadata history", "a metadata map after a history of changes", &case, || format!("{:?}", diff_of(&Value::Object(model.clone()), &Value::Object(have.clone()))));
            cx.check(McpMetaEx::related_task_id(&have).map(String::from) == expected(&model), "related task", "related_task_id after a history of changes", &case, || format!("{:?}", McpMetaEx::related_task_id(&have)));
        }
    }
    // the standard request unions name their id
    for side in turned(SIDES) {
        for k in 0..m.requests(side).len() {
            for i in turned(0..n) {
                let mut g = gen(seed, i, &format!("C21i{side:?}{k}"));
                let w = m.message(&mut g, side, Kind::Request, k).wire;
                let got = match side {
                    Side::Client => read::<s::ClientRequest>(cx, &w).map(|r| jv(r.request_id())),
                    Side::Server => read::<s::ServerRequest>(cx, &w).map(|r| jv(r.request_id())),
                };
                if let Some(id) = got {
                    cx.check(id == w["id"], "id of a standard request", &format!("{}Request::request_id", side.name()), &w, || id.to_string());
                }
            }
        }
    }
}
