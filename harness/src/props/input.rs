//! Group C: the per-request metadata (C17) and the mid-request input flow (C18).
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::{jv, payload_client, payload_server};
use crate::spec::*;
use crate::util::*;
use crate::ver::{self, s, u};
use serde_json::{json, Value};

fn read<T: serde::de::DeserializeOwned>(cx: &mut Cx, v: &Value) -> Option<T> {
    let r = serde_json::from_value(v.clone()).ok();
    if r.is_none() {
        cx.count("source not read");
    }
    r
}
fn same(cx: &mut Cx, what: &str, case: &Value, got: &Value, want: &Value) {
    cx.check(json_eq(got, want), what, what, case, || format!("{:?}", diff_of(want, got)));
}

const TRACE: [&str; 3] = ["traceparent", "tracestate", "baggage"];

/// A metadata object as read from a peer, sometimes with trace members that are no strings.
fn gen_meta(sp: &Spec, g: &mut Gen) -> Value {
    let mut w = sp.gen_type("RequestMetaObject", g);
    for k in TRACE {
        match g.rng.below(5) {
            0 => w[k] = json!(g.str()),
            1 => {
                let v = g.any(1);
                w[k] = v
            }
            2 => {
                // nearly its name
                let near = match g.rng.below(7) {
                    0 => format!("{}{}", k[..1].to_uppercase(), &k[1..]),
                    1 => k.to_uppercase(),
                    2 => format!("io.modelcontextprotocol/{k}"),
                    3 => format!("{k} "),
                    4 => format!("{}-{}", &k[..5], &k[5..]),
                    5 => format!("{}_{}", &k[..5], &k[5..]),
                    _ => k[..k.len() - 1].to_string(),
                };
                w[near] = json!(g.str());
            }
            _ => {}
        }
    }
    w
}

pub fn metadata(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    for i in turned(0..cx.n(400, 40_000)) {
        let mut g = gen(seed, i, "C17");
        // from scratch, or from what a peer sent; then a history of additions in any order
        let caps_w = sp.gen_type("ClientCapabilities", &mut g);
        let Some(caps) = read::<s::ClientCapabilities>(cx, &caps_w) else { continue };
        let start = gen_meta(sp, &mut g);
        let (mut m, mut want) = if g.rng.chance(1, 2) {
            let v = if g.rng.chance(1, 2) { s::LATEST_PROTOCOL_VERSION.to_string() } else { g.str() };
            let m = if g.rng.chance(1, 2) { s::RequestMetaObject::new(v.as_str(), caps.clone()) } else { s::RequestMetaObject::new(v.clone(), caps.clone()) };
            let want = json!({"io.modelcontextprotocol/protocolVersion": v, "io.modelcontextprotocol/clientCapabilities": jv(&caps)});
            (m, want)
        } else {
            let Some(m) = read::<s::RequestMetaObject>(cx, &start) else { continue };
            (m.clone(), jv(&m))
        };
        let mut steps = vec![];
        for _ in 0..g.rng.below(8) {
            let step = g.rng.below(6);
            let t = match step {
                3..=5 if g.rng.chance(1, 30) => {
                    let n = *g.rng.pick(&[33usize, 65, 130, 513, 3000]);
                    (0..n).map(|i| format!("k{i}=v{i}")).collect::<Vec<_>>().join(",")
                }
                3..=5 => g.named(TRACE[step - 3]),
                _ => g.str(),
            };
            match step {
                0 => {
                    let w = sp.gen_type("Implementation", &mut g);
                    let Some(x) = read::<s::Implementation>(cx, &w) else { continue };
                    want["io.modelcontextprotocol/clientInfo"] = jv(&x);
                    m = m.with_client_info(x);
                    steps.push(json!(["clientInfo", w]));
                }
                1 => {
                    let w = sp.gen_type("LoggingLevel", &mut g);
                    let Some(x) = read::<s::LoggingLevel>(cx, &w) else { continue };
                    want["io.modelcontextprotocol/logLevel"] = w.clone();
                    m = m.with_log_level(x);
                    steps.push(json!(["logLevel", w]));
                }
                2 => {
                    let w = sp.gen_type("ProgressToken", &mut g);
                    let Some(x) = read::<s::ProgressToken>(cx, &w) else { continue };
                    want["progressToken"] = jv(&x);
                    m = m.with_progress_token(x);
                    steps.push(json!(["progressToken", w]));
                }
                3 => {
                    want["traceparent"] = json!(t);
                    m = if g.rng.chance(1, 2) { m.with_traceparent(t.as_str()) } else { m.with_traceparent(t.clone()) };
                    steps.push(json!(["traceparent", t]));
                }
                4 => {
                    want["tracestate"] = json!(t);
                    m = m.with_tracestate(t.as_str());
                    steps.push(json!(["tracestate", t]));
                }
                _ => {
                    want["baggage"] = json!(t);
                    m = m.with_baggage(t.clone());
                    steps.push(json!(["baggage", t]));
                }
            }
            let case = json!({"start": start, "steps": steps});
            same(cx, "metadata after a history of additions", &case, &jv(&m), &want);
        }
        let case = json!({"start": start, "steps": steps});
        for (k, got) in TRACE.iter().zip([m.traceparent(), m.tracestate(), m.baggage()]) {
            cx.check(got == want[*k].as_str(), "trace member asked for", &format!("{k} asked for"), &case, || format!("{got:?} of {}", want[*k]));
        }
        let back = serde_json::from_str::<s::RequestMetaObject>(&jv(&m).to_string()).map(|b| jv(&b));
        cx.check(back.as_ref().ok() == Some(&jv(&m)), "metadata read back", "metadata read back", &case, || format!("{back:?}"));
    }
    // stamping a request
    let model = Model::new(sp, ver::group());
    let reqs = model.requests(Side::Client);
    for k in 0..=reqs.len() {
        for i in turned(0..cx.n(60, 6000)) {
            let mut g = gen(seed, i, &format!("C17s{k}"));
            let w = model.message(&mut g, Side::Client, Kind::Request, k).wire;
            let mw = gen_meta(sp, &mut g);
            let (Ok((u::MessageFromClient::RequestFromClient(r), _)), Some(mut meta)) = (payload_client(w.clone()), read::<s::RequestMetaObject>(cx, &mw)) else {
                cx.count("source not read");
                continue;
            };
            // a metadata object made here has no foreign members at all, one that was read may have an empty set
            if g.rng.chance(1, 3) {
                meta = s::RequestMetaObject::new(meta.protocol_version.as_str(), meta.client_capabilities.clone());
            }
            let case = json!({"request": w, "meta": jv(&meta), "made here": meta.extra.is_none()});
            let custom = k == reqs.len();
            let who = reqs.get(k).map_or("a custom request", |t| t.as_str()).to_string();
            let id = s::RequestId::Integer(7);
            let as_wire = |r: &u::RequestFromClient| jv(&u::ClientJsonrpcRequest::new(id.clone(), r.clone()));
            let before = as_wire(&r);
            let had = r.meta().map(jv);
            let want_had = if custom { None } else { Some(before["params"]["_meta"].clone()) };
            cx.check(had == want_had, "metadata asked for", &format!("{who}: meta()"), &case, || format!("{had:?}"));
            cx.check(!r.is_initialize_request(), "no initialize request", &format!("{who}: is_initialize_request"), &case, String::new);
            let method = r.method().to_string();
            let stamped = r.with_meta(meta.clone());
            let mut want = before;
            if !custom {
                want["params"]["_meta"] = jv(&meta);
            }
            cx.check(as_wire(&stamped) == want, "stamped request", &format!("{who}: with_meta"), &case, || format!("{:?}", diff_of(&want, &as_wire(&stamped))));
            cx.check(stamped.meta().map(jv) == (!custom).then(|| jv(&meta)), "stamped request", &format!("{who}: with_meta then meta()"), &case, String::new);
            cx.check(stamped.method() == method, "stamped request", &format!("{who}: method after with_meta"), &case, || stamped.method().to_string());
        }
    }
}

/// What an input response to this request looks like.
fn answer(sp: &Spec, g: &mut Gen, request: &Value) -> (&'static str, Value) {
    let ty = match request["method"].as_str() {
        Some("sampling/createMessage") => "CreateMessageResult",
        Some("roots/list") => "ListRootsResult",
        _ => "ElicitResult",
    };
    (ty, sp.gen_type(ty, g))
}

fn responses(cx: &mut Cx, g: &mut Gen, answers: &[(String, &'static str, Value)]) -> Option<(s::InputResponses, Value)> {
    let mut r = if g.rng.chance(1, 2) { s::InputResponses::new() } else { s::InputResponses::default() };
    let mut want = json!({});
    cx.check(r.is_empty() && r.len() == 0, "responses counted", "new InputResponses", &json!([]), String::new);
    for (k, ty, w) in answers {
        match *ty {
            "CreateMessageResult" => {
                let x = read::<s::CreateMessageResult>(cx, w)?;
                want[k] = jv(&x);
                r = r.insert(k.as_str(), x);
            }
            "ListRootsResult" => {
                let x = read::<s::ListRootsResult>(cx, w)?;
                want[k] = jv(&x);
                r = r.insert(k.clone(), x);
            }
            _ => {
                let x = read::<s::ElicitResult>(cx, w)?;
                want[k] = jv(&x);
                r = if g.rng.chance(1, 2) { r.insert(k.as_str(), x) } else { r.insert(k.as_str(), s::InputResponse::from(x)) };
            }
        }
        let n = want.as_object().map_or(0, |o| o.len());
        cx.check(r.len() == n && r.is_empty() == (n == 0), "responses counted", "InputResponses counted", &json!([k, ty, n]), || r.len().to_string());
    }
    cx.check(jv(&r) == want, "responses by key", "InputResponses built", &want, || jv(&r).to_string());
    Some((r, want))
}

/// Look at what the server asks for, through every accessor.
fn inspect(cx: &mut Cx, r: &s::InputRequiredResult, wire: &Value, g: &mut Gen) {
    let asked = wire.get("inputRequests").and_then(|v| v.as_object()).cloned();
    let case = json!({"result": wire});
    let Some(q) = &r.input_requests else {
        cx.check(asked.is_none(), "requests lost", "inputRequests lost", &case, String::new);
        return;
    };
    let asked = asked.unwrap_or_default();
    let keys: Vec<&String> = q.keys().collect();
    let want: std::collections::BTreeSet<&String> = asked.keys().collect();
    cx.check(keys.len() == want.len() && keys.iter().all(|k| want.contains(*k)) && q.len() == want.len() && q.is_empty() == want.is_empty(), "keys of the requests", "InputRequests::keys and len", &case, || format!("{keys:?}"));
    let by_iter: Vec<(&String, Value)> = q.iter().map(|(k, v)| (k, jv(v))).collect();
    cx.check(by_iter.len() == asked.len() && by_iter.iter().zip(&keys).all(|(a, b)| a.0 == *b), "requests iterated", "InputRequests::iter", &case, String::new);
    for k in asked.keys() {
        let Some(x) = q.get(k) else {
            cx.fail("InputRequests::get of a key that is there", k.clone(), case.clone());
            continue;
        };
        let w = jv(x);
        cx.check(by_iter.iter().any(|(n, v)| *n == k && *v == w), "requests iterated", "InputRequests::iter and get", &case, || k.clone());
        cx.check(w["method"] == asked[k]["method"] && w["method"] == json!(x.method()), "method of an input request", "InputRequest::method", &case, || x.method().to_string());
        let views = [
            ("sampling/createMessage", x.as_create_message().map(jv)),
            ("roots/list", x.as_list_roots().map(jv)),
            ("elicitation/create", x.as_elicit().map(jv)),
        ];
        for (m, v) in views {
            let want = (w["method"] == json!(m)).then(|| w.clone());
            cx.check(v == want, "kind of an input request", &format!("InputRequest as {m}"), &case, || format!("{v:?}"));
        }
    }
    let mut absent = vec![String::new(), "no such key".to_string(), g.str()];
    absent.extend(asked.keys().map(|k| format!("{k} ")));
    for k in absent {
        if !asked.contains_key(&k) {
            cx.check(q.get(&k).is_none(), "key not there", "InputRequests::get of a key that is not there", &case, || k.clone());
        }
    }
}

pub fn flow(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let model = Model::new(sp, ver::group());
    let reqs = model.requests(Side::Client);
    let takes = |m: &str| ["tools/call", "prompts/get", "resources/read"].contains(&m);
    // requests that do and do not take input responses, retried over several rounds
    for k in 0..=reqs.len() {
        let able = reqs.get(k).is_some_and(|t| takes(&model.method(t)));
        for i in turned(0..cx.n(if able { 60 } else { 15 }, if able { 6000 } else { 1500 })) {
            let mut g = gen(seed, i, &format!("C18{k}"));
            let w = model.message(&mut g, Side::Client, Kind::Request, k).wire;
            let who = reqs.get(k).map_or("a custom request", |t| t.as_str()).to_string();
            let Ok((u::MessageFromClient::RequestFromClient(mut r), _)) = payload_client(w.clone()) else {
                cx.count("source not read");
                continue;
            };
            let id = s::RequestId::String(g.str());
            let wire_of = |r: &u::RequestFromClient| jv(&u::ClientJsonrpcRequest::new(id.clone(), r.clone()));
            let rounds = 1 + g.rng.below(3);
            for round in 0..rounds {
                // the server asks
                let mut ask = sp.gen_type("InputRequiredResult", &mut g);
                ask["resultType"] = json!("input_required");
                if g.rng.chance(3, 4) {
                    let mut o = serde_json::Map::new();
                    // few questions, now and then a great many
                    let asks = if g.rng.chance(1, 20) { *g.rng.pick(&[17, 33, 65, 120, 260, 300]) } else { g.rng.below(5) };
                    if asks > 100 {
                        g.profile = Profile::Minimal;
                    }
                    for i in 0..asks {
                        let k = if i > 8 { format!("{}{i}", g.key()) } else { g.key() };
                        let v = sp.gen_type("InputRequest", &mut g);
                        o.insert(k, v);
                    }
                    ask["inputRequests"] = Value::Object(o);
                }
                if let Some(o) = ask.as_object_mut() {
                    if g.rng.chance(1, 3) {
                        o.remove("requestState");
                    } else if g.rng.chance(1, 2) {
                        o.insert("requestState".into(), json!(g.str()));
                    }
                }
                let env = json!({"jsonrpc": "2.0", "id": jv(&id), "result": ask});
                let case = json!({"request": w, "round": round, "asked": env});
                let Ok(u::ServerMessage::Response(resp)) = serde_json::from_str::<u::ServerMessage>(&env.to_string()) else {
                    cx.fail("an input-required response is not read as a response", env.to_string(), case);
                    break;
                };
                let res = resp.result.clone();
                cx.check(res.is_input_required() && !res.is_complete() && res.as_input_required().is_some(), "input required", "an input-required result is not seen as one", &case, String::new);
                let Some(need) = res.as_input_required() else { break };
                let moved = s::InputRequiredResult::try_from(res.clone()).map(|x| jv(&x)).map_err(|e| jv(&e));
                cx.check(moved.as_ref().ok() == Some(&jv(need)), "input required", "the result taken out", &case, || format!("{moved:?}"));
                same(cx, "the request state kept", &case, &json!(need.request_state), &ask.get("requestState").cloned().unwrap_or(Value::Null));
                inspect(cx, need, &ask, &mut g);
                // the client answers, each key once, in any order, sometimes changing its mind
                let mut answers: Vec<(String, &'static str, Value)> = vec![];
                for (k, q) in ask["inputRequests"].as_object().cloned().unwrap_or_default() {
                    if g.rng.chance(1, 6) {
                        let (ty, v) = answer(sp, &mut g, &q);
                        answers.push((k.clone(), ty, v));
                    }
                    let (ty, v) = answer(sp, &mut g, &q);
                    let at = g.rng.below(answers.len() + 1);
                    // a second answer to one key comes after the first
                    let at = answers.iter().rposition(|a| a.0 == k).map_or(at, |p| at.max(p + 1));
                    answers.insert(at, (k, ty, v));
                }
                let Some((rs, rs_wire)) = responses(cx, &mut g, &answers) else { break };
                let state = if g.rng.chance(1, 5) { None } else { need.request_state.clone() };
                let before = wire_of(&r);
                let case = json!({"request": before, "round": round, "answers": rs_wire, "state": state});
                match r.clone().with_input_responses(rs.clone(), state.clone()) {
                    Ok(n) => {
                        if !able {
                            cx.check(false, "retry refused", &format!("{who} takes input responses"), &case, String::new);
                            break;
                        }
                        let mut want = before.clone();
                        want["params"]["inputResponses"] = rs_wire.clone();
                        match &state {
                            Some(t) => want["params"]["requestState"] = json!(t),
                            None => {
                                want["params"].as_object_mut().map(|o| o.remove("requestState"));
                            }
                        }
                        let got = wire_of(&n);
                        cx.check(got == want, "retried request", &format!("{who}: with_input_responses"), &case, || format!("{:?}", diff_of(&want, &got)));
                        // the server receives the retry: every asked key answered exactly once
                        match serde_json::from_str::<u::ClientMessage>(&got.to_string()) {
                            Ok(u::ClientMessage::Request(back)) => {
                                cx.check(jv(&back) == want, "retry received", &format!("{who}: retry received"), &case, || format!("{:?}", diff_of(&want, &jv(&back))));
                                let keys: Vec<String> = jv(&back)["params"]["inputResponses"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
                                let asked: Vec<String> = ask["inputRequests"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
                                cx.check(keys == asked, "retry received", "keys answered", &case, || format!("{keys:?} for {asked:?}"));
                            }
                            other => cx.check(false, "retry received", &format!("{who}: retry is not read as a request"), &case, || format!("{other:?}")),
                        }
                        r = n;
                    }
                    Err(e) => {
                        if able {
                            cx.check(false, "retried request", &format!("{who} refuses input responses"), &case, || jv(&e).to_string());
                        } else {
                            let ok = e.code == -32602 && e.message.contains(r.method());
                            cx.check(ok, "retry refused", &format!("{who}: refusal"), &case, || jv(&e).to_string());
                        }
                        break;
                    }
                }
            }
        }
    }
    // every other result is complete
    for k in 0..model.results(Side::Server).len() {
        let ty = model.results(Side::Server)[k].clone();
        for i in turned(0..cx.n(30, 3000)) {
            let mut g = gen(seed, i, &format!("C18c{k}"));
            let mut w = sp.gen_type(&ty, &mut g);
            let ir = match i % 3 {
                0 => {
                    w["resultType"] = json!("input_required");
                    true
                }
                1 => {
                    w["resultType"] = json!("complete");
                    false
                }
                // a word that is nearly the one that asks
                _ if i % 9 == 2 && !["InputRequiredResult", "Result"].contains(&ty.as_str()) => {
                    let others = all_spellings("input_required");
                    w["resultType"] = json!(others[i / 9 % others.len()]);
                    false
                }
                _ => {
                    if ty == "InputRequiredResult" || ty == "Result" {
                        w["resultType"] = json!("complete");
                    } else if let Some(o) = w.as_object_mut() {
                        o.remove("resultType");
                    }
                    false
                }
            };
            // the members of the other form do not decide
            if g.rng.chance(1, 4) && w.get("requestState").is_none() {
                w["requestState"] = json!(g.str());
            }
            if ir && !sp.valid_type("InputRequiredResult", &w) {
                cx.count("members clash");
                continue;
            }
            let env = json!({"jsonrpc": "2.0", "id": 1, "result": w});
            let Ok((u::MessageFromServer::ServerResult(r), _)) = payload_server(env) else {
                cx.count("source not read");
                continue;
            };
            cx.check(r.is_input_required() == ir && r.is_complete() != ir && r.as_input_required().is_some() == ir, "complete or not", &format!("{ty}: complete or not"), &w, || format!("{} {}", r.is_input_required(), r.is_complete()));
            if !ir {
                let e = s::InputRequiredResult::try_from(r).map(|x| jv(&x));
                cx.check(e.as_ref().is_err_and(|e| e.code == -32603), "complete or not", &format!("{ty}: taken out as an input-required one"), &w, || format!("{e:?}"));
            }
        }
    }
    // the builders of each part
    for i in turned(0..cx.n(100, 10_000)) {
        let mut g = gen(seed, i, "C18b");
        macro_rules! built {
            ($T:ident) => {{
                let w = sp.gen_type(stringify!($T), &mut g);
                if let Some(mut p) = read::<s::$T>(cx, &w) {
                    let mut want = jv(&p);
                    for _ in 0..1 + g.rng.below(3) {
                        if g.rng.chance(1, 2) {
                            let t = g.str();
                            p = if g.rng.chance(1, 2) { p.with_request_state(t.as_str()) } else { p.with_request_state(t.clone()) };
                            want["requestState"] = json!(t);
                        } else {
                            let rw = sp.gen_type("InputResponses", &mut g);
                            let Some(rs) = read::<s::InputResponses>(cx, &rw) else { continue };
                            want["inputResponses"] = jv(&rs);
                            p = p.with_input_responses(rs);
                        }
                    }
                    cx.check(jv(&p) == want, "parameters built", concat!(stringify!($T), " built"), &w, || format!("{:?}", diff_of(&want, &jv(&p))));
                }
            }};
        }
        built!(CallToolRequestParams);
        built!(GetPromptRequestParams);
        built!(ReadResourceRequestParams);
        built!(InputResponseRequestParams);
        let w = sp.gen_type("InputRequiredResult", &mut g);
        if let Some(mut p) = read::<s::InputRequiredResult>(cx, &w) {
            let mut want = jv(&p);
            for _ in 0..1 + g.rng.below(3) {
                if g.rng.chance(1, 2) {
                    let t = g.str();
                    p = p.with_request_state(t.as_str());
                    want["requestState"] = json!(t);
                } else {
                    let qw = sp.gen_type("InputRequests", &mut g);
                    let Some(q) = read::<s::InputRequests>(cx, &qw) else { continue };
                    want["inputRequests"] = jv(&q);
                    p = p.with_input_requests(q);
                }
            }
            cx.check(jv(&p) == want, "parameters built", "InputRequiredResult built", &w, || format!("{:?}", diff_of(&want, &jv(&p))));
        }
        let (name, mw, args) = (g.str(), gen_meta(sp, &mut g), [g.any(2), g.any(2), g.any(2)]);
        if let Some(m) = read::<s::RequestMetaObject>(cx, &mw) {
            let (mut p, mut want) = match read::<s::CallToolRequestParams>(cx, &sp.gen_type("CallToolRequestParams", &mut g)) {
                Some(p) if g.rng.chance(1, 2) => (p.clone(), jv(&p)),
                _ => (s::CallToolRequestParams::new(name.as_str(), m.clone()), json!({"name": name, "_meta": jv(&m)})),
            };
            for a in args.iter().filter_map(|a| a.as_object()) {
                p = p.with_arguments(a.clone());
                want["arguments"] = json!(a);
            }
            cx.check(jv(&p) == want, "parameters built", "CallToolRequestParams::new", &json!({"name": name, "meta": mw, "arguments": args}), || format!("{:?}", diff_of(&want, &jv(&p))));
        }
    }
}
