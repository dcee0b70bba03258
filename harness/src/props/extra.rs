//! Monitors over the conversions written by hand that the API tables do not list: values that are not
//! types of the schema (strings, numbers, lists), free-form payloads, and parts of a message.
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::spec::*;
use crate::tab::VPath;
use crate::util::*;
use crate::ver::{self, s, u};
use serde::Serialize;
use serde_json::{json, Value};

fn jv<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or_else(|e| json!({ "cannot be written": e.to_string() }))
}

/// `From<X> for Y` keeps the value exactly.
fn keeps<Y: Serialize>(cx: &mut Cx, label: &str, want: Value, y: Y) {
    let case = json!({"conversion": label, "value": want});
    let got = jv(&y);
    cx.check(got == want, "conversion of a plain value", &format!("{label} alters the content"), &case, || format!("{:?}", diff_of(&want, &got)));
}

fn lands<Y: VPath>(cx: &mut Cx, label: &str, want: &str, y: &Y) {
    let got = y.vpath();
    cx.check(got == want, "member of a plain value", &format!("{label} lands in another member"), &json!([label, got]), || format!("{got} instead of {want}"));
}

fn refused<Y: Serialize>(cx: &mut Cx, label: &str, r: Result<Y, s::RpcError>, case: &Value) {
    cx.eval("extraction of another member", case);
    match r {
        Ok(y) => cx.fail(&format!("{label} succeeds for another member"), jv(&y).to_string(), case.clone()),
        Err(e) => {
            if e.code != -32603 || e.message.is_empty() {
                cx.fail(&format!("{label} error"), format!("{e:?}"), case.clone());
            }
        }
    }
}
fn held<Y: Serialize>(cx: &mut Cx, label: &str, r: Result<Y, s::RpcError>, want: &Value, case: &Value) {
    cx.eval("extraction of the held member", case);
    match r {
        Ok(y) => {
            let got = jv(&y);
            if got != *want {
                cx.fail(&format!("{label} alters the content"), format!("{:?}", diff_of(want, &got)), case.clone());
            }
        }
        Err(e) => cx.fail(&format!("{label} refuses its own member"), format!("{e:?}"), case.clone()),
    }
}

pub fn plain(cx: &mut Cx, sp: &Spec) {
    let m = Model::new(sp, ver::group());
    let seed = cx.seed;
    let n = cx.n(60, 4000);
    for i in turned(0..n) {
        let g = &mut gen(seed, i, "C08plain");
        let k = if i % 3 == 0 { g.rng.next() as i64 } else { *g.rng.pick(INTS) };
        keeps(cx, "From<i64> for RequestId", json!(k), s::RequestId::from(k));
        keeps(cx, "From<i64> for ProgressToken", json!(k), s::ProgressToken::from(k));
        free_form(cx, g);
        scalars(cx, &m, g, k);
        parts(cx, &m, g, i);
    }
}

/// Group A: a payload of any shape is a custom request or result and is written as it is.
#[cfg(feature = "ga")]
fn free_form(cx: &mut Cx, g: &mut Gen) {
    let v = g.any(3);
    let case = json!({"free-form payload": v});
    macro_rules! one {
        ($T:ident, $Custom:ident, $Std:ident) => {
            let x = u::$T::from(v.clone());
            keeps(cx, concat!("From<Value> for ", stringify!($T)), v.clone(), x.clone());
            cx.check(matches!(&x, u::$T::$Custom(y) if *y == v), "member of a plain value", concat!("From<Value> for ", stringify!($T), " lands in another member"), &case, || format!("{x:?}"));
            refused(cx, concat!("TryFrom<", stringify!($T), "> for ", stringify!($Std)), s::$Std::try_from(x), &case);
        };
    }
    one!(RequestFromClient, CustomRequest, ClientRequest);
    one!(RequestFromServer, CustomRequest, ServerRequest);
    one!(ResultFromClient, CustomResult, ClientResult);
    one!(ResultFromServer, CustomResult, ServerResult);
    macro_rules! none {
        ($From:ident: $($T:ident)*) => {$(
            refused(cx, concat!("TryFrom<", stringify!($From), "> for ", stringify!($T)), s::$T::try_from(u::$From::from(v.clone())), &case);
        )*};
    }
    none!(ResultFromClient: CreateMessageResult ListRootsResult Result);
    none!(ResultFromServer: InitializeResult ListResourcesResult ReadResourceResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult CompleteResult Result);
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    none!(ResultFromClient: ElicitResult);
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    none!(ResultFromServer: ListResourceTemplatesResult);
}
#[cfg(not(feature = "ga"))]
fn free_form(_: &mut Cx, _: &mut Gen) {}

fn scalars(cx: &mut Cx, m: &Model, g: &mut Gen, k: i64) {
    let _ = (&cx, &m, k);
    #[cfg(feature = "v2025_06_18")]
    {
        keeps(cx, "From<i64> for ElicitResultContent", json!(k), s::ElicitResultContent::from(k));
        let b = g.rng.chance(1, 2);
        keeps(cx, "From<bool> for ElicitResultContent", json!(b), s::ElicitResultContent::from(b));
    }
    #[cfg(any(feature = "gb", feature = "gc"))]
    {
        let b = g.rng.chance(1, 2);
        keeps(cx, "From<bool> for ElicitResultContentPrimitive", json!(b), s::ElicitResultContentPrimitive::from(b));
        keeps(cx, "From<i64> for ElicitResultContentPrimitive", json!(k), s::ElicitResultContentPrimitive::from(k));
        let texts: Vec<String> = (0..g.rng.below(4)).map(|_| g.str()).collect();
        keeps(cx, "From<Vec<String>> for ElicitResultContent", json!(texts), s::ElicitResultContent::from(texts.clone()));
        let blocks: Vec<s::SamplingMessageContentBlock> = (0..g.rng.below(4)).filter_map(|_| serde_json::from_value(m.sp.gen_type("SamplingMessageContentBlock", g)).ok()).collect();
        keeps(cx, "From<Vec<SamplingMessageContentBlock>> for CreateMessageContent", jv(&blocks), s::CreateMessageContent::from(blocks.clone()));
        keeps(cx, "From<Vec<SamplingMessageContentBlock>> for SamplingMessageContent", jv(&blocks), s::SamplingMessageContent::from(blocks.clone()));
    }
    #[cfg(feature = "gb")]
    {
        let t = g.str();
        keeps(cx, "From<&str> for ElicitResultContent", json!(t), s::ElicitResultContent::from(t.as_str()));
        keeps(cx, "From<String> for ElicitResultContent", json!(t), s::ElicitResultContent::from(t.clone()));
        keeps(cx, "From<&str> for ElicitResultContentPrimitive", json!(t), s::ElicitResultContentPrimitive::from(t.as_str()));
        keeps(cx, "From<String> for ElicitResultContentPrimitive", json!(t), s::ElicitResultContentPrimitive::from(t.clone()));
        keeps(cx, "From<i64> for ElicitResultContent", json!(k), s::ElicitResultContent::from(k));
        let texts: Vec<String> = (0..g.rng.below(4)).map(|_| g.str()).collect();
        let refs: Vec<&str> = texts.iter().map(|t| t.as_str()).collect();
        keeps(cx, "From<Vec<&str>> for ElicitResultContent", json!(texts), s::ElicitResultContent::from(refs));
        for w in ["light", "dark"] {
            keeps(cx, "From<&str> for IconTheme", json!(w), s::IconTheme::from(w));
        }
        // what names no theme is the light one
        let no = match g.rng.below(5) {
            0 => "Dark".to_string(),
            1 => "DARK".into(),
            2 => " dark".into(),
            3 => "dar".into(),
            _ => g.str(),
        };
        if no != "dark" {
            keeps(cx, "From<&str> for IconTheme of another name", json!("light"), s::IconTheme::from(no.as_str()));
        }
    }
    #[cfg(feature = "gc")]
    {
        let b = g.rng.chance(1, 2);
        keeps(cx, "From<bool> for JsonValueVariant2", json!(b), s::JsonValueVariant2::from(b));
        keeps(cx, "From<i64> for JsonValueVariant2", json!(k), s::JsonValueVariant2::from(k));
        keeps(cx, "From<JsonValueVariant2> for JsonValue", json!(k), s::JsonValue::from(s::JsonValueVariant2::from(k)));
        let xs: Vec<s::JsonValue> = (0..g.rng.below(4)).filter_map(|_| serde_json::from_value(m.sp.gen_type("JsonValue", g)).ok()).collect();
        keeps(cx, "From<Vec<JsonValue>> for JsonValue", jv(&xs), s::JsonValue::from(xs.clone()));
    }
    let _ = g;
}

/// Payloads taken out of messages, and members that only construction (not parsing) reaches.
fn parts(cx: &mut Cx, m: &Model, g: &mut Gen, i: usize) {
    let _ = (&cx, &m, &g, i);
    #[cfg(not(feature = "ga"))]
    for side in SIDES {
        for kind in [Kind::Request, Kind::Notification] {
            let w = m.message(g, side, kind, i).wire;
            let case = json!({ "message": w });
            cx.eval("custom part of a generic message", &case);
            let got = match kind {
                Kind::Request => serde_json::from_value::<s::JsonrpcRequest>(w.clone()).map(|r| (jv(&r), jv(&u::CustomRequest::from(r)))),
                _ => serde_json::from_value::<s::JsonrpcNotification>(w.clone()).map(|r| (jv(&r), jv(&u::CustomNotification::from(r)))),
            };
            match got {
                Err(_) => cx.count("source not read"),
                Ok((whole, part)) => {
                    let mut want = whole;
                    for k in ["id", "jsonrpc"] {
                        want.as_object_mut().unwrap().remove(k);
                    }
                    if part != want {
                        cx.fail(&format!("custom {} of a generic message", kind.name().to_lowercase()), format!("{:?}", diff_of(&want, &part)), case);
                    }
                }
            }
        }
    }
    #[cfg(feature = "gb")]
    built(cx, m, g);
}

#[cfg(feature = "gb")]
fn built(cx: &mut Cx, m: &Model, g: &mut Gen) {
    use u::{ClientTaskResult, ResultFromClient, ResultFromServer};
    macro_rules! one {
        ($R:ident, $T:ident, $($Other:ident)*) => {{
            let v = m.sp.gen_type(stringify!($T), g);
            if let Ok(x) = serde_json::from_value::<s::$T>(v.clone()) {
                let want = jv(&x);
                let case = json!({"built union": stringify!($R), "from": stringify!($T), "value": want});
                let r = $R::from(x);
                keeps(cx, concat!("From<", stringify!($T), "> for ", stringify!($R)), want.clone(), r.clone());
                lands(cx, concat!("From<", stringify!($T), "> for ", stringify!($R)), stringify!($T), &r);
                held(cx, concat!("TryFrom<", stringify!($R), "> for ", stringify!($T)), s::$T::try_from(r.clone()), &want, &case);
                $(refused(cx, concat!("TryFrom<", stringify!($R), "> for ", stringify!($Other)), s::$Other::try_from(r.clone()), &case);)*
                r
            } else {
                cx.count("source not read");
                return;
            }
        }};
    }
    macro_rules! task {
        ($x:expr, $held:expr) => {{
            let x: ResultFromClient = $x;
            let want = jv(&x);
            let case = json!({"client task result": want});
            let r = ClientTaskResult::try_from(x);
            if $held {
                match r {
                    Ok(t) => {
                        keeps(cx, "TryFrom<ResultFromClient> for ClientTaskResult", want.clone(), t.clone());
                        let back = ResultFromClient::from(t);
                        keeps(cx, "From<ClientTaskResult> for ResultFromClient", want.clone(), back.clone());
                        let w = if matches!(back, ResultFromClient::ElicitResult(_)) { "ElicitResult" } else { "CreateMessageResult" };
                        lands(cx, "From<ClientTaskResult> for ResultFromClient", w, &back);
                    }
                    Err(e) => cx.fail("TryFrom<ResultFromClient> for ClientTaskResult refuses its own member", format!("{e:?}"), case),
                }
            } else {
                refused(cx, "TryFrom<ResultFromClient> for ClientTaskResult", r, &case);
            }
        }};
    }
    let r = one!(ResultFromClient, GetTaskPayloadResult, CancelTaskResult GetTaskResult ListTasksResult ListRootsResult);
    let want = jv(&r);
    let case = json!({"generic result of": "GetTaskPayloadResult", "value": want});
    held(cx, "TryFrom<ResultFromClient> for GenericResult", s::GenericResult::try_from(r.clone()), &want, &case);
    task!(r, false);
    let r = one!(ResultFromClient, CancelTaskResult, GetTaskPayloadResult GetTaskResult ListTasksResult Result);
    task!(r, false);
    let r = one!(ResultFromClient, GetTaskResult, GetTaskPayloadResult CancelTaskResult ElicitResult Result);
    task!(r, false);
    let r = one!(ResultFromClient, ElicitResult, CreateMessageResult GetTaskPayloadResult Result);
    task!(r, true);
    let r = one!(ResultFromClient, CreateMessageResult, ElicitResult CancelTaskResult Result);
    task!(r, true);
    let r = one!(ResultFromServer, GetTaskPayloadResult, CancelTaskResult GetTaskResult ListTasksResult CallToolResult);
    let want = jv(&r);
    held(cx, "TryFrom<ResultFromServer> for GenericResult", s::GenericResult::try_from(r), &want, &case);
    one!(ResultFromServer, CancelTaskResult, GetTaskPayloadResult GetTaskResult CallToolResult Result);
    one!(ResultFromServer, GetTaskResult, GetTaskPayloadResult CancelTaskResult CompleteResult Result);
}

/// C05: the predicates over payloads and envelopes name the handshake messages and nothing else.
pub fn handshake(cx: &mut Cx, sp: &Spec) {
    let _ = (&cx, &sp);
    // a custom message read on its own is one with a method, and keeps what it carries
    #[cfg(not(feature = "ga"))]
    for i in turned(0..cx.n(120, 4000)) {
        let mut g = gen(cx.seed, i, "C05custom");
        let _ = sp;
        let mut w = json!({"method": g.str()});
        if g.rng.chance(3, 4) {
            w["params"] = Value::Object((0..g.width()).map(|_| (g.key(), g.any(2))).collect());
        }
        let good = match i % 4 {
            0 => {
                w.as_object_mut().unwrap().remove("method");
                false
            }
            1 => {
                w["method"] = g.rng.pick(&[json!(1), json!(null), json!(["ping"]), json!({}), json!(true)]).clone();
                false
            }
            _ => true,
        };
        macro_rules! one {
            ($T:ident) => {{
                let a = serde_json::from_value::<u::$T>(w.clone()).map(|x| (x.method.clone(), jv(&x)));
                let b = serde_json::from_str::<u::$T>(&w.to_string()).map(|x| (x.method.clone(), jv(&x)));
                for r in [a, b] {
                    cx.eval(if good { "a custom message alone" } else { "no custom message" }, &w);
                    match r {
                        Ok((m, got)) if good => {
                            if Some(m.as_str()) != w["method"].as_str() || got != w {
                                cx.fail(concat!(stringify!($T), " read alone is altered"), format!("{:?}", diff_of(&w, &got)), w.clone());
                            }
                        }
                        Ok((_, got)) => cx.fail(concat!(stringify!($T), " read from something without a method"), got.to_string(), w.clone()),
                        Err(e) if good => cx.fail(concat!(stringify!($T), " read alone is refused"), e.to_string(), w.clone()),
                        Err(_) => {}
                    }
                }
            }};
        }
        one!(CustomRequest);
        one!(CustomNotification);
    }
    #[cfg(feature = "gb")]
    {
        let m = Model::new(sp, ver::group());
        let seed = cx.seed;
        for i in turned(0..cx.n(60, 4000)) {
            let g = &mut gen(seed, i, "C05handshake");
            for kind in [Kind::Request, Kind::Notification] {
                let msg = m.message(g, Side::Client, kind, i);
                let method = msg.method.clone().unwrap_or_default();
                let case = json!({ "message": msg.wire });
                // read on its own a payload may land in another member that fits: it is judged as what it holds
                fn held<T: VPath>(x: &T, member: &str) -> bool {
                    x.vpath().split('/').any(|p| p == member)
                }
                let mut seen: Vec<(&str, bool, bool)> = vec![];
                if kind == Kind::Request {
                    let Ok(r) = serde_json::from_value::<u::RequestFromClient>(msg.wire.clone()) else { continue };
                    seen.push(("RequestFromClient::is_initialize_request", r.is_initialize_request(), held(&r, "InitializeRequest")));
                } else {
                    let Ok(r) = serde_json::from_value::<u::NotificationFromClient>(msg.wire.clone()) else { continue };
                    seen.push(("NotificationFromClient::is_initialized_notification", r.is_initialized_notification(), held(&r, "InitializedNotification")));
                    let Ok(r) = serde_json::from_value::<u::ClientJsonrpcNotification>(msg.wire.clone()) else { continue };
                    seen.push(("ClientJsonrpcNotification::is_initialized_notification", r.is_initialized_notification(), method == "notifications/initialized"));
                }
                for (what, got, want) in seen {
                    cx.check(got == want, "handshake predicate", what, &case, || format!("{got} for {method}"));
                    if want {
                        cx.count("handshake messages seen");
                    }
                }
            }
        }
    }
}

/// C07: a custom payload is sent as it is, whatever its method is called.
#[cfg(not(feature = "ga"))]
pub fn custom_built(cx: &mut Cx, sp: &Spec) {
    let m = Model::new(sp, ver::group());
    let all = m.all_methods();
    for i in turned(0..cx.n(120, 4000)) {
        let mut g = gen(cx.seed, i, "C07custom");
        let method = if i % 2 == 0 { g.rng.pick(&all).clone() } else { m.custom_method(&mut g) };
        let mut w = json!({ "method": method });
        if let Some(p) = m.custom_params(&mut g) {
            w["params"] = p;
        }
        let idv = m.id(&mut g);
        let id: s::RequestId = serde_json::from_value(idv.clone()).expect("request id");
        let case = json!({"custom payload": w, "id": idv});
        macro_rules! judge {
            ($To:literal, $built:expr, $id:expr $(, $m:ident)?) => {{
                let built = $built;
                cx.eval("a custom payload built under any name", &case);
                let mut want = w.clone();
                want["jsonrpc"] = json!("2.0");
                if $id {
                    want["id"] = idv.clone();
                }
                let got = jv(&built);
                if !json_eq(&got, &want) {
                    cx.fail(concat!($To, " of a custom payload altered"), format!("{:?}", diff_of(&want, &got)), case.clone());
                }
                $(if built.$m() != method {
                    cx.fail(concat!($To, " of a custom payload has another method"), format!("{} vs {method}", built.$m()), case.clone());
                })?
            }};
        }
        let req = || serde_json::from_value::<u::CustomRequest>(w.clone()).expect("custom payload");
        let not = || serde_json::from_value::<u::CustomNotification>(w.clone()).expect("custom payload");
        judge!("ClientJsonrpcRequest", u::ClientJsonrpcRequest::new(id.clone(), u::RequestFromClient::CustomRequest(req())), true, method);
        judge!("ServerJsonrpcRequest", u::ServerJsonrpcRequest::new(id.clone(), u::RequestFromServer::CustomRequest(req())), true, method);
        judge!("ClientJsonrpcNotification", u::ClientJsonrpcNotification::new(u::NotificationFromClient::CustomNotification(not())), false, method);
        judge!("ServerJsonrpcNotification", u::ServerJsonrpcNotification::new(u::NotificationFromServer::CustomNotification(not())), false);
    }
}
