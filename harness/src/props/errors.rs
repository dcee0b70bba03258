//! Monitors over the error vocabulary (C10).
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::{envs, err_new, jv, ErrEnv};
use crate::spec::*;
use crate::util::*;
use crate::ver::{self, s, u};
use s::RpcError;
use serde_json::{json, Value};
use u::{RpcErrorCodes, SdkError, SdkErrorCodes};

/// (code, name, how the code reads) for SDK errors.
macro_rules! sdk_codes {
    ($($(#[$a:meta])* $n:ident = $c:literal $t:literal,)*) => {{
        #[allow(unused_mut)]
        let mut v: Vec<(i64, i64, String, &'static str, &'static str, fn() -> SdkErrorCodes)> = vec![];
        $($(#[$a])* v.push((i64::from(SdkErrorCodes::$n), $c, SdkErrorCodes::$n.to_string(), $t, stringify!($n), || SdkErrorCodes::$n));)*
        v
    }};
}
macro_rules! rpc_codes {
    ($($(#[$a:meta])* $n:ident = $c:literal,)*) => {{
        #[allow(unused_mut)]
        let mut v: Vec<(i64, i64, &'static str, fn() -> RpcErrorCodes)> = vec![];
        $($(#[$a])* v.push((i64::from(RpcErrorCodes::$n), $c, stringify!($n), || RpcErrorCodes::$n));)*
        v
    }};
}

fn same_words(a: &str, b: &str) -> bool {
    a.eq_ignore_ascii_case(b)
}

/// What went into an error is what is on the wire, in the printed form and in the envelope.
#[allow(deprecated)]
fn described(e: &dyn std::error::Error) -> String {
    e.description().to_string()
}

fn carried(cx: &mut Cx, what: &str, e: &RpcError, code: i64, message: &str, data: &Option<Value>) {
    let case = json!({"error": what, "message": message, "data": data});
    let mut want = json!({"code": code, "message": message});
    if let Some(d) = data {
        want["data"] = d.clone();
    }
    cx.check(e.code == code && e.message == message && e.data == *data, "error members", &format!("{what}: members"), &case, || format!("{e:?}"));
    let w = jv(e);
    cx.check(w == want, "error content", &format!("{what}: written"), &case, || format!("{w} instead of {want}"));
    let t = e.to_string();
    cx.check(serde_json::from_str::<Value>(&t).ok().as_ref() == Some(&want), "error printed as its JSON", &format!("{what}: printed"), &case, || t.clone());
    // a null data member is not kept apart from an absent one
    if data != &Some(Value::Null) {
        let back = t.parse::<RpcError>().map(|e| jv(&e)).map_err(|e| jv(&e));
        cx.check(back.as_ref() == Ok(&want), "error parsed back", &format!("{what}: parsed back"), &case, || format!("{back:?}"));
    }
    cx.check(described(e) == message, "error described", &format!("{what}: described"), &case, || described(e));
}

#[cfg(feature = "ga")]
fn create(id: Option<s::RequestId>, c: RpcErrorCodes, m: String, d: Option<Value>) -> Option<ErrEnv> {
    id.map(|id| ErrEnv::create(id, c, m, d))
}
#[cfg(not(feature = "ga"))]
fn create(id: Option<s::RequestId>, c: RpcErrorCodes, m: String, d: Option<Value>) -> Option<ErrEnv> {
    Some(ErrEnv::create(id, c, m, d))
}

fn data(g: &mut Gen) -> Option<Value> {
    match g.rng.below(5) {
        0 => None,
        1 => Some(json!({"details": g.str()})),
        2 if g.rng.chance(1, 3) => Some(Value::Null),
        _ => Some(g.any(3)),
    }
}

pub fn errors(cx: &mut Cx, sp: &Spec) {
    let m = Model::new(sp, ver::group());
    let seed = cx.seed;
    let sdk = sdk_codes![
        CONNECTION_CLOSED = -32000 "Connection closed",
        REQUEST_TIMEOUT = -32001 "Request timeout",
        RESOURCE_NOT_FOUND = -32002 "Resource not found",
        BAD_REQUEST = -32015 "Bad request",
        SESSION_NOT_FOUND = -32016 "Session not found",
        INVALID_REQUEST = -32600 "Invalid request",
        METHOD_NOT_FOUND = -32601 "Method not found",
        INVALID_PARAMS = -32602 "Invalid params",
        INTERNAL_ERROR = -32603 "Internal error",
        PARSE_ERROR = -32700 "Parse error",
        #[cfg(feature = "gb")]
        URL_ELICITATION_REQUIRED = -32042 "A required URL was not provided. Please supply the requested URL to continue.",
        #[cfg(feature = "gc")]
        MISSING_REQUIRED_CLIENT_CAPABILITY = -32021 "Missing required client capability",
        #[cfg(feature = "gc")]
        UNSUPPORTED_PROTOCOL_VERSION = -32022 "Unsupported protocol version",
    ];
    let rpc = rpc_codes![
        PARSE_ERROR = -32700,
        INVALID_REQUEST = -32600,
        METHOD_NOT_FOUND = -32601,
        INVALID_PARAMS = -32602,
        INTERNAL_ERROR = -32603,
        #[cfg(feature = "gb")]
        URL_ELICITATION_REQUIRED = -32042,
        #[cfg(feature = "gc")]
        HEADER_MISMATCH = -32020,
        #[cfg(feature = "gc")]
        MISSING_REQUIRED_CLIENT_CAPABILITY = -32021,
        #[cfg(feature = "gc")]
        UNSUPPORTED_PROTOCOL_VERSION = -32022,
    ];
    for (got, want, shown, text, name, _) in &sdk {
        let case = json!(["SdkErrorCodes", name]);
        cx.check(got == want, "SDK code", &format!("SdkErrorCodes::{name} code"), &case, || got.to_string());
        cx.check(same_words(shown, text), "SDK code text", &format!("SdkErrorCodes::{name} text"), &case, || shown.clone());
    }
    for (got, want, name, _) in &rpc {
        cx.check(got == want, "JSON-RPC code", &format!("RpcErrorCodes::{name} code"), &json!(["RpcErrorCodes", name]), || got.to_string());
    }
    type Sdk = (&'static str, fn() -> SdkError, i64, &'static str);
    let sdk_builders: Vec<Sdk> = vec![
        ("connection_closed", SdkError::connection_closed, -32000, "Connection closed"),
        ("session_not_found", SdkError::session_not_found, -32016, "Session not found"),
        ("invalid_request", SdkError::invalid_request, -32600, "Invalid request"),
        ("method_not_found", SdkError::method_not_found, -32601, "Method not found"),
        ("invalid_params", SdkError::invalid_params, -32602, "Invalid params"),
        ("internal_error", SdkError::internal_error, -32603, "Internal error"),
        ("parse_error", SdkError::parse_error, -32700, "Parse error"),
        ("resource_not_found", SdkError::resource_not_found, -32002, "Resource not found"),
        ("bad_request", SdkError::bad_request, -32015, "Bad request"),
    ];
    type Rpc = (&'static str, fn() -> RpcError, i64, &'static str);
    let rpc_builders: Vec<Rpc> = vec![
        ("method_not_found", RpcError::method_not_found, -32601, "Method not found"),
        ("invalid_params", RpcError::invalid_params, -32602, "Invalid params"),
        ("invalid_request", RpcError::invalid_request, -32600, "Invalid request"),
        ("internal_error", RpcError::internal_error, -32603, "Internal error"),
        ("parse_error", RpcError::parse_error, -32700, "Parse error"),
    ];
    let sdk_seen = |cx: &mut Cx, what: &str, e: &SdkError, code: i64, text: &str, data: &Option<Value>| {
        let case = json!({"SDK error": what, "message": text, "data": data});
        cx.check(e.code == code && same_words(&e.message, text) && e.data == *data, "SDK error content", &format!("SdkError {what}: content"), &case, || format!("{e:?}"));
        cx.check(described(e) == e.message, "SDK error described", &format!("SdkError {what}: described"), &case, || described(e));
        let shown = e.to_string();
        cx.check(shown == format!("MCP error {}: {}", e.code, e.message), "SDK error printed", &format!("SdkError {what}: printed"), &case, || shown.clone());
        let w = jv(e);
        cx.check(w["code"] == json!(code) && w["message"] == json!(e.message) && w["data"] == data.clone().unwrap_or(Value::Null), "SDK error written", &format!("SdkError {what}: written"), &case, || w.to_string());
        let back: Result<SdkError, _> = serde_json::from_value(w.clone());
        // a null data member is not kept apart from an absent one
        cx.check(*data == Some(Value::Null) || back.as_ref().map(jv).ok().as_ref() == Some(&w), "SDK error read back", &format!("SdkError {what}: read back"), &case, || format!("{back:?}"));
    };
    let n = cx.n(60, 6000);
    for i in turned(0..n) {
        let mut g = gen(seed, i, "C10");
        for (name, f, code, text) in &sdk_builders {
            sdk_seen(cx, name, &f(), *code, text, &None);
            let (msg, d) = (g.str(), data(&mut g));
            let e = f().with_message(&msg).with_data(d.clone());
            cx.check(e.message == msg, "message kept", &format!("SdkError {name}: with_message"), &json!([name, msg]), || e.message.clone());
            sdk_seen(cx, name, &e, *code, &msg, &d);
            let e = f().with_data(d.clone());
            sdk_seen(cx, name, &e, *code, text, &d);
        }
        // an error of nothing: without a code or a message, or with one of another kind, there is no SDK error to read
        let whole = json!({"code": g.any(0).as_i64().unwrap_or(-32000), "message": g.str()});
        for k in ["code", "message"] {
            let mut v = whole.clone();
            if g.rng.chance(1, 2) {
                v.as_object_mut().unwrap().remove(k);
            } else {
                v[k] = if k == "code" { json!("-32603") } else { json!(-32603) };
            }
            let r = serde_json::from_value::<SdkError>(v.clone());
            cx.check(r.is_err(), "no SDK error", &format!("an SDK error without a proper {k} is read"), &v, || format!("{r:?}"));
        }
        // an addition made again replaces the first
        {
            let (name, f, code, _) = &sdk_builders[g.rng.below(sdk_builders.len())];
            let (m1, m2, d1, d2) = (g.str(), g.str(), data(&mut g), data(&mut g));
            sdk_seen(cx, &format!("{name} given twice"), &f().with_message(&m1).with_data(d1.clone()).with_message(&m2).with_data(d2.clone()), *code, &m2, &d2);
            let (name, f, code, _) = &rpc_builders[g.rng.below(rpc_builders.len())];
            carried(cx, &format!("{name} given twice"), &f().with_message(m1).with_data(d1).with_message(m2.clone()).with_data(d2.clone()), *code, &m2, &d2);
        }
        for (_, code, _, _, name, f) in &sdk {
            let (msg, d) = (g.str(), data(&mut g));
            let e = SdkError::new(f(), msg.clone(), d.clone());
            sdk_seen(cx, &format!("new {name}"), &e, *code, &msg, &d);
        }
        // a timeout of any length is reported, none may bring the reporter down
        let t: u128 = match g.rng.below(6) {
            0 => g.rng.next() as u128,
            1 => u64::MAX as u128,
            2 => g.rng.below(100_000) as u128,
            3 => std::time::Duration::MAX.as_millis(),
            4 => u64::MAX as u128 + 1 + g.rng.below(1000) as u128,
            _ => u128::MAX - g.rng.below(1000) as u128,
        };
        let case = json!({"timeout": t.to_string()});
        cx.eval("timeout reported", &case);
        match guard(|| SdkError::request_timeout(t)) {
            Err(p) => cx.fail("SdkError::request_timeout panics", p, case),
            Ok(e) => {
                let d = e.data.clone().unwrap_or(Value::Null);
                let shown = &d["timeout"];
                let exact = u64::try_from(t).map(|x| *shown == json!(x)).unwrap_or_else(|_| match shown {
                    // what no JSON number of this kind holds is the longest one, the nearest one or text
                    Value::Number(x) => x.as_f64().is_some_and(|x| x >= u64::MAX as f64),
                    Value::String(x) => *x == t.to_string(),
                    _ => false,
                });
                if e.code != -32001 || !same_words(&e.message, "Request timeout") || !exact {
                    cx.fail("SdkError::request_timeout content", format!("{e:?}"), case);
                }
            }
        }
        for (name, f, code, text) in &rpc_builders {
            carried(cx, name, &f(), *code, text, &None);
            let (msg, d) = (g.str(), data(&mut g));
            carried(cx, &format!("{name} with message and data"), &f().with_message(msg.clone()).with_data(d.clone()), *code, &msg, &d);
            carried(cx, &format!("{name} with data and message"), &f().with_data(d.clone()).with_message(msg.as_str()), *code, &msg, &d);
            carried(cx, &format!("{name} with data taken back"), &f().with_data(d).with_data(None), *code, text, &None);
        }
        for (_, code, name, f) in &rpc {
            let (msg, d) = (g.str(), data(&mut g));
            let what = format!("new {name}");
            let e = RpcError::new(f(), msg.clone(), d.clone());
            carried(cx, &what, &e, *code, &msg, &d);
            let idv = (i % 4 != 3).then(|| m.id(&mut g));
            let id: Option<s::RequestId> = idv.clone().map(|x| serde_json::from_value(x).unwrap());
            let case = json!({"code": name, "message": msg, "data": d, "id": idv});
            let mut want = json!({"jsonrpc": "2.0", "error": jv(&e)});
            if let Some(x) = &idv {
                want["id"] = x.clone();
            }
            let a = create(id.clone(), f(), msg.clone(), d.clone()).map(|x| jv(&x));
            let b = err_new(e.clone(), id).map(|x| jv(&x));
            cx.eval("error envelope", &case);
            for x in [a, b].into_iter().flatten() {
                if x != want {
                    cx.fail(&format!("{what}: envelope"), format!("{x} instead of {want}"), case.clone());
                }
            }
        }
        #[cfg(feature = "gb")]
        {
            let ps: Vec<Value> = (0..g.rng.below(4)).map(|_| sp.gen_type("ElicitRequestUrlParams", &mut g)).collect();
            let case = json!({"elicitations": ps});
            let typed: Vec<s::ElicitRequestUrlParams> = ps.iter().map(|p| serde_json::from_value(p.clone()).unwrap()).collect();
            let want_data = json!({ "elicitations": jv(&typed) });
            let e = RpcError::url_elicit_required(typed.clone());
            cx.eval("URL elicitation required", &case);
            if e.code != -32042 || e.data.as_ref() != Some(&want_data) || e.message.is_empty() {
                cx.fail("RpcError::url_elicit_required content", format!("{e:?}"), case.clone());
            }
            if let Err(x) = sp.validate(sp.schema("UrlElicitError"), &jv(&e)) {
                cx.fail("RpcError::url_elicit_required does not conform", x, case.clone());
            }
            let x = serde_json::from_value::<s::UrlElicitError>(jv(&e)).map(|x| jv(&x.data));
            if x.as_ref().ok() != Some(&want_data) {
                cx.fail("RpcError::url_elicit_required read back", format!("{x:?}"), case.clone());
            }
            let e = SdkError::url_elicit_required(typed);
            if e.code != -32042 || e.data.as_ref() != Some(&want_data) || e.message.is_empty() {
                cx.fail("SdkError::url_elicit_required content", format!("{e:?}"), case);
            }
        }
        #[cfg(feature = "gc")]
        {
            fn typed<T: serde::de::DeserializeOwned + serde::Serialize + Clone>(cx: &mut Cx, name: &str, v: Value)
            where
                RpcError: From<T>,
            {
                let case = json!({name: v});
                let Ok(t) = serde_json::from_value::<T>(v) else {
                    cx.count("source not read");
                    return;
                };
                let w = jv(&t);
                let e = jv(&RpcError::from(t));
                let want = &w["error"];
                cx.check(e["code"] == want["code"] && e["message"] == want["message"] && e["data"] == want["data"], "typed error as a JSON-RPC error", &format!("RpcError from {name}"), &case, || {
                    format!("{e} instead of {want}")
                });
            }
            let v = sp.gen_type("MissingRequiredClientCapabilityError", &mut g);
            typed::<s::MissingRequiredClientCapabilityError>(cx, "MissingRequiredClientCapabilityError", v);
            let v = sp.gen_type("UnsupportedProtocolVersionError", &mut g);
            typed::<s::UnsupportedProtocolVersionError>(cx, "UnsupportedProtocolVersionError", v);
        }
        // text that is not such a message is a parse error that says why
        let all = envs();
        let env = &all[i % all.len()];
        let msg = m.message(&mut g, env.side, env.kind, i / all.len()).wire;
        let t = msg.to_string();
        let bad = match g.rng.below(6) {
            0 => {
                let mut k = g.rng.below(t.len());
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t[..k].to_string()
            }
            1 => format!("{t}{}", g.rng.pick(&["}", ",", " x", "{}", "\0", "null"])),
            2 => g.rng.pick(&["", " ", "null", "true", "7", "\"x\"", "[]", "{}", "{", "nul", "\u{feff}{}", "[[", "{\"a\"", "\\"]).to_string(),
            3 => {
                let mut v = msg.clone();
                let k = match env.kind {
                    Kind::Request | Kind::Notification => "method",
                    Kind::Response => "result",
                    Kind::Error => "error",
                };
                v.as_object_mut().unwrap().remove(k);
                v.to_string()
            }
            4 => t.replacen(':', "", 1),
            _ => t.replacen('"', "'", 1),
        };
        let case = json!({"text": clip(&bad, 400), "as": env.name});
        cx.eval("refused text", &case);
        let mut refusals = vec![(env.name, (env.from_str)(&bad).map(|o| o.wire))];
        if serde_json::from_str::<Value>(&bad).is_err() || !bad.contains("method") && !bad.contains("result") && !bad.contains("error") {
            let both = [
                bad.parse::<u::ClientMessage>().map(|x| jv(&x)).map_err(|e| jv(&e)),
                bad.parse::<u::ServerMessage>().map(|x| jv(&x)).map_err(|e| jv(&e)),
                bad.parse::<RpcError>().map(|x| jv(&x)).map_err(|e| jv(&e)),
            ];
            for (n, r) in ["ClientMessage", "ServerMessage", "RpcError"].iter().zip(both) {
                refusals.push((n, r));
            }
        }
        for (name, r) in refusals {
            match r {
                Err(e) => {
                    if e["code"] != json!(-32700) || !same_words(e["message"].as_str().unwrap_or(""), "Parse error") || e["data"]["details"].as_str().unwrap_or("").is_empty() {
                        cx.fail(&format!("{name} parse failure is not a parse error"), e.to_string(), case.clone());
                    }
                }
                Ok(v) => cx.fail(&format!("{name} reads text that is none"), v.to_string(), case.clone()),
            }
        }
    }
}
