//! Monitors over whole JSON-RPC messages.
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::*;
use crate::tab::VPath;
use crate::spec::*;
use crate::util::*;
use crate::ver::{self, s};
use serde_json::{json, Value};

pub fn gen(seed: u64, i: usize, tag: &str) -> Gen {
    Gen::new(Rng::derive(seed.wrapping_mul(1_000_003) ^ i as u64, tag), PROFILES[i % PROFILES.len()])
}

pub fn slots(m: &Model, side: Side, kind: Kind) -> usize {
    match kind {
        Kind::Request => m.requests(side).len() + 1,
        Kind::Notification => m.notifications(side).len() + 1,
        Kind::Response => m.results(side).len(),
        Kind::Error => 1,
    }
}

/// Every message of the model, `n` times per (side, kind, type).
pub fn each(cx: &mut Cx, sp: &Spec, n: usize, tag: &str, mut f: impl FnMut(&mut Cx, &Model, &mut Gen, Side, &Msg)) {
    let model = Model::new(sp, ver::group());
    let seed = cx.seed;
    for side in turned(SIDES) {
        for kind in turned(KINDS) {
            let k = slots(&model, side, kind);
            let n = if kind == Kind::Error { n * 4 } else { n };
            for slot in 0..k {
                for i in turned(0..n) {
                    let mut g = gen(seed, i, &format!("{tag}{side:?}{kind:?}{slot}"));
                    let m = model.message(&mut g, side, kind, slot);
                    f(cx, &model, &mut g, side, &m);
                }
            }
        }
    }
}

/// The wire form of a message with the freedoms the schema leaves removed.
pub fn canon_msg(model: &Model, m: &Msg, wire: &Value) -> Value {
    let sp = model.sp;
    match (m.kind, m.ty.as_str()) {
        (_, "Custom") => wire.clone(),
        (Kind::Error, _) => {
            let mut w = wire.clone();
            if w["error"].is_object() {
                w["error"] = sp.canon(sp.schema("RpcError"), &wire["error"]);
            }
            w
        }
        (Kind::Response, ty) => {
            let mut w = wire.clone();
            if w["result"].is_object() {
                // the result may conform to several result types; each one's freedom applies
                let mut r = sp.canon(sp.schema(ty), &w["result"]);
                for side in SIDES {
                    for t in model.results(side) {
                        if sp.valid_type(&t, &wire["result"]) {
                            r = sp.canon(sp.schema(&t), &r);
                        }
                    }
                }
                w["result"] = r;
            }
            w
        }
        (_, ty) => sp.canon(sp.schema(ty), wire),
    }
}

fn case(side: Side, m: &Msg) -> Value {
    json!({"side": side.name(), "kind": m.kind.name(), "type": m.ty, "wire": m.wire})
}

/// C05: a message is exactly what it says it is.
pub fn classify(cx: &mut Cx, sp: &Spec) {
    let n = cx.n(24, 600);
    each(cx, sp, n, "C05", |cx, model, g, side, m| {
        let c = case(side, m);
        let label = format!("{}Message {} {}", side.name(), m.kind.name(), m.ty);
        cx.eval(&format!("classified {}", m.kind.name()), &c);
        cx.count(&format!("seen {label}"));
        let o = match parse_msg(side, m.wire.clone()) {
            Ok(o) => o,
            Err(e) => return cx.fail(&format!("{label} rejected"), e, c),
        };
        let text = super::types::shuffled_text(&m.wire, &mut g.rng);
        for how in 0..TEXT_FORMS {
            match parse_msg_text(side, &text, how) {
                Ok(p) if p.dbg == o.dbg => {}
                Ok(p) => cx.fail(&format!("{label} parsed differently from text"), format!("{} vs {}", clip(&p.dbg, 300), clip(&o.dbg, 300)), c.clone()),
                Err(e) => cx.fail(&format!("{label} rejected from text"), e.to_string(), c.clone()),
            }
        }
        let want: [bool; 4] = [m.kind == Kind::Request, m.kind == Kind::Notification, m.kind == Kind::Response, m.kind == Kind::Error];
        if o.flags != want {
            cx.fail(&format!("{label} kind predicates"), format!("{:?}", o.flags), c.clone());
        }
        if o.mtype != m.kind.name() {
            cx.fail(&format!("{label} message type"), o.mtype.clone(), c.clone());
        }
        if o.path.split('/').next() != Some(m.kind.name()) {
            cx.fail(&format!("{label} member"), o.path.clone(), c.clone());
        }
        if o.id != m.id {
            cx.fail(&format!("{label} id"), format!("{:?} vs {:?}", o.id, m.id), c.clone());
        }
        if o.jsonrpc != "2.0" {
            cx.fail(&format!("{label} jsonrpc"), o.jsonrpc.clone(), c.clone());
        }
        if o.method != m.method || !o.methods_agree {
            cx.fail(&format!("{label} method"), format!("{:?} vs {:?} agree {}", o.method, m.method, o.methods_agree), c.clone());
        }
        if side == Side::Client {
            let std = m.ty == "InitializeRequest";
            if o.init != std {
                cx.fail(&format!("{label} is_initialize_request"), o.init.to_string(), c.clone());
            }
            let std = m.ty == "InitializedNotification";
            if o.initd != std {
                cx.fail(&format!("{label} is_initialized_notification"), o.initd.to_string(), c.clone());
            }
        }
        // the typed extraction gives the whole message for its own kind and an error for the others
        for (i, k) in KINDS.iter().enumerate() {
            cx.count("extractions");
            match (&o.as_kind[i], *k == m.kind) {
                (Ok(w), true) => {
                    if *w != o.wire {
                        cx.fail(&format!("{label} extraction as {} alters it", k.name()), format!("{:?}", diff_of(&o.wire, w)), c.clone());
                    }
                }
                (Err(e), false) => {
                    let msg = e["message"].as_str().unwrap_or("");
                    if e["code"] != json!(-32603) || !msg.contains(k.name()) || !msg.contains(m.kind.name()) {
                        cx.fail(&format!("{label} extraction as {} error", k.name()), e.to_string(), c.clone());
                    }
                }
                (r, _) => cx.fail(&format!("{label} extraction as {}", k.name()), format!("{r:?}"), c.clone()),
            }
        }
        // which payload: by method, or by the only standard result it conforms to
        match m.kind {
            Kind::Request | Kind::Notification => {
                let ok = if m.ty == "Custom" { o.path.contains("Custom") } else { names(&o.path, &m.ty) };
                if !ok {
                    cx.fail(&format!("{label} payload"), o.path.clone(), c.clone());
                }
            }
            Kind::Response => {
                let ts = model.result_types(side, &m.wire["result"]);
                if ts.len() == 1 {
                    cx.count("responses of one possible type");
                    if !names(&o.path, &ts[0]) {
                        cx.fail(&format!("{label} payload"), format!("{} should be {}", o.path, ts[0]), c.clone());
                    }
                } else if ts.len() > 1 {
                    cx.count("responses of several possible types");
                    if !ts.iter().any(|t| names(&o.path, t)) {
                        cx.fail(&format!("{label} payload among several"), format!("{} should be one of {ts:?}", o.path), c.clone());
                    }
                }
            }
            Kind::Error => {}
        }
        // a member JSON-RPC does not know says nothing about what the message is (the older versions refuse one in
        // any message, the newer ones in a response)
        if ver::group() != 'A' && m.kind != Kind::Response {
            let k = g.rng.pick(&["later", "Method", "ID", "Result", "errors", "_meta", "auth", "trace", "version", "params_"]).to_string();
            let mut w = m.wire.clone();
            let x = g.any(1);
            w.as_object_mut().unwrap().insert(k.clone(), x);
            cx.eval("message with a foreign member", &json!([case(side, m), k]));
            match parse_msg(side, w.clone()) {
                Err(e) => cx.fail(&format!("{label} rejected for a foreign member"), e, w),
                Ok(p) => {
                    let mut got = p.wire.clone();
                    got.as_object_mut().unwrap().remove(&k);
                    if p.flags != o.flags || p.path != o.path || p.id != o.id || p.method != o.method || got != o.wire {
                        cx.fail(&format!("{label} read as something else for a foreign member"), format!("{} instead of {}", p.path, o.path), w);
                    }
                }
            }
        }
    });
    let model = Model::new(sp, ver::group());
    // whether another protocol tag is let through is left open, but it is never passed off as 2.0 (the newest
    // versions read a server's request by its method and params alone)
    for (t, tag) in ["1.0", "2", "2.0 ", " 2.0", "", "2.00", "02.0", "2,0", "v2.0", "jsonrpc", "2.0.0", "2.1", "3.0", "20", "1", "\u{feff}2.0"].iter().enumerate() {
        for (side, kind) in SIDES.into_iter().flat_map(|s| KINDS.into_iter().map(move |k| (s, k))) {
            if ver::group() == 'C' && side == Side::Server && kind == Kind::Request {
                continue;
            }
            for i in turned(0..cx.n(2, 60)) {
                let mut g = gen(cx.seed, i + t * 7, &format!("C05tag{side:?}{kind:?}"));
                let k = g.rng.below(40);
                let mut w = model.message(&mut g, side, kind, k).wire;
                w["jsonrpc"] = json!(tag);
                cx.eval("another protocol tag", &w);
                let text = super::types::shuffled_text(&w, &mut g.rng);
                let reads = std::iter::once(parse_msg(side, w.clone())).chain((0..TEXT_FORMS).map(|how| parse_msg_text(side, &text, how).map_err(|e| e.to_string())));
                for o in reads.flatten().collect::<Vec<_>>() {
                    cx.count("another protocol tag let through");
                    if o.jsonrpc != *tag || o.wire["jsonrpc"] != json!(tag) {
                        cx.fail(&format!("{}Message {} passes off another protocol tag", side.name(), kind.name()), format!("{} {}", o.jsonrpc, o.wire["jsonrpc"]), w.clone());
                    }
                }
            }
        }
    }
    // things that are not a message of any kind
    for i in turned(0..cx.n(300, 6000)) {
        let mut g = gen(cx.seed, i, "C05bad");
        let kind = KINDS[i % 4];
        let side = SIDES[(i / 4) % 2];
        let k = g.rng.below(40);
        let m = model.message(&mut g, side, kind, k);
        let mut w = m.wire.clone();
        let o = w.as_object_mut().unwrap();
        let what = match (i / 8) % 6 {
            5 => {
                // the newest versions read a server's request by its method and params alone
                if ver::group() == 'C' && side == Side::Server && kind == Kind::Request {
                    continue;
                }
                if g.rng.chance(1, 2) {
                    o.remove("jsonrpc");
                    "no protocol tag"
                } else {
                    o.insert("jsonrpc".into(), g.rng.pick(&[json!(2.0), json!(2), json!(null), json!(true), json!(["2.0"]), json!({"version": "2.0"})]).clone());
                    "a protocol tag that is not a string"
                }
            }
            0 => {
                o.remove("method");
                o.remove("result");
                o.remove("error");
                "no method, result or error"
            }
            1 => {
                if let Some(x) = o.get_mut("method") {
                    *x = g.rng.pick(&[json!(1), json!(null), json!(["ping"]), json!({}), json!(true)]).clone();
                    "method is not a string"
                } else {
                    continue;
                }
            }
            2 => {
                if kind == Kind::Response {
                    o.remove("id");
                    "response without id"
                } else {
                    continue;
                }
            }
            3 => {
                if let Some(x) = o.get_mut("error") {
                    match g.rng.below(3) {
                        0 => *x = json!("boom"),
                        1 => {
                            x.as_object_mut().unwrap().remove("code");
                        }
                        _ => {
                            x.as_object_mut().unwrap().remove("message");
                        }
                    }
                    "malformed error object"
                } else {
                    continue;
                }
            }
            _ => {
                if let (Some(x), true) = (o.get_mut("result"), ver::group() != 'A') {
                    *x = g.rng.pick(&[json!(1), json!("x"), json!([1]), json!(true)]).clone();
                    "result is not an object"
                } else {
                    continue;
                }
            }
        };
        cx.eval(&format!("not a message: {what}"), &w);
        if let Ok(o) = parse_msg(side, w.clone()) {
            cx.fail(&format!("{}Message accepts {} with {what}", side.name(), kind.name()), o.path, w);
        }
    }
}

/// C06: an envelope is written as it was read; Display, serde and FromStr agree.
pub fn round_trip(cx: &mut Cx, sp: &Spec) {
    let n = cx.n(24, 600);
    let envs = envs();
    each(cx, sp, n, "C06", |cx, model, g, side, m| {
        let c = case(side, m);
        let want = canon_msg(model, m, &m.wire);
        let label = format!("{}{} {}", side.name(), m.kind.name(), if m.ty == "Custom" { "custom" } else { "standard" });
        cx.eval(&format!("wire message {}", m.kind.name()), &c);
        cx.count(&format!("seen {}{} {}", side.name(), m.kind.name(), m.ty));
        let text = super::types::shuffled_text(&m.wire, &mut g.rng);
        let judge = |cx: &mut Cx, ty: &str, wire: &Value, display: &str, reparse: &dyn Fn(&str) -> Result<String, String>, dbg: &str| {
            let got = canon_msg(model, m, wire);
            if !json_eq(&got, &want) {
                // the shape of one long-standing defect is told apart from every other alteration
                let mut nested = want.clone();
                let mut inner = serde_json::Map::new();
                inner.insert("method".into(), want["method"].clone());
                inner.insert("params".into(), want.get("params").cloned().unwrap_or(Value::Null));
                nested["params"] = Value::Object(inner);
                let sig = if m.ty == "Custom" && json_eq(&got, &nested) {
                    format!("{ty} custom {} nests method and params inside params", m.kind.name())
                } else {
                    format!("{ty} {label} altered")
                };
                cx.fail(&sig, format!("{:?}", diff_of(&want, &got)), c.clone());
            }
            match serde_json::from_str::<Value>(display) {
                Ok(d) if json_eq(&d, wire) => {}
                d => cx.fail(&format!("{ty} {label} Display is not its wire form"), format!("{d:?}"), c.clone()),
            }
            // what was written can be read again and means the same (a custom message with the defect above is exempt)
            if json_eq(&got, &want) {
                match reparse(display) {
                    Ok(d) if d == dbg => {}
                    Ok(d) => cx.fail(&format!("{ty} {label} re-read differently"), format!("{} vs {}", clip(&d, 300), clip(dbg, 300)), c.clone()),
                    Err(e) => cx.fail(&format!("{ty} {label} own output rejected"), e, c.clone()),
                }
            }
        };
        match parse_msg(side, m.wire.clone()) {
            Ok(o) => {
                judge(cx, &format!("{}Message", side.name()), &o.wire, &o.display, &|t| parse_msg_text(side, t, 0).map(|p| p.dbg).map_err(|e| e.to_string()), &o.dbg)
            }
            Err(e) => cx.fail(&format!("{}Message {label} rejected", side.name()), e, c.clone()),
        }
        for e in envs.iter().filter(|e| e.kind == m.kind && (e.side == side || e.kind == Kind::Error)) {
            cx.count(&format!("envelope {}", e.name));
            match (e.parse)(m.wire.clone()) {
                Err(x) => cx.fail(&format!("{} {label} rejected", e.name), x, c.clone()),
                Ok(o) => {
                    judge(cx, e.name, &o.wire, &o.display, &|t| (e.from_str)(t).map(|p| p.dbg).map_err(|e| e.to_string()), &o.dbg);
                    for (how, r) in [("FromStr", (e.from_str)(&text).map_err(|e| e.to_string())), ("text", (e.from_text)(&text))] {
                        match r {
                            Ok(p) if p.dbg == o.dbg => {}
                            Ok(p) => cx.fail(&format!("{} {label} differs from {how}", e.name), clip(&p.dbg, 300), c.clone()),
                            Err(x) => cx.fail(&format!("{} {label} rejected from {how}", e.name), x, c.clone()),
                        }
                    }
                    if o.jsonrpc != "2.0" || o.id != m.id || o.method != m.method {
                        cx.fail(&format!("{} {label} accessors", e.name), format!("{} {:?} {:?}", o.jsonrpc, o.id, o.method), c.clone());
                    }
                    let ok = match m.kind {
                        Kind::Request | Kind::Notification if m.ty == "Custom" => o.path.contains("Custom"),
                        Kind::Request | Kind::Notification => names(&o.path, &m.ty),
                        _ => true,
                    };
                    if !ok {
                        cx.fail(&format!("{} {label} payload", e.name), o.path, c.clone());
                    }
                }
            }
        }
    });
}

/// C07: messages built from a payload carry the right kind, version, id, method and content, and
/// a payload that needs an id never becomes a message without one (nor the reverse).
pub fn construct(cx: &mut Cx, sp: &Spec) {
    let n = cx.n(24, 600);
    let group = ver::group();
    each(cx, sp, n, "C07", |cx, model, g, side, m| {
        let c = case(side, m);
        let label = format!("{}{} {}", side.name(), m.kind.name(), if m.ty == "Custom" { "custom" } else { "standard" });
        let o = match parse_msg(side, m.wire.clone()) {
            Ok(o) => o,
            Err(_) => return cx.count("unreadable (see C05)"),
        };
        let new_id = if g.rng.chance(1, 4) { None } else { Some(model.id(g)) };
        let rid: Option<s::RequestId> = new_id.clone().map(|v| serde_json::from_value(v).expect("request id"));
        let r = match rebuild(side, m.wire.clone(), rid) {
            Ok(r) => r,
            Err(e) => return cx.fail(&format!("{label} taken apart"), e, c),
        };
        let c = json!({"message": c, "id": new_id});
        cx.eval(&format!("built {} {} id", m.kind.name(), if new_id.is_some() { "with" } else { "without" }), &c);
        let want: [bool; 4] = [m.kind == Kind::Request, m.kind == Kind::Notification, m.kind == Kind::Response, m.kind == Kind::Error];
        if r.payload.flags != want || r.payload.mtype != m.kind.name() {
            cx.fail(&format!("{label} payload kind"), format!("{:?} {}", r.payload.flags, r.payload.mtype), c.clone());
        }
        if let Some(pm) = &r.payload.method {
            if Some(pm) != m.method.as_ref() {
                cx.fail(&format!("{label} payload method"), format!("{pm:?} vs {:?}", m.method), c.clone());
            }
        }
        if side == Side::Client && (r.payload.init != (m.ty == "InitializeRequest") || r.payload.initd != (m.ty == "InitializedNotification")) {
            cx.fail(&format!("{label} payload initialize predicates"), format!("{} {}", r.payload.init, r.payload.initd), c.clone());
        }
        // expected: the message as read, with the new id in place of the old
        let mut want = o.wire.clone();
        let ow = want.as_object_mut().unwrap();
        ow.remove("id");
        if let Some(id) = &new_id {
            ow.insert("id".into(), id.clone());
        }
        let needs_id = match m.kind {
            Kind::Request | Kind::Response => true,
            Kind::Error => group == 'A',
            Kind::Notification => false,
        };
        let refused = (needs_id && new_id.is_none()) || (m.kind == Kind::Notification && new_id.is_some());
        match (&r.from_message, refused) {
            (Ok(b), false) => {
                if !json_eq(&b.wire, &want) || b.mtype != m.kind.name() || b.jsonrpc != "2.0" || b.method != m.method || b.id != new_id {
                    cx.fail(&format!("{label} from_message"), format!("{:?} {:?} {:?} {}", diff_of(&want, &b.wire), b.id, b.method, b.mtype), c.clone());
                }
                if b.path != o.path {
                    cx.fail(&format!("{label} from_message member"), format!("{} vs {}", b.path, o.path), c.clone());
                }
            }
            (Err(e), true) => {
                cx.count("refused for its id");
                if e["code"] != json!(-32603) || e["message"].as_str().unwrap_or("").is_empty() {
                    cx.fail(&format!("{label} from_message refusal"), e.to_string(), c.clone());
                }
            }
            (Ok(b), true) => cx.fail(&format!("{label} from_message accepts a wrong id"), b.wire.to_string(), c.clone()),
            (Err(e), false) => cx.fail(&format!("{label} from_message refuses"), e.to_string(), c.clone()),
        }
        if let Some(b) = &r.constructed {
            let mut want = want.clone();
            if m.kind == Kind::Notification {
                want.as_object_mut().unwrap().remove("id");
            }
            cx.count("constructed directly");
            if !json_eq(&b.wire, &want) || b.mtype != m.kind.name() || b.jsonrpc != "2.0" || b.method != m.method || !b.methods_agree {
                cx.fail(&format!("{label} new"), format!("{:?} {:?}", diff_of(&want, &b.wire), b.method), c.clone());
            }
        }
    });
    // every standard payload type that can be sent directly
    for t in crate::vtab::tomsgs() {
        if !sp.has(t.from) {
            cx.count("payload type without schema");
            continue;
        }
        for i in turned(0..cx.n(24, 600)) {
            let mut g = gen(cx.seed, i, &format!("C07{}{}", t.from, t.to));
            let model = Model::new(sp, group);
            let v = sp.gen_type(t.from, &mut g);
            let id = if g.rng.chance(1, 4) { None } else { Some(model.id(&mut g)) };
            let rid: Option<s::RequestId> = id.clone().map(|v| serde_json::from_value(v).expect("request id"));
            let c = json!({"from": t.from, "to": t.to, "value": v, "id": id});
            let (w, a, b) = match (t.run)(v, rid) {
                Ok(x) => x,
                Err(e) => {
                    cx.fail(&format!("{} unreadable", t.from), e, c);
                    continue;
                }
            };
            cx.eval(&format!("sent {}", t.kind), &c);
            let mut want = if t.kind == "res" { json!({ "result": w }) } else { w };
            want["jsonrpc"] = json!("2.0");
            if let Some(id) = &id {
                want["id"] = id.clone();
            }
            let refused = if t.kind == "not" { id.is_some() } else { id.is_none() };
            let tag = format!("{} to {}", t.from, t.to);
            let mut judge = |how: &str, r: &Result<Value, Value>| match (r, refused) {
                (Ok(x), false) if json_eq(x, &want) => {}
                (Err(e), true) if e["code"] == json!(-32603) => {}
                (r, _) => cx.fail(&format!("{tag} {how}"), format!("{r:?}"), c.clone()),
            };
            judge("from_message", &a);
            if let Some(b) = &b {
                judge("to_message", b);
            }
        }
    }
}

/// C08: a message taken apart gives its payload, whole and under its own name.
pub fn taken(cx: &mut Cx, sp: &Spec) {
    let n = cx.n(12, 400);
    let a = ver::group() == 'A';
    each(cx, sp, n, "C08taken", |cx, _, g, side, m| {
        let mut m = m.clone();
        if m.ty == "Custom" && g.rng.chance(1, 3) {
            m.wire["params"] = json!({});
        }
        let c = case(side, &m);
        let label = format!("{}{} {}", side.name(), m.kind.name(), if m.ty == "Custom" { "custom" } else { "standard" });
        let Ok(o) = parse_msg(side, m.wire.clone()) else { return cx.count("source not read") };
        let r = match side {
            Side::Client => payload_client(m.wire.clone()).map(|(p, _)| (jv(&p), p.vpath())),
            Side::Server => payload_server(m.wire.clone()).map(|(p, _)| (jv(&p), p.vpath())),
        };
        let (got, path) = match r {
            Ok(x) => x,
            Err(e) => return cx.fail(&format!("{label} taken apart"), e, c),
        };
        cx.eval(&format!("{} taken apart", m.kind.name()), &c);
        let mut want = match m.kind {
            Kind::Response => o.wire["result"].clone(),
            Kind::Error => o.wire["error"].clone(),
            _ => o.wire.clone(),
        };
        if matches!(m.kind, Kind::Request | Kind::Notification) {
            if a && m.ty == "Custom" {
                return cx.count("custom message of the oldest versions");
            }
            if a || m.ty == "Custom" {
                let w = want.as_object_mut().unwrap();
                w.remove("id");
                w.remove("jsonrpc");
            } else {
                // the payload of a standard message of these versions is its parameters
                want = want.get("params").cloned().unwrap_or(Value::Null);
            }
        }
        if !json_eq(&got, &want) {
            cx.fail(&format!("{label} taken apart is altered"), format!("{:?}", diff_of(&want, &got)), c.clone());
        }
        let ok = match m.kind {
            Kind::Request | Kind::Notification if m.ty == "Custom" => path.contains("Custom"),
            Kind::Request | Kind::Notification => names(&path, &m.ty),
            _ => true,
        };
        if !ok {
            cx.fail(&format!("{label} taken apart lands in another member"), path, c);
        }
    });
}
