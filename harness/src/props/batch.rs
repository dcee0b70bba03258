//! Batches of messages, request ids, and the table a peer keeps of its outstanding requests.
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::*;
use crate::spec::*;
use crate::util::*;
use crate::ver::{self, s, u};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use u::McpMessage;

macro_rules! batch {
    ($f:ident, $Ms:ident, $M:ident, $printed:expr) => {
        /// One batch or single: everything it says about itself, compared with its elements read alone.
        fn $f(cx: &mut Cx, wires: &[Value], single: bool, case: &Value) {
            let who = stringify!($Ms);
            let wire = if single { wires[0].clone() } else { Value::Array(wires.to_vec()) };
            let alone: Vec<u::$M> = match wires.iter().map(|w| serde_json::from_value(w.clone())).collect() {
                Ok(a) => a,
                Err(_) => return cx.count("element not read"),
            };
            let views: Vec<(&str, Result<u::$Ms, String>)> = vec![
                ("value", serde_json::from_value(wire.clone()).map_err(|e| e.to_string())),
                ("text", serde_json::from_str(&wire.to_string()).map_err(|e| e.to_string())),
                ("tiny reads", crate::reg::read(wire.to_string().as_bytes(), 1).map_err(|e| e.to_string())),
                ("a borrowed value", crate::reg::read(wire.to_string().as_bytes(), 2).map_err(|e| e.to_string())),
                ("a user's untagged type", crate::reg::read(wire.to_string().as_bytes(), 3).map_err(|e| e.to_string())),
                ("built", Ok(if single { alone[0].clone().into() } else { alone.clone().into() })),
            ];
            for (how, r) in views {
                let b = match r {
                    Ok(b) => b,
                    Err(e) => {
                        cx.fail(&format!("{who} from {how} refused"), e, case.clone());
                        continue;
                    }
                };
                cx.eval(&format!("{who} {}", if single { "single" } else { "batch" }), case);
                let any = alone.iter().any(|m| m.is_request());
                if b.is_batch() == single {
                    cx.fail(&format!("{who} from {how}: is_batch"), b.is_batch().to_string(), case.clone());
                }
                if b.includes_request() != any {
                    cx.fail(&format!("{who} from {how}: includes_request"), b.includes_request().to_string(), case.clone());
                }
                let want = if single { jv(&alone[0]) } else { Value::Array(alone.iter().map(jv).collect()) };
                if jv(&b) != want {
                    cx.fail(&format!("{who} from {how}: written"), format!("{:?}", diff_of(&want, &jv(&b))), case.clone());
                }
                let shown: Option<String> = $printed(&b);
                if let Some(t) = shown {
                    if serde_json::from_str::<Value>(&t).ok().as_ref() != Some(&want) {
                        cx.fail(&format!("{who} from {how}: printed"), clip(&t, 300), case.clone());
                    }
                }
                let one = b.clone().as_single();
                let many = b.as_batch();
                match (one, many, single) {
                    (Ok(m), Err(e), true) => {
                        if jv(&m) != want || e.code != -32603 || e.message.is_empty() {
                            cx.fail(&format!("{who} from {how}: as_single"), format!("{e:?}"), case.clone());
                        }
                    }
                    (Err(e), Ok(ms), false) => {
                        if Value::Array(ms.iter().map(jv).collect()) != want || e.code != -32603 || e.message.is_empty() {
                            cx.fail(&format!("{who} from {how}: as_batch"), format!("{e:?}"), case.clone());
                        }
                    }
                    (a, b, _) => cx.fail(&format!("{who} from {how}: extraction"), format!("single {} batch {}", a.is_ok(), b.is_ok()), case.clone()),
                }
            }
        }
    };
}
batch!(client_batch, ClientMessages, ClientMessage, |b: &u::ClientMessages| Some(b.to_string()));
batch!(server_batch, ServerMessages, ServerMessage, |b: &u::ServerMessages| Some(b.to_string()));

macro_rules! payload_batch {
    ($f:ident, $Ms:ident, $P:ident, $payload:ident) => {
        /// Batches of payloads (what a sender holds before ids are given out).
        fn $f(cx: &mut Cx, wires: &[Value], single: bool, case: &Value) {
            let who = stringify!($Ms);
            let Ok(alone) = wires.iter().map(|w| $payload(w.clone()).map(|x| x.0)).collect::<Result<Vec<u::$P>, _>>() else {
                return cx.count("element not read");
            };
            let b: u::$Ms = if single { alone[0].clone().into() } else { alone.clone().into() };
            cx.eval(&format!("{who} {}", if single { "single" } else { "batch" }), case);
            let want = if single { jv(&alone[0]) } else { Value::Array(alone.iter().map(jv).collect()) };
            let any = alone.iter().any(|m| m.is_request());
            if b.is_batch() == single || b.includes_request() != any || jv(&b) != want {
                cx.fail(&format!("{who}: predicates or content"), format!("{} {}", b.is_batch(), b.includes_request()), case.clone());
            }
            let ok = match (b.clone().as_single(), b.as_batch(), single) {
                (Ok(m), Err(e), true) => jv(&m) == want && e.code == -32603 && !e.message.is_empty(),
                (Err(e), Ok(ms), false) => Value::Array(ms.iter().map(jv).collect()) == want && e.code == -32603 && !e.message.is_empty(),
                _ => false,
            };
            if !ok {
                cx.fail(&format!("{who}: extraction"), String::new(), case.clone());
            }
        }
    };
}
payload_batch!(from_client_batch, MessagesFromClient, MessageFromClient, payload_client);
payload_batch!(from_server_batch, MessagesFromServer, MessageFromServer, payload_server);

/// C13: a batch is its messages, in order.
pub fn batches(cx: &mut Cx, sp: &Spec) {
    let m = Model::new(sp, ver::group());
    let n = cx.n(150, 8000);
    for side in turned(SIDES) {
        for i in turned(0..n) {
            let mut g = gen(cx.seed, i, &format!("C13{side:?}"));
            let single = g.rng.chance(1, 4);
            let long = !single && i % 64 == 7;
            let k = if single { 1 } else { *g.rng.pick(if long { &[33usize, 65, 101, 129, 257, 300] } else { &[0usize, 1, 1, 2, 3, 5, 9, 17] }) };
            if long {
                g.profile = Profile::Minimal;
            }
            // most batches hold everything; some hold no request, or only the last or first one is a request
            let style = g.rng.below(4);
            let wires: Vec<Value> = (0..k)
                .map(|j| {
                    let kind = match style {
                        0 => KINDS[1 + g.rng.below(3)],
                        1 if j + 1 == k => Kind::Request,
                        1 => KINDS[1 + g.rng.below(3)],
                        2 if j == 0 => Kind::Request,
                        2 => KINDS[1 + g.rng.below(3)],
                        _ => KINDS[g.rng.below(4)],
                    };
                    let x = g.rng.below(64);
                    m.message(&mut g, side, kind, x).wire
                })
                .collect();
            let case = json!({"side": side.name(), "single": single, "messages": wires});
            match side {
                Side::Client => {
                    client_batch(cx, &wires, single, &case);
                    from_client_batch(cx, &wires, single, &case);
                }
                Side::Server => {
                    server_batch(cx, &wires, single, &case);
                    from_server_batch(cx, &wires, single, &case);
                }
            }
            // one damaged element spoils the batch: it must not be dropped silently
            if !single && k > 0 {
                let mut ws = wires.clone();
                let at = g.rng.below(k);
                ws[at] = match g.rng.below(4) {
                    0 => json!(7),
                    1 => json!({"jsonrpc": "2.0"}),
                    2 => json!([ws[at].clone()]),
                    _ => Value::Null,
                };
                let bad = Value::Array(ws);
                let r = match side {
                    Side::Client => serde_json::from_value::<u::ClientMessages>(bad.clone()).is_ok(),
                    Side::Server => serde_json::from_value::<u::ServerMessages>(bad.clone()).is_ok(),
                };
                cx.check(!r, "batch with a non-message", &format!("{}Messages accepts a batch with a non-message", side.name()), &bad, String::new);
            }
        }
    }
}

fn hash(id: &s::RequestId) -> u64 {
    let mut h = DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}

/// C12: ids and progress tokens identify exactly what their wire form says.
pub fn ids(cx: &mut Cx, sp: &Spec) {
    let m = Model::new(sp, ver::group());
    let n = cx.n(60, 2500);
    for i in turned(0..n) {
        let mut g = gen(cx.seed, i, "C12");
        // a crowd of ids with look-alikes: a number, its digits, the digits with a sign, a space, a zero …
        let mut wires: Vec<Value> = vec![];
        for _ in 0..12 {
            let w = m.id(&mut g);
            if let Some(x) = w.as_i64() {
                for t in [format!("{x}"), format!("{x}.0"), format!(" {x}"), format!("0{x}"), format!("+{x}"), format!("\"{x}\"")] {
                    if g.rng.chance(1, 2) {
                        wires.push(json!(t));
                    }
                }
                wires.push(json!(x.wrapping_neg()));
                wires.push(json!(x as i32));
            } else if let Some(t) = w.as_str() {
                wires.push(json!(format!("{t} ")));
                wires.push(json!(t.to_uppercase()));
                wires.push(json!(t.to_lowercase()));
            }
            wires.push(w);
        }
        let mut ids: Vec<(Value, s::RequestId)> = vec![];
        for w in &wires {
            match serde_json::from_value::<s::RequestId>(w.clone()) {
                Ok(id) => ids.push((w.clone(), id)),
                Err(e) => cx.fail("request id refused", e.to_string(), w.clone()),
            }
        }
        for (w, id) in &ids {
            cx.eval("id", w);
            let text = w.as_str().map(String::from).unwrap_or_else(|| w.to_string());
            if jv(id) != *w {
                cx.fail("request id altered", jv(id).to_string(), w.clone());
            }
            if id.to_string() != text {
                cx.fail("request id printed", id.to_string(), w.clone());
            }
            let member = match id {
                s::RequestId::String(x) => w.as_str() == Some(x),
                s::RequestId::Integer(x) => w.as_i64() == Some(*x),
            };
            if !member {
                cx.fail("request id read as another kind", format!("{id:?}"), w.clone());
            }
            if let Some(x) = w.as_i64() {
                if jv(&s::RequestId::from(x)) != *w || jv(&s::ProgressToken::from(x)) != *w || s::RequestId::from(x) != *id {
                    cx.fail("request id or token from a number", String::new(), w.clone());
                }
            }
            match serde_json::from_value::<s::ProgressToken>(w.clone()) {
                Ok(t) => {
                    let member = match &t {
                        s::ProgressToken::String(x) => w.as_str() == Some(x),
                        s::ProgressToken::Integer(x) => w.as_i64() == Some(*x),
                    };
                    if !member || jv(&t) != *w {
                        cx.fail("progress token altered", jv(&t).to_string(), w.clone());
                    }
                }
                Err(e) => cx.fail("progress token refused", e.to_string(), w.clone()),
            }
        }
        // equality and hashing follow the wire form
        for (w, a) in &ids {
            for (x, b) in &ids {
                let same = w == x;
                if (a == b) != same || (&a == b) != same || (a != b) == same {
                    cx.fail("request id equality", format!("{w} and {x}"), json!([w, x]));
                }
                if same && hash(a) != hash(b) {
                    cx.fail("request id hash", format!("{w} and {x}"), json!([w, x]));
                }
                cx.count("pairs compared");
            }
        }
        let distinct: HashSet<String> = wires.iter().map(|w| w.to_string()).collect();
        let set: HashSet<s::RequestId> = ids.iter().map(|x| x.1.clone()).collect();
        cx.check(set.len() == distinct.len(), "set of ids", "distinct ids in a set", &json!(wires), || format!("{} instead of {}", set.len(), distinct.len()));
        correlate(cx, &m, &mut g, &wires);
        for bad in [json!(null), json!(true), json!(1.5), json!([]), json!({}), json!([1]), json!({"id": 1})] {
            let r = serde_json::from_value::<s::RequestId>(bad.clone()).is_ok() || serde_json::from_value::<s::ProgressToken>(bad.clone()).is_ok();
            cx.check(!r, "not an id", "an id or token of another kind accepted", &bad, String::new);
        }
    }
}

/// Exactly-once monitor over a recorded exchange: requests go out under `ids`, answers come back in any
/// order as text, and the table of outstanding requests must resolve every one to the request it answers.
fn correlate(cx: &mut Cx, m: &Model, g: &mut Gen, ids: &[Value]) {
    let mut uniq: BTreeMap<String, Value> = BTreeMap::new();
    for w in ids {
        uniq.insert(w.to_string(), w.clone());
    }
    let mut ids: Vec<Value> = uniq.into_values().collect();
    for i in (1..ids.len()).rev() {
        let j = g.rng.below(i + 1);
        ids.swap(i, j);
    }
    let reqs = m.requests(Side::Client);
    let mut table: HashMap<s::RequestId, usize> = HashMap::new();
    let mut sent = vec![];
    for (k, id) in ids.iter().enumerate() {
        let mut w = m.request(g, &reqs[k % reqs.len()].clone()).wire;
        w["id"] = id.clone();
        let Ok(u::ClientMessage::Request(r)) = w.to_string().parse::<u::ClientMessage>() else {
            cx.count("element not read");
            continue;
        };
        let key = u::RpcMessage::request_id(&u::ClientMessage::Request(r)).cloned();
        let Some(key) = key else {
            cx.fail("request without id", String::new(), w);
            continue;
        };
        if let Some(old) = table.insert(key, k) {
            cx.fail("two outstanding requests share a slot", format!("{} and {}", ids[old], id), json!(ids));
        }
        sent.push(k);
    }
    let mut order = sent.clone();
    for i in (1..order.len()).rev() {
        let j = g.rng.below(i + 1);
        order.swap(i, j);
    }
    let results = m.results(Side::Server);
    for k in order {
        let x = g.rng.below(results.len());
        let mut w = if g.rng.chance(1, 4) { m.error(g).wire } else { m.response(g, &results[x].clone()).wire };
        w["id"] = ids[k].clone();
        let Ok(msg) = w.to_string().parse::<u::ServerMessage>() else {
            cx.count("element not read");
            continue;
        };
        cx.eval("answer matched to its request", &json!([ids[k], msg.message_type().to_string()]));
        match u::RpcMessage::request_id(&msg).and_then(|id| table.remove(id)) {
            Some(j) if j == k => {}
            r => cx.fail("an answer resolves another request", format!("{:?} instead of {k}", r), json!({"ids": ids, "answer": w})),
        }
    }
    cx.check(table.is_empty(), "table drained", "requests left outstanding", &json!(ids), || format!("{}", table.len()));
}
