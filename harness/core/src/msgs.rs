//! A model of the protocol's messages, taken from the published schema: which methods a side may send,
//! and conforming wire messages of every kind for them.
use crate::spec::*;
use crate::util::*;

use serde_json::{json, Map, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Side {
    Client,
    Server,
}
pub const SIDES: [Side; 2] = [Side::Client, Side::Server];
impl Side {
    pub fn name(self) -> &'static str {
        match self {
            Side::Client => "Client",
            Side::Server => "Server",
        }
    }
    pub fn other(self) -> Side {
        match self {
            Side::Client => Side::Server,
            Side::Server => Side::Client,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Request,
    Notification,
    Response,
    Error,
}
pub const KINDS: [Kind; 4] = [Kind::Request, Kind::Notification, Kind::Response, Kind::Error];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Request => "Request",
            Kind::Notification => "Notification",
            Kind::Response => "Response",
            Kind::Error => "Error",
        }
    }
}

pub struct Model<'a> {
    pub sp: &'a Spec,
    pub group: char,
}

/// A wire message with what it stands for.
#[derive(Clone)]
pub struct Msg {
    pub kind: Kind,
    /// standard type (`CallToolRequest`, `ListToolsResult`, …) or "Custom" / "Error"
    pub ty: String,
    pub method: Option<String>,
    pub id: Option<Value>,
    pub wire: Value,
}

impl<'a> Model<'a> {
    pub fn new(sp: &'a Spec, group: char) -> Model<'a> {
        Model { sp, group }
    }
    fn union(&self, name: &str) -> Vec<String> {
        let s = self.sp.schema(name);
        let b = self.sp.branches(s);
        if b.is_empty() {
            vec![s["$ref"].as_str().map(|r| self.sp.ref_name(r).to_string()).unwrap_or_default()]
        } else {
            b.into_iter().filter_map(|(n, _)| n).collect()
        }
    }
    pub fn requests(&self, side: Side) -> Vec<String> {
        match (self.group, side) {
            ('C', Side::Server) => self.union("InputRequest"),
            _ => self.union(&format!("{}Request", side.name())),
        }
    }
    pub fn notifications(&self, side: Side) -> Vec<String> {
        match (self.group, side) {
            ('C', Side::Client) => vec!["CancelledNotification".into()],
            _ => self.union(&format!("{}Notification", side.name())),
        }
    }
    /// Result types a side may answer with; "Result" is the empty/generic one.
    pub fn results(&self, side: Side) -> Vec<String> {
        match (self.group, side) {
            ('C', Side::Client) => {
                let mut v = self.union("InputResponse");
                v.push("Result".into());
                v
            }
            _ => {
                let mut v = self.union(&format!("{}Result", side.name()));
                // the answer to a task-augmented request, which the schema names but lists in no union
                if self.sp.has("CreateTaskResult") {
                    v.push("CreateTaskResult".into());
                }
                v
            }
        }
    }
    pub fn method(&self, ty: &str) -> String {
        self.sp.schema(ty)["properties"]["method"]["const"].as_str().unwrap_or_else(|| panic!("{ty} has no method")).to_string()
    }
    pub fn all_methods(&self) -> Vec<String> {
        let mut v = vec![];
        for s in SIDES {
            for t in self.requests(s).iter().chain(self.notifications(s).iter()) {
                v.push(self.method(t));
            }
        }
        v.sort();
        v.dedup();
        v
    }
    pub fn id(&self, g: &mut Gen) -> Value {
        // ids a careless truth test, default or conversion would treat apart
        if g.rng.chance(1, 4) {
            return match g.rng.below(8) {
                0 | 1 => json!(0),
                2 => json!(-1),
                3 => json!(""),
                4 => json!("0"),
                5 => json!("null"),
                6 => json!(i64::MAX),
                _ => json!(i64::MIN),
            };
        }
        if g.rng.chance(1, 2) {
            if g.rng.chance(1, 3) {
                json!(g.rng.next() as i64)
            } else {
                json!(*g.rng.pick(INTS))
            }
        } else {
            json!(g.str())
        }
    }
    /// A method name no standard message of this version uses.
    pub fn custom_method(&self, g: &mut Gen) -> String {
        let all = self.all_methods();
        loop {
            let m = match g.rng.below(11) {
                // close to a standard name, but not one
                0 => format!("{}x", g.rng.pick(&all)),
                1 => {
                    let m = g.rng.pick(&all).clone();
                    m[..m.len() - 1].to_string()
                }
                2 => g.rng.pick(&all).to_uppercase(),
                3 => format!(" {}", g.rng.pick(&all)),
                4 => format!("{}/", g.rng.pick(&all)),
                5 => g.rng.pick(&["x/y", "custom/method", "notifications/custom", "a", "", "rpc.x", "tasks/none"]).to_string(),
                6 => g.rng.pick(&all).replace('/', "."),
                7 | 8 | 9 => {
                    let m = g.rng.pick(&all).clone();
                    near_name(&m, &mut g.rng)
                }
                _ => g.str(),
            };
            if !all.contains(&m) {
                return m;
            }
        }
    }
    pub fn custom_params(&self, g: &mut Gen) -> Option<Value> {
        match g.rng.below(5) {
            0 => None,
            1 => Some(json!({})),
            2 => Some(json!({"_meta": {"progressToken": g.any(0).as_i64().unwrap_or(3)}, "a": g.any(1)})),
            _ => {
                let mut m = Map::new();
                for _ in 0..1 + g.width() {
                    let k = g.key();
                    if k != "_meta" {
                        let v = g.any(2);
                        m.insert(k, v);
                    }
                }
                Some(Value::Object(m))
            }
        }
    }
    pub fn stamp(&self, mut wire: Value, id: Option<&Value>) -> Value {
        let o = wire.as_object_mut().unwrap();
        o.insert("jsonrpc".into(), json!("2.0"));
        if let Some(id) = id {
            o.insert("id".into(), id.clone());
        }
        wire
    }
    pub fn request(&self, g: &mut Gen, ty: &str) -> Msg {
        let id = self.id(g);
        let w = self.sp.gen_type(ty, g);
        Msg { kind: Kind::Request, ty: ty.into(), method: Some(self.method(ty)), wire: self.stamp(w, Some(&id)), id: Some(id) }
    }
    pub fn notification(&self, g: &mut Gen, ty: &str) -> Msg {
        let w = self.sp.gen_type(ty, g);
        Msg { kind: Kind::Notification, ty: ty.into(), method: Some(self.method(ty)), wire: self.stamp(w, None), id: None }
    }
    pub fn custom(&self, g: &mut Gen, kind: Kind) -> Msg {
        let m = self.custom_method(g);
        let mut o = Map::new();
        o.insert("method".into(), json!(m));
        if let Some(p) = self.custom_params(g) {
            o.insert("params".into(), p);
        }
        let id = (kind == Kind::Request).then(|| self.id(g));
        Msg { kind, ty: "Custom".into(), method: Some(m), wire: self.stamp(Value::Object(o), id.as_ref()), id }
    }
    pub fn response(&self, g: &mut Gen, ty: &str) -> Msg {
        let id = self.id(g);
        let r = self.sp.gen_type(ty, g);
        Msg { kind: Kind::Response, ty: ty.into(), method: None, wire: self.stamp(json!({ "result": r }), Some(&id)), id: Some(id) }
    }
    pub fn error(&self, g: &mut Gen) -> Msg {
        let optional = self.group != 'A';
        let id = if optional && g.rng.chance(1, 4) { None } else { Some(self.id(g)) };
        let e = self.sp.gen_type("RpcError", g);
        Msg { kind: Kind::Error, ty: "Error".into(), method: None, wire: self.stamp(json!({ "error": e }), id.as_ref()), id }
    }
    /// A message of `kind` that `side` may send; `i` walks the standard types.
    pub fn message(&self, g: &mut Gen, side: Side, kind: Kind, i: usize) -> Msg {
        match kind {
            Kind::Request => {
                let r = self.requests(side);
                let k = i % (r.len() + 1);
                if k == r.len() {
                    self.custom(g, kind)
                } else {
                    self.request(g, &r[k])
                }
            }
            Kind::Notification => {
                let r = self.notifications(side);
                let k = i % (r.len() + 1);
                if k == r.len() {
                    self.custom(g, kind)
                } else {
                    self.notification(g, &r[k])
                }
            }
            Kind::Response => {
                let r = self.results(side);
                self.response(g, &r[i % r.len()])
            }
            Kind::Error => self.error(g),
        }
    }
    /// The standard results of `side` that `v` conforms to (generic ones left out).
    pub fn result_types(&self, side: Side, v: &Value) -> Vec<String> {
        self.results(side)
            .into_iter()
            .filter(|t| t != "Result" && t != "GetTaskPayloadResult")
            .filter(|t| self.sp.valid_type(t, v))
            // from 2026-07-28 on, a result says whether it is complete or asks for input
            .filter(|t| self.group != 'C' || v["resultType"] == if t == "InputRequiredResult" { "input_required" } else { "complete" } || v.get("resultType").is_none())
            .collect()
    }
}

/// Does the path of union members name `ty`?
pub fn names(path: &str, ty: &str) -> bool {
    path.split('/').any(|c| c == ty)
}
