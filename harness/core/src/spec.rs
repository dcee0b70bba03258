//! The committed per-version schema spec: validation (oracle) and generation (workload).
use crate::util::{fnv, json_eq, Rng};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Spec {
    pub version: String,
    pub types: BTreeMap<String, Value>,
    lookup: BTreeMap<String, String>,
    lax: std::cell::Cell<bool>,
    names: std::collections::BTreeSet<String>,
}

fn property_names(s: &Value, out: &mut std::collections::BTreeSet<String>) {
    match s {
        Value::Object(m) => {
            if let Some(p) = m.get("properties").and_then(|p| p.as_object()) {
                out.extend(p.keys().cloned());
            }
            m.values().for_each(|x| property_names(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| property_names(x, out)),
        _ => {}
    }
}

fn norm(name: &str) -> String {
    name.to_lowercase()
}

impl Spec {
    pub fn load(text: &str) -> Spec {
        let v: Value = serde_json::from_str(text).expect("spec json");
        let mut types = BTreeMap::new();
        let mut lookup = BTreeMap::new();
        for (name, t) in v["types"].as_object().expect("types") {
            if t["schema"].is_object() {
                types.insert(name.clone(), t["schema"].clone());
                lookup.insert(norm(name), name.clone());
            }
        }
        if types.contains_key("RpcError") && !lookup.contains_key("error") {
            lookup.insert("error".into(), "RpcError".into());
        }
        let mut names = Default::default();
        types.values().for_each(|s| property_names(s, &mut names));
        Spec { version: v["version"].as_str().unwrap().into(), types, lookup, lax: std::cell::Cell::new(false), names }
    }

    /// Whether `w` conforms wherever `v` does, alternative by alternative at every level.
    pub fn conforms_alike(&self, s: &Value, v: &Value, w: &Value) -> bool {
        let s = self.resolve(s);
        for key in ["anyOf", "oneOf", "allOf"] {
            for b in s.get(key).and_then(|b| b.as_array()).into_iter().flatten() {
                if self.validate(b, v).is_ok() && (self.validate(b, w).is_err() || !self.conforms_alike(b, v, w)) {
                    return false;
                }
            }
        }
        match (v, w) {
            (Value::Object(a), Value::Object(b)) => a.iter().all(|(k, x)| {
                let sub = s.get("properties").and_then(|p| p.get(k)).or_else(|| s.get("additionalProperties"));
                match (sub, b.get(k)) {
                    (Some(sub), Some(y)) if sub.is_object() => self.conforms_alike(sub, x, y),
                    _ => true,
                }
            }),
            (Value::Array(a), Value::Array(b)) => match s.get("items") {
                Some(i) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| self.conforms_alike(i, x, y)),
                None => true,
            },
            _ => true,
        }
    }

    /// Every member name of any type.
    pub fn all_names(&self) -> &std::collections::BTreeSet<String> {
        &self.names
    }

    pub fn ref_name(&self, r: &str) -> &str {
        let last = r.rsplit('/').next().unwrap();
        self.lookup.get(&norm(last)).map(|s| s.as_str()).unwrap_or_else(|| panic!("unresolved ref {r} in {}", self.version))
    }

    pub fn schema(&self, name: &str) -> &Value {
        &self.types[name]
    }

    pub fn has(&self, name: &str) -> bool {
        self.types.contains_key(name)
    }

    /// Follow $ref chains.
    pub fn resolve<'a>(&'a self, s: &'a Value) -> &'a Value {
        let mut s = s;
        while let Some(r) = s.get("$ref").and_then(|r| r.as_str()) {
            s = self.schema(self.ref_name(r));
        }
        s
    }

    /// JSON-Schema validation of the keywords the MCP schema uses.
    pub fn validate(&self, s: &Value, v: &Value) -> Result<(), String> {
        self.val(s, v, "")
    }
    /// As `validate`, but with what readers of the protocol are allowed to be lenient about left aside:
    /// number ranges, array lengths, constant numbers, an absent nullable member, a null optional one, an absent `resultType`
    /// (which the protocol says to read as "complete").
    pub fn validate_shape(&self, s: &Value, v: &Value) -> Result<(), String> {
        self.lax.set(true);
        let r = self.val(s, v, "");
        self.lax.set(false);
        r
    }
    pub fn valid_type(&self, name: &str, v: &Value) -> bool {
        self.val(self.schema(name), v, "").is_ok()
    }

    fn val(&self, s: &Value, v: &Value, p: &str) -> Result<(), String> {
        let s = match s {
            Value::Bool(true) => return Ok(()),
            Value::Bool(false) => return Err(format!("{p}: false schema")),
            Value::Object(m) => m,
            _ => return Ok(()),
        };
        if let Some(r) = s.get("$ref").and_then(|r| r.as_str()) {
            self.val(self.schema(self.ref_name(r)), v, p)?;
        }
        if let Some(c) = s.get("const") {
            if !json_eq(c, v) && !(self.lax.get() && c.is_number() && v.is_number()) {
                return Err(format!("{p}: const {c} != {v}"));
            }
        }
        if let Some(Value::Array(e)) = s.get("enum") {
            if !e.iter().any(|c| json_eq(c, v)) {
                return Err(format!("{p}: not in enum"));
            }
        }
        if let Some(t) = s.get("type") {
            let ok = match t {
                Value::String(t) => is_type(t, v),
                Value::Array(ts) => ts.iter().any(|t| is_type(t.as_str().unwrap_or(""), v)),
                _ => true,
            };
            if !ok {
                return Err(format!("{p}: type {t} vs {v}"));
            }
        }
        if let Some(Value::Array(b)) = s.get("anyOf") {
            if !b.iter().any(|b| self.val(b, v, p).is_ok()) {
                return Err(format!("{p}: no anyOf branch"));
            }
        }
        if let Some(Value::Array(b)) = s.get("allOf") {
            for b in b {
                self.val(b, v, p)?;
            }
        }
        if let Value::Object(o) = v {
            if let Some(Value::Array(req)) = s.get("required") {
                for k in req {
                    let k = k.as_str().unwrap();
                    let excused = || self.lax.get() && (k == "resultType" || s.get("properties").is_some_and(|p| p.get(k).is_some_and(|p| self.val(p, &Value::Null, "").is_ok())));
                    if !o.contains_key(k) && !excused() {
                        return Err(format!("{p}: missing {k}"));
                    }
                }
            }
            let props = s.get("properties").and_then(|p| p.as_object());
            let required = |k: &str| s.get("required").is_some_and(|r| r.as_array().is_some_and(|r| r.iter().any(|x| x == k)));
            for (k, x) in o {
                if let Some(ps) = props.and_then(|p| p.get(k)) {
                    // null for an optional member says it is absent
                    if x.is_null() && self.lax.get() && !required(k) {
                        continue;
                    }
                    self.val(ps, x, &format!("{p}/{k}"))?;
                } else if let Some(ap) = s.get("additionalProperties") {
                    self.val(ap, x, &format!("{p}/{k}"))?;
                }
            }
        }
        if let Value::Array(a) = v {
            if let Some(items) = s.get("items") {
                for (i, x) in a.iter().enumerate() {
                    self.val(items, x, &format!("{p}/{i}"))?;
                }
            }
            if let Some(m) = s.get("maxItems").and_then(|m| m.as_u64()) {
                if a.len() as u64 > m && !self.lax.get() {
                    return Err(format!("{p}: maxItems"));
                }
            }
        }
        if let (Value::Number(n), false) = (v, self.lax.get()) {
            let f = n.as_f64().unwrap_or(0.0);
            if let Some(m) = s.get("minimum").and_then(|m| m.as_f64()) {
                if f < m {
                    return Err(format!("{p}: minimum"));
                }
            }
            if let Some(m) = s.get("maximum").and_then(|m| m.as_f64()) {
                if f > m {
                    return Err(format!("{p}: maximum"));
                }
            }
        }
        Ok(())
    }

    /// The canonical wire form of a conforming value: optional array-typed properties that are
    /// empty may be left out on the wire, so they are removed from both sides before comparing.
    pub fn canon(&self, s: &Value, v: &Value) -> Value {
        let (props, req, ap) = self.members(s, v);
        match v {
            Value::Object(o) => {
                let mut m = Map::new();
                for (k, x) in o {
                    if let Some(ps) = props.get(k) {
                        let rs = self.resolve(ps);
                        // an error object's optional free-form `data` member: null and absent mean the same
                        if k == "data" && x.is_null() && !req.contains(k) && rs.get("type").is_none() {
                            continue;
                        }
                        if !req.contains(k) && x.as_array().map(|a| a.is_empty()).unwrap_or(false) && rs["type"] == json!("array") {
                            continue;
                        }
                        m.insert(k.clone(), self.canon(ps, x));
                    } else if let Some(a) = &ap {
                        m.insert(k.clone(), self.canon(a, x));
                    } else {
                        m.insert(k.clone(), x.clone());
                    }
                }
                Value::Object(m)
            }
            Value::Array(a) => {
                let items = self.items_of(s, v);
                Value::Array(a.iter().map(|x| items.as_ref().map(|i| self.canon(i, x)).unwrap_or_else(|| x.clone())).collect())
            }
            _ => v.clone(),
        }
    }

    fn items_of(&self, s: &Value, v: &Value) -> Option<Value> {
        let s = self.resolve(s);
        if let Some(i) = s.get("items") {
            return Some(i.clone());
        }
        for key in ["anyOf", "allOf"] {
            if let Some(b) = s.get(key).and_then(|b| b.as_array()) {
                for b in b {
                    if self.validate(b, v).is_ok() {
                        if let Some(i) = self.items_of(b, v) {
                            return Some(i);
                        }
                    }
                }
            }
        }
        None
    }

    /// Property schemas, required names and additionalProperties that apply to `v` under `s`
    /// (through $ref, allOf and the anyOf branches `v` satisfies).
    pub fn members(&self, s: &Value, v: &Value) -> (BTreeMap<String, Value>, Vec<String>, Option<Value>) {
        let s = self.resolve(s);
        let mut props = BTreeMap::new();
        let mut req = vec![];
        let mut ap = s.get("additionalProperties").cloned();
        for key in ["anyOf", "allOf"] {
            if let Some(b) = s.get(key).and_then(|b| b.as_array()) {
                for b in b {
                    if self.validate(b, v).is_ok() {
                        let (p, r, a) = self.members(b, v);
                        for (k, x) in p {
                            props.entry(k).or_insert(x);
                        }
                        req.extend(r);
                        if ap.is_none() {
                            ap = a;
                        }
                    }
                }
            }
        }
        if let Some(p) = s.get("properties").and_then(|p| p.as_object()) {
            for (k, x) in p {
                props.insert(k.clone(), x.clone());
            }
        }
        if let Some(r) = s.get("required").and_then(|r| r.as_array()) {
            req.extend(r.iter().filter_map(|x| x.as_str().map(|x| x.to_string())));
        }
        (props, req, ap)
    }

    /// Branch type names of a union schema (`anyOf` of refs), with nested allOf/inline branches as None.
    pub fn branches(&self, s: &Value) -> Vec<(Option<String>, Value)> {
        let s = self.resolve(s);
        s.get("anyOf")
            .and_then(|b| b.as_array())
            .map(|b| {
                b.iter()
                    .map(|b| (b.get("$ref").and_then(|r| r.as_str()).map(|r| self.ref_name(r).to_string()), b.clone()))
                    .collect()
            })
            .unwrap_or_default()
    }

    pub fn gen_type(&self, name: &str, g: &mut Gen) -> Value {
        if g.left > 0 {
            // each of the value's strings, lists and maps may be the huge one
            let (was, budget) = (g.rng.clone(), g.budget);
            g.left = usize::MAX;
            self.gen(self.schema(name), g, 0);
            let n = (usize::MAX - g.left).min(60);
            (g.rng, g.budget) = (was, budget);
            g.left = 1 + g.rng.below(n.max(1));
        }
        self.gen(self.schema(name), g, 0)
    }

    pub fn gen(&self, s: &Value, g: &mut Gen, depth: usize) -> Value {
        let m = match s {
            Value::Object(m) => m,
            _ => return g.any(2),
        };
        if let Some(r) = m.get("$ref").and_then(|r| r.as_str()) {
            let n = self.ref_name(r).to_string();
            *g.seen_refs.entry(n.clone()).or_insert(0) += 1;
            return self.gen(self.schema(&n), g, depth + 1);
        }
        if let Some(c) = m.get("const") {
            return c.clone();
        }
        if let Some(Value::Array(e)) = m.get("x-gen").or_else(|| m.get("enum")) {
            return g.rng.pick(e).clone();
        }
        if let Some(Value::Array(b)) = m.get("anyOf") {
            let b = if depth > g.max_depth {
                // prefer the structurally smallest branch when deep
                let mut best = &b[0];
                let mut cost = usize::MAX;
                for x in b {
                    let c = self.cost(x, 0);
                    if c < cost {
                        cost = c;
                        best = x;
                    }
                }
                best
            } else {
                g.rng.pick(b)
            };
            return self.gen(b, g, depth + 1);
        }
        if let Some(Value::Array(b)) = m.get("allOf") {
            let mut out = Map::new();
            for b in b {
                if let Value::Object(o) = self.gen(b, g, depth + 1) {
                    for (k, v) in o {
                        out.insert(k, v);
                    }
                }
            }
            if m.contains_key("properties") {
                if let Value::Object(o) = self.gen_object(m, g, depth) {
                    for (k, v) in o {
                        out.insert(k, v);
                    }
                }
            }
            return Value::Object(out);
        }
        let t = match m.get("type") {
            Some(Value::String(t)) => t.clone(),
            Some(Value::Array(ts)) => g.rng.pick(ts).as_str().unwrap_or("string").to_string(),
            _ if m.contains_key("properties") => "object".into(),
            _ => return g.any(if depth > g.max_depth { 1 } else { 3 }),
        };
        match t.as_str() {
            "string" => g.string(m),
            "integer" => g.integer(m),
            "number" => g.number(m),
            "boolean" => Value::Bool(g.rng.chance(1, 2)),
            "null" => Value::Null,
            "array" => {
                let n = g.array_len(depth);
                let n = m.get("maxItems").and_then(|x| x.as_u64()).map(|x| n.min(x as usize)).unwrap_or(n);
                let any = json!({});
                let it = m.get("items").unwrap_or(&any).clone();
                let mut items: Vec<Value> = (0..n).map(|_| self.gen(&it, g, depth + 1)).collect();
                if n > 1 && n <= 64 && g.rng.chance(1, 4) {
                    self.alike(&it, &mut items, g);
                }
                Value::Array(items)
            }
            "object" => self.gen_object(m, g, depth),
            _ => g.any(1),
        }
    }

    /// An item of a list said twice, next to itself or apart, or two that share a member.
    fn alike(&self, it: &Value, items: &mut [Value], g: &mut Gen) {
        let (i, j) = if g.rng.chance(1, 2) {
            let i = g.rng.below(items.len() - 1);
            (i, i + 1)
        } else {
            (g.rng.below(items.len()), g.rng.below(items.len()))
        };
        let mut w = items[i].clone();
        if g.rng.chance(1, 2) {
            let Some(k) = w.as_object().filter(|m| !m.is_empty()).map(|m| m.keys().nth(g.rng.below(m.len())).unwrap().clone()) else { return };
            let x = w[&k].clone();
            w = items[j].clone();
            match w.as_object_mut() {
                Some(m) if m.contains_key(&k) && !x.is_object() && !x.is_array() => m.insert(k, x),
                _ => return,
            };
            if self.validate(it, &w).is_err() || !self.conforms_alike(it, &items[j], &w) {
                return;
            }
        }
        items[j] = w;
    }

    fn gen_object(&self, m: &Map<String, Value>, g: &mut Gen, depth: usize) -> Value {
        let mut out = Map::new();
        let req: Vec<&str> = m
            .get("required")
            .and_then(|r| r.as_array())
            .map(|r| r.iter().filter_map(|x| x.as_str()).collect())
            .unwrap_or_default();
        if let Some(Value::Object(props)) = m.get("properties") {
            for (k, ps) in props {
                if req.contains(&k.as_str()) || g.include(depth) {
                    g.member.clone_from(k);
                    out.insert(k.clone(), self.gen(ps, g, depth + 1));
                }
            }
        }
        g.member.clear();
        if let Some(ap) = m.get("additionalProperties") {
            if *ap != Value::Bool(false) {
                let n = g.extra_len(depth);
                for _ in 0..n {
                    let k = g.key();
                    let clash = m.get("properties").and_then(|p| p.get(&k)).is_some();
                    if !clash {
                        let v = self.gen(ap, g, depth + 1);
                        out.insert(k, v);
                    }
                }
            }
        }
        Value::Object(out)
    }

    fn cost(&self, s: &Value, d: usize) -> usize {
        if d > 6 {
            return 1000;
        }
        let s = self.resolve(s);
        let mut c = 1;
        if s["type"] == json!("array") {
            c += 1;
        }
        if let Some(b) = s.get("anyOf").and_then(|b| b.as_array()) {
            return b.iter().map(|b| self.cost(b, d + 1)).min().unwrap_or(1);
        }
        if let Some(r) = s.get("required").and_then(|r| r.as_array()) {
            for k in r {
                if let Some(p) = s["properties"].get(k.as_str().unwrap_or("")) {
                    c += self.cost(p, d + 1);
                }
            }
        }
        c
    }
}

pub fn is_type(t: &str, v: &Value) -> bool {
    match t {
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "boolean" => v.is_boolean(),
        "null" => v.is_null(),
        "number" => v.is_number(),
        "integer" => v.is_i64() || v.is_u64() || v.as_f64().map(|f| f.fract() == 0.0).unwrap_or(false),
        _ => true,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    Minimal,
    Maximal,
    Random,
    Sparse,
    Dense,
    Hostile,
    /// One thing in it is very long or wide, the rest as it comes.
    Huge,
}
pub const PROFILES: [Profile; 7] =
    [Profile::Minimal, Profile::Maximal, Profile::Random, Profile::Sparse, Profile::Dense, Profile::Hostile, Profile::Huge];

pub struct Gen {
    pub rng: Rng,
    pub profile: Profile,
    pub max_depth: usize,
    pub seen_refs: BTreeMap<String, u64>,
    budget: usize,
    /// The member being made, if any.
    member: String,
    /// How many strings, lists and maps come before the huge one.
    left: usize,
}

pub const STRINGS: &[&str] = &[
    "", "a", "b", " ", "hello world", "0", "1", "-1", "42", "null", "true", "é", "日本語", "😀👩‍👩‍👧", "\u{0000}", "\u{001f}\n\t\r\"\\/",
    "\u{2028}\u{2029}", "\u{feff}", "\u{10ffff}", "text", "image", "audio", "resource", "resource_link", "object", "string", "complete",
    "input_required", "tool_use", "form", "url", "accept", "decline", "cancel", "file:///a/b.txt", "https://example.com/x?y=1#z",
    "file:///{path}", "AAECAwQ=", "2025-06-18T12:00:00Z", "2024-11-05", "2026-07-28", "application/json", "text/plain; charset=utf-8",
    "tools/call", "ping", "initialize", "notifications/cancelled", "notifications/progress", "io.modelcontextprotocol/x",
    "a.b/c", "CamelCase", "snake_case", "kebab-case", "-32700", "1e5", "__proto__", "$ref", "..", "%00", "<script>", "' OR 1=1 --",
    "0000000000000000000000000000000000000000000000000000000000000001", "\u{202e}rtl", "ﬀ", "İ", "ß", "e\u{301}", "TRUE", "nan", "undefined",
    "a\r\nb", " padded ", "line\n", "A&amp;B", "a%20b%2Fc", "https://EXAMPLE.com:443/%7Ea/../b/?q=a+b#", "HTTP://a", "file:///C:\\x", "AAE", "-_8",
    "AA==\n", "Image/PNG", "en_US", "2025-06-18T12:00:00.000+00:00", "+1", "01", "1.0", "0x10", "[]", "{}", "\"quoted\"", "\\u0041", "\u{200b}zw",
    "\u{e000}", "\u{fffd}", "\u{7f}\u{80}\u{9f}", "false", "None", "low", "high", "user", "assistant", "error", "cancelled", "working",
];

/// What strings of a member look like, each in more than one spelling.
pub fn pool_of(member: &str, format: Option<&str>) -> &'static [&'static str] {
    match member {
        "lastModified" | "createdAt" | "lastUpdatedAt" | "timestamp" => TIMES,
        "mimeType" => MIMES,
        "uri" | "url" | "src" | "websiteUrl" | "uriTemplate" | "$schema" => URIS,
        "data" | "blob" => BASE64,
        "version" | "protocolVersion" => &["1.0", "1.0.0", "v1.0.0", "01.2", "1.0.0-beta.1+x86", "2025-06-18", "2024-11-05", "DRAFT", "draft", "1.10", "1.1"],
        "sizes" => &["48x48", "48X48", "any", "ANY", "048x48", "48 x 48", "0x0", "48\u{d7}48"],
        "traceparent" => &["00-0AF7651916CD43DD8448EB211C80319C-B7AD6B7169203331-01", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "00-0-0-00"],
        "tracestate" => &["a=1,b=2", "a=1, b=2", "a=1,a=2", "A=1,,b=2,"],
        "baggage" => &["k=v", "k=v;p=1, k2=%20v", "K=V,k=v", "k = v"],
        "progressToken" | "id" | "requestId" | "taskId" | "elicitationId" | "toolUseId" => {
            &["1", "01", "1.0", "9007199254740993", "123456", "-5", "abc", "ABC", "786512e2-9e0d-44bd-8f29-789f320fe840", "786512E2-9E0D-44BD-8F29-789F320FE840", "t 1"]
        }
        "cursor" | "nextCursor" | "requestState" => &["", "0", "eyJwYWdlIjogM30=", "eyJwYWdlIjogM30", "a+b/c==", "a-b_c", "page 2", "null"],
        _ => match format {
            Some("byte") => BASE64,
            Some("uri") | Some("uri-template") => URIS,
            Some("date-time") => TIMES,
            _ => &[],
        },
    }
}
const TIMES: &[&str] = &[
    "2025-01-12T15:00:58Z", "2025-01-12T15:00:58z", "2025-01-12t15:00:58Z", "2025-01-12 15:00:58Z", "2025-01-12T15:00:58.000Z", "2025-01-12T15:00:58.120Z",
    "2025-01-12T15:00:58.123456789Z", "2025-01-12T15:00:58+00:00", "2025-01-12T15:00:58-00:00", "2025-01-12T15:00:58+05:30", "2025-01-12T15:00Z",
    "2025-01-12T24:00:00Z", "2016-12-31T23:59:60Z", "2025-01-12", "20250112T150058Z", "1970-01-01T00:00:00Z", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59Z",
    "2025-01-12T15:00:58", "1736694058",
];
const MIMES: &[&str] = &[
    "text/plain", "Text/Plain", "text/plain; charset=utf-8", "text/plain;charset=UTF-8", "text/plain ; charset=\"utf-8\"", "application/json", "image/svg+xml",
    "IMAGE/PNG", "image/jpg", "image/jpeg", "audio/mp3", "audio/mpeg", "*/*", "text/*", "application/vnd.a.b+json;v=1", "text/html;profile=mcp-app", " text/plain", "text",
];
const URIS: &[&str] = &[
    "file:///a/b.txt", "file:///a/b", "file:///a/b/", "FILE:///a/b", "File:///A/B", "file://localhost/a", "file://", "file:///", "file:///C:/x%20y", "file:///c|/x",
    "https://example.com", "https://example.com/", "https://example.com:443/", "https://EXAMPLE.com/A", "HTTPS://example.com/a", "https://example.com/a/../b",
    "https://example.com/a//b", "https://example.com/%7euser", "https://example.com/%7Euser", "https://example.com/~user", "https://example.com/?", "https://example.com/#",
    "https://example.com/?b=1&a=2", "https://u:p@example.com/", "https://example.com/a%2Fb", "https://example.com/a b", "https://b\u{fc}cher.example/", "https://xn--bcher-kva.example/",
    "http://[::1]:80/", "data:text/plain,hi", "data:image/png;base64,AA==", "data:,", "mailto:a@b", "urn:isbn:1", "x:y", "ui://w/{id}", "file:///{path}", "file:///{+path}{?q*}",
    "file:///{ path }", "https://example.com/\u{e9}", "https://example.com/e\u{301}", "//example.com/a", "/a/b", "a b", "https://example.com.", "ws://h/", "git://h/x.git",
];
const BASE64: &[&str] = &[
    "", "AA==", "AA", "AA=", "AB==", "AAECAwQ=", "AAECAwQ", "/+8=", "_-8=", "_-8", "AAAA\nAAAA", "AAAA\r\nAAAA\r\n", "AAAA AAAA", " AAAA", "AAAA\n", "====", "A", "AAAA====", "data:;base64,AA==",
    "iVBORw0KGgo=", "not base64!", "AAAA,AAAA", "\u{ff21}\u{ff21}==",
];

/// What long strings are made of.
const LONG: &[&str] = &["xyz0", "é", "a b\n", "😀a", "\"\\", " ", "a=1,", "AAAA", "a/b/", "0", "one, two; "];

pub const KEYS: &[&str] = &[
    "x", "y", "key", "", "a b", "é", "日", "\u{0000}", "foo/bar", "com.example/trace", "io.modelcontextprotocol/other", "data1", "0", "$schema",
    "snake_key", "camelKey", "UPPER", "a.b.c", "-", "_private", "__proto__", "constructor", "very_long_key_name_that_goes_on_and_on_and_on_and_on",
    "enabled", "disabled", "supported", "null", "true", "default", "deprecated", "name", "id", "type", "method", "jsonrpc", "version",
];

pub const INTS: &[i64] = &[
    0, 1, -1, 2, 3, 7, 10, 42, 100, 127, 128, 255, 256, 1000, 1024, 4096, 32767, 32768, 65535, 65536, 1_000_000, 2_147_483_646, 2_147_483_647,
    2_147_483_648, -2_147_483_648, -2_147_483_649, 4_294_967_295, 4_294_967_296, 9_007_199_254_740_991, 9_007_199_254_740_992,
    9_007_199_254_740_993, -9_007_199_254_740_993, 1_700_000_000_000, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, -32700, -32603, -32000, -2, -42,
];

pub const FLOATS: &[f64] = &[0.0, 0.5, 1.0, 0.25, 1.5, -1.5, 0.1, 0.2, 0.75, 3.0, 100.0, 99.5, 1e10, 1e-5, 123456.789, -0.125, 1e15, 0.001, 2.5, 1e100];

impl Gen {
    pub fn new(mut rng: Rng, profile: Profile) -> Gen {
        let left = if profile == Profile::Huge { 1 + rng.below(10) } else { 0 };
        Gen { rng, profile, max_depth: if profile == Profile::Maximal { 9 } else { 12 }, seen_refs: BTreeMap::new(), budget: 4000, member: String::new(), left }
    }
    fn wide(&mut self) -> usize {
        if self.rng.chance(1, 4) {
            *self.rng.pick(&[257, 300, 513, 1001])
        } else {
            *self.rng.pick(&[33, 51, 65, 101, 129])
        }
    }
    /// Whether the next string, list or map is the huge one.
    fn huge(&mut self) -> bool {
        if self.left > 0 {
            self.left -= 1;
            return self.left == 0;
        }
        false
    }
    fn include(&mut self, depth: usize) -> bool {
        if self.budget == 0 || depth > self.max_depth {
            return false;
        }
        self.budget -= 1;
        match self.profile {
            Profile::Minimal => false,
            Profile::Maximal => true,
            Profile::Random | Profile::Hostile | Profile::Huge => self.rng.chance(1, 2),
            Profile::Sparse => self.rng.chance(1, 6),
            Profile::Dense => self.rng.chance(5, 6),
        }
    }
    fn array_len(&mut self, depth: usize) -> usize {
        if depth > self.max_depth || self.budget < 10 {
            return 0;
        }
        if self.huge() {
            // of the smallest kind
            self.budget = 8;
            return self.wide();
        }
        let n = match self.profile {
            // now and then many, of the smallest kind
            Profile::Minimal if depth < 5 && self.rng.chance(1, 12) => *self.rng.pick(&[20, 51, 65, 101, 129, 257]),
            Profile::Minimal => *self.rng.pick(&[0, 0, 1]),
            Profile::Maximal => *self.rng.pick(&[1, 2, 3]),
            Profile::Hostile => *self.rng.pick(&[0, 1, 2, 3, 8, 17, 33]),
            _ => *self.rng.pick(&[0, 1, 1, 2, 3, 5]),
        };
        let n = if depth > 5 { n.min(2) } else { n };
        let n = n.min(self.budget);
        self.budget = self.budget.saturating_sub(n);
        n
    }
    fn extra_len(&mut self, depth: usize) -> usize {
        if depth > self.max_depth || self.budget < 10 {
            return 0;
        }
        if self.huge() {
            return self.wide();
        }
        let n = match self.profile {
            Profile::Minimal => 0,
            Profile::Maximal => *self.rng.pick(&[1, 2, 3]),
            Profile::Hostile => *self.rng.pick(&[0, 1, 2, 5, 12, 40, 130]),
            _ => *self.rng.pick(&[0, 0, 1, 2]),
        };
        self.budget = self.budget.saturating_sub(n);
        n
    }
    pub fn key(&mut self) -> String {
        if self.profile != Profile::Minimal && self.rng.chance(1, 50) {
            let n = *self.rng.pick(&[64usize, 65, 128, 129, 255, 256, 257, 1025]);
            let of = *self.rng.pick(&["k", "é", "a.b/", "key_"]);
            return format!("{}{}", of.chars().cycle().take(n).collect::<String>(), self.rng.below(100));
        }
        if self.profile == Profile::Huge || self.rng.chance(1, 4) {
            format!("k{}", self.rng.below(10_000))
        } else {
            self.rng.pick(KEYS).to_string()
        }
    }
    pub fn str(&mut self) -> String {
        if self.huge() {
            let n = if self.rng.chance(1, 10) { *self.rng.pick(&[9000usize, 20_000, 65_537]) } else { *self.rng.pick(&[300usize, 513, 1000, 1025, 2049, 4097]) };
            let of = *self.rng.pick(LONG);
            return of.chars().cycle().take(n).collect();
        }
        match self.rng.below(if self.profile == Profile::Hostile { 12 } else { 16 }) {
            0 => {
                let n = *self.rng.pick(&[1usize, 3, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
                let c = *self.rng.pick(&['a', 'Z', '9', 'é', '😀', ' ', '"', '\\']);
                std::iter::repeat(c).take(n).collect()
            }
            1 if self.profile == Profile::Hostile => {
                let n = *self.rng.pick(&[1000usize, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10_000, 65_537]);
                self.rng.pick(LONG).chars().cycle().take(n).collect()
            }
            2 | 3 => {
                let n = 1 + self.rng.below(12);
                (0..n).map(|_| char::from(b'a' + self.rng.below(26) as u8)).collect()
            }
            4 => {
                let n = 1 + self.rng.below(6);
                (0..n).map(|_| char::from_u32(self.rng.below(0x3000) as u32).unwrap_or('x')).collect()
            }
            5 => format!("{}", self.rng.next() as i64),
            6 => format!("{}-{}", self.rng.pick(STRINGS), self.rng.below(100)),
            _ => self.rng.pick(STRINGS).to_string(),
        }
    }
    /// A string as the named member has them.
    pub fn named(&mut self, member: &str) -> String {
        self.member = member.to_string();
        let s = self.string(&Map::new());
        self.member.clear();
        s.as_str().unwrap_or_default().to_string()
    }
    fn string(&mut self, m: &Map<String, Value>) -> Value {
        let pool = pool_of(&self.member, m.get("format").and_then(|f| f.as_str()));
        if !pool.is_empty() && self.left == 0 && self.rng.chance(1, 2) {
            let s = self.rng.pick(pool).to_string();
            return json!(match self.rng.below(12) {
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                2 => format!("{s}/"),
                3 => format!("{s}\n"),
                _ => s,
            });
        }
        match m.get("format").and_then(|f| f.as_str()) {
            Some("uri") | Some("uri-template") if self.rng.chance(1, 2) => {
                json!(self.rng.pick(&["file:///a/b.txt", "https://example.com/x?y=1#z", "data:text/plain,hi", "file:///{path}", "x:y"]))
            }
            Some("byte") if self.rng.chance(1, 2) => json!(self.rng.pick(&["", "AA==", "AAECAwQ=", "/+8="])),
            _ => Value::String(self.str()),
        }
    }
    fn integer(&mut self, m: &Map<String, Value>) -> Value {
        let lo = m.get("minimum").and_then(|x| x.as_f64()).unwrap_or(f64::MIN);
        let hi = m.get("maximum").and_then(|x| x.as_f64()).unwrap_or(f64::MAX);
        for _ in 0..60 {
            let i = if self.rng.chance(1, 4) { self.rng.next() as i64 } else { *self.rng.pick(INTS) };
            if i as f64 >= lo && i as f64 <= hi {
                return json!(i);
            }
        }
        json!(lo.max(0.0) as i64)
    }
    fn number(&mut self, m: &Map<String, Value>) -> Value {
        let lo = m.get("minimum").and_then(|x| x.as_f64()).unwrap_or(f64::MIN);
        let hi = m.get("maximum").and_then(|x| x.as_f64()).unwrap_or(f64::MAX);
        for _ in 0..60 {
            let f = if self.rng.chance(1, 4) {
                (self.rng.below(1 << 20) as f64) / 1024.0 * if self.rng.chance(1, 3) { -1.0 } else { 1.0 }
            } else if self.rng.chance(1, 3) {
                self.double(lo, hi)
            } else if self.rng.chance(1, 4) {
                let i = *self.rng.pick(INTS);
                if i.unsigned_abs() > 1 << 50 {
                    continue;
                }
                if i as f64 >= lo && i as f64 <= hi {
                    return json!(i);
                }
                continue;
            } else {
                *self.rng.pick(FLOATS)
            };
            if f >= lo && f <= hi {
                return json!(f);
            }
        }
        json!(lo.max(0.0))
    }
    /// A number of many digits, one whose printed form is read as itself.
    fn double(&mut self, lo: f64, hi: f64) -> f64 {
        let (lo, hi) = if hi - lo < 1e9 { (lo, hi) } else { (-1e6, 1e6) };
        let part = (self.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
        let mut f = lo + (hi - lo) * part;
        for _ in 0..4 {
            match serde_json::from_str::<f64>(&json!(f).to_string()) {
                Ok(t) if t == f => return f,
                Ok(t) => f = t,
                Err(_) => break,
            }
        }
        0.5
    }
    /// How many entries a free-form map or list gets: few, now and then many.
    pub fn width(&mut self) -> usize {
        if self.huge() {
            return self.wide();
        }
        if self.rng.chance(1, 40) {
            *self.rng.pick(&[9, 16, 17, 33, 65])
        } else {
            self.rng.below(4)
        }
    }
    /// Any JSON value.
    pub fn any(&mut self, depth: usize) -> Value {
        self.budget = self.budget.saturating_sub(1);
        let k = if depth == 0 || self.budget == 0 { 6 } else { 9 };
        match self.rng.below(k) {
            0 => Value::Null,
            1 => Value::Bool(self.rng.chance(1, 2)),
            2 => json!(*self.rng.pick(INTS)),
            3 if self.rng.chance(1, 3) => json!(self.double(f64::MIN, f64::MAX)),
            3 => json!(*self.rng.pick(FLOATS)),
            4 => Value::String(self.str()),
            5 => {
                if self.rng.chance(1, 3) {
                    json!(u64::MAX - self.rng.below(3) as u64)
                } else {
                    Value::String(self.str())
                }
            }
            // now and then something deep
            _ if self.rng.chance(1, 80) => {
                let n = *self.rng.pick(&[8usize, 16, 17, 33, 50]);
                let v = self.any(0);
                (0..n).fold(v, |v, i| if i % 3 == 0 { json!([v]) } else { json!({ self.key(): v }) })
            }
            6 => {
                let n = self.width();
                Value::Array((0..n).map(|_| self.any(if n > 4 { 0 } else { depth - 1 })).collect())
            }
            _ => {
                let mut m = Map::new();
                let n = self.width();
                for _ in 0..n {
                    let depth = if n > 4 { 1 } else { depth }; // no wide map in a wide map
                    let k = self.key();
                    let v = self.any(depth - 1);
                    m.insert(k, v);
                }
                Value::Object(m)
            }
        }
    }
}

pub fn stable_hash(s: &str) -> u64 {
    fnv(s.as_bytes())
}
