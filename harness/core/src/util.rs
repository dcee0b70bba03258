//! Seeded randomness, JSON comparison and small helpers. No dependency on the code under test.
use serde_json::{Map, Value};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn derive(seed: u64, tag: &str) -> Self {
        Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ fnv(tag.as_bytes()))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// Words close in meaning to listed names, abbreviations and foreign spellings of them.
pub const WORDS: &[&str] = &[
    "warn", "err", "fatal", "trace", "verbose", "panic", "crit", "emerg", "model", "ai", "bot", "agent", "human", "system", "tool", "developer", "client", "server", "yes",
    "no", "true", "false", "null", "on", "off", "ok", "success", "done", "complete", "completed", "canceled", "cancelled", "cancel", "abort", "accepted", "declined",
    "rejected", "reject", "deny", "pending", "running", "in_progress", "in-progress", "inProgress", "working", "input-required", "inputRequired", "input_required", "failure",
    "failed", "error", "email", "e-mail", "mail", "uri", "url", "link", "datetime", "date_time", "date-time", "timestamp", "time", "auto", "none", "any", "required", "all", "this",
    "server", "max_tokens", "maxTokens", "length", "end_turn", "endTurn", "stop", "stop_sequence", "stopSequence", "tool_use", "toolUse", "tool_calls", "text", "img", "image",
    "picture", "sound", "audio", "voice", "resource", "resource_link", "resourceLink", "resource-link", "ref", "prompt", "string", "str", "number", "int", "integer", "float",
    "double", "bool", "boolean", "array", "list", "object", "optional", "forbidden", "public", "private", "shared", "form", "dark", "light", "user", "assistant", "2", "2.0.0", "2.00",
];

/// What may stand between a name and what is put after or before it.
pub const JOINTS: &[&str] = &["/", ".", "-", "_", ":", " ", ";", "+", ",", "#", "?", "@", "=", "&", "|", "~", "%", "(", "\n", "\t", "\u{a0}"];

/// The other usual spellings of a name, and it with something before or after it.
pub fn all_spellings(a: &str) -> Vec<String> {
    let mut v = spellings(a);
    for s in JOINTS {
        v.extend([format!("{a}{s}x"), format!("x{s}{a}"), format!("{a}{s}"), format!("{s}{a}")]);
    }
    v.sort();
    v.dedup();
    v
}

/// The other usual spellings of a name.
pub fn spellings(a: &str) -> Vec<String> {
    let mut parts: Vec<String> = vec![String::new()];
    for c in a.chars() {
        if c.is_uppercase() || "-_ /.".contains(c) {
            parts.push(String::new());
        }
        if c.is_alphanumeric() {
            parts.last_mut().unwrap().extend(c.to_lowercase());
        }
    }
    parts.retain(|p| !p.is_empty());
    let cap = |w: &String| {
        let mut c = w.chars();
        c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
    };
    let pascal: String = parts.iter().map(cap).collect();
    let camel: String = parts.iter().take(1).cloned().chain(parts.iter().skip(1).map(cap)).collect();
    let mut v: Vec<String> = ["_", "-", "", " ", "/", "."].iter().map(|s| parts.join(s)).collect();
    v.extend(parts.iter().filter(|_| parts.len() > 1).cloned());
    v.extend([pascal.clone(), camel, parts.join("_").to_uppercase(), parts.join("-").to_uppercase(), a.to_uppercase(), a.to_lowercase()]);
    v.extend([format!(" {a}"), format!("{a} "), format!("{a}s"), format!("{a}ed"), format!("\"{a}\""), format!("{a}\0"), String::new()]);
    // as one part of a longer name, and with something after it
    for s in JOINTS.iter().filter(|j| "/.-_:;".contains(**j)) {
        v.extend([format!("{a}{s}x"), format!("x{s}{a}"), format!("{a}{s}"), format!("{s}{a}")]);
    }
    // one hump in another case
    for (i, c) in a.char_indices().filter(|(i, c)| c.is_uppercase() || *i == 0) {
        let t: String = if c.is_uppercase() { c.to_lowercase().collect() } else { c.to_uppercase().collect() };
        v.push(format!("{}{t}{}", &a[..i], &a[i + c.len_utf8()..]));
    }
    v.push(a.trim_end_matches('s').to_string());
    v.push(a.chars().take(1).collect());
    v.push(a.chars().take(3).collect());
    v.push(a.chars().take(4).collect());
    v.sort();
    v.dedup();
    v.retain(|w| w != a);
    v
}

/// A string that is nearly `a`: another case, padding, a part of it, another separator, or a word of like meaning.
pub fn near_name(a: &str, r: &mut Rng) -> String {
    let n = a.chars().count();
    let cap = |w: &str| {
        let mut c = w.chars();
        c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
    };
    let mut snake = String::new();
    for c in a.chars() {
        if c.is_uppercase() {
            snake.push('_');
        }
        snake.extend(c.to_lowercase());
    }
    let snake = snake.trim_start_matches('_').replace(['-', ' '], "_");
    let parts: Vec<&str> = snake.split('_').collect();
    let camel = parts.iter().enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { cap(w) }).collect::<String>();
    match r.below(26) {
        24 => format!("{a}{}{}", r.pick(JOINTS), r.pick(WORDS)),
        25 => format!("{}{}{a}", r.pick(WORDS), r.pick(JOINTS)),
        0 => a.to_uppercase(),
        1 => a.to_lowercase(),
        2 => cap(a),
        3 => cap(&camel),
        4 => camel,
        5 => snake,
        6 => snake.replace('_', "-"),
        7 => format!("{a}{}", r.pick(&[" ", "\n", "\t", "\r\n", "\u{a0}", "\u{0}", "\u{200b}", ".", ";", "/", "\u{feff}"])),
        8 => format!("{}{a}", r.pick(&[" ", "\n", "\t", "\u{a0}", "\u{0}", "\u{feff}", "/", "_", "$", "-"])),
        9 => format!(" {a} "),
        10 | 11 => a.chars().take(r.below(n.max(1))).collect(),
        12 | 13 => a.chars().skip(1 + r.below(n.max(1))).collect(),
        14 => a.replace(['-', '_', '/', '.'], ""),
        15 => format!("{a}{a}"),
        16 => format!("{a}{}", r.pick(&["s", "x", "ed", "1", "_", "ing", "Error"])),
        17 => a.strip_suffix('s').or(a.strip_suffix("ed")).or(a.strip_suffix("Error")).unwrap_or("x").to_string(),
        18 => {
            let k = r.below(n.max(1));
            a.chars().enumerate().filter(|(i, _)| *i != k).map(|(_, c)| c).collect()
        }
        19 => {
            let k = r.below(n.max(1));
            a.chars().enumerate().map(|(i, c)| if i == k { (c as u8 ^ 0x20) as char } else { c }).collect()
        }
        20 => String::new(),
        21 => a.rsplit(['/', '_', '-', ':']).next().unwrap_or("").to_string(),
        _ => r.pick(WORDS).to_string(),
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub fn hash_value(v: &Value) -> u64 {
    fnv(v.to_string().as_bytes())
}

/// JSON equality where numbers are compared by mathematical value (1 == 1.0).
pub fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => num_eq(x, y),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_eq(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| json_eq(v, w)).unwrap_or(false))
        }
        _ => a == b,
    }
}

pub fn num_eq(x: &serde_json::Number, y: &serde_json::Number) -> bool {
    if x == y {
        return true;
    }
    let int = |n: &serde_json::Number| -> Option<i128> { n.as_i64().map(|v| v as i128).or(n.as_u64().map(|v| v as i128)) };
    match (int(x), int(y)) {
        (Some(p), Some(q)) => p == q,
        (Some(p), None) => y.as_f64().map(|f| f.fract() == 0.0 && f.abs() < 1.7e38 && f as i128 == p).unwrap_or(false),
        (None, Some(q)) => x.as_f64().map(|f| f.fract() == 0.0 && f.abs() < 1.7e38 && f as i128 == q).unwrap_or(false),
        (None, None) => x.as_f64() == y.as_f64(),
    }
}

/// First differences between two JSON values, as `path: detail` strings (at most `max`).
pub fn diff(a: &Value, b: &Value, path: &str, out: &mut Vec<String>, max: usize) {
    if out.len() >= max || json_eq(a, b) {
        return;
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => out.push(format!("{path}/{k}: lost")),
                    Some(w) => diff(v, w, &format!("{path}/{k}"), out, max),
                }
                if out.len() >= max {
                    return;
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    out.push(format!("{path}/{k}: added"));
                    if out.len() >= max {
                        return;
                    }
                }
            }
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                diff(p, q, &format!("{path}/{i}"), out, max);
            }
        }
        (Value::Array(x), Value::Array(y)) => out.push(format!("{path}: array length {} -> {}", x.len(), y.len())),
        _ => out.push(format!("{path}: {} -> {}", short(a), short(b))),
    }
}

pub fn diff_of(a: &Value, b: &Value) -> Vec<String> {
    let mut v = vec![];
    diff(a, b, "", &mut v, 6);
    v
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    clip(&s, 160)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…({} bytes)", &s[..e], s.len())
}

pub fn obj(pairs: &[(&str, Value)]) -> Value {
    let mut m = Map::new();
    for (k, v) in pairs {
        m.insert(k.to_string(), v.clone());
    }
    Value::Object(m)
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            Err(format!("panic: {m}"))
        }
    }
}

static TURNED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From now on workloads run from their end to their start.
pub fn turn() {
    TURNED.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// The steps of a workload, each of which stands on its own.
pub fn turned<I: IntoIterator>(steps: I) -> std::vec::IntoIter<I::Item> {
    let mut all: Vec<I::Item> = steps.into_iter().collect();
    if TURNED.load(std::sync::atomic::Ordering::Relaxed) {
        all.reverse();
    }
    all.into_iter()
}
