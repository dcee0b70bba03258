//! C16: any text at all ends in a value or an error; what is taken is stable.
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::*;
use crate::spec::*;
use crate::util::*;
use crate::ver;
use crate::vreg;
use serde_json::{json, Value};

fn cpu_ns() -> u64 {
    std::fs::read_to_string("/proc/thread-self/schedstat").ok().and_then(|t| t.split(' ').next()?.parse().ok()).unwrap_or(0)
}

const TOKENS: &[&str] = &[
    "null", "true", "{}", "[]", "\"\"", "0", "-0", "-1", "1.0", "0.1e1", "1e999", "-1e-999", "9223372036854775807", "9223372036854775808", "-9223372036854775809",
    "18446744073709551616", "99999999999999999999999999999999999999", "1e19", "\"\\u0000\"", "\"\\ud800\"", "\"\\udc00\\ud800\"", "\"\\ud83d\\ude00\"", "\"\u{feff}\"",
    "[[]]", "{\"\":{}}", "\"2.0\"", "\"1.0\"", "NaN", "Infinity", "undefined", "'a'", "01", "+1", ".5", "1.", "/**/", "//", ",", ":", "\"", "\\", "{", "}", "[", "]", "\u{feff}", "\t", "\0",
    "\"jsonrpc\":\"2.0\",", "\"id\":1,", "\"id\":null,", "\"method\":\"ping\",", "\"method\":\"tools/call\",", "\"params\":{},", "\"result\":{},", "\"error\":{\"code\":1,\"message\":\"\"},", "\"_meta\":{},", "\"type\":\"text\",",
];

/// A spot where a value begins (after ':' or '[' or ','), for splicing.
fn spots(t: &[u8]) -> Vec<usize> {
    t.iter().enumerate().filter(|(_, b)| matches!(b, b':' | b'[' | b',' | b'{')).map(|(i, _)| i + 1).collect()
}
/// The end of the JSON value that starts at `at`, if it is one.
fn value_end(t: &[u8], at: usize) -> usize {
    let (mut i, mut depth, mut text) = (at, 0i32, false);
    while i < t.len() {
        let b = t[i];
        if text {
            if b == b'\\' {
                i += 1;
            } else if b == b'"' {
                text = false;
                if depth == 0 {
                    return i + 1;
                }
            }
        } else {
            match b {
                b'"' => text = true,
                b'{' | b'[' => depth += 1,
                b'}' | b']' => {
                    if depth == 0 {
                        return i;
                    }
                    depth -= 1;
                    if depth == 0 {
                        return i + 1;
                    }
                }
                b',' | b':' if depth == 0 => return i,
                _ => {}
            }
        }
        i += 1;
    }
    t.len()
}

fn nest(g: &mut Gen, depth: usize) -> String {
    let leaf = *g.rng.pick(&["1", "null", "\"x\"", "{}", "[]"]);
    match g.rng.below(4) {
        0 => format!("{}{leaf}{}", "[".repeat(depth), "]".repeat(depth)),
        1 => format!("{}{leaf}{}", "{\"a\":".repeat(depth), "}".repeat(depth)),
        2 => format!("{}{leaf}{}", "{\"content\":[".repeat(depth / 2), "]}".repeat(depth / 2)),
        _ => format!("{}{leaf}{}", "[".repeat(depth), "]".repeat(depth.saturating_sub(1))),
    }
}

pub fn mutate(g: &mut Gen, mut t: Vec<u8>, big: bool) -> (Vec<u8>, &'static str) {
    if t.is_empty() {
        return (t, "nothing");
    }
    match g.rng.below(if big { 14 } else { 12 }) {
        0 => {
            let n = g.rng.below(t.len());
            t.truncate(n);
            (t, "cut short")
        }
        1 => {
            let a = g.rng.below(t.len());
            let b = (a + 1 + g.rng.below(8)).min(t.len());
            t.drain(a..b);
            (t, "bytes removed")
        }
        2 => {
            let a = g.rng.below(t.len());
            let b = (a + 1 + g.rng.below(40)).min(t.len());
            let s: Vec<u8> = t[a..b].to_vec();
            let at = g.rng.below(t.len());
            t.splice(at..at, s);
            (t, "bytes repeated")
        }
        3 => {
            let a = g.rng.below(t.len());
            t[a] = *g.rng.pick(&[0u8, 0xff, 0xc0, 0x80, b'"', b'{', b'}', b',', b':', b'0', b' ', b'\\', b'\n', 0xed]);
            (t, "byte altered")
        }
        4 => {
            let tok = *g.rng.pick(TOKENS);
            let at = g.rng.below(t.len() + 1);
            t.splice(at..at, tok.bytes());
            (t, "token inserted")
        }
        5 | 6 => {
            let sp = spots(&t);
            if sp.is_empty() {
                return (t, "nothing");
            }
            let at = *g.rng.pick(&sp);
            let end = value_end(&t, at);
            let tok = *g.rng.pick(TOKENS);
            t.splice(at..end, tok.bytes());
            (t, "value replaced")
        }
        7 | 8 => {
            // an object gets one of its members twice, or one of another object's
            let opens: Vec<usize> = t.iter().enumerate().filter(|(_, b)| **b == b'{').map(|(i, _)| i).collect();
            let colons: Vec<usize> = (0..t.len()).filter(|i| t[*i] == b':' && *i > 0 && t[*i - 1] == b'"').collect();
            if opens.is_empty() || colons.is_empty() {
                return (t, "nothing");
            }
            let c = *g.rng.pick(&colons);
            let start = t[..c - 1].iter().rposition(|b| *b == b'"').unwrap_or(0);
            let end = value_end(&t, c + 1);
            let mut m = t[start..end].to_vec();
            m.push(b',');
            let at = *g.rng.pick(&opens) + 1;
            t.splice(at..at, m);
            (t, "member repeated")
        }
        9 => {
            let sp = spots(&t);
            if sp.is_empty() {
                return (t, "nothing");
            }
            let (a, b) = (*g.rng.pick(&sp).min(&t.len()), *g.rng.pick(&sp).min(&t.len()));
            let s = t[a..value_end(&t, a)].to_vec();
            let e = value_end(&t, b);
            t.splice(b..e, s);
            (t, "value moved")
        }
        10 => {
            let depth = *g.rng.pick(&[3usize, 20, 100, 120, 124, 125, 126, 127, 128, 129, 200]);
            let x = nest(g, depth);
            let sp = spots(&t);
            if sp.is_empty() {
                return (x.into_bytes(), "deeply nested");
            }
            let at = *g.rng.pick(&sp);
            let end = value_end(&t, at);
            t.splice(at..end, x.bytes());
            (t, "deeply nested")
        }
        11 => {
            let mut v = g.rng.pick(&["", " ", "\u{feff}", "[", "{\"x\":", "\n\n", "data: "]).as_bytes().to_vec();
            v.extend(&t);
            v.extend(g.rng.pick(&["", " ", "]", "}", "\0", "x", "\r\n", "{}", ","]).as_bytes());
            (v, "wrapped")
        }
        12 => {
            let sp = spots(&t);
            if sp.is_empty() {
                return (t, "nothing");
            }
            let at = *g.rng.pick(&sp);
            let end = value_end(&t, at);
            let depth = *g.rng.pick(&[1_000usize, 20_000, 200_000]);
            let x = match g.rng.below(4) {
                0 => format!("\"{}\"", "é\\n".repeat(depth / 4)),
                1 => format!("[{}0]", "0,".repeat(depth / 4)),
                2 => format!("{{{}\"z\":0}}", (0..depth / 20).map(|i| format!("\"k{i}\":{i},")).collect::<String>()),
                _ => nest(g, depth),
            };
            t.splice(at..end, x.bytes());
            (t, "very large")
        }
        _ => {
            let n = 2 + g.rng.below(60);
            let mut v = vec![b'['];
            for i in 0..n {
                if i > 0 {
                    v.push(b',');
                }
                v.extend(&t);
            }
            v.push(b']');
            (v, "many copies")
        }
    }
}

struct Seen {
    text: String,
    wire: Value,
    more: String,
}
type Reader = Box<dyn Fn(&[u8], u8) -> Result<Seen, String>>;

/// Every way in: name and a reader (mode 0 text, 1 bytes, 2 slow reader, 3 FromStr, 4 an in-memory value).
fn readers(sp: &Spec) -> Vec<(String, Reader)> {
    let mut v: Vec<(String, Reader)> = vec![];
    for side in SIDES {
        v.push((
            format!("{}Message", side.name()),
            Box::new(move |b, mode| {
                guard(|| {
                    let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
                    let o = match mode {
                        4 => parse_msg(side, serde_json::from_str(t).map_err(|e| e.to_string())?)?,
                        3 => parse_msg_text(side, t, 0).map_err(|e| e.to_string())?,
                        1 => parse_msg_text(side, t, 2).map_err(|e| e.to_string())?,
                        _ => parse_msg_text(side, t, 1).map_err(|e| e.to_string())?,
                    };
                    Ok(Seen { text: o.display.clone(), more: format!("{} {:?} {:?} {:?} {}", o.path, o.flags, o.id, o.method, o.mtype), wire: o.wire })
                })
                .and_then(|r| r)
            }),
        ));
    }
    for e in envs() {
        v.push((
            e.name.to_string(),
            Box::new(move |b, mode| {
                guard(|| {
                    let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
                    let o = match mode {
                        4 => (e.parse)(serde_json::from_str(t).map_err(|e| e.to_string())?)?,
                        3 => (e.from_str)(t).map_err(|e| e.to_string())?,
                        _ => (e.from_text)(t)?,
                    };
                    Ok(Seen { text: o.display.clone(), more: format!("{} {:?} {:?}", o.path, o.id, o.method), wire: o.wire })
                })
                .and_then(|r| r)
            }),
        ));
    }
    for e in vreg::entries() {
        if !sp.has(e.name) {
            continue;
        }
        v.push((
            e.name.to_string(),
            Box::new(move |b, mode| {
                let r = match mode {
                    1 => (e.parse_bytes)(b, 0),
                    2 => (e.parse_bytes)(b, 1),
                    4 => {
                        let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
                        (e.parse)(serde_json::from_str(t).map_err(|e| e.to_string())?)
                    }
                    _ => (e.parse_str)(std::str::from_utf8(b).map_err(|e| e.to_string())?),
                };
                r.map(|o| Seen { text: o.text, wire: o.wire, more: format!("{:?} {}", o.variant, o.dbg) })
            }),
        ));
    }
    v
}

fn shown(b: &[u8]) -> Value {
    json!(clip(&String::from_utf8_lossy(b), 1500))
}

pub fn total(cx: &mut Cx, sp: &Spec) {
    let rs = readers(sp);
    let m = Model::new(sp, ver::group());
    let fixed = 2 + envs().len();
    let seed = cx.seed;
    for i in turned(0..cx.n(1500, 150_000)) {
        let mut g = gen(seed, i, "C16");
        // a message, a batch or a value of some type, mutated a few times
        let own = fixed + g.rng.below(rs.len() - fixed);
        let base = match g.rng.below(5) {
            0 | 1 => {
                let (side, kind) = (*g.rng.pick(&SIDES), *g.rng.pick(&KINDS));
                let k = g.rng.below(40);
                m.message(&mut g, side, kind, k).wire
            }
            2 => g.any(3),
            _ => sp.gen_type(&rs[own].0, &mut g),
        };
        let mut t = base.to_string().into_bytes();
        let mut how = vec![];
        for _ in 0..*g.rng.pick(&[0usize, 1, 1, 1, 2, 3, 5]) {
            let (n, h) = mutate(&mut g, t, i % 50 == 0);
            t = n;
            how.push(h);
        }
        let what = how.first().copied().unwrap_or("untouched");
        let steady = |p: &Option<Value>| p.as_ref().is_some_and(|p| serde_json::from_str::<Value>(&p.to_string()).ok().as_ref() == Some(p));
        let valid = serde_json::from_slice::<serde::de::IgnoredAny>(&t).is_ok();
        // the text as written out again from the plain JSON reading, where there is one
        let mut plain = serde_json::from_slice::<Value>(&t).ok();
        // (the JSON reader's floating point may take a few rounds to settle on a value)
        for _ in 0..20 {
            let next = plain.as_ref().and_then(|p| serde_json::from_str::<Value>(&p.to_string()).ok());
            if next == plain {
                break;
            }
            plain = next;
        }
        let mut at: Vec<usize> = (0..fixed).collect();
        at.push(own);
        for _ in 0..4 {
            at.push(fixed + g.rng.below(rs.len() - fixed));
        }
        for k in at {
            let (name, read) = &rs[k];
            let t0 = cpu_ns();
            let first = read(&t, 0);
            let spent = cpu_ns().saturating_sub(t0);
            cx.eval(&format!("text {what}"), &json!([name, fnv(&t)]));
            let case = json!({"type": name, "text": shown(&t), "mutations": how});
            if spent > 20_000_000_000 {
                cx.fail(&format!("{name}: reading takes unreasonably long"), format!("{} ms for {} bytes", spent / 1_000_000, t.len()), case.clone());
            }
            for mode in 0..5u8 {
                let r = if mode == 4 { plain.as_ref().map(|p| read(p.to_string().as_bytes(), 4)) } else { Some(read(&t, mode)) };
                let Some(r) = r else { continue };
                if let Err(e) = &r {
                    if e.starts_with("panic:") || e.starts_with("serialize:") {
                        cx.fail(&format!("{name}: {}", clip(e, 80)), format!("mode {mode}"), case.clone());
                        continue;
                    }
                }
                if (1..=2).contains(&mode) && std::str::from_utf8(&t).is_err() {
                    // what is skipped need not be checked for being text
                    cx.count("bytes that are no text");
                    continue;
                }
                // the same text is read the same way, whichever way it comes in
                let same_as = |a: &Result<Seen, String>, b: &Result<Seen, String>| match (a, b) {
                    (Ok(a), Ok(b)) => a.text == b.text && a.more == b.more && a.wire == b.wire,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                let reference = if mode == 4 { read(plain.as_ref().unwrap().to_string().as_bytes(), 0) } else { read(&t, 0) };
                if !same_as(&r, &reference) {
                    cx.fail(&format!("{name}: read differently (mode {mode})"), format!("{:?} / {:?}", r.as_ref().map(|s| clip(&s.text, 300)), reference.as_ref().map(|s| clip(&s.text, 300))), case.clone());
                }
            }
            cx.digest("outcomes", &first.as_ref().map_or("refused".to_string(), |s| format!("{name} {} {}", s.text, s.more)));
            match &first {
                Err(_) => cx.count("refused"),
                Ok(s) => {
                    cx.count("taken");
                    if !valid {
                        cx.fail(&format!("{name}: takes text that is no JSON"), clip(&s.text, 300), case.clone());
                    }
                    // what was taken can be written and read again, and stays as it is (a member given
                    // twice has no one meaning, so the text is taken as plain JSON reads it)
                    if !steady(&plain) {
                        cx.count("numbers do not settle");
                        continue;
                    }
                    let Some(Ok(s)) = plain.as_ref().map(|p| read(p.to_string().as_bytes(), 0)) else {
                        cx.count("taken only as given");
                        continue;
                    };
                    if ver::group() == 'A' && s.more.contains("Custom") {
                        // a custom message of these versions is written nested (known finding of C06)
                        cx.count("custom message of the oldest versions");
                        continue;
                    }
                    let again = read(s.wire.to_string().as_bytes(), 0);
                    match &again {
                        Ok(a) if a.wire == s.wire => {}
                        Ok(a) => cx.fail(&format!("{name}: written and read again differs"), format!("{:?}", diff_of(&s.wire, &a.wire)), case.clone()),
                        Err(e) => cx.fail(&format!("{name}: written, then refused"), format!("{e}: {}", short(&s.wire)), case.clone()),
                    }
                    if serde_json::from_str::<Value>(&s.text).ok().as_ref() != Some(&s.wire) {
                        cx.fail(&format!("{name}: text and value written differ"), clip(&s.text, 300), case.clone());
                    }
                }
            }
        }
    }
}

/// The deepest texts the JSON reader admits, read on a thread with the stack a thread usually has.
pub fn deep(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let thorough = cx.thorough;
    let stack = std::env::var("MCPMON_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(2usize << 20);
    let names: Vec<String> = readers(sp).into_iter().map(|r| r.0).collect();
    let sp2 = sp.clone();
    let done = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let rs = readers(&sp2);
            let mut out: Vec<(usize, u64, bool)> = vec![];
            for (k, (name, read)) in rs.iter().enumerate() {
                for i in 0..if thorough { 60 } else { 6 } {
                    let mut g = gen(seed, i, &format!("C16deep{name}"));
                    let mut v = if sp2.has(name) { sp2.gen_type(name, &mut g) } else { json!({"jsonrpc": "2.0", "id": 1, "method": "x", "params": {}, "result": {}}) };
                    let depth = *g.rng.pick(&[60usize, 100, 118, 121, 122, 123, 124, 125]);
                    let leaf: Value = serde_json::from_str(&match i % 3 {
                        0 => format!("{}1{}", "[".repeat(depth), "]".repeat(depth)),
                        1 => format!("{}1{}", "{\"a\":".repeat(depth), "}".repeat(depth)),
                        _ => format!("{}1{}", "{\"content\":[".repeat(depth / 2), "]}".repeat(depth / 2)),
                    })
                    .unwrap();
                    if let Some(o) = v.as_object_mut() {
                        let key = o.keys().nth(g.rng.below(o.len().max(1))).cloned().unwrap_or_default();
                        o.insert(if i % 2 == 0 { "unlisted".into() } else { key }, leaf);
                    } else {
                        v = leaf;
                    }
                    let t = v.to_string();
                    let r = read(t.as_bytes(), 0);
                    out.push((k, fnv(t.as_bytes()), r.is_ok()));
                }
            }
            out
        })
        .map(|t| t.join());
    match done {
        Ok(Ok(out)) => {
            for (k, h, ok) in out {
                cx.eval(if ok { "deep text taken" } else { "deep text refused" }, &json!([names[k], h]));
            }
        }
        _ => cx.fail("reading a deep text on a 2 MiB stack", "the thread died".into(), json!("deep")),
    }
}
