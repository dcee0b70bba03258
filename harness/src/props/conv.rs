//! Monitors over the conversions, constructors, getters and printed names (the committed API tables).
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::spec::*;
use crate::tab::path_in;
use crate::util::*;
use crate::ver::{self, s};
use crate::vtab;
use serde_json::{json, Value};

/// A wire value for any type that appears as a source in the tables.
pub fn source(m: &Model, ty: &str, g: &mut Gen, i: usize) -> Option<Value> {
    if m.sp.has(ty) {
        return Some(m.sp.gen_type(ty, g));
    }
    for side in SIDES {
        let n = side.name();
        let strip = |v: Value| {
            let mut v = v;
            let o = v.as_object_mut().unwrap();
            o.remove("id");
            o.remove("jsonrpc");
            v
        };
        for kind in KINDS {
            if ty == format!("{n}Jsonrpc{}", kind.name()) {
                return Some(m.message(g, side, kind, i).wire);
            }
        }
        if ty == format!("{n}Message") {
            return Some(m.message(g, side, KINDS[i % 4], i / 4).wire);
        }
        if ty == format!("RequestFrom{n}") {
            return Some(strip(m.message(g, side, Kind::Request, i).wire));
        }
        if ty == format!("NotificationFrom{n}") {
            return Some(strip(m.message(g, side, Kind::Notification, i).wire));
        }
        if ty == format!("ResultFrom{n}") {
            let r = m.results(side);
            return Some(m.sp.gen_type(&r[i % r.len()], g));
        }
    }
    None
}

/// C08: conversions keep the content, land in the right member, and come back.
pub fn conversions(cx: &mut Cx, sp: &Spec) {
    let m = Model::new(sp, ver::group());
    let seed = cx.seed;
    let n = cx.n(24, 800);
    for c in turned(vtab::convs()) {
        let label = format!("From<{}> for {}", c.from, c.to);
        cx.count("conversions observed");
        // a source with many members is met more often
        let n = if c.from.contains("Jsonrpc") || c.from.contains("From") || c.from.ends_with("Message") { n * 4 } else { n };
        for i in turned(0..n) {
            let mut g = gen(seed, i, &format!("C08{label}"));
            let Some(v) = source(&m, c.from, &mut g, i) else {
                cx.notes.push(format!("no source for {label}"));
                break;
            };
            let case = json!({"conversion": label, "value": v});
            let o = match (c.run)(v) {
                Ok(o) => o,
                Err(e) => {
                    // whether conforming values are read at all is another property
                    cx.count("source not read");
                    cx.notes.truncate(40);
                    cx.notes.push(format!("{label}: {}", clip(&e, 120)));
                    continue;
                }
            };
            cx.eval("conversion", &case);
            let mut want = o.from_wire.clone();
            if m.group == 'A' && c.to.contains("JsonrpcNotification") && want.get("jsonrpc").is_none() {
                want["jsonrpc"] = json!("2.0");
            }
            if o.to_wire != want {
                cx.fail(&format!("{label} alters the content"), format!("{:?}", diff_of(&want, &o.to_wire)), case.clone());
            }
            if !path_in(&o.path, c.path) {
                cx.fail(&format!("{label} lands in another member"), format!("{} instead of {}", o.path, c.path), case);
            }
        }
    }
    for c in turned(vtab::trys()) {
        let label = format!("TryFrom<{}> for {}", c.from, c.to);
        cx.count("conversions observed");
        for i in turned(0..n) {
            let mut g = gen(seed, i, &format!("C08{label}"));
            // half the values are of the wanted type, half are whatever the source can hold
            let v = match (i % 2, sp.has(c.to)) {
                (0, true) => sp.gen_type(c.to, &mut g),
                _ => match source(&m, c.from, &mut g, i / 2) {
                    Some(v) => v,
                    None => break,
                },
            };
            let case = json!({"conversion": label, "value": v});
            let o = match (c.run)(v) {
                Ok(o) => o,
                Err(e) => {
                    cx.count("source not read");
                    cx.notes.truncate(40);
                    cx.notes.push(format!("{label}: {}", clip(&e, 120)));
                    continue;
                }
            };
            let mine = path_in(&o.path, c.path);
            cx.eval(if mine { "extraction of the held member" } else { "extraction of another member" }, &case);
            match (&o.out, mine) {
                (Ok(w), true) => {
                    if *w != o.from_wire {
                        cx.fail(&format!("{label} alters the content"), format!("{:?}", diff_of(&o.from_wire, w)), case);
                    }
                }
                (Err(e), false) => {
                    if e["code"] != json!(-32603) || e["message"].as_str().unwrap_or("").is_empty() {
                        cx.fail(&format!("{label} error"), e.to_string(), case);
                    }
                }
                (Ok(w), false) => cx.fail(&format!("{label} succeeds for {}", o.path), w.to_string(), case),
                (Err(e), true) => cx.fail(&format!("{label} refuses its own member"), e.to_string(), case),
            }
        }
    }
    for c in turned(vtab::tomsgs()) {
        let label = format!("{} as {}", c.from, c.to);
        for i in turned(0..n) {
            let mut g = gen(seed, i, &format!("C08{label}"));
            let Some(v) = source(&m, c.from, &mut g, i) else { break };
            let idv = (i % 3 != 0).then(|| m.id(&mut g));
            let id: Option<s::RequestId> = idv.clone().map(|x| serde_json::from_value(x).unwrap());
            let case = json!({"message": label, "value": v, "id": idv});
            let (w, a, b) = match (c.run)(v, id) {
                Ok(x) => x,
                Err(_) => {
                    cx.count("source not read");
                    continue;
                }
            };
            cx.eval("message from payload", &case);
            let fits = match c.kind {
                "not" => idv.is_none(),
                _ => idv.is_some(),
            };
            if let Some(b) = &b {
                if *b != a {
                    cx.fail(&format!("{label}: to_message and from_message differ"), format!("{a:?} vs {b:?}"), case.clone());
                }
            }
            match (a, fits) {
                (Ok(msg), true) => {
                    let mut want = if ["res", "result"].contains(&c.kind) { json!({ "result": w }) } else { w };
                    want["jsonrpc"] = json!("2.0");
                    if let Some(x) = &idv {
                        want["id"] = x.clone();
                    }
                    if msg != want {
                        cx.fail(&format!("{label} content"), format!("{:?}", diff_of(&want, &msg)), case);
                    }
                }
                (Err(e), false) => {
                    if e["code"] != json!(-32603) {
                        cx.fail(&format!("{label} error"), e.to_string(), case);
                    }
                }
                (r, _) => cx.fail(&format!("{label}: id rule"), format!("{r:?}"), case),
            }
        }
    }
}

/// C22: constructors and getters agree with the wire, member by member.
pub fn members(cx: &mut Cx, sp: &Spec) {
    let m = Model::new(sp, ver::group());
    let seed = cx.seed;
    let n = cx.n(36, 1500);
    for c in turned(vtab::news()) {
        cx.count("constructors observed");
        for i in turned(0..n) {
            let mut g = gen(seed, i, &format!("C22n{}", c.name));
            let Some(v) = source(&m, c.name, &mut g, i) else {
                cx.notes.push(format!("no source for {}", c.name));
                break;
            };
            let case = json!({"constructor": c.name, "value": v});
            let Ok((parsed, built)) = (c.run)(v) else {
                cx.count("source not read");
                continue;
            };
            cx.eval("constructed from its members", &case);
            let mut want = parsed;
            for k in c.dropped {
                if let Some(o) = want.as_object_mut() {
                    o.remove(*k);
                }
            }
            // a constructor writes a fixed member even where the schema lets it be left out
            if let (true, Some(o)) = (sp.has(c.name), want.as_object_mut()) {
                if let Some(ps) = sp.schema(c.name)["properties"].as_object() {
                    for (k, p) in ps {
                        if let Some(f) = p.get("const") {
                            o.insert(k.clone(), f.clone());
                        }
                    }
                }
            }
            if want != built {
                cx.fail(&format!("{}::new", c.name), format!("{:?}", diff_of(&want, &built)), case);
            }
        }
    }
    for c in crate::vfld::fields() {
        cx.add("public members observed", c.keys.len() as u64);
        for i in 0..n {
            let mut g = gen(seed, i, &format!("C22f{}", c.name));
            let Some(v) = source(&m, c.name, &mut g, i) else {
                cx.notes.push(format!("no source for {}", c.name));
                break;
            };
            let case = json!({"members of": c.name, "value": v});
            let Ok((wire, vals)) = (c.run)(v) else {
                cx.count("source not read");
                continue;
            };
            cx.eval("members", &case);
            for (k, x) in c.keys.iter().zip(vals) {
                let x = x.unwrap_or(Value::Null);
                let want = if *k == "*" {
                    let declared = sp.members(sp.schema(c.name), &wire).0;
                    Value::Object(wire.as_object().into_iter().flatten().filter(|(k, _)| !declared.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect())
                } else {
                    wire.get(*k).cloned().unwrap_or(Value::Null)
                };
                let empty = |v: &Value| v.is_null() || *v == json!([]) || *v == json!({});
                if !json_eq(&x, &want) && !(empty(&x) && empty(&want)) {
                    cx.fail(&format!("{}: member {k}", c.name), format!("{x} but the wire has {want}"), case.clone());
                }
            }
        }
    }
    // a default value holds nothing that may be absent
    for (name, make) in turned(vtab::defaults()) {
        let v = make();
        let case = json!(["default", name]);
        let sound = match v.as_object() {
            Some(o) if sp.has(name) => {
                let required = sp.members(sp.schema(name), &v).1;
                sp.valid_type(name, &v) && o.keys().all(|k| required.contains(k))
            }
            Some(o) => o.is_empty(),
            None => sp.has(name) && sp.valid_type(name, &v),
        };
        cx.check(sound, "default value", &format!("{name}::default"), &case, || v.to_string());
    }
    for c in turned(vtab::getters()) {
        cx.count("getters observed");
        let fixed = sp.has(c.name).then(|| written_const(sp.schema(c.name), c.key)).flatten();
        let st = (c.statics)();
        if fixed.is_none() {
            cx.count("getters without a schema constant");
        }
        if let Some(f) = &fixed {
            for x in &st {
                cx.check(x == f, "named constant", &format!("{} static {}", c.name, c.key), &json!([c.name, c.key, x]), || f.to_string());
            }
        }
        for i in turned(0..n) {
            let mut g = gen(seed, i, &format!("C22g{}", c.name));
            let Some(v) = source(&m, c.name, &mut g, i) else {
                cx.notes.push(format!("no source for {}", c.name));
                break;
            };
            let case = json!({"getter": [c.name, c.key], "value": v});
            let Ok((got, wire)) = (c.run)(v) else {
                cx.count("source not read");
                continue;
            };
            cx.check(got == wire[c.key] && fixed.as_ref().is_none_or(|f| *f == got || wire.get(c.key).is_none()), "getter", &format!("{}::{}", c.name, c.key), &case, || {
                format!("{got} but the wire has {}", wire[c.key])
            });
        }
    }
}

/// The fixed value a schema, or a part it is composed of, gives a member.
fn written_const(schema: &Value, key: &str) -> Option<Value> {
    let here = schema["properties"][key]["const"].clone();
    if !here.is_null() {
        return Some(here);
    }
    schema["allOf"].as_array()?.iter().find_map(|part| written_const(part, key))
}

/// C19: a listed name prints as it is written on the wire, parses back, and nothing else parses.
pub fn names(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let n = cx.n(200, 20000);
    let ps = vtab::printers();
    let lists: Vec<Vec<String>> = ps
        .iter()
        .map(|p| sp.schema(p.name)["enum"].as_array().map(|e| e.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default())
        .collect();
    let mut all: Vec<String> = lists.concat();
    all.sort();
    all.dedup();
    use ver::u::MessageTypes as K;
    for (k, w) in [(K::Request, "Request"), (K::Response, "Response"), (K::Notification, "Notification"), (K::Error, "Error")] {
        let shown = k.to_string();
        cx.check(shown == w, "message kind printed", &format!("message kind {w} printed"), &json!(["MessageTypes", w]), || shown.clone());
    }
    for (p, list) in ps.iter().zip(&lists) {
        cx.count("lists observed");
        for (j, w) in list.iter().enumerate() {
            let case = json!([p.name, w]);
            match (p.run)(w) {
                Ok((shown, wire, _)) => {
                    cx.check(shown == *w && wire == json!(w), "listed name", &format!("{} {w} printed or written", p.name), &case, || format!("printed {shown}, written {wire}"));
                }
                Err(e) => cx.fail(&format!("{} {w} refused", p.name), e, case.clone()),
            }
            if let Some(f) = &p.parse {
                let got = f(w);
                cx.check(got == Some(json!(w)), "listed name parsed", &format!("{} {w} parsed", p.name), &case, || format!("{got:?}"));
            }
            let _ = j;
        }
        cx.eval("distinctness", &json!([p.name, list]));
        if let Some(c) = (p.laws)(list) {
            cx.fail(&format!("{} names not distinct", p.name), c, json!(list));
        }
        let mut r = Rng::derive(seed, &format!("C19{}", p.name));
        // every word known from elsewhere, then names one edit away
        let elsewhere: Vec<String> = WORDS.iter().map(|w| w.to_string()).chain(all.iter().cloned()).chain(list.iter().flat_map(|w| all_spellings(w))).collect();
        for j in 0..n + elsewhere.len() {
            let t = match r.below(8) {
                _ if j < elsewhere.len() => elsewhere[j].clone(),
                0..=2 => near_name(r.pick(&all), &mut r),
                _ => near_name(&if list.is_empty() { String::new() } else { r.pick(list).clone() }, &mut r),
            };
            if list.contains(&t) {
                continue;
            }
            let case = json!([p.name, t]);
            cx.check((p.run)(&t).is_err(), "unlisted name", &format!("{} accepts an unlisted name", p.name), &case, || t.clone());
            if let Some(f) = &p.parse {
                let got = f(&t);
                cx.check(got.is_none(), "unlisted name parsed", &format!("{} parses an unlisted name", p.name), &case, || format!("{got:?}"));
            }
        }
    }
}
