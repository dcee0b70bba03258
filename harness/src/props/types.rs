//! Monitors over every public wire type (the registry) against the published schema.
use crate::cx::Cx;
use crate::spec::*;
use crate::util::*;
use crate::vreg;
use serde_json::{json, Value};

/// C01: conforming values survive, through every entry point, and what is written conforms.
pub fn round_trip(cx: &mut Cx, sp: &Spec) {
    let n = cx.n(60, 1500);
    let seed = cx.seed;
    for e in turned(vreg::entries()) {
        if !sp.has(e.name) {
            cx.count("types without schema");
            continue;
        }
        cx.count("types observed");
        let sch = sp.schema(e.name);
        // left out where only a taste is wanted
        for i in turned(0..if cx.scale < 10 { 0 } else { cx.n(1, 20) }) {
            other_spellings(cx, sp, &e, sch, seed, i);
        }
        for i in turned(0..n) {
            let mut g = Gen::new(Rng::derive(seed.wrapping_mul(1_000_003) ^ i as u64, e.name), PROFILES[i % PROFILES.len()]);
            let v = sp.gen_type(e.name, &mut g);
            if sp.validate(sch, &v).is_err() {
                cx.count("generator miss");
                continue;
            }
            cx.eval("conforming value", &json!([e.name, v]));
            let case = json!({"type": e.name, "value": v});
            let o = match (e.parse)(v.clone()) {
                Err(x) => {
                    cx.fail(&format!("{} rejected", e.name), x, case);
                    continue;
                }
                Ok(o) => o,
            };
            let a = sp.canon(sch, &v);
            let b = sp.canon(sch, &o.wire);
            if !json_eq(&a, &b) {
                cx.fail(&format!("{} altered", e.name), format!("{:?} variant {:?}", diff_of(&a, &b), o.variant), case.clone());
            }
            if let Some(x) = invented(&v, &o.wire, "") {
                cx.fail(&format!("{} invented a member", e.name), x, case.clone());
            }
            if let Err(x) = sp.validate(sch, &o.wire) {
                cx.fail(&format!("{} written value does not conform", e.name), x, case.clone());
            }
            if o.clone_wire != o.wire {
                cx.fail(&format!("{} clone differs", e.name), short(&o.clone_wire), case.clone());
            }
            // writing to text and to a value agree, and text re-reads to the same
            match serde_json::from_str::<Value>(&o.text) {
                Ok(t) if t == o.wire => {}
                t => cx.fail(&format!("{} text and value output differ", e.name), format!("{t:?}"), case.clone()),
            }
            let text = v.to_string();
            let same = |cx: &mut Cx, how: &str, r: Result<crate::reg::Obs, String>| {
                cx.count(how);
                match r {
                    Ok(p) if p.dbg == o.dbg && p.text == o.text => {}
                    Ok(p) => cx.fail(&format!("{} {how} differs", e.name), format!("{} vs {}", clip(&p.text, 300), clip(&o.text, 300)), case.clone()),
                    Err(x) => cx.fail(&format!("{} {how} rejects", e.name), x, case.clone()),
                }
            };
            same(cx, "from text", (e.parse_str)(&text));
            same(cx, "from text with whitespace", (e.parse_str)(&serde_json::to_string_pretty(&v).unwrap()));
            same(cx, "from bytes", (e.parse_bytes)(text.as_bytes(), 0));
            same(cx, "from dribbling reader", (e.parse_bytes)(text.as_bytes(), 1));
            same(cx, "from a borrowed value", (e.parse_bytes)(text.as_bytes(), 2));
            same(cx, "inside an untagged type of the user's", (e.parse_bytes)(text.as_bytes(), 3));
            // member order on the wire carries no meaning
            let shuffled = shuffled_text(&v, &mut g.rng);
            same(cx, "members reordered", (e.parse_str)(&shuffled));
            // reading back what was written gives the same value
            match (e.parse)(o.wire.clone()) {
                Ok(p) if p.text == o.text => {}
                Ok(p) => cx.fail(&format!("{} not a fixed point", e.name), format!("{} vs {}", clip(&p.text, 300), clip(&o.text, 300)), case.clone()),
                Err(x) => cx.fail(&format!("{} own output rejected", e.name), x, case.clone()),
            }
            if let Some(w) = o.variant {
                cx.count(&format!("variant {}::{w}", e.name));
            }
            // members of a later version, or nearly named like one of its own, mean nothing here
            if let Some((at, k, w)) = foreign(sp, sch, &v, &mut g) {
                if sp.validate(sch, &w).is_ok() && sp.conforms_alike(sch, &v, &w) {
                    let case = json!({"type": e.name, "value": w, "foreign": format!("{at}/{k}")});
                    cx.eval("value with a foreign member", &case);
                    match (e.parse)(w.clone()) {
                        Err(x) => cx.fail(&format!("{} rejected for a foreign member", e.name), x, case),
                        Ok(p) => {
                            let mut got = p.wire.clone();
                            if let Some(m) = got.pointer_mut(&at).and_then(|m| m.as_object_mut()) {
                                if m.get(&k) == w.pointer(&at).and_then(|m| m.get(&k)) {
                                    m.remove(&k);
                                }
                            }
                            if got != o.wire && !json_eq(&sp.canon(sch, &got), &b) {
                                cx.fail(&format!("{} altered by a foreign member", e.name), format!("{:?}", diff_of(&o.wire, &got)), case);
                            } else if p.variant != o.variant {
                                cx.fail(&format!("{} read as another member for a foreign member", e.name), format!("{:?} instead of {:?}", p.variant, o.variant), case);
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Members named in another spelling are foreign to every type, and take the place of none.
fn other_spellings(cx: &mut Cx, sp: &Spec, e: &crate::reg::Entry, sch: &Value, seed: u64, i: usize) {
    let mut g = Gen::new(Rng::derive(seed.wrapping_mul(1_000_003) ^ i as u64, &format!("C01 spellings {}", e.name)), [Profile::Maximal, Profile::Dense][i % 2]);
    let v = sp.gen_type(e.name, &mut g);
    let mut ps = vec![];
    places(&v, "", &mut ps);
    ps.retain(|p| p.matches('/').count() <= 3 && v.pointer(p).is_some_and(|x| x.is_object()));
    ps.truncate(24);
    for at in ps {
        let keys: Vec<String> = v.pointer(&at).and_then(|x| x.as_object()).unwrap().keys().filter(|k| sp.all_names().contains(*k)).cloned().collect();
        for k in keys.iter().take(16) {
            let others: Vec<String> = spellings(k).into_iter().filter(|t| !sp.all_names().contains(t)).collect();
            let x = v.pointer(&at).unwrap()[k].clone();
            for gone in [false, true] {
                let mut base = v.clone();
                if gone {
                    base.pointer_mut(&at).unwrap().as_object_mut().unwrap().remove(k);
                    if sp.validate(sch, &base).is_err() {
                        continue;
                    }
                }
                let mut w = base.clone();
                let m = w.pointer_mut(&at).unwrap().as_object_mut().unwrap();
                for t in &others {
                    m.entry(t.clone()).or_insert(x.clone());
                }
                if sp.validate(sch, &base).is_err() || sp.validate(sch, &w).is_err() || !sp.conforms_alike(sch, &base, &w) {
                    continue;
                }
                let Ok(o) = (e.parse)(base.clone()) else { continue };
                let case = json!({"type": e.name, "value": w, "other spellings of": format!("{at}/{k}"), "gone": gone});
                cx.eval("value with members in other spellings", &case);
                match (e.parse)(w) {
                    Err(x) => cx.fail(&format!("{} rejected for a foreign member", e.name), x, case),
                    Ok(p) => {
                        let mut got = p.wire.clone();
                        let mut was = o.wire.clone();
                        for z in [&mut got, &mut was] {
                            if let Some(m) = z.pointer_mut(&at).and_then(|m| m.as_object_mut()) {
                                m.retain(|k, _| !others.contains(k));
                            }
                        }
                        if !json_eq(&sp.canon(sch, &got), &sp.canon(sch, &was)) {
                            cx.fail(&format!("{} altered by a foreign member", e.name), format!("{:?}", diff_of(&was, &got)), case);
                        }
                    }
                }
            }
        }
    }
}

/// Names that are nearly `k`.
fn near(k: &str, r: &mut Rng) -> String {
    let mut snake = String::new();
    for c in k.chars() {
        if c.is_uppercase() {
            snake.push('_');
        }
        snake.extend(c.to_lowercase());
    }
    match r.below(9) {
        0 | 1 | 2 if snake != k => snake,
        3 => format!("{}{}", k.chars().take(1).collect::<String>().to_uppercase(), k.chars().skip(1).collect::<String>()),
        4 => k.to_lowercase(),
        5 => k.to_uppercase(),
        6 => format!("{k}_"),
        7 => k.trim_start_matches('_').to_string(),
        8 => snake.replace('_', "-"),
        _ => format!("{k}s"),
    }
}

/// A value without numbers that some type holds as an i64.
fn plain(g: &mut Gen) -> Value {
    match g.rng.below(6) {
        0 => json!(g.str()),
        1 => json!(true),
        2 => json!({"a": g.str()}),
        3 => json!([g.str(), 1]),
        4 => json!(g.rng.below(1000)),
        _ => json!({}),
    }
}

/// `v` with one more member that its schema does not list, anywhere in it.
fn foreign(sp: &Spec, sch: &Value, v: &Value, g: &mut Gen) -> Option<(String, String, Value)> {
    let own = sp.members(sch, v).0;
    let names: Vec<&String> = sp.all_names().iter().collect();
    let (at, k, x) = if v.is_object() && !own.is_empty() && g.rng.chance(2, 3) {
        let of = g.rng.pick(&own.keys().cloned().collect::<Vec<_>>()).clone();
        let k = near(&of, &mut g.rng);
        let x = if g.rng.chance(2, 3) { sp.gen(&own[&of], g, 3) } else { plain(g) };
        (String::new(), k, x)
    } else {
        let mut ps = vec![];
        places(v, "", &mut ps);
        ps.retain(|p| v.pointer(p).is_some_and(|x| x.is_object()));
        if ps.is_empty() {
            return None;
        }
        let of = g.rng.pick(&names).to_string();
        (g.rng.pick(&ps).clone(), if g.rng.chance(1, 2) { near(&of, &mut g.rng) } else { format!("later{}", g.rng.below(100)) }, plain(g))
    };
    let mut w = v.clone();
    let m = w.pointer_mut(&at)?.as_object_mut()?;
    if sp.all_names().contains(&k) || m.contains_key(&k) {
        return None;
    }
    m.insert(k.clone(), x);
    Some((at, k, w))
}

/// A member that is written but was not read (an empty list included, which may only be left out).
fn invented(read: &Value, written: &Value, path: &str) -> Option<String> {
    match (read, written) {
        (Value::Object(a), Value::Object(b)) => b.iter().find_map(|(k, y)| match a.get(k) {
            None => Some(format!("{path}/{k}")),
            Some(x) => invented(x, y, &format!("{path}/{k}")),
        }),
        (Value::Array(a), Value::Array(b)) => a.iter().zip(b).enumerate().find_map(|(i, (x, y))| invented(x, y, &format!("{path}/{i}"))),
        _ => None,
    }
}

/// The JSON text of `v` with object members in a shuffled order.
pub fn shuffled_text(v: &Value, r: &mut Rng) -> String {
    match v {
        Value::Object(m) => {
            let mut xs: Vec<String> =
                m.iter().map(|(k, x)| format!("{}:{}", Value::String(k.clone()), shuffled_text(x, r))).collect();
            for i in (1..xs.len()).rev() {
                let j = r.below(i + 1);
                xs.swap(i, j);
            }
            format!("{{{}}}", xs.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(|x| shuffled_text(x, r)).collect::<Vec<_>>().join(",")),
        _ => v.to_string(),
    }
}

/// Where a value sits under its schema: (path, required member of its parent).
fn places(v: &Value, path: &str, out: &mut Vec<String>) {
    out.push(path.to_string());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                places(x, &format!("{path}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                places(x, &format!("{path}/{i}"), out);
            }
        }
        _ => {}
    }
}

fn wrong_value(r: &mut Rng, old: &Value) -> Value {
    loop {
        let v = match r.below(16) {
            0 => json!(true),
            1 => json!(7),
            2 => json!("mismatch"),
            3 => json!([]),
            4 => json!({}),
            5 => json!(["x", 1]),
            6 => json!({"x": 1}),
            7 => json!(-1.5),
            8 => json!("2.00"),
            9 | 10 => Value::Null,
            11 => json!(""),
            // what a lenient reader would take for the same thing
            12 => match old {
                Value::Array(a) if a.len() == 1 => a[0].clone(),
                Value::Array(_) => json!(old.to_string()),
                _ => json!([old]),
            },
            _ => match old {
                Value::Number(n) => match r.below(3) {
                    0 => json!(n.to_string()),
                    1 => json!(n.as_f64().unwrap_or(0.0) + 0.5),
                    _ => json!(n.as_i64() != Some(0)),
                },
                Value::Bool(b) => r.pick(&[json!(b.to_string()), json!(*b as u8)]).clone(),
                Value::String(t) => match (t.parse::<i64>(), r.below(3)) {
                    (Ok(n), 0) => json!(n),
                    (_, 1) => json!({"value": t}),
                    _ => json!(t.len()),
                },
                Value::Object(_) => json!(old.to_string()),
                Value::Array(a) => Value::Object(a.iter().enumerate().map(|(i, x)| (i.to_string(), x.clone())).collect()),
                Value::Null => json!("null"),
            },
        };
        // serde reads an array as a struct's members in order, and ranges are not enforced: both lenient by design
        if v == *old || (v.is_array() && old.is_object()) {
            continue;
        }
        return v;
    }
}

/// One structural defect: what was done, and the damaged value.
fn damage(v: &Value, r: &mut Rng) -> Option<(&'static str, String, Value)> {
    let mut ps = vec![];
    places(v, "", &mut ps);
    if r.chance(1, 2) {
        // near the top: a large value has most of its places deep down
        let d = r.below(4);
        ps.retain(|p| p.matches('/').count() <= d);
    }
    let p = r.pick(&ps).clone();
    let mut w = v.clone();
    let x = w.pointer_mut(&p)?;
    match r.below(5) {
        0 => {
            let o = x.as_object_mut()?;
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() {
                return None;
            }
            let k = r.pick(&keys).clone();
            o.remove(&k);
            Some(("member removed", format!("{p}/{k}"), w))
        }
        1 => {
            let s = x.as_str()?;
            let t = near_name(s, r);
            if t == s {
                return None;
            }
            *x = json!(t);
            Some(("string changed", p, w))
        }
        2 => {
            // rename a member: the required one is gone, an unknown one is there
            let o = x.as_object_mut()?;
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() {
                return None;
            }
            let k = r.pick(&keys).clone();
            let t = if r.chance(1, 2) { near(&k, r) } else { near_name(&k, r) };
            if o.contains_key(&t) {
                return None;
            }
            let y = o.remove(&k)?;
            o.insert(t, y);
            Some(("member renamed", format!("{p}/{k}"), w))
        }
        3 => {
            // items out of line with their list
            let a = x.as_array_mut()?;
            let y = match (a.is_empty(), r.below(3)) {
                (true, _) => json!(null),
                (_, 0) => Value::Null,
                (_, 1) => json!([a[0]]),
                _ => wrong_value(r, &a[0].clone()),
            };
            let k = r.below(a.len() + 1);
            a.insert(k, y);
            Some(("item of another kind", p, w))
        }
        _ => {
            let y = wrong_value(r, x);
            *x = y;
            Some(("value of another kind", p, w))
        }
    }
}

/// C03: what does not conform is refused.
pub fn rejects(cx: &mut Cx, sp: &Spec) {
    let n = cx.n(120, 4000);
    let seed = cx.seed;
    for e in turned(vreg::entries()) {
        if !sp.has(e.name) {
            continue;
        }
        cx.count("types observed");
        let sch = sp.schema(e.name);
        // names: every other word a peer might use for one, wherever one stands near the top of a small value
        let mut g = Gen::new(Rng::derive(seed, &format!("C03 names {}", e.name)), PROFILES[0]);
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..12 {
            let v = sp.gen_type(e.name, &mut g);
            let mut ps = vec![];
            places(&v, "", &mut ps);
            ps.retain(|p| p.matches('/').count() <= 1);
            for p in ps {
                let Some(Value::String(old)) = v.pointer(&p) else { continue };
                let mut probe = v.clone();
                *probe.pointer_mut(&p).unwrap() = json!("\u{1}none");
                if sp.validate_shape(sch, &probe).is_ok() || !seen.insert((p.clone(), old.clone())) {
                    continue;
                }
                for t in WORDS.iter().map(|w| w.to_string()).chain(all_spellings(old)) {
                    *probe.pointer_mut(&p).unwrap() = json!(t);
                    if sp.validate_shape(sch, &probe).is_ok() {
                        continue;
                    }
                    let c = json!({"type": e.name, "damage": "another name", "at": p, "value": probe});
                    cx.eval("refused: another name", &c);
                    if let Ok(o) = (e.parse)(probe.clone()) {
                        cx.fail(&format!("{} accepts a non-conforming value: another name", e.name), format!("at {p}: {t:?} for {old:?}; read as {}", clip(&o.text, 300)), c);
                    }
                }
            }
        }
        for i in turned(0..n) {
            let mut g = Gen::new(Rng::derive(seed.wrapping_mul(1_000_003) ^ i as u64, &format!("C03{}", e.name)), PROFILES[i % PROFILES.len()]);
            let v = sp.gen_type(e.name, &mut g);
            let Some((what, path, w)) = damage(&v, &mut g.rng) else {
                continue;
            };
            let Err(why) = sp.validate_shape(sch, &w) else {
                cx.count("damage that still conforms");
                continue;
            };
            let c = json!({"type": e.name, "damage": what, "at": path, "value": w});
            cx.eval(&format!("refused: {what}"), &c);
            for (how, r) in [("value", (e.parse)(w.clone())), ("text", (e.parse_str)(&shuffled_text(&w, &mut g.rng)))] {
                if let Ok(o) = r {
                    cx.fail(&format!("{} accepts a non-conforming {how}: {what}", e.name), format!("at {path}: {why}; read as {}", clip(&o.text, 300)), c.clone());
                }
            }
        }
    }
}

fn pascal(s: &str) -> String {
    s.split(['-', '_', '/', ' '])
        .map(|w| {
            let mut c = w.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        })
        .collect()
}

/// Does the name of a union's member stand for the schema branch?
fn stands_for(variant: &str, name: &Option<String>, branch: &Value) -> bool {
    match name {
        Some(n) => {
            let (v, n) = (variant.to_lowercase(), n.to_lowercase());
            n == v || n == format!("jsonrpc{v}") || n == format!("elicitrequest{v}") || (v == "variant0" && n == "jsonobject")
        }
        None if branch["type"] == json!("array") => ["StringArray", "SamplingMessageContentBlock", "Variant1"].contains(&variant),
        None if branch["type"].is_array() => ["Primitive", "Variant2"].contains(&variant),
        None => false,
    }
}

/// The members of `v` that `branch` declares (an empty list may be left out, so it says nothing).
fn declared(sp: &Spec, branch: &Value, v: &Value) -> std::collections::BTreeSet<String> {
    let (props, _, _) = sp.members(branch, v);
    v.as_object().map(|o| o.iter().filter(|(k, x)| props.contains_key(*k) && **x != json!([])).map(|(k, _)| k.clone()).collect()).unwrap_or_default()
}

/// C04: the member of a union is the one the value names.
pub fn unions(cx: &mut Cx, sp: &Spec) {
    let n = cx.n(40, 1500);
    let seed = cx.seed;
    for e in turned(vreg::entries()) {
        if !e.union || !sp.has(e.name) {
            continue;
        }
        cx.count("unions observed");
        let sch = sp.schema(e.name);
        let bs = sp.branches(sch);
        for i in turned(0..n * bs.len().max(2)) {
            let mut g = Gen::new(Rng::derive(seed.wrapping_mul(1_000_003) ^ i as u64, &format!("C04{}", e.name)), PROFILES[(i / bs.len().max(1)) % PROFILES.len()]);
            let mut v = if bs.is_empty() { sp.gen_type(e.name, &mut g) } else { sp.gen(&bs[i % bs.len()].1, &mut g, 1) };
            // members of another member type, as extra ones
            let hybrid = bs.len() > 1 && i / bs.len() % 2 == 1 && v.is_object();
            if hybrid {
                let w = sp.gen(&bs[g.rng.below(bs.len())].1, &mut g, 1);
                let declared = sp.members(&bs[i % bs.len()].1, &v).0;
                if let (Some(o), Some(w)) = (v.as_object_mut(), w.as_object()) {
                    for (k, x) in w {
                        if !declared.contains_key(k) && !o.contains_key(k) && g.rng.chance(3, 4) {
                            o.insert(k.clone(), x.clone());
                        }
                    }
                }
                if sp.validate(sch, &v).is_ok() {
                    cx.count("with members of another member type");
                }
            }
            // entries of another member type's maps, in its own open maps
            if bs.len() > 1 && i / bs.len() % 4 >= 2 && !hybrid && v.is_object() {
                let b = &bs[i % bs.len()].1;
                let w = sp.gen(&bs[g.rng.below(bs.len())].1, &mut g, 1);
                let mut u = v.clone();
                for (k, x) in w.as_object().into_iter().flatten() {
                    if let (Some(own), Some(more)) = (u.get_mut(k).and_then(|o| o.as_object_mut()), x.as_object()) {
                        for (k, x) in more {
                            own.entry(k.clone()).or_insert(x.clone());
                        }
                    } else if k == "_meta" && !u.as_object().unwrap().contains_key(k) {
                        u[k] = x.clone();
                    }
                }
                if u != v && sp.validate(b, &u).is_ok() {
                    cx.count("with entries of another member type's maps");
                    v = u;
                }
            }
            if sp.validate(sch, &v).is_err() {
                cx.count("generator miss");
                continue;
            }
            let c = json!({"type": e.name, "value": v});
            let got = [(e.parse)(v.clone()), (e.parse_str)(&shuffled_text(&v, &mut g.rng))].map(|r| r.map(|o| o.variant.unwrap_or("?")));
            let w = match &got {
                [Ok(a), Ok(b)] if a == b => *a,
                r => {
                    cx.fail(&format!("{} refused or read two ways", e.name), format!("{r:?}"), c);
                    continue;
                }
            };
            if bs.is_empty() {
                let ok = match &v {
                    Value::String(s) if sch.get("enum").is_some() => pascal(s) == w,
                    Value::String(_) => w == "String",
                    Value::Number(_) => w == "Integer",
                    Value::Bool(_) => w == "Boolean",
                    _ => true,
                };
                cx.check(ok, "scalar or listed value", &format!("{} read as another member", e.name), &c, || w.to_string());
                continue;
            }
            let valid: Vec<&(Option<String>, Value)> = bs.iter().filter(|b| sp.validate(&b.1, &v).is_ok()).collect();
            if hybrid && bs.iter().any(|b| stands_for(w, &b.0, &b.1) && sp.validate_shape(&b.1, &v).is_ok()) {
                // which of several fitting members a value of mixed members is read as is left open
                cx.eval("mixed members", &c);
                continue;
            }
            let Some(chosen) = valid.iter().find(|b| stands_for(w, &b.0, &b.1)) else {
                cx.eval("member", &c);
                cx.fail(&format!("{} read as {w}, which it does not conform to", e.name), format!("conforms to {:?}", valid.iter().map(|b| &b.0).collect::<Vec<_>>()), c);
                continue;
            };
            if valid.len() == 1 {
                cx.eval("conforms to one member", &c);
                continue;
            }
            // several members fit: none may declare strictly more of what is there than the chosen one
            let mine = declared(sp, &chosen.1, &v);
            let better: Vec<_> = valid.iter().filter(|b| { let d = declared(sp, &b.1, &v); d.len() > mine.len() && d.is_superset(&mine) }).map(|b| b.0.clone()).collect();
            cx.check(better.is_empty(), "conforms to several members", &format!("{} read as {w}, though another member declares more of it", e.name), &c, || format!("{better:?}"));
        }
    }
}
