//! C15: elicitation property schemas taken from a plain JSON object.
use super::messages::gen;
use crate::cx::Cx;
use crate::sides::jv;
use crate::spec::*;
use crate::util::*;
use crate::ver::s;
use s::PrimitiveSchemaDefinition as P;
use serde_json::{json, Map, Value};

const OLD: bool = cfg!(feature = "v2025_06_18");

/// 2025-06-18 also takes `{"oneOf": [{"enum": [value], "title"?}, …]}` as an enumeration with names.
fn old_one_of(v: &Map<String, Value>) -> Option<Value> {
    if !OLD || v.get("type").is_some_and(|t| t.is_string()) {
        return None;
    }
    let (mut values, mut names) = (vec![], vec![]);
    for x in v.get("oneOf")?.as_array()? {
        let e = x.get("enum")?.as_array()?.first()?.as_str()?;
        values.push(json!(e));
        names.push(json!(x.get("title").and_then(|t| t.as_str()).unwrap_or(e)));
    }
    let mut o = json!({"type": "string", "enum": values});
    if !names.is_empty() {
        o["enumNames"] = json!(names);
    }
    for k in ["title", "description"] {
        if let Some(t) = v.get(k).and_then(|t| t.as_str()) {
            o[k] = json!(t);
        }
    }
    Some(o)
}

/// Numbers whose JSON form need not survive an f64 or i64 member.
fn hard_number(v: &Value) -> bool {
    match v {
        Value::Number(n) => match n.as_i64() {
            Some(i) => i.unsigned_abs() > 1 << 53,
            // a fraction is exactly the f64 it was read as; a whole number written as one may be written otherwise
            None => n.is_u64() || n.as_f64().is_none_or(|f| f.fract() == 0.0),
        },
        Value::Array(a) => a.iter().any(hard_number),
        Value::Object(o) => o.values().any(hard_number),
        _ => false,
    }
}

/// Some member type takes the property, and the property has none of the members that only another type has.
fn conforms(sp: &Spec, sch: &Value, map: &Map<String, Value>, v: &Value) -> bool {
    let types = leaves(sp, sch);
    let known: std::collections::BTreeSet<String> = types.iter().flat_map(|t| sp.members(sp.schema(t), v).0.keys().cloned().collect::<Vec<_>>()).collect();
    types.iter().any(|t| {
        let (props, _, _) = sp.members(sp.schema(t), v);
        sp.validate(sp.schema(t), v).is_ok() && map.keys().all(|k| props.contains_key(k) || !known.contains(k))
    })
}

fn leaves(sp: &Spec, sch: &Value) -> Vec<String> {
    let mut v = vec![];
    let mut todo: Vec<String> = sp.branches(sch).into_iter().filter_map(|b| b.0).collect();
    while let Some(t) = todo.pop() {
        let b: Vec<String> = sp.branches(sp.schema(&t)).into_iter().filter_map(|b| b.0).collect();
        if b.is_empty() {
            v.push(t);
        } else {
            todo.extend(b);
        }
    }
    v.sort();
    v
}

/// A well-formed list of choices that the result has to keep.
fn choices(k: &str, x: &Value) -> bool {
    let list = x.as_array();
    match k {
        "enum" => list.is_some_and(|a| a.iter().all(|e| e.is_string())),
        "oneOf" => list.is_some_and(|a| a.iter().all(|e| e.get("const").is_some_and(|c| c.is_string()) && e.get("title").is_some_and(|c| c.is_string()))),
        _ => x.is_object(),
    }
}

fn judge(cx: &mut Cx, sp: &Spec, v: &Value, kind: &str) {
    let sch = sp.schema("PrimitiveSchemaDefinition");
    let map = v.as_object().unwrap();
    let case = json!({ "property": v });
    cx.eval(kind, &case);
    let mut shape = String::new();
    let got = match guard(|| P::try_from(map).map(|p| (jv(&p), format!("{p:?}"))).map_err(|e| jv(&e))) {
        Ok(g) => g.map(|(w, d)| {
            shape = d;
            w
        }),
        Err(p) => {
            cx.fail(&format!("{kind}: panic"), p, case);
            return;
        }
    };
    if let Err(e) = &got {
        cx.count("refused");
        if e["code"] != json!(-32700) || e["message"].as_str().unwrap_or("").is_empty() {
            cx.fail(&format!("{kind}: error"), e.to_string(), case.clone());
        }
    } else {
        cx.count("taken");
    }
    if let Some(want) = old_one_of(map) {
        cx.count("titled alternatives");
        if got.as_ref() != Ok(&want) {
            cx.fail(&format!("{kind}: titled alternatives"), format!("{got:?} instead of {want}"), case);
        }
        return;
    }
    if hard_number(v) {
        cx.count("numbers not judged");
        return;
    }
    if conforms(sp, sch, map, v) {
        cx.count("conforming");
        match &got {
            Err(e) => cx.fail(&format!("{kind}: a conforming property is refused"), e.to_string(), case.clone()),
            Ok(w) => {
                let (a, b) = (sp.canon(sch, v), sp.canon(sch, w));
                // members outside the schema are not kept
                let (props, _, _) = sp.members(sch, v);
                let mut a = Value::Object(a.as_object().unwrap().iter().filter(|(k, _)| props.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect());
                if a["items"].get("anyOf").is_some() {
                    a["items"].as_object_mut().unwrap().remove("type");
                }
                if !json_eq(&a, &b) {
                    cx.fail(&format!("{kind}: a conforming property is altered"), format!("{:?}", diff_of(&a, &b)), case.clone());
                }
                let read = serde_json::from_value::<P>(v.clone()).map(|p| (jv(&p), format!("{p:?}"))).map_err(|e| e.to_string());
                match read {
                    Ok((r, d)) if &r == w && d == shape => {}
                    // without names the two kinds of choices are one
                    Ok((r, _)) if &r == w && map.get("enumNames") == Some(&json!([])) => {}
                    Ok((r, _)) if &r == w => cx.fail(&format!("{kind}: another member type than reading the JSON gives"), shape.clone(), case.clone()),
                    r => cx.fail(&format!("{kind}: differs from reading the JSON"), format!("{r:?} but {w}"), case.clone()),
                }
            }
        }
    }
    if let Ok(w) = &got {
        if let Err(x) = sp.validate(sch, w) {
            cx.fail(&format!("{kind}: the result does not conform"), x, case.clone());
        }
        for (k, x) in w.as_object().unwrap() {
            // serde reads an array as an object member by member (see C03), so nested choices are compared when the property conforms
            let nested = k == "items" || k == "oneOf";
            if !map.get(k).is_some_and(|y| nested || json_eq(x, y)) {
                cx.fail(&format!("{kind}: the result has a {k} the property has not"), format!("{x}"), case.clone());
            }
        }
        let t = map.get("type").and_then(|t| t.as_str());
        if t.is_some_and(|t| w["type"] != json!(t)) || t.is_none() {
            cx.fail(&format!("{kind}: type"), format!("{w}"), case.clone());
        }
        for (k, ty) in [("enum", "string"), ("oneOf", "string"), ("items", "array")] {
            if (k == "enum" || !OLD) && t == Some(ty) && map.get(k).is_some_and(|x| choices(k, x)) && !w.as_object().unwrap().contains_key(k) {
                let both = map.contains_key("enum") && map.contains_key("oneOf");
                if !both {
                    cx.fail(&format!("{kind}: the choices in {k} are lost"), format!("{w}"), case.clone());
                }
            }
        }
    }
    // what can be none of them
    let types: &[&str] = if OLD { &["string", "number", "integer", "boolean"] } else { &["string", "number", "integer", "boolean", "array"] };
    if !map.get("type").and_then(|t| t.as_str()).is_some_and(|t| types.contains(&t)) {
        cx.count("no supported type");
        if let Ok(w) = got {
            cx.fail(&format!("{kind}: taken without a supported type"), w.to_string(), case);
        }
    }
}

pub fn properties(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let sch = sp.schema("PrimitiveSchemaDefinition").clone();
    let members = leaves(sp, &sch);
    cx.add("member types", members.len() as u64);
    for i in turned(0..cx.n(250, 30000)) {
        let mut g = gen(seed, i, "C15");
        for ty in &members {
            let v = sp.gen_type(ty, &mut g);
            judge(cx, sp, &v, &format!("a {ty}"));
            // with members of another type, or of none
            let mut w = v.clone();
            for _ in 0..1 + g.rng.below(2) {
                let other = g.rng.pick(&members).clone();
                let o = sp.gen_type(&other, &mut g);
                let ks: Vec<String> = o.as_object().unwrap().keys().filter(|k| *k != "type").cloned().collect();
                if ks.is_empty() {
                    continue;
                }
                let k = g.rng.pick(&ks).clone();
                let at = if g.rng.chance(1, 8) { near_name(&k, &mut g.rng) } else { k.clone() };
                if w.get(&at).is_none() {
                    w[at] = o[&k].clone();
                }
            }
            judge(cx, sp, &w, &format!("a {ty} with other members"));
            // one member off
            let mut w = v.clone();
            let o = w.as_object_mut().unwrap();
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = if g.rng.chance(1, 3) { "type".to_string() } else { g.rng.pick(&keys).clone() };
            match g.rng.below(3) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let x = g.any(2);
                    o.insert(k, x);
                }
                _ => {
                    let t = *g.rng.pick(&["object", "null", "array", "String", "", "strings", "number ", "integer", "boolean", "string", "number", "enum", "any"]);
                    o.insert("type".into(), json!(t));
                }
            }
            judge(cx, sp, &w, &format!("a changed {ty}"));
        }
        // lists of choices, well- and malformed
        let mut o = Map::new();
        let choice = |g: &mut Gen| match g.rng.below(6) {
            0 => json!({"enum": [g.str()], "title": g.str()}),
            1 => json!({"enum": [g.str()]}),
            2 => json!({"const": g.str(), "title": g.str()}),
            3 => json!({"enum": [g.any(0)], "title": g.any(0)}),
            4 => json!({"enum": g.any(1)}),
            _ => g.any(2),
        };
        let well = g.rng.chance(1, 2);
        let list: Vec<Value> = (0..g.rng.below(4))
            .map(|_| if well { if g.rng.chance(1, 2) { json!({"enum": [g.str()], "title": g.str()}) } else { json!({"enum": [g.str(), g.str()]}) } } else { choice(&mut g) })
            .collect();
        o.insert("oneOf".into(), if g.rng.chance(1, 12) { g.any(1) } else { Value::Array(list) });
        for k in ["title", "description"] {
            if g.rng.chance(1, 2) {
                let x = g.str();
                o.insert(k.into(), json!(x));
            }
        }
        if !OLD && g.rng.chance(1, 2) {
            o.insert("type".into(), json!("string"));
        }
        judge(cx, sp, &Value::Object(o), "a list of choices");
        // arrays of choices
        let mut o = Map::new();
        o.insert("type".into(), json!("array"));
        if g.rng.chance(5, 6) {
            let items = match g.rng.below(6) {
                5 => {
                    // titled choices that also say, as they may, what the values are
                    let n = g.rng.below(3);
                    json!({"anyOf": (0..n).map(|_| json!({"const": g.str(), "title": g.str()})).collect::<Vec<_>>(), "type": "string"})
                }
                0 => json!({"anyOf": [{"const": g.str(), "title": g.str()}]}),
                1 => json!({"enum": [g.str(), g.str()], "type": "string"}),
                2 => json!({"anyOf": [g.any(1)]}),
                3 => json!({ "enum": g.any(1) }),
                _ => g.any(2),
            };
            o.insert("items".into(), items);
        }
        judge(cx, sp, &Value::Object(o), "an array of choices");
        // anything at all
        let mut o = Map::new();
        for _ in 0..g.rng.below(5) {
            let k = if g.rng.chance(3, 4) {
                g.rng.pick(&["type", "enum", "enumNames", "oneOf", "items", "format", "default", "maxLength", "minimum", "title", "description"]).to_string()
            } else {
                g.key()
            };
            let x = if k == "type" && g.rng.chance(2, 3) { json!(*g.rng.pick(&["string", "number", "integer", "boolean", "array", "object"])) } else { g.any(2) };
            o.insert(k, x);
        }
        judge(cx, sp, &Value::Object(o), "any object");
        // formats
        let f = if g.rng.chance(1, 2) { g.rng.pick(&["date", "date-time", "email", "uri", "Date", "datetime", " uri", "uri ", "url", "e-mail", "time", ""]).to_string() } else { g.str() };
        let listed = ["date", "date-time", "email", "uri"].contains(&f.as_str());
        let case = json!({ "format": f });
        cx.eval("format", &case);
        match f.parse::<s::StringSchemaFormat>() {
            Ok(x) if listed && jv(&x) == json!(f) && x.to_string() == f => {}
            Err(e) if !listed && e.to_string().contains(&f) => {}
            r => cx.fail("StringSchemaFormat from text", format!("{r:?}"), case),
        }
    }
}
