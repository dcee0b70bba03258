//! C14: tool call outcomes and content helpers.
use super::messages::gen;
use crate::cx::Cx;
use crate::sides::jv;
use crate::spec::*;
use crate::util::*;
use crate::ver::{s, u};
use serde::de::DeserializeOwned;
use serde_json::{json, Map, Value};
use std::error::Error;
use u::CallToolError;

/// A caller's own error, with or without a cause.
#[derive(Debug)]
struct Mine(String, Option<Box<Mine>>);
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // what it says when asked for more detail is not its message
        if f.alternate() {
            return write!(f, "{} (in detail)", self.0);
        }
        write!(f, "{}", self.0)
    }
}
impl Error for Mine {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.1.as_deref().map(|e| e as _)
    }
}

fn de<T: DeserializeOwned>(v: &Value) -> Option<T> {
    serde_json::from_value(v.clone()).ok()
}

/// The result every error becomes.
fn error_result(text: &str) -> Value {
    let mut v = json!({"content": [{"type": "text", "text": text}], "isError": true});
    if cfg!(feature = "gc") {
        v["resultType"] = json!("complete");
    }
    v
}
fn plain_result(content: Vec<Value>) -> Value {
    let mut v = json!({ "content": content });
    if cfg!(feature = "gc") {
        v["resultType"] = json!("complete");
    }
    v
}

fn reported(cx: &mut Cx, sp: &Spec, what: &str, make: &dyn Fn() -> CallToolError, text: &str, causes: &[&str]) {
    let case = json!({"error": what, "text": text});
    cx.eval("tool error", &case);
    let e = make();
    if e.to_string() != text {
        cx.fail(&format!("{what}: text"), format!("{:?} instead of {text:?}", e.to_string()), case.clone());
    }
    let (mut found, mut at) = (vec![], Error::source(&e));
    while let Some(x) = at {
        found.push(x.to_string());
        at = x.source();
    }
    if found != causes {
        cx.fail(&format!("{what}: cause"), format!("{found:?} instead of {causes:?}"), case.clone());
    }
    let rpc = jv(&s::RpcError::from(make()));
    if rpc != json!({"code": -32603, "message": text}) {
        cx.fail(&format!("{what}: as a JSON-RPC error"), rpc.to_string(), case.clone());
    }
    for (how, r) in [("From", s::CallToolResult::from(make())), ("with_error", s::CallToolResult::with_error(make()))] {
        let w = jv(&r);
        if w != error_result(text) {
            cx.fail(&format!("{what}: as a tool result by {how}"), w.to_string(), case.clone());
        }
        if let Err(x) = sp.validate(sp.schema("CallToolResult"), &w) {
            cx.fail(&format!("{what}: tool result by {how} does not conform"), x, case.clone());
        }
    }
}

macro_rules! accessors {
    ($cx:ident, $B:ident, $v:ident, $b:ident, $case:ident, $(($f:ident, $t:literal),)*) => {
        for (name, ty, got) in [$((stringify!($f), $t, $b.$f().map(|x| jv(x)).map_err(|e| jv(&e))),)*] {
            let mine = $v["type"] == json!(ty);
            match got {
                Ok(w) if mine && w == jv(&$b) => {}
                Err(e) if !mine && e["code"] == json!(-32603) && e["message"].as_str().unwrap_or("").contains($v["type"].as_str().unwrap_or("?")) => {}
                other => $cx.fail(&format!("{}::{name} on {}", stringify!($B), $v["type"]), format!("{other:?}"), $case.clone()),
            }
        }
    };
}

/// strip members that are not in `keep`
fn only(v: &Value, keep: &[&str]) -> Value {
    Value::Object(v.as_object().unwrap().iter().filter(|(k, _)| keep.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect())
}

pub fn tools(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    for i in turned(0..cx.n(400, 30000)) {
        let mut g = gen(seed, i, "C14");
        // errors
        let (a, b) = (g.str(), g.str());
        reported(cx, sp, "unknown_tool", &|| CallToolError::unknown_tool(a.clone()), &format!("Unknown tool: {a}"), &[]);
        reported(cx, sp, "from_message", &|| CallToolError::from_message(b.clone()), &b, &[]);
        reported(cx, sp, "new", &|| CallToolError::new(Mine(a.clone(), None)), &a, &[]);
        reported(cx, sp, "new with a cause", &|| CallToolError::new(Mine(a.clone(), Some(Box::new(Mine(b.clone(), None))))), &a, &[&b]);
        let c = g.str();
        let far = || CallToolError::new(Mine(a.clone(), Some(Box::new(Mine(b.clone(), Some(Box::new(Mine(c.clone(), Some(Box::new(Mine(a.clone(), None)))))))))));
        reported(cx, sp, "new with causes of causes", &far, &a, &[&b, &c, &a]);
        // an error of a tool that called another
        reported(cx, sp, "new of a tool error", &|| CallToolError::new(far()), &a, &[&b, &c, &a]);
        #[cfg(not(feature = "ga"))]
        reported(cx, sp, "unsupported_task_augmented_tool_call", &CallToolError::unsupported_task_augmented_tool_call, "Task-augmented tool calls are not supported.", &[]);
        let name = match i % 5 {
            0 => " \t\n".repeat(g.rng.below(3)),
            1 => format!("  {a}\u{a0}\n"),
            // not white space, so part of the name
            3 if i % 2 == 0 => format!("{}{a}{}", g.rng.pick(&["'", "\"", "\u{200b}", "\u{0}", "_", "/", "\u{feff}"]), g.rng.pick(&["'", "\"", "\u{200b}", "\u{0}", "_", "/", "\u{feff}", "."])),
            2 => format!("{a} {b}"),
            _ => a.clone(),
        };
        let detail = (i % 3 != 0).then(|| b.clone());
        let text = match name.trim() {
            "" => "Invalid arguments: tool name cannot be empty".to_string(),
            t => format!("Invalid arguments for tool '{t}': {}", detail.as_deref().unwrap_or("no additional details provided")),
        };
        reported(cx, sp, "invalid_arguments", &|| CallToolError::invalid_arguments(&name, detail.clone()), &text, &[]);
        // text from anything that is text
        let t: s::TextContent = a.as_str().into();
        let t2: s::TextContent = a.clone().into();
        let want = json!({"type": "text", "text": a});
        cx.check(jv(&t) == want && jv(&t2) == want, "text content from text", "TextContent from text", &json!(a), || jv(&t).to_string());
        let call = sp.gen_type("CallToolRequest", &mut g);
        if let Some(r) = de::<s::CallToolRequest>(&call) {
            cx.check(Some(r.tool_name()) == call["params"]["name"].as_str(), "tool name", "CallToolRequest::tool_name", &call, || r.tool_name().to_string());
        }
        content(cx, sp, &mut g);
        chain(cx, sp, &mut g);
        #[cfg(not(feature = "ga"))]
        resources(cx, &mut g, sp);
    }
}

#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
fn content(cx: &mut Cx, sp: &Spec, g: &mut Gen) {
    use s::CallToolResultContentItem as B;
    let types = if cfg!(feature = "v2024_11_05") { vec!["TextContent", "ImageContent", "EmbeddedResource"] } else { vec!["TextContent", "ImageContent", "AudioContent", "EmbeddedResource"] };
    for ty in types {
        let v = sp.gen_type(ty, g);
        let case = json!({ "content": v });
        let Some(b) = de::<B>(&v) else {
            cx.count("source not read");
            continue;
        };
        cx.eval("content", &case);
        let w = jv(&b);
        if Some(b.content_type()) != v["type"].as_str() {
            cx.fail(&format!("content_type of {ty}"), b.content_type().into(), case.clone());
        }
        #[cfg(feature = "v2024_11_05")]
        accessors!(cx, CallToolResultContentItem, v, b, case, (as_text_content, "text"), (as_image_content, "image"), (as_embedded_resource, "resource"),);
        #[cfg(feature = "v2025_03_26")]
        accessors!(cx, CallToolResultContentItem, v, b, case, (as_text_content, "text"), (as_image_content, "image"), (as_audio_content, "audio"), (as_embedded_resource, "resource"),);
        // rebuilt from its parts
        let (item, result) = match b {
            B::TextContent(x) => (B::text_content(x.text.clone(), x.annotations.clone()), s::CallToolResult::text_content(x.text, x.annotations)),
            B::ImageContent(x) => {
                (B::image_content(x.data.clone(), x.mime_type.clone(), x.annotations.clone()), s::CallToolResult::image_content(x.data, x.mime_type, x.annotations))
            }
            #[cfg(feature = "v2025_03_26")]
            B::AudioContent(x) => {
                (B::audio_content(x.data.clone(), x.mime_type.clone(), x.annotations.clone()), s::CallToolResult::audio_content(x.data, x.mime_type, x.annotations))
            }
            B::EmbeddedResource(x) => (B::embedded_resource(x.resource.clone(), x.annotations.clone()), s::CallToolResult::embedded_resource(x.resource, x.annotations)),
        };
        let m = item_keys(&w);
        if jv(&item) != m {
            cx.fail(&format!("{ty} helper"), format!("{} instead of {m}", jv(&item)), case.clone());
        }
        with_meta(cx, sp, g, &format!("CallToolResult helper for {ty}"), result, plain_result(vec![m]), case);
    }
}
#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
fn item_keys(w: &Value) -> Value {
    only(w, &["type", "text", "data", "mimeType", "annotations", "resource"])
}

fn meta_value(sp: &Spec, g: &mut Gen) -> Map<String, Value> {
    let r = sp.gen_type("CallToolResult", g);
    r["_meta"].as_object().cloned().unwrap_or_else(|| {
        let mut m = Map::new();
        let k = g.key();
        let v = g.any(1);
        m.insert(k, v);
        m
    })
}
fn with_meta(cx: &mut Cx, sp: &Spec, g: &mut Gen, what: &str, r: s::CallToolResult, want: Value, case: Value) {
    let w = jv(&r);
    if w != want {
        cx.fail(what, format!("{w} instead of {want}"), case.clone());
    }
    if let Err(x) = sp.validate(sp.schema("CallToolResult"), &w) {
        cx.fail(&format!("{what} does not conform"), x, case.clone());
    }
    let m = meta_value(sp, g);
    #[cfg(feature = "gc")]
    let Some(m): Option<s::ResultMetaObject> = de(&Value::Object(m)) else { return };
    let mw = jv(&m);
    let w = jv(&r.clone().with_meta(Some(m)));
    let mut want = want;
    let bare = want.clone();
    want["_meta"] = mw;
    if w != want {
        cx.fail("CallToolResult::with_meta", format!("{w} instead of {want}"), case.clone());
    }
    let w = jv(&r.with_meta(None));
    if w != bare {
        cx.fail("CallToolResult::with_meta(None)", format!("{w} instead of {bare}"), case);
    }
}

#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn content(cx: &mut Cx, sp: &Spec, g: &mut Gen) {
    use s::{CallToolResult as R, ContentBlock as B};
    let mut all: Vec<(B, Value)> = vec![];
    for ty in ["TextContent", "ImageContent", "AudioContent", "ResourceLink", "EmbeddedResource"] {
        let v = sp.gen_type(ty, g);
        let case = json!({ "content": v });
        let Some(b) = de::<B>(&v) else {
            cx.count("source not read");
            continue;
        };
        cx.eval("content", &case);
        if Some(b.content_type()) != v["type"].as_str() {
            cx.fail(&format!("content_type of {ty}"), b.content_type().into(), case.clone());
        }
        accessors!(
            cx, ContentBlock, v, b, case, (as_text_content, "text"), (as_image_content, "image"), (as_audio_content, "audio"), (as_resource_link, "resource_link"),
            (as_embedded_resource, "resource"),
        );
        let w = jv(&b);
        let (item, result, want) = match b.clone() {
            B::TextContent(x) => (B::text_content(x.text.clone()), R::text_content(vec![x.clone(), x]), only(&w, &["type", "text"])),
            B::ImageContent(x) => (B::image_content(x.data.clone(), x.mime_type.clone()), R::image_content(vec![x.clone(), x]), only(&w, &["type", "data", "mimeType"])),
            B::AudioContent(x) => (B::audio_content(x.data.clone(), x.mime_type.clone()), R::audio_content(vec![x.clone(), x]), only(&w, &["type", "data", "mimeType"])),
            B::ResourceLink(x) => (B::resource_link(x.clone()), R::resource_link(vec![x.clone(), x]), w.clone()),
            B::EmbeddedResource(x) => (B::embedded_resource(x.resource.clone()), R::embedded_resource(vec![x.clone(), x]), only(&w, &["type", "resource"])),
        };
        if jv(&item) != want {
            cx.fail(&format!("ContentBlock helper for {ty}"), format!("{} instead of {want}", jv(&item)), case.clone());
        }
        with_meta(cx, sp, g, &format!("CallToolResult helper for {ty}"), result, plain_result(vec![w.clone(), w.clone()]), case);
        all.push((b, w));
    }
    // any sequence of blocks, in order
    let mut picked: Vec<(B, Value)> = vec![];
    for _ in 0..g.rng.below(6) {
        if !all.is_empty() {
            picked.push(g.rng.pick(&all).clone());
        }
    }
    let k = if picked.is_empty() { 0 } else { g.rng.below(picked.len() + 1) };
    let case = json!({"blocks": picked.iter().map(|p| p.1.clone()).collect::<Vec<_>>(), "added one by one after": k});
    cx.eval("content sequence", &case);
    let mut r = R::from_content(picked[..k].iter().map(|p| p.0.clone()).collect());
    for p in &picked[k..] {
        r = r.add_content(p.0.clone());
    }
    let mut want = plain_result(picked.iter().map(|p| p.1.clone()).collect());
    with_meta(cx, sp, g, "CallToolResult::from_content and add_content", r.clone(), want.clone(), case.clone());
    let mut sc = Map::new();
    for _ in 0..g.rng.below(4) {
        let (k, v) = (g.key(), g.any(2));
        sc.insert(k, v);
    }
    want["structuredContent"] = Value::Object(sc.clone());
    let w = jv(&r.with_structured_content(sc));
    if w != want {
        cx.fail("CallToolResult::with_structured_content", format!("{w} instead of {want}"), case);
    }
}

#[cfg(not(feature = "ga"))]
fn resources(cx: &mut Cx, g: &mut Gen, sp: &Spec) {
    let (a, b, c, d) = (g.str(), g.str(), g.str(), g.str());
    let mv = sp.gen_type("TextResourceContents", g)["_meta"].as_object().cloned().unwrap_or_default();
    #[cfg(feature = "gb")]
    let (m1, m2) = (mv.clone(), mv.clone());
    #[cfg(feature = "gc")]
    let (Some(m1), Some(m2)) = (de::<s::MetaObject>(&json!(mv)), de::<s::MetaObject>(&json!(mv))) else { return };
    let case = json!([a, b, c, d, mv]);
    cx.eval("resource contents", &case);
    let rows = [
        ("TextResourceContents::new", jv(&s::TextResourceContents::new(a.clone(), b.clone())), json!({"text": a, "uri": b})),
        ("BlobResourceContents::new", jv(&s::BlobResourceContents::new(a.clone(), b.clone())), json!({"blob": a, "uri": b})),
        (
            "TextResourceContents builders",
            jv(&s::TextResourceContents::new(a.as_str(), b.as_str()).with_uri(c.as_str()).with_mime_type(d.clone()).with_meta(m1)),
            json!({"text": a, "uri": c, "mimeType": d, "_meta": mv}),
        ),
        (
            "BlobResourceContents builders",
            jv(&s::BlobResourceContents::new(a.as_str(), b.as_str()).with_meta(m2).with_mime_type(d.as_str()).with_uri(c.clone())),
            json!({"blob": a, "uri": c, "mimeType": d, "_meta": mv}),
        ),
    ];
    for (name, got, want) in rows {
        if got != want {
            cx.fail(name, format!("{got} instead of {want}"), case.clone());
        }
    }
    // a history of settings on contents that may have come from a peer: the last one of each counts
    macro_rules! history {
        ($T:ident, $part:literal) => {{
            let v = sp.gen_type(stringify!($T), g);
            let made = if g.rng.chance(1, 3) { None } else { de::<s::$T>(&v) };
            let (mut x, mut want) = match made {
                Some(x) => (x.clone(), jv(&x)),
                None => (s::$T::new(a.clone(), b.clone()), json!({$part: a, "uri": b})),
            };
            let mut steps = vec![want.clone()];
            for _ in 0..g.rng.below(6) {
                let t = g.str();
                match g.rng.below(3) {
                    0 => {
                        x = x.with_uri(t.as_str());
                        want["uri"] = json!(t);
                    }
                    1 => {
                        x = x.with_mime_type(t.as_str());
                        want["mimeType"] = json!(t);
                    }
                    _ => {
                        let mv = sp.gen_type(stringify!($T), g)["_meta"].as_object().cloned().unwrap_or_default();
                        #[cfg(feature = "gb")]
                        let m = mv;
                        #[cfg(feature = "gc")]
                        let Some(m) = de::<s::MetaObject>(&json!(mv)) else { continue };
                        want["_meta"] = jv(&m);
                        x = x.with_meta(m);
                    }
                }
                steps.push(want.clone());
                let case = json!(steps);
                cx.eval("resource contents", &case);
                if jv(&x) != want {
                    cx.fail(concat!(stringify!($T), " after a history of settings"), format!("{} instead of {want}", jv(&x)), case);
                    break;
                }
            }
        }};
    }
    history!(TextResourceContents, "text");
    history!(BlobResourceContents, "blob");
}

/// A result that already has contents, taken through any sequence of helpers: each changes its own member only.
fn chain(cx: &mut Cx, sp: &Spec, g: &mut Gen) {
    let v = sp.gen_type("CallToolResult", g);
    let Some(mut r) = de::<s::CallToolResult>(&v) else {
        cx.count("source not read");
        return;
    };
    let mut want = jv(&r);
    let mut steps = vec![];
    for _ in 0..1 + g.rng.below(4) {
        match g.rng.below(4) {
            0 => {
                steps.push("without metadata");
                r = r.with_meta(None);
                want.as_object_mut().unwrap().remove("_meta");
            }
            1 => {
                let m = meta_value(sp, g);
                #[cfg(feature = "gc")]
                let Some(m): Option<s::ResultMetaObject> = de(&Value::Object(m)) else { continue };
                steps.push("metadata");
                want["_meta"] = jv(&m);
                r = r.with_meta(Some(m));
            }
            #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
            2 => {
                let mut sc = Map::new();
                for _ in 0..g.rng.below(4) {
                    let (k, v) = (g.key(), g.any(2));
                    sc.insert(k, v);
                }
                steps.push("structured content");
                want["structuredContent"] = Value::Object(sc.clone());
                r = r.with_structured_content(sc);
            }
            #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
            _ => {
                let Some(b) = de::<s::ContentBlock>(&sp.gen_type("ContentBlock", g)) else { continue };
                steps.push("content");
                want["content"].as_array_mut().unwrap().push(jv(&b));
                r = r.add_content(b);
            }
            #[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
            _ => {}
        }
    }
    let case = json!({"result": v, "steps": steps});
    cx.eval("chain of helpers", &case);
    let w = jv(&r);
    if w != want {
        cx.fail("a chain of result helpers", format!("{:?}", diff_of(&want, &w)), case);
    }
}
