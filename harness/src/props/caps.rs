//! C09: a peer's capabilities decide which requests and notifications it is said to handle.
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::jv;
use crate::spec::*;
use crate::util::{all_spellings, near_name, turned};
use crate::ver::{self, s, u};
use serde_json::{json, Value};

/// What a request needs, by its wire form: (capability, word the refusal must name).
/// The flag tells whether the rule is part of this property in this version.
fn needs(group: char, side: Side, w: &Value) -> Vec<(&'static str, &'static str)> {
    let p = &w["params"];
    let mut v = vec![];
    let b = group == 'B';
    match (side, w["method"].as_str().unwrap_or("")) {
        (Side::Client, "logging/setLevel") if b => v.push(("/logging", "logging")),
        (Side::Client, "prompts/get" | "prompts/list") => v.push(("/prompts", "prompts")),
        (Side::Client, "resources/list" | "resources/templates/list" | "resources/read") => v.push(("/resources", "resources")),
        (Side::Client, "resources/subscribe" | "resources/unsubscribe") if b => v.push(("/resources", "resources")),
        (Side::Client, "tools/list") => v.push(("/tools", "tools")),
        (Side::Client, "tools/call") => {
            v.push(("/tools", "tools"));
            if b && p.get("task").is_some() {
                v.push(("/tasks/requests/tools/call", "task-augmented"));
            }
        }
        (Side::Client, "completion/complete") => v.push(("/completions", "completions")),
        (Side::Server, "sampling/createMessage") => {
            v.push(("/sampling", "sampling"));
            if b {
                if p.get("includeContext").is_some() {
                    v.push(("/sampling/context", "context"));
                }
                if p.get("toolChoice").is_some() || p["tools"].as_array().is_some_and(|t| !t.is_empty()) {
                    v.push(("/sampling/tools", "tool"));
                }
                if p.get("task").is_some() {
                    v.push(("/tasks/requests/sampling/createMessage", "sampling task"));
                }
            }
        }
        (Side::Server, "roots/list") => v.push(("/roots", "roots")),
        (Side::Server, "elicitation/create") => {
            v.push(("/elicitation", "elicitation"));
            if b && p.get("task").is_some() {
                v.push(("/tasks/requests/elicitation/create", "elicitation task"));
            }
        }
        (_, "tasks/get" | "tasks/result") if b => v.push(("/tasks", "task")),
        (_, "tasks/list") if b => v.push(("/tasks/list", "task")),
        (_, "tasks/cancel") if b => v.push(("/tasks/cancel", "task")),
        _ => {}
    }
    v
}
/// Requests whose handling this property leaves open in this version.
fn open(group: char, side: Side, w: &Value) -> bool {
    let p = &w["params"];
    match (group, side, w["method"].as_str().unwrap_or("")) {
        // an explicit "none" asks for nothing
        ('B', Side::Server, "sampling/createMessage") => p["includeContext"] == json!("none"),
        // which sub-capabilities sampling needs is not decided by this version's check
        ('C', Side::Server, "sampling/createMessage") => p.get("includeContext").is_some() || p.get("toolChoice").is_some() || p.get("tools").is_some(),
        _ => false,
    }
}
fn notification_needs(group: char, side: Side, method: &str) -> Option<(&'static str, &'static str)> {
    match (side, method) {
        (Side::Server, "notifications/message") => Some(("/logging", "logging")),
        (Side::Server, "notifications/resources/updated" | "notifications/resources/list_changed") => Some(("/resources", "resources")),
        (Side::Server, "notifications/tools/list_changed") => Some(("/tools", "tool")),
        (Side::Server, "notifications/prompts/list_changed") => Some(("/prompts", "prompt")),
        (Side::Client, "notifications/roots/list_changed") if group == 'B' => Some(("/roots", "roots")),
        _ => None,
    }
}

pub const FLAGS: &[&str] = &[
    "/logging", "/prompts", "/resources", "/tools", "/completions", "/experimental", "/extensions", "/tasks", "/tasks/list", "/tasks/cancel", "/tasks/requests", "/tasks/requests/tools",
    "/tasks/requests/tools/call", "/tasks/requests/sampling", "/tasks/requests/sampling/createMessage", "/tasks/requests/elicitation", "/tasks/requests/elicitation/create", "/sampling",
    "/sampling/context", "/sampling/tools", "/roots", "/elicitation", "/elicitation/url", "/elicitation/form",
];
/// Add (an empty) or remove the member at `path`.
pub fn flag(v: &mut Value, path: &str, on: bool) {
    let mut at = v;
    let parts: Vec<&str> = path.split('/').skip(1).collect();
    for (i, p) in parts.iter().enumerate() {
        let o = at.as_object_mut().unwrap();
        if i + 1 == parts.len() && !on {
            o.remove(*p);
            return;
        }
        if !on && !o.contains_key(*p) {
            return;
        }
        let e = o.entry(p.to_string()).or_insert_with(|| json!({}));
        if !e.is_object() {
            *e = json!({});
        }
        at = e;
    }
}

fn holds(sp: &Spec, side: Side, caps: &Value) -> bool {
    sp.valid_type(if side == Side::Client { "ServerCapabilities" } else { "ClientCapabilities" }, caps)
}

pub type Verdict = Result<(), Value>;
/// (answer for the request, is the request task-augmented according to the API)
pub fn ask(side: Side, caps: &Value, w: &Value) -> Result<Verdict, String> {
    match side {
        Side::Client => {
            let c: s::ServerCapabilities = serde_json::from_value(caps.clone()).map_err(|e| e.to_string())?;
            let r: u::ClientJsonrpcRequest = serde_json::from_value(w.clone()).map_err(|e| e.to_string())?;
            Ok(c.can_handle_request(&r).map_err(|e| jv(&e)))
        }
        Side::Server => {
            let c: s::ClientCapabilities = serde_json::from_value(caps.clone()).map_err(|e| e.to_string())?;
            let r: u::ServerJsonrpcRequest = serde_json::from_value(w.clone()).map_err(|e| e.to_string())?;
            Ok(c.can_handle_request(&r).map_err(|e| jv(&e)))
        }
    }
}
pub fn ask_notification(side: Side, caps: &Value, method: &str) -> Result<Verdict, String> {
    Ok(match side {
        Side::Server => serde_json::from_value::<s::ServerCapabilities>(caps.clone()).map_err(|e| e.to_string())?.can_accept_notification(method),
        Side::Client => serde_json::from_value::<s::ClientCapabilities>(caps.clone()).map_err(|e| e.to_string())?.can_accept_notification(method),
    }
    .map_err(|e| jv(&e)))
}

fn judge(cx: &mut Cx, what: &str, got: Verdict, missing: &[(&str, &str)], entity: &str, method: &str, case: Value) {
    cx.eval(if missing.is_empty() { "covered" } else { "not covered" }, &case);
    cx.count(&format!("{what} {}", if missing.is_empty() { "covered" } else { "not covered" }));
    match got {
        Ok(()) if missing.is_empty() => {}
        Ok(()) => cx.fail(&format!("{what} is said to be handled without {}", missing[0].0), String::new(), case),
        Err(e) if missing.is_empty() => cx.fail(&format!("{what} is refused though covered"), e.to_string(), case),
        Err(e) => {
            let t = e["message"].as_str().unwrap_or("").to_lowercase();
            let named = missing.iter().any(|(_, word)| t.contains(word));
            if e["code"] != json!(-32603) || !t.starts_with(&entity.to_lowercase()) || !t.contains(&method.to_lowercase()) || !named {
                cx.fail(&format!("{what} refusal does not say what is missing"), e.to_string(), case);
            }
        }
    }
}

pub fn gating(cx: &mut Cx, sp: &Spec) {
    let group = ver::group();
    let m = Model::new(sp, group);
    let seed = cx.seed;
    let n = cx.n(40, 4000);
    for side in turned(SIDES) {
        let (caps_ty, peer) = if side == Side::Client { ("ServerCapabilities", "Server") } else { ("ClientCapabilities", "Client") };
        let reqs = m.requests(side);
        for (k, ty) in reqs.iter().map(|s| s.as_str()).chain(["Custom"]).enumerate() {
            // requests with optional demands have more to tell apart
            let many = group == 'B' && ["CallToolRequest", "CreateMessageRequest", "ElicitRequest"].contains(&ty);
            for i in turned(0..if many { n * 8 } else { n }) {
                let mut g = gen(seed, i, &format!("C09{}{ty}", side.name()));
                let mut w = m.message(&mut g, side, Kind::Request, k).wire;
                // task augmentation and the optional sampling members, on and off
                let varied = group == 'B' && ["tools/call", "sampling/createMessage", "elicitation/create"].contains(&w["method"].as_str().unwrap_or(""));
                if varied {
                    if let Some(p) = w["params"].as_object_mut() {
                        if g.rng.chance(1, 2) {
                            p.insert("task".into(), json!({}));
                        } else {
                            p.remove("task");
                        }
                        for k in ["includeContext", "toolChoice", "tools"] {
                            if g.rng.chance(1, 2) {
                                p.remove(k);
                            }
                        }
                    }
                }
                let need = needs(group, side, &w);
                let mut caps = sp.gen_type(caps_ty, &mut g);
                match i % 4 {
                    // everything
                    0 => FLAGS.iter().for_each(|f| flag(&mut caps, f, true)),
                    // everything but one, preferably one that matters
                    1 => {
                        FLAGS.iter().for_each(|f| flag(&mut caps, f, true));
                        let f = if need.is_empty() || g.rng.chance(1, 4) { *g.rng.pick(FLAGS) } else { g.rng.pick(&need).0 };
                        flag(&mut caps, f, false);
                    }
                    // only what is needed, perhaps less one
                    2 => {
                        caps = json!({});
                        need.iter().for_each(|(f, _)| flag(&mut caps, f, true));
                        if g.rng.chance(1, 2) && !need.is_empty() {
                            let f = g.rng.pick(&need).0;
                            flag(&mut caps, f, false);
                        }
                    }
                    _ => {
                        for f in FLAGS {
                            if g.rng.chance(1, 2) {
                                let on = g.rng.chance(1, 2);
                                flag(&mut caps, f, on);
                            }
                        }
                    }
                }
                // a declared capability says nothing by what it holds, be it "disabled"
                for f in FLAGS {
                    let at = caps.pointer(f).and_then(|c| c.as_object()).is_some();
                    if at && g.rng.chance(1, 6) {
                        let was = caps.clone();
                        let k = if g.rng.chance(2, 3) { g.rng.pick(&["disabled", "enabled", "supported", "available", "deprecated", "optional", "version", "list", "call", ""]).to_string() } else { g.key() };
                        let v = if g.rng.chance(1, 2) { json!(k == "disabled") } else { g.any(1) };
                        if let Some(o) = caps.pointer_mut(f).and_then(|c| c.as_object_mut()) {
                            o.entry(k).or_insert(v);
                        }
                        // what the committed schema does not allow here, or reads as a capability, is taken back
                        if !holds(sp, side, &caps) || FLAGS.iter().any(|x| caps.pointer(x).is_some() != was.pointer(x).is_some()) {
                            caps = was;
                        } else {
                            cx.count("declared capability with contents");
                        }
                    }
                }
                // flags of the other side and of other versions are not part of these capabilities
                if !holds(sp, side, &caps) {
                    cx.count("capabilities not conforming");
                    continue;
                }
                let case = json!({"capabilities": caps, "request": w});
                let got = match ask(side, &caps, &w) {
                    Ok(v) => v,
                    Err(_) => {
                        cx.count("source not read");
                        continue;
                    }
                };
                let missing: Vec<_> = need.iter().filter(|(f, _)| caps.pointer(f).is_none()).cloned().collect();
                let method = w["method"].as_str().unwrap_or("").to_string();
                if open(group, side, &w) && missing.iter().all(|(f, _)| f.starts_with("/sampling/")) {
                    cx.count("left open");
                    continue;
                }
                judge(cx, &format!("{} {ty}", side.name()), got, &missing, peer, &method, case);
            }
        }
        // notifications this side may be asked to send
        let caps_ty = if side == Side::Client { "ClientCapabilities" } else { "ServerCapabilities" };
        let mut methods = m.all_methods();
        // a notification of another name, however like, asks for nothing
        for (k, x) in methods.clone().iter().enumerate() {
            methods.extend(all_spellings(x));
            for i in 0..2 {
                methods.push(near_name(x, &mut gen(seed, i + 2 * k, "C09near").rng));
            }
        }
        methods.retain({
            let mut seen = std::collections::HashSet::new();
            move |x| seen.insert(x.clone())
        });
        methods.extend(["", "x", "notifications/", "notifications/message/", "Notifications/message", "notifications/roots/list_changed", "notifications/unknown"].map(String::from));
        let known = m.all_methods();
        for method in &methods {
            for i in 2..if known.contains(method) { n + 2 } else { 3 + n / 20 } {
                let mut g = gen(seed, i, &format!("C09n{}{method}", side.name()));
                let mut caps = sp.gen_type(caps_ty, &mut g);
                let need = notification_needs(group, side, method);
                for f in FLAGS {
                    match i % 3 {
                        0 => flag(&mut caps, f, g.rng.chance(1, 2)),
                        1 => flag(&mut caps, f, need.is_none_or(|n| n.0 != *f)),
                        _ => flag(&mut caps, f, need.is_some_and(|n| n.0 == *f)),
                    }
                }
                let case = json!({"capabilities": caps, "notification": method});
                let Ok(got) = ask_notification(side, &caps, method) else {
                    cx.count("source not read");
                    continue;
                };
                let missing: Vec<_> = need.iter().filter(|(f, _)| caps.pointer(f).is_none()).cloned().collect();
                judge(cx, &format!("{} notification {method}", side.name()), got, &missing, side.name(), method, case);
            }
        }
    }
    #[cfg(feature = "gb")]
    for i in turned(0..n * 8) {
        let mut g = gen(seed, i, "C09flags");
        let (mut sc, mut cc) = (sp.gen_type("ServerCapabilities", &mut g), sp.gen_type("ClientCapabilities", &mut g));
        for f in FLAGS.iter().filter(|f| f.starts_with("/tasks")) {
            let (a, b) = (g.rng.chance(2, 3), g.rng.chance(2, 3));
            flag(&mut sc, f, a);
            flag(&mut cc, f, b);
        }
        let (Ok(a), Ok(b)) = (serde_json::from_value::<s::ServerCapabilities>(sc.clone()), serde_json::from_value::<s::ClientCapabilities>(cc.clone())) else {
            cx.count("source not read");
            continue;
        };
        let has = |v: &Value, p: &str| v.pointer(p).is_some();
        let (st, ct) = (a.tasks.clone(), b.tasks.clone());
        let rows = [
            ("ServerCapabilities::can_list_tasks", a.can_list_tasks(), has(&sc, "/tasks/list")),
            ("ServerCapabilities::can_cancel_tasks", a.can_cancel_tasks(), has(&sc, "/tasks/cancel")),
            ("ServerCapabilities::can_run_task_augmented_tools", a.can_run_task_augmented_tools(), has(&sc, "/tasks/requests/tools/call")),
            ("ServerTasks::can_list_tasks", st.as_ref().is_some_and(|t| t.can_list_tasks()), has(&sc, "/tasks/list")),
            ("ServerTasks::can_cancel_tasks", st.as_ref().is_some_and(|t| t.can_cancel_tasks()), has(&sc, "/tasks/cancel")),
            ("ServerTasks::can_run_task_augmented_tools", st.as_ref().is_some_and(|t| t.can_run_task_augmented_tools()), has(&sc, "/tasks/requests/tools/call")),
            ("ClientCapabilities::can_list_tasks", b.can_list_tasks(), has(&cc, "/tasks/list")),
            ("ClientCapabilities::can_cancel_tasks", b.can_cancel_tasks(), has(&cc, "/tasks/cancel")),
            ("ClientCapabilities::can_accept_elicitation_task", b.can_accept_elicitation_task(), has(&cc, "/tasks/requests/elicitation/create")),
            ("ClientCapabilities::can_accept_sampling_task", b.can_accept_sampling_task(), has(&cc, "/tasks/requests/sampling/createMessage")),
            ("ClientTasks::can_list_tasks", ct.as_ref().is_some_and(|t| t.can_list_tasks()), has(&cc, "/tasks/list")),
            ("ClientTasks::can_cancel_tasks", ct.as_ref().is_some_and(|t| t.can_cancel_tasks()), has(&cc, "/tasks/cancel")),
            ("ClientTasks::can_accept_elicitation_task", ct.as_ref().is_some_and(|t| t.can_accept_elicitation_task()), has(&cc, "/tasks/requests/elicitation/create")),
            ("ClientTasks::can_accept_sampling_task", ct.as_ref().is_some_and(|t| t.can_accept_sampling_task()), has(&cc, "/tasks/requests/sampling/createMessage")),
        ];
        for (name, got, want) in rows {
            let case = json!({"server": sc.get("tasks"), "client": cc.get("tasks"), "asked": name});
            cx.check(got == want, "task capability", name, &case, || format!("{got}"));
        }
    }
}
