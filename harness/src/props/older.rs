//! C23: results without a result type, as servers of earlier versions send them (group C).
use super::messages::gen;
use crate::cx::Cx;
use crate::msgs::*;
use crate::sides::*;
use crate::spec::*;
use crate::tab::*;
use crate::util::*;
use crate::ver::{self, s, u};
use serde_json::{json, Value};

/// What each way of reading makes of a result: the member it lands on and what it writes.
fn readings(result: &Value) -> Vec<(&'static str, Result<(String, Value), String>)> {
    let env = json!({"jsonrpc": "2.0", "id": "r", "result": result});
    let unwrap = |o: MsgObs| (o.path.trim_start_matches("Response").trim_start_matches('/').to_string(), o.wire["result"].clone());
    let plain = |r: s::ServerResult| (r.vpath(), jv(&r));
    let mut out = vec![
        ("ServerMessage", parse_msg(Side::Server, env.clone()).map(unwrap)),
        ("ServerMessage from text", parse_msg_text(Side::Server, &env.to_string(), 0).map(unwrap).map_err(|e| e.to_string())),
        ("ServerResult", serde_json::from_value::<s::ServerResult>(result.clone()).map(plain).map_err(|e| e.to_string())),
        ("ServerResult from bytes", serde_json::from_slice::<s::ServerResult>(result.to_string().as_bytes()).map(plain).map_err(|e| e.to_string())),
        ("ServerJsonrpcResponse", serde_json::from_value::<u::ServerJsonrpcResponse>(env.clone()).map(|r| plain(r.result)).map_err(|e| e.to_string())),
    ];
    out.push((
        "payload",
        payload_server(env).and_then(|(p, _)| match p {
            u::MessageFromServer::ServerResult(r) => Ok(plain(r)),
            p => Err(p.vpath()),
        }),
    ));
    out
}

pub fn unmarked(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let model = Model::new(sp, ver::group());
    let tys = model.results(Side::Server);
    for ty in &tys {
        for i in turned(0..cx.n(60, 6000)) {
            let mut g = gen(seed, i, &format!("C23{ty}"));
            let mut bare = sp.gen_type(ty, &mut g);
            let Some(o) = bare.as_object_mut() else { continue };
            o.remove("resultType");
            // members of other forms and unknown ones do not decide
            if g.rng.chance(1, 4) {
                let k = *g.rng.pick(&["requestState", "result_type", "ResultType", "resulttype", "type", "method", "id"]);
                if !o.contains_key(k) {
                    o.insert(k.into(), json!(g.rng.pick(&["input_required", "complete", "x"])));
                }
            }
            if g.rng.chance(1, 8) {
                o.entry("inputRequests").or_insert(json!({"k": {"method": "roots/list"}}));
            }
            let mut marked = bare.clone();
            marked["resultType"] = json!("complete");
            let case = json!({"type": ty, "result": bare});
            for ((how, a), (_, b)) in readings(&bare).into_iter().zip(readings(&marked)) {
                let what = format!("{ty}: {how}");
                match (&a, &b) {
                    (Ok((pa, wa)), Ok((pb, wb))) => {
                        cx.check(pa == pb, "lands where the complete one does", &format!("{what} lands elsewhere"), &case, || format!("{pa} instead of {pb}"));
                        cx.check(wa == wb, "reads as the complete one", &format!("{what} reads otherwise"), &case, || format!("{:?}", diff_of(wb, wa)));
                        cx.check(wa["resultType"] == json!("complete"), "complete", &format!("{what} not complete"), &case, || wa.to_string());
                        cx.check(!pa.contains("InputRequired"), "complete", &format!("{what} taken to ask for input"), &case, || pa.clone());
                    }
                    (Err(a), Err(_)) => {
                        cx.check(ty == "InputRequiredResult", "taken", &format!("{what} refused"), &case, || a.clone());
                    }
                    (a, b) => cx.check(false, "taken", &format!("{what} refused or not"), &case, || format!("{a:?} but {b:?}")),
                }
            }
            // a word of a later version is kept as it is, and is not a request for input
            let word = loop {
                let w = match g.rng.below(4) {
                    0 => g.str(),
                    1 => g.rng.pick(&["Complete", "INPUT_REQUIRED", "input-required", "inputRequired", " input_required", "input_required ", "", "partial", "null"]).to_string(),
                    2 => "complete ".to_string(),
                    _ => format!("{}_later", g.rng.pick(&["complete", "input_required", "task"])),
                };
                if w != "input_required" && w != "complete" {
                    break w;
                }
            };
            let mut later = bare.clone();
            later["resultType"] = json!(word);
            for ((how, a), (_, b)) in readings(&later).into_iter().zip(readings(&marked)) {
                if b.is_err() {
                    continue;
                }
                let what = format!("{ty}: {how}");
                match a {
                    Ok((p, w)) => {
                        cx.check(w["resultType"] == json!(word), "other result type kept", &format!("{what} changes an unknown result type"), &later, || w["resultType"].to_string());
                        cx.check(!p.contains("InputRequired"), "other result type", &format!("{what} takes an unknown result type for a request for input"), &later, || p.clone());
                    }
                    Err(e) => cx.check(false, "other result type", &format!("{what} refuses an unknown result type"), &later, || e.clone()),
                }
            }
        }
    }
}
