//! C11: the list of protocol versions, their names, and each version's constants.
use super::messages::gen;
use crate::cx::Cx;
use crate::util::*;
use crate::ver::{self, s};
use rust_mcp_schema::ProtocolVersion as P;
use serde_json::json;
use std::cmp::Ordering;

const RELEASED: [&str; 5] = ["2024-11-05", "2025-03-26", "2025-06-18", "2025-11-25", "2026-07-28"];

fn all() -> Vec<(P, &'static str)> {
    vec![
        (P::V2024_11_05, RELEASED[0]),
        (P::V2025_03_26, RELEASED[1]),
        (P::V2025_06_18, RELEASED[2]),
        (P::V2025_11_25, RELEASED[3]),
        (P::V2026_07_28, RELEASED[4]),
        (P::Draft, "DRAFT"),
    ]
}

pub fn versions(cx: &mut Cx) {
    // which are there, in which order
    for draft in [false, true] {
        let got: Vec<String> = P::supported_versions(draft).iter().map(|v| v.to_string()).collect();
        let mut want: Vec<String> = RELEASED.iter().map(|x| x.to_string()).collect();
        if draft {
            want.push("DRAFT".into());
        }
        cx.check(got == want, "supported versions", "supported_versions", &json!({"draft": draft}), || format!("{got:?}"));
        let vs = P::supported_versions(draft);
        cx.check(vs.windows(2).all(|w| w[0] < w[1] && w[1] > w[0] && w[0] != w[1]), "supported versions ascend", "supported_versions order", &json!({"draft": draft}), || format!("{vs:?}"));
    }
    let newest = P::supported_versions(false).into_iter().max();
    cx.check(newest == Some(P::latest()), "latest", "latest is the newest released", &json!("latest"), || format!("{newest:?}"));
    cx.check(P::latest().to_string() == *RELEASED.last().unwrap(), "latest", "latest by name", &json!("latest"), || P::latest().to_string());
    let vs = all();
    for (i, (a, na)) in vs.iter().enumerate() {
        cx.check(a.to_string() == *na && format!("{a}") == *na, "version printed", &format!("{na} printed"), &json!(na), || a.to_string());
        let back = P::try_from(*na);
        cx.check(back.as_ref().ok() == Some(a), "version parsed", &format!("{na} parsed"), &json!(na), || format!("{back:?}"));
        let moved: String = P::try_from(*na).map(Into::into).unwrap_or_default();
        cx.check(moved == *na, "version as string", &format!("{na} into String"), &json!(na), || moved.clone());
        for (j, (b, nb)) in vs.iter().enumerate() {
            let want = i.cmp(&j);
            let ok = a.cmp(b) == want && a.partial_cmp(b) == Some(want) && (a == b) == (want == Ordering::Equal) && (a < b) == (i < j) && (a <= b) == (i <= j);
            cx.check(ok, "version order", &format!("{na} against {nb}"), &json!([na, nb]), || format!("{:?}", a.cmp(b)));
        }
    }
    // every other string
    let mut fixed: Vec<String> = vs.iter().flat_map(|v| all_spellings(v.1)).collect();
    for (_, v) in &vs {
        for t in ["mcp", "MCP", "v", "V", "version", "protocol", "protocolVersion", "spec", "rev", "schema", "draft", "DRAFT", "latest", "20", "1", "release"] {
            fixed.extend(["", " ", "-", "_", "/", ":", "=", "@", "."].iter().flat_map(|j| [format!("{t}{j}{v}"), format!("{v}{j}{t}")]));
        }
    }
    fixed.extend(["latest", "stable", "current", "newest", "next", "unstable", "preview", "release", "main", "HEAD", "default", "*", "any", "V2025_06_18", "Draft", "2025-06", "2025", "2025-11"].map(String::from));
    let n = cx.n(600, 60_000);
    for i in turned(0..n + fixed.len()) {
        let mut g = gen(cx.seed, i, "C11");
        let base = g.rng.pick(&vs).1.to_string();
        let t = match i % 10 {
            _ if i >= n => fixed[i - n].clone(),
            8 => near_name(&base, &mut g.rng),
            9 => format!("{base}{}{}", g.rng.pick(JOINTS), g.rng.pick(&["1", "0", "rc1", "beta", "draft", "DRAFT", "01", "2025-06-18", "build.5"])),
            0 => g.str(),
            1 => base.to_lowercase().replace('-', *g.rng.pick(&["_", "", "/", ".", "–", " "])),
            2 => format!("{}{base}{}", g.rng.pick(&["", " ", "v", "\n", "V", "0", "\""]), g.rng.pick(&["", " ", "\0", "Z", "-", "0", "\t"])),
            3 => {
                let mut c: Vec<char> = base.chars().collect();
                let k = g.rng.below(c.len());
                c[k] = *g.rng.pick(&['0', '1', '2', '9', '-', 'x', '٢', 'd', 'D', ' ']);
                c.into_iter().collect()
            }
            4 => {
                let mut c: Vec<char> = base.chars().collect();
                c.remove(g.rng.below(c.len()));
                c.into_iter().collect()
            }
            5 => {
                let mut c: Vec<char> = base.chars().collect();
                let (a, b) = (g.rng.below(c.len()), g.rng.below(c.len()));
                c.swap(a, b);
                c.into_iter().collect()
            }
            6 => g.rng.pick(&["draft", "Draft", "DRAFT-2026-v1", "latest", "LATEST", "2024-10-07", "2025-01-01", "2026-07-29", "2.0", "", "V2025_11_25", "V2025-11-25", "1.0.0", "2024-11-05,2025-03-26"]).to_string(),
            _ => format!("{:04}-{:02}-{:02}", 2020 + g.rng.below(10), 1 + g.rng.below(12), 1 + g.rng.below(31)),
        };
        let case = json!(t);
        let known = vs.iter().find(|(_, n)| *n == t);
        match (P::try_from(t.as_str()), known) {
            (Ok(v), Some((k, _))) => cx.check(v == *k, "version parsed", "parsed as another version", &case, || format!("{v:?}")),
            (Err(e), None) => {
                let text = e.to_string();
                let std: &dyn std::error::Error = &e;
                // what was asked for is named, and the released versions are all there in order
                let rest = text.find(&t).map(|p| text[p + t.len()..].to_string());
                let mut ok = rest.is_some() && std.to_string() == text;
                let mut at = 0;
                let tail = rest.unwrap_or_default();
                for r in RELEASED {
                    match tail[at..].find(r) {
                        Some(p) => at += p + r.len(),
                        None => ok = false,
                    }
                }
                ok &= !tail.contains("DRAFT");
                cx.check(ok, "unknown version refused", "refusal does not say what is unsupported and what is", &case, || text.clone());
            }
            (Ok(v), None) => cx.check(false, "unknown version refused", "an unknown version was taken", &case, || format!("{v:?}")),
            (Err(e), Some(_)) => cx.check(false, "version parsed", "a known version was refused", &case, || e.to_string()),
        }
    }
    // this module's constants
    let own = match ver::NAME {
        "draft" => "2026-07-28".to_string(),
        v => v.replace('_', "-"),
    };
    cx.check(s::LATEST_PROTOCOL_VERSION == own, "constants", "LATEST_PROTOCOL_VERSION", &json!(own), || s::LATEST_PROTOCOL_VERSION.to_string());
    cx.check(P::try_from(s::LATEST_PROTOCOL_VERSION).is_ok(), "constants", "LATEST_PROTOCOL_VERSION is a supported version", &json!(own), String::new);
    cx.check(s::JSONRPC_VERSION == "2.0", "constants", "JSONRPC_VERSION", &json!("2.0"), || s::JSONRPC_VERSION.to_string());
    #[allow(unused_mut)]
    let mut rows: Vec<(&str, i64, i64)> = vec![
        ("PARSE_ERROR", s::PARSE_ERROR, -32700),
        ("INVALID_REQUEST", s::INVALID_REQUEST, -32600),
        ("METHOD_NOT_FOUND", s::METHOD_NOT_FOUND, -32601),
        ("INVALID_PARAMS", s::INVALID_PARAMS, -32602),
        ("INTERNAL_ERROR", s::INTERNAL_ERROR, -32603),
    ];
    #[cfg(feature = "gb")]
    rows.push(("URL_ELICITATION_REQUIRED", s::URL_ELICITATION_REQUIRED, -32042));
    #[cfg(feature = "gc")]
    rows.extend([
        ("HEADER_MISMATCH", s::HEADER_MISMATCH, -32020),
        ("MISSING_REQUIRED_CLIENT_CAPABILITY", s::MISSING_REQUIRED_CLIENT_CAPABILITY, -32021),
        ("UNSUPPORTED_PROTOCOL_VERSION", s::UNSUPPORTED_PROTOCOL_VERSION, -32022),
    ]);
    for (name, got, want) in rows {
        cx.check(got == want, "constants", name, &json!(want), || got.to_string());
    }
}
