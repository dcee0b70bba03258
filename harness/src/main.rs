#![allow(dead_code)]
mod lane;
mod props;
mod reg;
mod sides;
mod tab;
mod ver;
pub use moncore::{cx, msgs, spec, util};
macro_rules! generated {
    ($feat:literal, $reg:literal, $tab:literal, $fld:literal) => {
        #[cfg(feature = $feat)]
        #[path = $reg]
        mod vreg;
        #[cfg(feature = $feat)]
        #[path = $tab]
        mod vtab;
        #[cfg(feature = $feat)]
        #[path = $fld]
        mod vfld;
    };
}
generated!("v2024_11_05", "gen/reg_2024_11_05.rs", "gen/tab_2024_11_05.rs", "gen/fld_2024_11_05.rs");
generated!("v2025_03_26", "gen/reg_2025_03_26.rs", "gen/tab_2025_03_26.rs", "gen/fld_2025_03_26.rs");
generated!("v2025_06_18", "gen/reg_2025_06_18.rs", "gen/tab_2025_06_18.rs", "gen/fld_2025_06_18.rs");
generated!("v2025_11_25", "gen/reg_2025_11_25.rs", "gen/tab_2025_11_25.rs", "gen/fld_2025_11_25.rs");
generated!("v2026_07_28", "gen/reg_2026_07_28.rs", "gen/tab_2026_07_28.rs", "gen/fld_2026_07_28.rs");
generated!("vdraft", "gen/reg_draft.rs", "gen/tab_draft.rs", "gen/fld_draft.rs");

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: usize = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(100);
    let before: Option<u64> = get("--before").and_then(|s| s.parse().ok());
    if a.iter().any(|x| x == "--turned") {
        util::turn();
    }
    let thorough = get("--tier").as_deref() == Some("thorough");
    // a panic nobody expected is an observation about the code under test: remember where it was
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut p) = LAST_PANIC.lock() {
            *p = format!("{i}");
        }
    }));
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut cx = cx::Cx::new(seed, thorough, scale);
            let sp = spec::Spec::load(ver::SPEC);
            if let Some(n) = before {
                props::before(n, &sp);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&prop, &mut cx, &sp)));
            if r.is_err() {
                let at = LAST_PANIC.lock().map(|p| p.clone()).unwrap_or_default();
                cx.evals += 1;
                cx.fail("unexpected panic", at, serde_json::json!({"evaluations before": cx.evals}));
            }
            (cx.report(&prop, ver::NAME), cx.viols.len())
        })
        .unwrap();
    let (rep, nv) = t.join().expect("monitor thread");
    let text = serde_json::to_string(&rep).unwrap();
    match get("--out") {
        Some(f) => std::fs::write(f, text).expect("write report"),
        None => println!("{}", serde_json::to_string_pretty(&rep).unwrap()),
    }
    eprintln!("{} {} violations", ver::NAME, nv);
}
