//! The monitor's recorder: what was observed, and what broke.
use crate::util::{clip, fnv};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub case: Value,
}

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub scale: usize,
    pub counters: BTreeMap<String, u64>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    pub vcount: BTreeMap<String, u64>,
    pub digests: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    /// Where each evaluation stands among those of all threads, if several run at once.
    pub order: Option<(Arc<AtomicUsize>, Vec<u32>)>,
    /// Done before each evaluation (given its number), to see that it makes no difference.
    pub disturb: Option<Box<dyn FnMut(u64)>>,
}

impl Cx {
    pub fn new(seed: u64, thorough: bool, scale: usize) -> Cx {
        Cx {
            seed,
            thorough,
            scale,
            counters: BTreeMap::new(),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            viols: vec![],
            vcount: BTreeMap::new(),
            digests: BTreeMap::new(),
            notes: vec![],
            order: None,
            disturb: None,
        }
    }
    /// Number of rounds: `q` in the quick tier, `t` in the thorough tier.
    pub fn n(&self, q: usize, t: usize) -> usize {
        ((if self.thorough { t } else { q }) * self.scale / 100).max(1)
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// One oracle decision about one observed execution.
    pub fn eval(&mut self, key: &str, case: &Value) {
        self.evals += 1;
        if let Some((clock, seen)) = &mut self.order {
            seen.push(clock.fetch_add(1, Ordering::Relaxed) as u32);
        }
        if let Some(f) = &mut self.disturb {
            f(self.evals);
        }
        self.distinct.insert(fnv(key.as_bytes()) ^ fnv(case.to_string().as_bytes()).rotate_left(17));
        self.count(key);
        if self.evals.is_power_of_two() && self.samples.len() < 24 {
            self.samples.push(json!({"rule": key, "case": clip(&case.to_string(), 300)}));
        }
    }
    pub fn eval_s(&mut self, key: &str, case: &str) {
        self.eval(key, &Value::String(case.to_string()));
    }
    pub fn fail(&mut self, sig: &str, detail: String, case: Value) {
        let c = self.vcount.entry(sig.to_string()).or_insert(0);
        *c += 1;
        if *c <= 3 && self.viols.len() < 400 {
            self.viols.push(Viol { sig: sig.to_string(), detail, case });
        }
    }
    /// evaluate one assertion
    pub fn check(&mut self, ok: bool, key: &str, sig: &str, case: &Value, detail: impl FnOnce() -> String) {
        self.eval(key, case);
        if !ok {
            self.fail(sig, detail(), case.clone());
        }
    }
    pub fn digest(&mut self, key: &str, text: &str) {
        let d = self.digests.entry(key.to_string()).or_insert(0xcbf2_9ce4_8422_2325);
        *d = fnv(text.as_bytes()) ^ d.rotate_left(5).wrapping_mul(0x100_0000_01b3);
    }
    pub fn report(&self, prop: &str, ver: &str) -> Value {
        let counters: Map<String, Value> = self.counters.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        json!({
            "property": prop, "version": ver, "seed": self.seed, "thorough": self.thorough,
            "evaluations": self.evals, "distinct": self.distinct.len(),
            "counters": counters, "samples": self.samples, "notes": self.notes,
            "digests": self.digests.iter().map(|(k, v)| (k.clone(), json!(format!("{v:016x}")))).collect::<Map<_, _>>(),
            "violation_counts": self.vcount,
            "violations": self.viols.iter().map(|v| json!({"sig": v.sig, "detail": clip(&v.detail, 2000), "case": v.case})).collect::<Vec<_>>(),
        })
    }
}
