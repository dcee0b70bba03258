//! C24: calls stand apart: what was done before, what other threads do, and streams that fail change nothing.
use super::messages::gen;
use crate::cx::Cx;
use crate::lane::Lanes;
use super::ops::Op;
use crate::msgs::*;
use crate::reg::{Ask, Entry, Held};
#[allow(unused_imports)]
use crate::reg::Otherwise;
use crate::sides::ErrEnv;
use crate::spec::*;
use crate::util::*;
use crate::ver::{self, s, u};
use crate::vreg;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Error, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

/// The other monitors, replayed here beside one another.
const MONITORS: &[&str] = &[
    "C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23",
];
const THREADS: usize = 6;

fn here() -> Vec<&'static str> {
    MONITORS
        .iter()
        .copied()
        .filter(|m| match *m {
            "C09" => !cfg!(feature = "ga"),
            "C15" => !cfg!(any(feature = "v2024_11_05", feature = "v2025_03_26")),
            "C17" | "C18" | "C23" => cfg!(feature = "gc"),
            "C21" => cfg!(feature = "gb"),
            _ => true,
        })
        .collect()
}

/// Calls of all kinds, in an order of its own, before a monitor starts.
pub fn before(n: u64, sp: &Spec) {
    let mut r = Rng::derive(n, "C24 before");
    let pool = pool(sp, n);
    let mut list = here();
    for i in (1..list.len()).rev() {
        list.swap(i, r.below(i + 1));
    }
    if r.chance(1, 2) {
        // the outermost values first
        for (e, t) in pool.0.iter().flat_map(|e| [i64::MIN.to_string(), i64::MAX.to_string(), "\"\"".into(), "null".into(), "{}".into(), "[]".into(), format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"\"}}", i64::MAX)].map(|t| (e, t))) {
            std::hint::black_box((e.outcome)(&t));
        }
    }
    for (i, p) in list.iter().enumerate() {
        for _ in 0..20 {
            nudge(&pool, &mut r);
        }
        if i < 6 {
            catch(p, &mut Cx::new(n.wrapping_add(i as u64 + 1), false, 1), sp);
        }
    }
}

/// One call, of any kind.
fn nudge(pool: &Pool, r: &mut Rng) {
    use rust_mcp_schema::ProtocolVersion as P;
    use std::hint::black_box as done;
    match r.below(8) {
        0 => {
            done(P::try_from(*r.pick(&["2024-11-05", "2025-03-26", "2025-06-18", "2025-11-25", "2026-07-28", "DRAFT", "1.0"])).map(|v| v.to_string()).map_err(|e| e.to_string()).ok());
        }
        1 => {
            done(P::supported_versions(r.chance(1, 2)).len());
        }
        2 => {
            let e = match r.below(4) {
                0 => s::RpcError::parse_error(),
                1 => s::RpcError::invalid_params(),
                2 => s::RpcError::internal_error().with_message("other".to_string()),
                _ => s::RpcError::method_not_found().with_data(Some(json!({"n": r.below(9)}))),
            };
            done(e.to_string());
        }
        _ => {
            let (k, t) = &pool.1[r.below(pool.1.len())];
            done((pool.0[*k].outcome)(t));
        }
    }
}
type Pool = (Vec<Entry>, Vec<(usize, String)>);

/// Everything a monitor saw.
fn seen(cx: &Cx, prop: &str) -> Value {
    let r = cx.report(prop, ver::NAME);
    json!({"evaluations": r["evaluations"], "distinct": r["distinct"], "counters": r["counters"], "digests": r["digests"], "violations": r["violation_counts"], "first": r["violations"].get(0)})
}

/// A monitor's observations in a process of its own.
fn alone(prop: &str, seed: u64, scale: usize, how: &[String]) -> Result<Value, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe)
        .args(["--prop", prop, "--seed", &seed.to_string(), "--scale", &scale.to_string()])
        .args(how)
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("{}: {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 500)));
    }
    let r: Value = serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())?;
    Ok(json!({"evaluations": r["evaluations"], "distinct": r["distinct"], "counters": r["counters"], "digests": r["digests"], "violations": r["violation_counts"], "first": r["violations"].get(0)}))
}

fn compare(cx: &mut Cx, how: &str, prop: &str, base: &Value, got: &Value) {
    let case = json!({"monitor": prop, "how": how});
    for k in ["evaluations", "distinct", "counters", "digests", "violations"] {
        cx.eval(&format!("a monitor's {k}, {how}"), &case);
        if base[k] != got[k] {
            let first = match (&base[k], &got[k]) {
                (Value::Object(a), Value::Object(b)) => {
                    a.keys().chain(b.keys()).find(|n| a.get(*n) != b.get(*n)).map(|n| json!({"what": n, "alone": a.get(n), how: b.get(n)})).unwrap_or(Value::Null)
                }
                (a, b) => json!({"alone": a, how: b}),
            };
            cx.fail(&format!("{prop} {how}: other {k} than in a process of its own"), format!("{first}; {}", got["first"]), case.clone());
        }
    }
}

fn catch(prop: &str, cx: &mut Cx, sp: &Spec) {
    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| super::run(prop, cx, sp))) {
        let t = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        cx.fail("unexpected panic", t, Value::Null);
    }
}

/// Every monitor in a process of its own, then after the others, then beside the others on several threads.
pub fn replays(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let scale = cx.n(2, 12);
    let list = here();
    // under a race detector the detector is the judge, and processes of their own would add nothing
    let light = std::env::var_os("MCPMON_LIGHT").is_some();
    let base: BTreeMap<&str, Value> = if light { BTreeMap::new() } else { std::thread::scope(|t| {
        let lanes: Vec<_> = (0..3).map(|k| {
            let list = &list;
            t.spawn(move || list.iter().skip(k).step_by(3).map(|p| {
                let later = ["--before".to_string(), (seed ^ fnv(p.as_bytes())).to_string()];
                (*p, alone(p, seed, scale, &[]), [("where other calls came first", alone(p, seed, scale, &later)), ("from its end to its start", alone(p, seed, scale, &["--turned".to_string()]))])
            }).collect::<Vec<_>>())
        }).collect();
        lanes.into_iter().flat_map(|l| l.join().unwrap()).filter_map(|(p, r, others)| match r {
            Ok(r) => {
                for (how, o) in others {
                    match o {
                        Ok(mut o) => {
                            if how.starts_with("from its end") {
                                // a digest tells the order
                                o["digests"] = r["digests"].clone();
                            }
                            compare(cx, how, p, &r, &o);
                            cx.add(&format!("evaluations replayed {how}"), o["evaluations"].as_u64().unwrap_or(0));
                        }
                        Err(e) => cx.fail(&format!("{p} {how}: the process died"), e, json!({"monitor": p})),
                    }
                }
                Some((p, r))
            }
            Err(e) => {
                cx.fail(&format!("{p}: the process died"), e, json!({"monitor": p}));
                None
            }
        }).collect()
    }) };
    // after one another, the last first, with other inputs in between
    for p in list.iter().rev() {
        let Some(b) = base.get(p) else { continue };
        let mut other = Cx::new(seed ^ 0x5eed, false, 1);
        catch(p, &mut other, sp);
        let mut c = Cx::new(seed, false, scale);
        catch(p, &mut c, sp);
        compare(cx, "after others", p, b, &seen(&c, p));
        cx.add("evaluations replayed after others", c.evals);
    }
    // with other calls between its own, on the same thread
    let pool = Arc::new(pool(sp, seed));
    let rows: Vec<_> = std::thread::scope(|t| {
        let lanes: Vec<_> = (0..THREADS)
            .map(|k| {
                let (pool, list, sp) = (pool.clone(), &list, sp.clone());
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(t, move || list.iter().skip(k).step_by(THREADS).map(|p| (*p, amid(p, seed, scale, &sp, &pool))).collect::<Vec<_>>())
                    .unwrap()
            })
            .collect();
        lanes.into_iter().flat_map(|l| l.join().expect("a disturbed monitor's thread")).collect()
    });
    for (p, (r, evals, calls, runs)) in rows {
        cx.add("evaluations replayed amid other calls", evals);
        cx.add("other calls between evaluations", calls);
        cx.add("runs of the same monitor, on other inputs, between evaluations", runs);
        if let Some(b) = base.get(p) {
            compare(cx, "amid other calls", p, b, &r);
        }
    }
    // step by step in turn with a run on other inputs, on the same thread
    let rows: Vec<_> = std::thread::scope(|t| {
        let lanes: Vec<_> = (0..THREADS)
            .map(|k| {
                let (list, sp) = (&list, sp.clone());
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(t, move || list.iter().skip(k).step_by(THREADS).filter(|_| !light).map(|p| (*p, in_turn(p, seed, scale, &sp))).collect::<Vec<_>>())
                    .unwrap()
            })
            .collect();
        lanes.into_iter().flat_map(|l| l.join().expect("a thread of two runs")).collect()
    });
    for (p, (r, turns)) in rows {
        cx.add("turns between runs on one thread", turns);
        if let Some(b) = base.get(p) {
            compare(cx, "in turn with another run", p, b, &r);
        }
    }
    // beside one another
    let clock = Arc::new(AtomicUsize::new(0));
    let gate = Arc::new(Barrier::new(THREADS));
    let mut marks: Vec<(u32, u8)> = vec![];
    let lanes: Vec<_> = (0..THREADS)
        .map(|k| {
            let (clock, gate, sp, list) = (clock.clone(), gate.clone(), sp.clone(), list.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut out = vec![];
                    let n = list.len();
                    for round in 0..n {
                        gate.wait();
                        // half of the threads at the same monitor, the others each at their own
                        let p = if k < THREADS / 2 { list[round] } else { list[(round + 1 + k * 5) % n] };
                        let mut c = Cx::new(seed, false, scale);
                        c.order = Some((clock.clone(), vec![]));
                        catch(p, &mut c, &sp);
                        let order = c.order.take().unwrap().1;
                        out.push((p, seen(&c, p), order));
                    }
                    out
                })
                .unwrap()
        })
        .collect();
    for (k, l) in lanes.into_iter().enumerate() {
        for (p, r, order) in l.join().expect("a monitor's thread") {
            cx.add("evaluations replayed beside others", order.len() as u64);
            marks.extend(order.into_iter().map(|o| (o, k as u8)));
            if let Some(b) = base.get(p) {
                compare(cx, "beside others", p, b, &r);
            }
        }
    }
    interleavings(cx, "evaluations", marks);
}

/// Readings to be done between others: type, and text good or broken.
fn pool(sp: &Spec, seed: u64) -> Pool {
    let mut entries = vreg::entries();
    let schema = entries.len();
    let extra = more();
    let takes: Vec<(Side, Option<Kind>)> = extra.iter().map(|x| (x.1, x.2)).collect();
    entries.extend(extra.into_iter().map(|x| x.0));
    let model = Model::new(sp, ver::group());
    let mut out = vec![];
    for (k, e) in entries.iter().enumerate() {
        for i in 0..if k < schema { 2 } else { 12 } {
            let mut g = gen(seed, i, &format!("C24 pool {}", e.name));
            let v = sample(sp, &model, e.name, k.checked_sub(schema).map(|k| takes[k]), &mut g);
            out.push((k, broken(&v, i, &mut g.rng)));
            out.push((k, v.to_string()));
        }
    }
    (entries, out)
}

/// A monitor with other calls, and runs of itself on other inputs, between its evaluations.
fn amid(p: &'static str, seed: u64, scale: usize, sp: &Spec, pool: &Arc<Pool>) -> (Value, u64, u64, u64) {
    use std::cell::Cell;
    use std::rc::Rc;
    let (calls, runs) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    let mut c = Cx::new(seed, false, scale);
    c.disturb = Some({
        let (calls, runs, sp, pool) = (calls.clone(), runs.clone(), sp.clone(), pool.clone());
        let mut r = Rng::derive(seed, &format!("C24 amid {p}"));
        let mut spent = std::time::Duration::ZERO;
        Box::new(move |n| {
            if n < 4096 || n % 16 == 0 {
                for _ in 0..2 {
                    nudge(&pool, &mut r);
                    calls.set(calls.get() + 1);
                }
            }
            if (n.is_power_of_two() || n % 400 == 3) && spent.as_millis() < 1500 {
                let t = std::time::Instant::now();
                catch(p, &mut Cx::new(seed ^ (0xd15 + n), false, 1), &sp);
                spent += t.elapsed();
                runs.set(runs.get() + 1);
            }
        })
    });
    catch(p, &mut c, sp);
    c.disturb = None;
    (seen(&c, p), c.evals, calls.get(), runs.get())
}

/// A monitor that takes turns, evaluation by evaluation, with itself on other inputs and then with others.
fn in_turn(p: &'static str, seed: u64, scale: usize, sp: &Spec) -> (Value, u64) {
    let others = here();
    let their_sp = sp.clone();
    let lanes = Lanes::new(move |lanes| {
        let mut r = Rng::derive(seed, &format!("C24 in turn {p}"));
        for i in 1.. {
            let q = if i % 3 == 0 { *r.pick(&others) } else { p };
            let mut c = Cx::new(seed.wrapping_add(1000 + i), false, scale);
            let l = lanes.clone();
            c.disturb = Some(Box::new(move |_| l.turn()));
            catch(q, &mut c, &their_sp);
        }
    });
    let mut c = Cx::new(seed, false, scale);
    let l = lanes.clone();
    c.disturb = Some(Box::new(move |_| l.turn()));
    catch(p, &mut c, sp);
    c.disturb = None;
    // the other run stays where it is: its stack and what it holds are left to the end of the process
    let turns = lanes.turns.get();
    std::mem::forget(lanes);
    (seen(&c, p), turns)
}

/// How the threads' steps fell between one another.
fn interleavings(cx: &mut Cx, what: &str, mut marks: Vec<(u32, u8)>) {
    marks.sort_unstable();
    let by: Vec<u8> = marks.into_iter().map(|m| m.1).collect();
    let windows: HashSet<&[u8]> = by.windows(6).collect();
    cx.add(&format!("times the thread changed from one of the {what} to the next"), by.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    cx.add(&format!("distinct interleavings of six {what}"), windows.len() as u64);
}

/// Hands out up to `step` bytes at a time; after `left` bytes it fails. Now and then other calls are made in the middle.
struct Source<'a> {
    amid: Option<(&'a [Entry], &'a [Shelf], Rng, u8)>,
    data: &'a [u8],
    left: usize,
    step: usize,
    pause: bool,
    kind: ErrorKind,
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(Error::new(self.kind, "the source failed"));
        }
        if let Some((entries, shelf, r, left)) = &mut self.amid {
            if *left > 0 && r.chance(1, 12) {
                *left -= 1;
                let x = &shelf[r.below(shelf.len())];
                if x.outcome != (entries[x.entry].outcome)(&String::from_utf8_lossy(&x.input)) {
                    return Err(Error::new(ErrorKind::Other, "a reading inside another went wrong"));
                }
            } else if r.chance(1, 12) {
                std::thread::yield_now();
            }
        }
        self.pause = !self.pause;
        if self.pause && self.step > 1 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = self.step.min(self.left).min(self.data.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.left -= n;
        Ok(n)
    }
}
/// Takes up to `step` bytes at a time; after `left` bytes it fails, or takes nothing more.
struct Sink {
    got: Vec<u8>,
    left: usize,
    step: usize,
    full: bool,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return if self.full { Ok(0) } else { Err(Error::new(ErrorKind::BrokenPipe, "the sink failed")) };
        }
        let n = self.step.min(self.left).min(buf.len());
        if self.step < 4 {
            std::thread::yield_now();
        }
        self.got.extend_from_slice(&buf[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A printed form's destination that runs out of room.
struct Paper(String, usize);
impl std::fmt::Write for Paper {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if self.0.len() + t.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(t);
        Ok(())
    }
}

/// One value and what it is when nothing else happens.
struct Shelf {
    entry: usize,
    input: Vec<u8>,
    held: Box<dyn Held>,
    text: String,
    debug: String,
    print: Option<String>,
    /// What reading the text comes to; and the same for texts that differ from it in one place.
    outcome: String,
    twins: Vec<(String, String)>,
}

/// The text with one letter, digit or literal in one place changed, seldom its length.
pub fn twin(v: &Value, r: &mut Rng) -> Option<String> {
    fn leaves(v: &Value, at: String, out: &mut Vec<String>) {
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, format!("{at}/{i}"), out)),
            Value::Null => {}
            _ => out.push(at),
        }
    }
    let mut v = v.clone();
    let mut all = vec![];
    leaves(&v, String::new(), &mut all);
    let at = if r.chance(1, 3) { all.last()? } else { all.get(r.below(all.len().max(1)))? }.clone();
    let x = v.pointer_mut(&at)?;
    *x = match &*x {
        Value::String(t) => {
            let mut t: Vec<char> = t.chars().collect();
            match t.len() {
                0 => t.push('a'),
                // the same letters in another order
                n if n > 1 && t[n - 1] != t[0] && r.chance(1, 3) => t.swap(0, n - 1),
                n => {
                    let i = if r.chance(1, 2) { n - 1 } else { r.below(n) };
                    t[i] = if t[i] == 'a' { 'b' } else { 'a' };
                }
            }
            Value::String(t.into_iter().collect())
        }
        Value::Bool(b) => Value::Bool(!b),
        Value::Number(n) => match n.as_i64() {
            Some(n) => json!(n ^ 1),
            None => json!(1.5),
        },
        _ => return None,
    };
    Some(v.to_string())
}

/// Two texts of the same JSON value; texts that are not JSON must be equal.
fn alike(a: &str, b: &str) -> bool {
    a == b || matches!((serde_json::from_str::<Value>(a), serde_json::from_str::<Value>(b)), (Ok(x), Ok(y)) if x == y)
}

fn printed(h: &dyn Held) -> Option<String> {
    let mut p = Paper(String::new(), usize::MAX);
    h.print(&mut p).map(|_| p.0)
}

/// One use of one value; `Err` says what was wrong.
fn using(entries: &[Entry], shelf: &[Shelf], x: &Shelf, r: &mut Rng) -> Result<&'static str, String> {
    let e = &entries[x.entry];
    let same = |what: &str, a: &str, b: &str| if a == b { Ok(()) } else { Err(format!("{what}: {} instead of {}", clip(a, 300), clip(b, 300))) };
    let read = |src: &mut Source| guard(|| (e.hold)(src));
    Ok(match r.below(9) {
        8 if !x.twins.is_empty() => {
            let own = String::from_utf8_lossy(&x.input);
            for k in 0..2 + r.below(3) {
                // from one text to another that is nearly the same, and back
                let (t, o) = if k % 2 == 0 { (&*own, &x.outcome) } else { x.twins.get(r.below(x.twins.len())).map(|t| (&*t.0, &t.1)).unwrap() };
                same("read next to nearly the same text", &(e.outcome)(t), o)?;
            }
            "texts read that differ in one place"
        }
        0 => {
            same("written", &x.held.text(), &x.text)?;
            "shared value written"
        }
        1 => {
            same("debug form", &x.held.debug(), &x.debug)?;
            "shared value's debug form"
        }
        2 => {
            let c = x.held.copy();
            same("copy", &c.text(), &x.text)?;
            drop(c);
            same("after a copy was dropped", &x.held.text(), &x.text)?;
            "shared value copied"
        }
        3 => {
            if let Some(p) = &x.print {
                same("printed", &printed(&*x.held).unwrap_or_default(), p)?;
                let room = r.below(p.len().max(1));
                let mut q = Paper(String::new(), room);
                match guard(|| x.held.print(&mut q)) {
                    Ok(Some(Err(_))) => {}
                    o => return Err(format!("printing where there is room for {room} of {} bytes: {o:?}", p.len())),
                }
                same("printed again", &printed(&*x.held).unwrap_or_default(), p)?;
            }
            "shared value printed, with and without room"
        }
        4 => {
            let mut src = Source { amid: Some((entries, shelf, Rng::derive(r.next(), "amid"), 1)), data: &x.input, left: usize::MAX, step: 1 + r.below(7), pause: true, kind: ErrorKind::Other };
            match read(&mut src) {
                Ok(Ok(h)) => {
                    if !alike(&h.text(), &x.text) {
                        same("read again, written", &h.text(), &x.text)?;
                    }
                }
                Ok(Err(e)) => return Err(format!("read again: {e}")),
                Err(p) => return Err(format!("read again: {p}")),
            }
            "value read again, in pieces and with interruptions"
        }
        5 => {
            let left = r.below(x.input.len());
            let kind = *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock]);
            let mut src = Source { amid: None, data: &x.input, left, step: 1 + r.below(16), pause: false, kind };
            match read(&mut src) {
                Ok(Err(e)) if e.is_io() && e.io_error_kind() == Some(kind) => {}
                Ok(Err(e)) => return Err(format!("the source failed ({kind:?}) after {left} bytes, but the error is: {e}")),
                Ok(Ok(_)) => return Err(format!("the source failed after {left} of {} bytes, yet there is a value", x.input.len())),
                Err(p) => return Err(format!("the source failed after {left} bytes: {p}")),
            }
            "source failed"
        }
        6 => {
            let full = r.chance(1, 2);
            let left = r.below(x.text.len());
            let mut w = Sink { got: vec![], left, step: 1 + r.below(64), full };
            match guard(|| x.held.write(&mut w)) {
                Ok(Err(e)) if e.is_io() => {}
                Ok(Err(e)) => return Err(format!("the sink failed after {left} bytes, but the error is: {e}")),
                Ok(Ok(())) => return Err(format!("the sink failed after {left} of {} bytes, yet writing went well", x.text.len())),
                Err(p) => return Err(format!("the sink failed after {left} bytes: {p}")),
            }
            if w.got != x.text.as_bytes()[..left] {
                return Err(format!("what reached the sink before it failed: {:?}", clip(&String::from_utf8_lossy(&w.got), 300)));
            }
            same("after a sink failed", &x.held.text(), &x.text)?;
            "sink failed"
        }
        _ => {
            let mut w = Sink { got: vec![], left: usize::MAX, step: 1 + r.below(5), full: false };
            match guard(|| x.held.write(&mut w)) {
                Ok(Ok(())) => same("written in pieces", &String::from_utf8_lossy(&w.got), &x.text)?,
                o => return Err(format!("written in pieces: {:?}", o.map(|r| r.map_err(|e| e.to_string())))),
            }
            "shared value written in pieces"
        }
    })
}

macro_rules! printed {
    ($t:ty, $n:expr) => {
        Entry::printed::<$t>($n).auto(Ask::<$t>::SEND, Ask::<$t>::SYNC)
    };
}
macro_rules! shown {
    ($t:ty, $n:expr) => {
        Entry::shown::<$t>($n).auto(Ask::<$t>::SEND, Ask::<$t>::SYNC)
    };
}
/// Types besides the schema's: name, and whose messages (side and kind) it reads.
fn more() -> Vec<(Entry, Side, Option<Kind>)> {
    use Kind::*;
    use Side::*;
    vec![
        (printed!(u::ClientMessage, "ClientMessage"), Client, None),
        (printed!(u::ServerMessage, "ServerMessage"), Server, None),
        (printed!(u::ClientJsonrpcRequest, "ClientJsonrpcRequest"), Client, Some(Request)),
        (printed!(u::ServerJsonrpcRequest, "ServerJsonrpcRequest"), Server, Some(Request)),
        (printed!(u::ClientJsonrpcNotification, "ClientJsonrpcNotification"), Client, Some(Notification)),
        (printed!(u::ServerJsonrpcNotification, "ServerJsonrpcNotification"), Server, Some(Notification)),
        (printed!(u::ClientJsonrpcResponse, "ClientJsonrpcResponse"), Client, Some(Response)),
        (printed!(u::ServerJsonrpcResponse, "ServerJsonrpcResponse"), Server, Some(Response)),
        (printed!(ErrEnv, "JsonrpcError"), Client, Some(Error)),
        (shown!(u::ClientMessages, "ClientMessages"), Client, None),
        (shown!(u::ServerMessages, "ServerMessages"), Server, None),
        (shown!(s::RequestId, "RequestId"), Client, None),
        (printed!(s::RpcError, "RpcError"), Client, None),
    ]
}

/// A value of the type, or a message of the side and kind.
fn sample(sp: &Spec, model: &Model, name: &str, takes: Option<(Side, Option<Kind>)>, g: &mut Gen) -> Value {
    let Some((side, kind)) = takes else { return sp.gen_type(name, g) };
    let message = |g: &mut Gen| {
        let kind = kind.unwrap_or(*g.rng.pick(&KINDS));
        let slot = g.rng.below(super::messages::slots(model, side, kind));
        model.message(g, side, kind, slot).wire
    };
    match name {
        "RequestId" => sp.gen_type(name, g),
        "RpcError" => model.message(g, side, Kind::Error, 0).wire["error"].clone(),
        "ClientMessages" | "ServerMessages" if g.rng.chance(3, 4) => (0..g.rng.below(5)).map(|_| message(g)).collect(),
        _ => message(g),
    }
}

/// The text with something in it of another JSON type or gone, or cut short.
fn broken(v: &Value, manner: usize, r: &mut Rng) -> String {
    fn nodes(v: &Value, at: String, out: &mut Vec<String>) {
        let key = |k: &str| k.replace('~', "~0").replace('/', "~1");
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| nodes(x, format!("{at}/{}", key(k)), out)),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| nodes(x, format!("{at}/{i}"), out)),
            _ => {}
        }
        out.push(at);
    }
    if manner == 0 || manner == 1 && r.chance(1, 8) {
        let t = v.to_string();
        let mut n = r.below(t.len());
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        return t[..n].to_string();
    }
    let mut v = v.clone();
    let mut all = vec![];
    nodes(&v, String::new(), &mut all);
    let at = r.pick(&all).clone();
    let x = v.pointer_mut(&at).unwrap();
    *x = match &*x {
        Value::Object(_) => json!([1]),
        Value::Array(_) => json!({"a": 1}),
        Value::String(_) => json!(5),
        Value::Number(_) => json!("n"),
        Value::Bool(_) => json!("yes"),
        Value::Null => json!(0),
    };
    v.to_string()
}

/// All threads at once at the same few texts of one type: each must come to what it came to before.
fn hammer(cx: &mut Cx, sp: &Spec, entries: &[Entry], takes: &[(Side, Option<Kind>)], schema: usize) {
    let model = Model::new(sp, ver::group());
    let mut marks = vec![];
    let clock = AtomicUsize::new(0);
    for (k, e) in entries.iter().enumerate() {
        let take = k.checked_sub(schema).map(|k| takes[k]);
        let wide = e.union || take.is_some();
        let texts: Vec<String> = (0..if wide { 24 } else { 3 }).map(|i| sample(sp, &model, e.name, take, &mut gen(cx.seed, i, &format!("C24 hammer {}", e.name))).to_string()).filter(|t| t.len() < 4000).collect();
        if texts.is_empty() {
            continue;
        }
        let before: Vec<String> = texts.iter().map(|t| (e.outcome)(t)).collect();
        let rounds = cx.n(if wide { 200 } else { 15 }, if wide { 3000 } else { 300 });
        let gate = Barrier::new(THREADS);
        let outs: Vec<(Vec<(usize, String)>, Vec<u32>)> = std::thread::scope(|t| {
            let lanes: Vec<_> = (0..THREADS)
                .map(|lane| {
                    let (texts, before, gate, clock) = (&texts, &before, &gate, &clock);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(t, move || {
                            let (mut wrong, mut order) = (vec![], vec![]);
                            gate.wait();
                            for i in 0..rounds {
                                let at = (i * (lane + 1) + lane) % texts.len();
                                order.push(clock.fetch_add(1, Ordering::Relaxed) as u32);
                                let o = (e.outcome)(&texts[at]);
                                if o != before[at] {
                                    wrong.push((at, o));
                                }
                            }
                            (wrong, order)
                        })
                        .unwrap()
                })
                .collect();
            lanes.into_iter().map(|l| l.join().expect("a hammering thread")).collect()
        });
        for (lane, (wrong, order)) in outs.into_iter().enumerate() {
            cx.evals += order.len() as u64;
            cx.add("texts read by all threads at once", order.len() as u64);
            marks.extend(order.into_iter().map(|o| (o, lane as u8)));
            for (at, o) in wrong {
                cx.fail(&format!("{} reads otherwise while others read", e.name), format!("{} instead of {}", clip(&o, 300), clip(&before[at], 300)), json!({"type": e.name, "value": texts[at]}));
            }
        }
    }
    interleavings(cx, "readings by all at once", marks);
}

/// Many readings on one thread, mostly refused: what good texts come to afterwards is what they came to before.
fn weather(cx: &mut Cx, sp: &Spec, entries: &[Entry], takes: &[(Side, Option<Kind>)], schema: usize) {
    let seed = cx.seed;
    let jobs: Vec<usize> = (0..entries.len()).collect();
    let scale = cx.n(4, 100);
    type Out = (usize, Vec<String>, Vec<String>, Vec<String>, u64, u64);
    let outs: Vec<Out> = std::thread::scope(|t| {
        let lanes: Vec<_> = (0..THREADS)
            .map(|lane| {
                let (jobs, sp) = (&jobs, sp.clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(t, move || {
                        let model = Model::new(&sp, ver::group());
                        let mut out = vec![];
                        for k in jobs.iter().skip(lane).step_by(THREADS) {
                            let (e, take) = (&entries[*k], k.checked_sub(schema).map(|k| takes[k]));
                            let wide = e.union || take.is_some();
                            let value = |i: usize, what: &str| {
                                let mut g = gen(seed, i, &format!("C24 {what} {}", e.name));
                                (sample(&sp, &model, e.name, take, &mut g), g)
                            };
                            let good: Vec<String> = (0..if wide { 30 } else { 6 }).map(|i| value(i, "good").0.to_string()).collect();
                            let before: Vec<String> = good.iter().map(|x| (e.outcome)(x)).collect();
                            let (mut refused, mut taken) = (0, 0);
                            for i in 0..scale * if wide { 20 } else { 4 } {
                                let (v, mut g) = value(i, "bad");
                                // bursts of one manner of breaking, a good text after each
                                let manner = g.rng.below(3);
                                for _ in 0..1 + g.rng.below(19) {
                                    if (e.outcome)(&broken(&v, manner, &mut g.rng)).contains("refused: ") {
                                        refused += 1;
                                    } else {
                                        taken += 1;
                                    }
                                }
                                let at = g.rng.below(good.len());
                                let now = (e.outcome)(&good[at]);
                                if now != before[at] {
                                    out.push((*k, vec![good[at].clone()], vec![before[at].clone()], vec![now], refused, taken));
                                }
                            }
                            let after: Vec<String> = good.iter().map(|x| (e.outcome)(x)).collect();
                            out.push((*k, good, before, after, refused, taken));
                        }
                        out
                    })
                    .unwrap()
            })
            .collect();
        lanes.into_iter().flat_map(|l| l.join().expect("a thread reading broken texts")).collect()
    });
    for (k, good, before, after, refused, taken) in outs {
        let name = entries[k].name;
        cx.add("broken texts refused", refused);
        cx.add("broken texts taken all the same", taken);
        for ((t, b), a) in good.iter().zip(&before).zip(&after) {
            let case = json!({"type": name, "value": t, "broken texts before": refused});
            cx.check(a == b, "a good text read again after many broken ones", &format!("{name} reads otherwise after many refusals"), &case, || format!("{} instead of {}", clip(a, 300), clip(b, 300)));
        }
    }
}

pub fn shared(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let mut entries = vreg::entries();
    let schema = entries.len();
    let extra = more();
    let takes: Vec<(Side, Option<Kind>)> = extra.iter().map(|x| (x.1, x.2)).collect();
    entries.extend(extra.into_iter().map(|x| x.0));
    let mut free = vec![];
    for e in &entries {
        let case = json!({"type": e.name});
        cx.check(e.auto.0, "may be sent to another thread", &format!("{} cannot be sent to another thread", e.name), &case, String::new);
        cx.check(e.auto.1, "may be shared between threads", &format!("{} cannot be shared between threads", e.name), &case, String::new);
        free.push(e.auto == (true, true));
    }
    for (name, ok) in [
        ("SdkError", Ask::<u::SdkError>::SEND && Ask::<u::SdkError>::SYNC),
        ("RpcError", Ask::<s::RpcError>::SEND && Ask::<s::RpcError>::SYNC),
        ("ProtocolVersion", Ask::<rust_mcp_schema::ProtocolVersion>::SEND && Ask::<rust_mcp_schema::ProtocolVersion>::SYNC),
    ] {
        cx.check(ok, "may be shared between threads", &format!("{name} cannot be shared between threads"), &json!({"type": name}), String::new);
    }
    let entries = Arc::new(entries);
    let clock = Arc::new(AtomicUsize::new(0));
    let mut marks = vec![];
    weather(cx, sp, &entries, &takes, schema);
    hammer(cx, sp, &entries, &takes, schema);
    for i in 0..cx.n(4, 200) {
        // the values, and what each is when nothing else happens
        let mut shelf: Vec<Shelf> = vec![];
        let model = Model::new(sp, ver::group());
        for (k, e) in entries.iter().enumerate() {
            if !free[k] {
                continue;
            }
            for j in 0..if k < schema { 1 } else { 12 } {
                let mut g = gen(seed, i * 12 + j, &format!("C24{}", e.name));
                let v = sample(sp, &model, e.name, k.checked_sub(schema).map(|k| takes[k]), &mut g);
                let input = v.to_string().into_bytes();
                let Ok(Ok(held)) = guard(|| (e.hold)(&mut Source { amid: None, data: &input, left: usize::MAX, step: 4096, pause: true, kind: ErrorKind::Other })) else {
                    // that it is refused is another monitor's matter
                    cx.count("values not taken");
                    continue;
                };
                let (text, debug, print) = (held.text(), held.debug(), printed(&*held));
                let case = json!({"type": e.name, "value": v});
                // a second one in the same place
                match guard(|| (e.hold)(&mut Source { amid: None, data: &input, left: usize::MAX, step: 64, pause: true, kind: ErrorKind::Other })) {
                    Ok(Ok(h)) => cx.check(alike(&h.text(), &text) && alike(&printed(&*h).unwrap_or_default(), print.as_deref().unwrap_or_default()), "read twice", &format!("{} read twice is not the same", e.name), &case, || clip(&h.text(), 400)),
                    r => cx.fail(&format!("{} is taken once and then refused", e.name), format!("{:?}", r.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))), case),
                }
                let mut twins: Vec<(String, String)> = (0..2).filter_map(|_| twin(&v, &mut g.rng)).map(|t| (t, String::new())).collect();
                twins.dedup();
                shelf.push(Shelf { entry: k, input, held, text, debug, print, outcome: String::new(), twins });
            }
        }
        // what reading each text comes to, with readings of other types in between
        let mut places: Vec<usize> = (0..shelf.len()).collect();
        let mut r = Rng::derive(seed.wrapping_add(i as u64), "C24 places");
        for j in (1..places.len()).rev() {
            places.swap(j, r.below(j + 1));
        }
        for lap in 0..3 {
            for j in &places {
                let x = &mut shelf[*j];
                let f = &entries[x.entry].outcome;
                match lap {
                    0 => x.outcome = f(&String::from_utf8_lossy(&x.input)),
                    _ => {
                        if let Some(t) = x.twins.get_mut(lap - 1) {
                            t.1 = f(&t.0);
                        }
                    }
                }
            }
        }
        let shelf = Arc::new(shelf);
        let gate = Arc::new(Barrier::new(THREADS));
        let lanes: Vec<_> = (0..THREADS)
            .map(|k| {
                let (shelf, gate, clock, entries) = (shelf.clone(), gate.clone(), clock.clone(), entries.clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let mut r = Rng::derive(seed.wrapping_mul(31).wrapping_add(i as u64), &format!("C24 lane {k}"));
                        let (mut uses, mut wrong, mut order) = (BTreeMap::<&'static str, u64>::new(), vec![], vec![]);
                        let mut kinds = HashSet::new();
                        let n = shelf.len();
                        gate.wait();
                        for step in 0..n * 4 {
                            // all threads near the same place in the first half, anywhere in the second
                            let at = if step < n * 2 { (step / 2 + r.below(3)) % n } else { r.below(n) };
                            let x = &shelf[at];
                            order.push((clock.fetch_add(1, Ordering::Relaxed) as u32, k as u8));
                            match using(&entries, &shelf, x, &mut r) {
                                Ok(w) => {
                                    *uses.entry(w).or_default() += 1;
                                    kinds.insert(fnv(w.as_bytes()) ^ fnv(&x.input).rotate_left(17) ^ fnv(entries[x.entry].name.as_bytes()).rotate_left(31));
                                }
                                Err(e) => wrong.push((at, e)),
                            }
                        }
                        (uses, wrong, order, kinds)
                    })
                    .unwrap()
            })
            .collect();
        for l in lanes {
            let (uses, wrong, order, kinds) = l.join().expect("a thread using shared values");
            for (w, n) in uses {
                cx.evals += n;
                cx.add(w, n);
            }
            marks.extend(order);
            cx.distinct.extend(kinds);
            for (at, e) in wrong {
                let x = &shelf[at];
                let what = e.split(':').next().unwrap_or("").split(" (").next().unwrap_or("").to_string();
                let what: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
                cx.fail(&format!("{} in use by several threads: {what}", entries[x.entry].name), e, json!({"type": entries[x.entry].name, "value": String::from_utf8_lossy(&x.input)}));
            }
        }
        for x in shelf.iter() {
            let (name, case) = (entries[x.entry].name, json!({"type": entries[x.entry].name, "value": String::from_utf8_lossy(&x.input)}));
            cx.check(x.held.text() == x.text && x.held.debug() == x.debug, "as before after use by several threads", &format!("{name} changed by its users"), &case, || clip(&x.held.text(), 400));
        }
    }
    interleavings(cx, "uses", marks);
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

/// What each call comes to as the first one a process makes. No call has been made in this process yet.
fn firsts(ops: &[Op]) -> Vec<String> {
    use std::os::fd::FromRawFd;
    let mut out = vec![];
    for window in ops.chunks(8) {
        let mut going = vec![];
        for op in window {
            let mut fds = [0i32; 2];
            // SAFETY: the child makes one call, writes what came of it and ends there
            let pid = unsafe {
                assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
                fork()
            };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe { alarm(60) };
                let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                let done = f.write_all(op.outcome().as_bytes()).is_ok();
                unsafe { _exit(if done { 0 } else { 9 }) };
            }
            let (r, w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
            drop(w);
            going.push((pid, r));
        }
        for (pid, mut r) in going {
            let mut t = String::new();
            let read = r.read_to_string(&mut t);
            let mut status = 0;
            unsafe { waitpid(pid, &mut status, 0) };
            out.push(if status == 0 && read.is_ok() { t } else { format!("the process ended with status {status}") });
        }
    }
    out
}

/// Single calls, each compared with what it comes to as the first call of a process of its own:
/// over and over, in pairs, and in walks over all of them, on one thread and on several at once.
pub fn singles(cx: &mut Cx, sp: &Spec) {
    let seed = cx.seed;
    let light = std::env::var_os("MCPMON_LIGHT").is_some();
    let ops = super::ops::table(sp, seed);
    let first: Vec<String> = if light { ops.iter().map(|o| o.outcome()).collect() } else { firsts(&ops) };
    let mut families: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (k, o) in ops.iter().enumerate() {
        cx.eval("a call as the first of a process", &json!(o.what));
        families.entry(o.family).or_default().push(k);
        // it ends, whatever it comes to
        if first[k].starts_with("the process ended") || first[k].starts_with("panic") {
            cx.fail(&format!("{}: a call on its own brings its process down", o.family), first[k].clone(), json!({"call": o.what}));
        }
    }
    for (f, l) in &families {
        cx.add(&format!("calls of the family {f}"), l.len() as u64);
    }
    let (again, walk) = (cx.n(60, 400), cx.n(1500, 60_000));
    // the tasks: what it is, and the calls in their order
    type Walk = (&'static str, Vec<usize>);
    let mut walks: Vec<Walk> = vec![];
    for (k, o) in ops.iter().enumerate() {
        let times = match o.family {
            "tables" | "readings" | "messages" | "names" => again / 5,
            _ => again,
        };
        walks.push(("made over and over", vec![k; times.max(3)]));
    }
    for l in families.values() {
        let mut r = Rng::derive(seed, &format!("C24 walks {}", l.len()));
        if l.len() <= 130 {
            for a in l {
                walks.push(("made in pairs", l.iter().flat_map(|b| [*a, *b]).collect()));
            }
        }
        for _ in 0..2 {
            walks.push(("made at random with others of its family", (0..walk).map(|_| *r.pick(l)).collect()));
        }
    }
    for i in 0..6 {
        let mut r = Rng::derive(seed, &format!("C24 long walk {i}"));
        walks.push(("made at random with all others", (0..walk).map(|_| r.below(ops.len())).collect()));
    }
    for in_line in [true, false] {
        // one thread alone for a part of them, then all of them on all threads
        let lanes = if in_line { 1 } else { THREADS };
        let next = AtomicUsize::new(0);
        let part: Vec<&Walk> = walks.iter().enumerate().filter(|(i, _)| !in_line || (i * 7 + seed as usize) % 5 == 0).map(|w| w.1).collect();
        type Out = (BTreeMap<&'static str, u64>, Vec<(&'static str, usize, String, Option<usize>)>);
        let outs: Vec<Out> = std::thread::scope(|t| {
            let lanes: Vec<_> = (0..lanes)
                .map(|_| {
                    let (next, part, ops, first) = (&next, &part, &ops, &first);
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(t, move || {
                            let (mut count, mut wrong) = (BTreeMap::<&'static str, u64>::new(), vec![]);
                            while let Some((how, steps)) = part.get(next.fetch_add(1, Ordering::Relaxed)) {
                                let mut last = None;
                                for k in steps {
                                    let o = ops[*k].outcome();
                                    if o != first[*k] && wrong.len() < 200 {
                                        wrong.push((*how, *k, o, last));
                                    }
                                    last = Some(*k);
                                }
                                *count.entry(how).or_default() += steps.len() as u64;
                            }
                            (count, wrong)
                        })
                        .unwrap()
                })
                .collect();
            lanes.into_iter().map(|l| l.join().expect("a thread of single calls")).collect()
        });
        let place = if in_line { "on one thread" } else { "on several threads" };
        for (count, wrong) in outs {
            for (how, n) in count {
                cx.evals += n;
                cx.add(&format!("calls {how}, {place}"), n);
            }
            for (how, k, o, last) in wrong {
                let o0 = &first[k];
                let at = o.bytes().zip(o0.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(60);
                let tail = |t: &str| clip(&String::from_utf8_lossy(&t.as_bytes()[at.min(t.len())..]), 300);
                cx.fail(
                    &format!("{}: a call comes to something else when {how}, {place}", ops[k].family),
                    format!("…{} instead of …{}", tail(&o), tail(o0)),
                    json!({"call": ops[k].what, "the call before": last.map(|l| ops[l].what.clone())}),
                );
            }
        }
    }
}

pub fn apart(cx: &mut Cx, sp: &Spec) {
    singles(cx, sp);
    shared(cx, sp);
    replays(cx, sp);
}
