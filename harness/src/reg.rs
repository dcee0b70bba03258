//! Type-erased access to the public types of the crate under test.
use crate::util::guard;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::fmt::Debug;

/// What was observed about one successfully parsed value.
#[derive(Clone)]
pub struct Obs {
    pub wire: Value,
    pub text: String,
    pub dbg: String,
    pub variant: Option<&'static str>,
    pub clone_wire: Value,
}

pub type ParseFn = Box<dyn Fn(Value) -> Result<Obs, String> + Send + Sync>;
pub type ParseStrFn = Box<dyn Fn(&str) -> Result<Obs, String> + Send + Sync>;
pub type ParseBytesFn = Box<dyn Fn(&[u8], u8) -> Result<Obs, String> + Send + Sync>;

/// A value held by several users at once.
pub trait Held: Send + Sync {
    fn debug(&self) -> String;
    fn write(&self, w: &mut dyn std::io::Write) -> serde_json::Result<()>;
    fn copy(&self) -> Box<dyn Held>;
    /// The printed form, if the type has one.
    fn print(&self, w: &mut dyn std::fmt::Write) -> Option<std::fmt::Result>;
    fn text(&self) -> String {
        let mut v = vec![];
        match self.write(&mut v) {
            Ok(()) => String::from_utf8_lossy(&v).into_owned(),
            Err(e) => format!("serialize: {e}"),
        }
    }
}
type PrintFn<T> = fn(&T, &mut dyn std::fmt::Write) -> std::fmt::Result;
struct Holder<T>(T, Option<PrintFn<T>>);
// SAFETY: whether the type may be shared is looked at first (`Entry::auto`); nobody shares one that may not be.
unsafe impl<T> Send for Holder<T> {}
unsafe impl<T> Sync for Holder<T> {}
impl<T: Serialize + Debug + Clone + 'static> Held for Holder<T> {
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn write(&self, w: &mut dyn std::io::Write) -> serde_json::Result<()> {
        serde_json::to_writer(w, &self.0)
    }
    fn copy(&self) -> Box<dyn Held> {
        Box::new(Holder(self.0.clone(), self.1))
    }
    fn print(&self, w: &mut dyn std::fmt::Write) -> Option<std::fmt::Result> {
        self.1.map(|f| f(&self.0, w))
    }
}
pub type HoldFn = Box<dyn Fn(&mut dyn std::io::Read) -> serde_json::Result<Box<dyn Held>> + Send + Sync>;

/// Whether a type may be sent to and shared between threads, asked without requiring it.
pub struct Ask<T>(std::marker::PhantomData<T>);
pub trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Otherwise for Ask<T> {}
impl<T: Send> Ask<T> {
    pub const SEND: bool = true;
}
impl<T: Sync> Ask<T> {
    pub const SYNC: bool = true;
}
macro_rules! entry {
    ($t:ty, $n:expr, $v:expr) => {{
        #[allow(unused_imports)]
        use crate::reg::Otherwise;
        crate::reg::Entry::new::<$t>($n, $v).auto(crate::reg::Ask::<$t>::SEND, crate::reg::Ask::<$t>::SYNC)
    }};
}
pub(crate) use entry;

pub struct Entry {
    pub name: &'static str,
    pub union: bool,
    pub auto: (bool, bool),
    /// Reads a value to be held.
    pub hold: HoldFn,
    /// Everything reading a text comes to, by serde and by the type's own parser.
    pub outcome: Box<dyn Fn(&str) -> String + Send + Sync>,
    pub parse: ParseFn,
    pub parse_str: ParseStrFn,
    /// mode 0: from_slice, 1: from_reader with tiny reads, 2: from a borrowed value, 3: inside an untagged type of the user's
    pub parse_bytes: ParseBytesFn,
}

/// A reader that hands out 1..=3 bytes at a time.
struct Dribble<'a>(&'a [u8], usize);
impl std::io::Read for Dribble<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.1 = self.1 % 3 + 1;
        let n = self.1.min(self.0.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// A user's own type around one of the crate's.
#[derive(serde::Deserialize)]
#[serde(untagged)]
enum Theirs<T> {
    One(T),
}

pub fn read<T: DeserializeOwned>(b: &[u8], mode: u8) -> serde_json::Result<T> {
    match mode {
        0 => serde_json::from_slice::<T>(b),
        1 => serde_json::from_reader::<&mut dyn std::io::Read, T>(&mut Dribble(b, 0)),
        2 => serde_json::from_slice::<Value>(b).and_then(|v| T::deserialize(&v)),
        _ => serde_json::from_slice::<Theirs<T>>(b).map(|Theirs::One(t)| t),
    }
}

fn observe<T: Serialize + Debug + Clone>(t: T, var: Option<fn(&T) -> &'static str>) -> Result<Obs, String> {
    let wire = serde_json::to_value(&t).map_err(|e| format!("serialize: {e}"))?;
    let text = serde_json::to_string(&t).map_err(|e| format!("serialize: {e}"))?;
    let dbg = format!("{t:?}");
    let variant = var.map(|f| f(&t));
    let c = t.clone();
    drop(t);
    let clone_wire = serde_json::to_value(&c).map_err(|e| format!("serialize: {e}"))?;
    Ok(Obs { wire, text, dbg, variant, clone_wire })
}

impl Entry {
    pub fn new<T: DeserializeOwned + Serialize + Debug + Clone + 'static>(
        name: &'static str,
        var: Option<fn(&T) -> &'static str>,
    ) -> Entry {
        Entry::with(name, var, None)
    }
    fn with<T: DeserializeOwned + Serialize + Debug + Clone + 'static>(
        name: &'static str,
        var: Option<fn(&T) -> &'static str>,
        print: Option<PrintFn<T>>,
    ) -> Entry {
        Entry {
            name,
            union: var.is_some(),
            auto: (false, false),
            hold: Box::new(move |r| Ok(Box::new(Holder(serde_json::from_reader::<_, T>(r)?, print)))),
            outcome: Box::new(move |t| {
                guard(|| match serde_json::from_str::<T>(t) {
                    Ok(v) => serde_json::to_string(&v).unwrap_or_else(|e| format!("serialize: {e}")),
                    Err(e) => format!("refused: {e}"),
                })
                .unwrap_or_else(|p| format!("panic: {p}"))
            }),
            parse: Box::new(move |v| {
                guard(|| observe(serde_json::from_value::<T>(v).map_err(|e| e.to_string())?, var)).and_then(|r| r)
            }),
            parse_str: Box::new(move |s| {
                guard(|| observe(serde_json::from_str::<T>(s).map_err(|e| e.to_string())?, var)).and_then(|r| r)
            }),
            parse_bytes: Box::new(move |b, mode| {
                guard(|| {
                    observe(read::<T>(b, mode).map_err(|e| e.to_string())?, var)
                })
                .and_then(|r| r)
            }),
        }
    }
    pub fn auto(mut self, send: bool, sync: bool) -> Entry {
        self.auto = (send, sync);
        self
    }
    pub fn printed<T: DeserializeOwned + Serialize + Debug + Clone + std::fmt::Display + std::str::FromStr<Err: Debug> + 'static>(name: &'static str) -> Entry {
        let e = Entry::with::<T>(name, None, Some(|t, w| write!(w, "{t}")));
        let by_serde = e.outcome;
        let outcome = Box::new(move |t: &str| {
            let own = guard(|| match t.parse::<T>() {
                Ok(v) => v.to_string(),
                Err(e) => format!("refused: {e:?}"),
            })
            .unwrap_or_else(|p| format!("panic: {p}"));
            format!("{}\n{own}", by_serde(t))
        });
        Entry { outcome, ..e }
    }
    pub fn shown<T: DeserializeOwned + Serialize + Debug + Clone + std::fmt::Display + 'static>(name: &'static str) -> Entry {
        let e = Entry::with::<T>(name, None, Some(|t, w| write!(w, "{t}")));
        let by_serde = e.outcome;
        let outcome = Box::new(move |t: &str| {
            let own = guard(|| serde_json::from_str::<T>(t).map(|v| v.to_string()).unwrap_or_default()).unwrap_or_else(|p| format!("panic: {p}"));
            format!("{}\n{own}", by_serde(t))
        });
        Entry { outcome, ..e }
    }
}
