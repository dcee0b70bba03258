//! Type-erased rows of the committed API tables (src/gen/tab_<ver>.rs).
use crate::ver::{s, u};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::fmt::Debug;

/// The chain of union members a value sits in, e.g. `Request/ClientRequest/CallToolRequest`.
pub trait VPath {
    fn vpath(&self) -> String;
}

/// `prefix` names the same union members as the front of `path`.
pub fn path_in(path: &str, prefix: &str) -> bool {
    path == prefix || path.starts_with(&format!("{prefix}/"))
}

fn ser<T: Serialize>(t: &T) -> Result<Value, String> {
    serde_json::to_value(t).map_err(|e| format!("serialize: {e}"))
}
fn de<T: DeserializeOwned>(v: Value) -> Result<T, String> {
    serde_json::from_value(v).map_err(|e| format!("deserialize: {e}"))
}

pub struct ConvObs {
    pub from_wire: Value,
    pub to_wire: Value,
    pub path: String,
}
/// `From<X> for Y`.
pub struct Conv {
    pub from: &'static str,
    pub to: &'static str,
    pub path: &'static str,
    pub run: Box<dyn Fn(Value) -> Result<ConvObs, String> + Send + Sync>,
}
impl Conv {
    pub fn new<X, Y>(from: &'static str, to: &'static str, path: &'static str, vp: fn(&Y) -> String) -> Conv
    where
        X: DeserializeOwned + Serialize + Clone + 'static,
        Y: From<X> + Serialize + 'static,
    {
        Conv {
            from,
            to,
            path,
            run: Box::new(move |v| {
                let x: X = de(v)?;
                let from_wire = ser(&x)?;
                let y = Y::from(x);
                Ok(ConvObs { from_wire, to_wire: ser(&y)?, path: vp(&y) })
            }),
        }
    }
}

pub struct TryObs {
    pub from_wire: Value,
    pub path: String,
    /// Ok(wire of the extracted value) or Err(wire of the error)
    pub out: Result<Value, Value>,
}
/// `TryFrom<X> for Y`.
pub struct TryConv {
    pub from: &'static str,
    pub to: &'static str,
    pub path: &'static str,
    pub run: Box<dyn Fn(Value) -> Result<TryObs, String> + Send + Sync>,
}
impl TryConv {
    pub fn new<X, Y>(from: &'static str, to: &'static str, path: &'static str, vp: fn(&X) -> String) -> TryConv
    where
        X: DeserializeOwned + Serialize + 'static,
        Y: TryFrom<X, Error = s::RpcError> + Serialize + 'static,
    {
        TryConv {
            from,
            to,
            path,
            run: Box::new(move |v| {
                let x: X = de(v)?;
                let from_wire = ser(&x)?;
                let path = vp(&x);
                let out = match Y::try_from(x) {
                    Ok(y) => Ok(ser(&y)?),
                    Err(e) => Err(ser(&e)?),
                };
                Ok(TryObs { from_wire, path, out })
            }),
        }
    }
}

pub type MsgOut = Result<Value, Value>;
/// `FromMessage<X> for ClientMessage/ServerMessage` and the matching `ToMessage`.
pub struct ToMsg {
    pub from: &'static str,
    pub to: &'static str,
    pub kind: &'static str,
    /// (wire of X, from_message result, to_message result)
    pub run: Box<dyn Fn(Value, Option<s::RequestId>) -> Result<(Value, MsgOut, Option<MsgOut>), String> + Send + Sync>,
}
impl ToMsg {
    #[allow(dead_code)]
    pub fn new<X, M>(
        from: &'static str,
        to: &'static str,
        kind: &'static str,
        tm: Option<fn(X, Option<s::RequestId>) -> Result<M, s::RpcError>>,
    ) -> ToMsg
    where
        X: DeserializeOwned + Serialize + Clone + 'static,
        M: u::FromMessage<X> + Serialize + 'static,
    {
        ToMsg {
            from,
            to,
            kind,
            run: Box::new(move |v, id| {
                let x: X = de(v)?;
                let w = ser(&x)?;
                let conv = |r: Result<M, s::RpcError>| -> Result<MsgOut, String> {
                    Ok(match r {
                        Ok(m) => Ok(ser(&m)?),
                        Err(e) => Err(ser(&e)?),
                    })
                };
                let a = conv(M::from_message(x.clone(), id.clone()))?;
                let b = match tm {
                    Some(f) => Some(conv(f(x, id))?),
                    None => None,
                };
                Ok((w, a, b))
            }),
        }
    }
}

/// `X::new(all public members of a parsed X)`.
pub struct New {
    pub name: &'static str,
    pub dropped: &'static [&'static str],
    /// (wire of the parsed value, wire of the constructed value)
    pub run: Box<dyn Fn(Value) -> Result<(Value, Value), String> + Send + Sync>,
}
impl New {
    pub fn new<X: DeserializeOwned + Serialize + 'static>(
        name: &'static str,
        dropped: &'static [&'static str],
        f: fn(&X) -> X,
    ) -> New {
        New {
            name,
            dropped,
            run: Box::new(move |v| {
                let x: X = de(v)?;
                let y = f(&x);
                Ok((ser(&x)?, ser(&y)?))
            }),
        }
    }
}

/// A getter of a fixed or stored wire member, and the static functions that name the fixed value.
pub struct Getter {
    pub name: &'static str,
    pub key: &'static str,
    pub run: Box<dyn Fn(Value) -> Result<(Value, Value), String> + Send + Sync>,
    pub statics: fn() -> Vec<Value>,
}
impl Getter {
    pub fn new<X: DeserializeOwned + Serialize + 'static>(
        name: &'static str,
        key: &'static str,
        f: fn(&X) -> Value,
        statics: fn() -> Vec<Value>,
    ) -> Getter {
        Getter {
            name,
            key,
            run: Box::new(move |v| {
                let x: X = de(v)?;
                Ok((f(&x), ser(&x)?))
            }),
            statics,
        }
    }
}

/// A closed set of strings: Display, FromStr, ordering and equality.
pub struct Printer {
    pub name: &'static str,
    /// wire string -> (Display, wire again, debug, clone's wire, Display with padding)
    pub run: Box<dyn Fn(&str) -> Result<(String, Value, String), String> + Send + Sync>,
    pub parse: Option<Box<dyn Fn(&str) -> Option<Value> + Send + Sync>>,
    /// equality consistency over a list of wires; returns a complaint
    pub laws: Box<dyn Fn(&[String]) -> Option<String> + Send + Sync>,
}
impl Printer {
    /// A list whose values cannot be compared: told apart by their debug form.
    #[allow(dead_code)]
    pub fn plain<X>(name: &'static str, fs: Option<fn(&str) -> Option<X>>) -> Printer
    where
        X: DeserializeOwned + Serialize + std::fmt::Display + Debug + Clone + 'static,
    {
        Printer::with::<X>(name, fs, |a, b| format!("{a:?}") == format!("{b:?}"))
    }
    pub fn new<X>(name: &'static str, fs: Option<fn(&str) -> Option<X>>) -> Printer
    where
        X: DeserializeOwned + Serialize + std::fmt::Display + Debug + Clone + PartialEq + 'static,
    {
        Printer::with::<X>(name, fs, |a, b| a == b)
    }
    fn with<X>(name: &'static str, fs: Option<fn(&str) -> Option<X>>, same: fn(&X, &X) -> bool) -> Printer
    where
        X: DeserializeOwned + Serialize + std::fmt::Display + Debug + Clone + 'static,
    {
        Printer {
            name,
            run: Box::new(|t| {
                let x: X = de(Value::String(t.to_string()))?;
                Ok((x.to_string(), ser(&x)?, format!("{x:?}")))
            }),
            parse: fs.map(|f| Box::new(move |t: &str| f(t).map(|x| ser(&x).unwrap_or(Value::Null))) as Box<dyn Fn(&str) -> Option<Value> + Send + Sync>),
            laws: Box::new(move |ws| {
                let xs: Vec<X> = ws.iter().filter_map(|w| de(Value::String(w.clone())).ok()).collect();
                for (i, a) in xs.iter().enumerate() {
                    for (j, b) in xs.iter().enumerate() {
                        if same(a, b) != (i == j) {
                            return Some(format!("equality of {} and {}", ws[i], ws[j]));
                        }
                    }
                    if !same(&a.clone(), a) {
                        return Some(format!("clone of {}", ws[i]));
                    }
                }
                None
            }),
        }
    }
}

pub type FieldOf<X> = fn(&X) -> Option<Value>;
/// The public members of a struct, each with the wire member it stands for (`*`: those the schema does not declare).
pub struct Field {
    pub name: &'static str,
    pub keys: Vec<&'static str>,
    /// (wire of the parsed value, each member's value)
    pub run: Box<dyn Fn(Value) -> Result<(Value, Vec<Option<Value>>), String> + Send + Sync>,
}
impl Field {
    pub fn new<X: DeserializeOwned + Serialize + 'static>(name: &'static str, rows: Vec<(&'static str, FieldOf<X>)>) -> Field {
        Field {
            name,
            keys: rows.iter().map(|r| r.0).collect(),
            run: Box::new(move |v| {
                let x: X = de(v)?;
                Ok((ser(&x)?, rows.iter().map(|r| (r.1)(&x)).collect()))
            }),
        }
    }
}
