//! The message API of both sides, seen through one shape whatever the protocol version.
use crate::msgs::{Kind, Side};
use crate::tab::VPath;
use crate::ver::{s, u};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use std::str::FromStr;
use u::{FromMessage, McpMessage, RpcMessage};

#[cfg(feature = "ga")]
pub use s::JsonrpcError as ErrEnv;
#[cfg(not(feature = "ga"))]
pub use s::JsonrpcErrorResponse as ErrEnv;

pub fn jv<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or_else(|e| json!({"serialize error": e.to_string()}))
}

/// Everything a message says about itself.
#[derive(Clone, Debug)]
pub struct MsgObs {
    pub wire: Value,
    pub display: String,
    pub dbg: String,
    pub path: String,
    pub flags: [bool; 4],
    pub mtype: String,
    pub id: Option<Value>,
    pub jsonrpc: String,
    pub method: Option<String>,
    pub methods_agree: bool,
    pub init: bool,
    pub initd: bool,
    /// as_request, as_notification, as_response, as_error
    pub as_kind: Vec<Result<Value, Value>>,
}

macro_rules! message {
    ($obs:ident, $M:ident, $init:expr, $initd:expr, $nm:expr) => {
        pub fn $obs(m: &u::$M) -> MsgObs {
            #[cfg(feature = "ga")]
            let (method, methods_agree) = match m {
                u::$M::Request(r) => (Some(r.method.clone()), r.request.method() == r.method),
                u::$M::Notification(n) => (Some(n.method.clone()), $nm(&n.notification).is_none_or(|m| m == n.method)),
                _ => (None, true),
            };
            #[cfg(not(feature = "ga"))]
            let (method, methods_agree) = {
                let a = RpcMessage::method(m).map(|x| x.to_string());
                let agree = match m {
                    u::$M::Request(r) => Some(r.method().to_string()) == a,
                    _ => true,
                };
                (a, agree)
            };
            MsgObs {
                wire: jv(m),
                display: m.to_string(),
                dbg: format!("{m:?}"),
                path: m.vpath(),
                flags: [m.is_request(), m.is_notification(), m.is_response(), m.is_error()],
                mtype: m.message_type().to_string(),
                id: RpcMessage::request_id(m).map(jv),
                jsonrpc: RpcMessage::jsonrpc(m).to_string(),
                method,
                methods_agree,
                init: $init(m),
                initd: $initd(m),
                as_kind: vec![
                    m.clone().as_request().map(|x| jv(&x)).map_err(|e| jv(&e)),
                    m.clone().as_notification().map(|x| jv(&x)).map_err(|e| jv(&e)),
                    m.clone().as_response().map(|x| jv(&x)).map_err(|e| jv(&e)),
                    m.clone().as_error().map(|x| jv(&x)).map_err(|e| jv(&e)),
                ],
            }
        }
    };
}
#[cfg(feature = "ga")]
fn ga_client_not_method(n: &u::NotificationFromClient) -> Option<String> {
    match n {
        u::NotificationFromClient::ClientNotification(n) => Some(n.method().to_string()),
        _ => None,
    }
}
message!(obs_client, ClientMessage, |m: &u::ClientMessage| m.is_initialize_request(), |m: &u::ClientMessage| m.is_initialized_notification(), ga_client_not_method);
message!(obs_server, ServerMessage, |_: &u::ServerMessage| false, |_: &u::ServerMessage| false, |n: &u::NotificationFromServer| Some(n.method().to_string()));

pub fn parse_msg(side: Side, v: Value) -> Result<MsgObs, String> {
    match side {
        Side::Client => serde_json::from_value::<u::ClientMessage>(v).map(|m| obs_client(&m)).map_err(|e| e.to_string()),
        Side::Server => serde_json::from_value::<u::ServerMessage>(v).map(|m| obs_server(&m)).map_err(|e| e.to_string()),
    }
}
/// 0: FromStr, 1: serde from text, then as `reg::read`: bytes, tiny reads, a borrowed value, inside a user's untagged type
pub const TEXT_FORMS: u8 = 6;
pub fn parse_msg_text(side: Side, t: &str, how: u8) -> Result<MsgObs, Value> {
    fn go<T: DeserializeOwned + FromStr<Err = s::RpcError>>(t: &str, how: u8) -> Result<T, Value> {
        match how {
            0 => t.parse::<T>().map_err(|e| jv(&e)),
            1 => serde_json::from_str(t).map_err(|e| json!(e.to_string())),
            _ => crate::reg::read(t.as_bytes(), how - 2).map_err(|e| json!(e.to_string())),
        }
    }
    match side {
        Side::Client => go::<u::ClientMessage>(t, how).map(|m| obs_client(&m)),
        Side::Server => go::<u::ServerMessage>(t, how).map(|m| obs_server(&m)),
    }
}

#[derive(Clone)]
pub struct EnvObs {
    pub wire: Value,
    pub display: String,
    pub dbg: String,
    pub path: String,
    pub jsonrpc: String,
    pub id: Option<Value>,
    pub method: Option<String>,
}
/// One of the per-kind envelope types (`ClientJsonrpcRequest`, …).
pub struct Env {
    pub name: &'static str,
    pub side: Side,
    pub kind: Kind,
    pub parse: Box<dyn Fn(Value) -> Result<EnvObs, String>>,
    pub from_str: Box<dyn Fn(&str) -> Result<EnvObs, Value>>,
    pub from_text: Box<dyn Fn(&str) -> Result<EnvObs, String>>,
}
fn env<T>(
    name: &'static str,
    side: Side,
    kind: Kind,
    path: fn(&T) -> String,
    jsonrpc: fn(&T) -> String,
    id: fn(&T) -> Option<Value>,
    method: fn(&T) -> Option<String>,
) -> Env
where
    T: DeserializeOwned + Serialize + Display + Debug + Clone + FromStr<Err = s::RpcError> + 'static,
{
    let obs = move |t: T| EnvObs {
        wire: jv(&t),
        display: t.clone().to_string(),
        dbg: format!("{t:?}"),
        path: path(&t),
        jsonrpc: jsonrpc(&t),
        id: id(&t),
        method: method(&t),
    };
    Env {
        name,
        side,
        kind,
        parse: Box::new(move |v| serde_json::from_value::<T>(v).map(obs).map_err(|e| e.to_string())),
        from_str: Box::new(move |t| t.parse::<T>().map(obs).map_err(|e| jv(&e))),
        from_text: Box::new(move |t| serde_json::from_str::<T>(t).map(obs).map_err(|e| e.to_string())),
    }
}

#[cfg(feature = "ga")]
macro_rules! rid {
    ($x:ident) => {
        Some(jv(&$x.id))
    };
}
#[cfg(not(feature = "ga"))]
macro_rules! rid {
    ($x:ident) => {
        Some(jv($x.request_id()))
    };
}
#[cfg(feature = "ga")]
macro_rules! meth {
    ($x:ident) => {
        Some($x.method.clone())
    };
}
#[cfg(not(feature = "ga"))]
macro_rules! meth {
    ($x:ident) => {
        Some($x.method().to_string())
    };
}
#[cfg(feature = "gb")]
macro_rules! server_not_method {
    ($x:ident) => {
        RpcMessage::method(&u::ServerMessage::Notification($x.clone())).map(|m| m.to_string())
    };
}
#[cfg(not(feature = "gb"))]
macro_rules! server_not_method {
    ($x:ident) => {
        meth!($x)
    };
}

pub fn envs() -> Vec<Env> {
    vec![
        env::<u::ClientJsonrpcRequest>("ClientJsonrpcRequest", Side::Client, Kind::Request, |x| x.vpath(), |x| x.jsonrpc().to_string(), |x| rid!(x), |x| meth!(x)),
        env::<u::ServerJsonrpcRequest>("ServerJsonrpcRequest", Side::Server, Kind::Request, |x| x.vpath(), |x| x.jsonrpc().to_string(), |x| rid!(x), |x| meth!(x)),
        env::<u::ClientJsonrpcNotification>("ClientJsonrpcNotification", Side::Client, Kind::Notification, |x| x.vpath(), |x| x.jsonrpc().to_string(), |_| None, |x| meth!(x)),
        env::<u::ServerJsonrpcNotification>("ServerJsonrpcNotification", Side::Server, Kind::Notification, |x| x.vpath(), |x| x.jsonrpc().to_string(), |_| None, |x| server_not_method!(x)),
        env::<u::ClientJsonrpcResponse>("ClientJsonrpcResponse", Side::Client, Kind::Response, |x| x.vpath(), |x| x.jsonrpc().to_string(), |x| Some(jv(&x.id)), |_| None),
        env::<u::ServerJsonrpcResponse>("ServerJsonrpcResponse", Side::Server, Kind::Response, |x| x.vpath(), |x| x.jsonrpc().to_string(), |x| Some(jv(&x.id)), |_| None),
        env::<ErrEnv>("JsonrpcError", Side::Client, Kind::Error, |_| "Error".into(), |x| x.jsonrpc().to_string(), |x| err_id(x), |_| None),
    ]
}
#[cfg(feature = "ga")]
pub fn err_id(x: &ErrEnv) -> Option<Value> {
    Some(jv(&x.id))
}
#[cfg(not(feature = "ga"))]
pub fn err_id(x: &ErrEnv) -> Option<Value> {
    x.id.as_ref().map(jv)
}
#[cfg(feature = "ga")]
pub fn err_new(e: s::RpcError, id: Option<s::RequestId>) -> Option<ErrEnv> {
    id.map(|id| ErrEnv::new(e, id))
}
#[cfg(not(feature = "ga"))]
pub fn err_new(e: s::RpcError, id: Option<s::RequestId>) -> Option<ErrEnv> {
    Some(ErrEnv::new(e, id))
}

/// A message taken apart into its payload (`MessageFromX`), as a sender would hold it.
pub struct Payload {
    pub wire: Value,
    pub path: String,
    pub flags: [bool; 4],
    pub mtype: String,
    pub init: bool,
    pub initd: bool,
    pub method: Option<String>,
}
pub struct Rebuilt {
    pub payload: Payload,
    pub from_message: Result<MsgObs, Value>,
    pub constructed: Option<MsgObs>,
}

#[cfg(feature = "ga")]
macro_rules! take_request {
    ($r:ident, $R:ident) => {
        $r.request
    };
}
#[cfg(not(feature = "ga"))]
macro_rules! take_request {
    ($r:ident, $R:ident) => {
        u::$R::from($r)
    };
}
#[cfg(feature = "ga")]
macro_rules! take_notification {
    ($r:ident, $R:ident) => {
        $r.notification
    };
}
#[cfg(not(feature = "ga"))]
macro_rules! take_notification {
    ($r:ident, $R:ident) => {
        u::$R::from($r)
    };
}

macro_rules! rebuild {
    ($f:ident, $pf:ident, $M:ident, $P:ident, $Req:ident, $Not:ident, $Res:path, $JReq:ident, $JNot:ident, $JRes:ident, $obs:ident, $rm:expr, $nm:expr, $init:expr, $initd:expr) => {
        pub fn $pf(v: Value) -> Result<(u::$P, Option<String>), String> {
            let m: u::$M = serde_json::from_value(v).map_err(|e| e.to_string())?;
            let mut method = None;
            let p: u::$P = match m {
                u::$M::Request(r) => {
                    let r: u::$Req = take_request!(r, $Req);
                    method = $rm(&r);
                    u::$P::from(r)
                }
                u::$M::Notification(n) => {
                    let n: u::$Not = take_notification!(n, $Not);
                    method = $nm(&n);
                    u::$P::from(n)
                }
                u::$M::Response(r) => u::$P::from(r.result),
                u::$M::Error(e) => u::$P::from(e.error),
            };
            Ok((p, method))
        }
        pub fn $f(v: Value, id: Option<s::RequestId>) -> Result<Rebuilt, String> {
            let (p, method) = $pf(v)?;
            let payload = Payload {
                wire: jv(&p),
                path: p.vpath(),
                flags: [p.is_request(), p.is_notification(), p.is_response(), p.is_error()],
                mtype: p.message_type().to_string(),
                init: $init(&p),
                initd: $initd(&p),
                method,
            };
            let from_message = u::$M::from_message(p.clone(), id.clone()).map(|m| $obs(&m)).map_err(|e| jv(&e));
            let constructed = match p {
                u::$P::$Req(r) => id.map(|id| u::$M::Request(u::$JReq::new(id, r))),
                u::$P::$Not(n) => Some(u::$M::Notification(u::$JNot::new(n))),
                $Res(r) => id.map(|id| u::$M::Response(u::$JRes::new(id, r))),
                u::$P::Error(e) => err_new(e, id).map(u::$M::Error),
            }
            .map(|m| $obs(&m));
            Ok(Rebuilt { payload, from_message, constructed })
        }
    };
}

#[cfg(feature = "ga")]
fn client_not_method(_: &u::NotificationFromClient) -> Option<String> {
    None
}
#[cfg(not(feature = "ga"))]
fn client_not_method(n: &u::NotificationFromClient) -> Option<String> {
    Some(n.method().to_string())
}
#[cfg(not(feature = "gc"))]
rebuild!(rebuild_server, payload_server, ServerMessage, MessageFromServer, RequestFromServer, NotificationFromServer, u::MessageFromServer::ResultFromServer,
    ServerJsonrpcRequest, ServerJsonrpcNotification, ServerJsonrpcResponse, obs_server,
    |r: &u::RequestFromServer| Some(r.method().to_string()), |n: &u::NotificationFromServer| Some(n.method().to_string()),
    |_: &u::MessageFromServer| false, |_: &u::MessageFromServer| false);
#[cfg(feature = "gc")]
rebuild!(rebuild_server, payload_server, ServerMessage, MessageFromServer, RequestFromServer, NotificationFromServer, u::MessageFromServer::ServerResult,
    ServerJsonrpcRequest, ServerJsonrpcNotification, ServerJsonrpcResponse, obs_server,
    |r: &u::RequestFromServer| Some(r.method().to_string()), |n: &u::NotificationFromServer| Some(n.method().to_string()),
    |_: &u::MessageFromServer| false, |_: &u::MessageFromServer| false);
rebuild!(rebuild_client, payload_client, ClientMessage, MessageFromClient, RequestFromClient, NotificationFromClient, u::MessageFromClient::ResultFromClient,
    ClientJsonrpcRequest, ClientJsonrpcNotification, ClientJsonrpcResponse, obs_client,
    |r: &u::RequestFromClient| Some(r.method().to_string()), client_not_method,
    |p: &u::MessageFromClient| p.is_initialize_request(), |p: &u::MessageFromClient| p.is_initialized_notification());

pub fn rebuild(side: Side, v: Value, id: Option<s::RequestId>) -> Result<Rebuilt, String> {
    match side {
        Side::Client => rebuild_client(v, id),
        Side::Server => rebuild_server(v, id),
    }
}
