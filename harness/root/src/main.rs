//! What one combination of versions offers: every version's module under its own name, and at the crate root the one of
//! the three newest that is on. One JSON line per observation: what, whether it held, what was seen.
#![allow(unused_imports, unused_macros, dead_code)]
use serde_json::{json, Value};
use std::any::TypeId;

fn see(what: &str, ok: bool, seen: Value) {
    println!("{}", json!({"what": what, "ok": ok, "seen": seen}));
}

/// the module of a version speaks that version
macro_rules! module {
    ($feat:literal, $m:ident, $latest:literal, $params:tt) => {
        #[cfg(feature = $feat)]
        {
            use rust_mcp_schema::$m as m;
            see(concat!(stringify!($m), " names its own version"), m::LATEST_PROTOCOL_VERSION == $latest, json!(m::LATEST_PROTOCOL_VERSION));
            see(concat!(stringify!($m), " names its JSON-RPC tag"), m::JSONRPC_VERSION == "2.0", json!(m::JSONRPC_VERSION));
            let w = json!({"name": "n", "inputSchema": {"type": "object"}});
            let t = serde_json::from_value::<m::Tool>(w.clone()).map(|t| serde_json::to_value(t).unwrap());
            see(concat!(stringify!($m), " reads and writes a tool"), t.as_ref().ok() == Some(&w), json!(format!("{t:?}")));
            let bad = serde_json::from_value::<m::Tool>(json!({"name": "n", "inputSchema": {"type": "string"}})).is_err();
            see(concat!(stringify!($m), " refuses a tool's other schema type"), bad, json!(bad));
            #[cfg(feature = "utils")]
            {
                let w = json!({"jsonrpc": "2.0", "id": 1, "method": "tools/list", "params": json!$params});
                use m::schema_utils::{ClientMessage, McpMessage};
                let r = serde_json::from_value::<ClientMessage>(w.clone());
                let kind = r.as_ref().is_ok_and(|r| r.is_request());
                let back = r.as_ref().ok().map(|r| serde_json::to_value(r).unwrap());
                see(concat!(stringify!($m), " reads and writes a request"), kind && back.as_ref() == Some(&w), json!(format!("{back:?}")));
            }
        }
    };
}

/// the root holds the very types of this version
macro_rules! root {
    ($feat:literal, $m:ident, $($T:ident)*; $($U:ident)*) => {
        #[cfg(feature = $feat)]
        {
            use rust_mcp_schema as r;
            see(concat!("the root speaks the version of ", stringify!($m)), r::LATEST_PROTOCOL_VERSION == r::$m::LATEST_PROTOCOL_VERSION, json!(r::LATEST_PROTOCOL_VERSION));
            $(
                let ok = TypeId::of::<r::$T>() == TypeId::of::<r::$m::$T>();
                see(concat!(stringify!($T), " at the root is that of ", stringify!($m)), ok, json!(std::any::type_name::<r::$T>()));
            )*
            #[cfg(feature = "utils")]
            {
                $(
                    let ok = TypeId::of::<r::schema_utils::$U>() == TypeId::of::<r::$m::schema_utils::$U>();
                    see(concat!("schema_utils::", stringify!($U), " at the root is that of ", stringify!($m)), ok, json!(std::any::type_name::<r::schema_utils::$U>()));
                )*
            }
        }
    };
}

fn main() {
    module!("v2024_11_05", mcp_2024_11_05, "2024-11-05", ({"cursor": "c"}));
    module!("v2025_03_26", mcp_2025_03_26, "2025-03-26", ({"cursor": "c"}));
    module!("v2025_06_18", mcp_2025_06_18, "2025-06-18", ({"cursor": "c"}));
    module!("v2025_11_25", mcp_2025_11_25, "2025-11-25", ({"cursor": "c"}));
    module!("v2026_07_28", mcp_2026_07_28, "2026-07-28", ({"cursor": "c", "_meta": {"io.modelcontextprotocol/protocolVersion": "2026-07-28", "io.modelcontextprotocol/clientCapabilities": {}}}));
    module!("vdraft", mcp_draft, "2026-07-28", ({"cursor": "c", "_meta": {"io.modelcontextprotocol/protocolVersion": "2026-07-28", "io.modelcontextprotocol/clientCapabilities": {}}}));
    root!("v2025_11_25", mcp_2025_11_25, RequestId Tool CallToolResult ClientCapabilities ServerCapabilities InitializeRequest ElicitResult Task ContentBlock;
        ClientMessage ServerMessage MessageFromClient MessageFromServer ClientMessages ServerMessages SdkError CallToolError RpcErrorCodes);
    root!("v2026_07_28", mcp_2026_07_28, RequestId Tool CallToolResult ClientCapabilities ServerCapabilities DiscoverRequest ElicitResult InputRequests ContentBlock;
        ClientMessage ServerMessage MessageFromClient MessageFromServer ClientMessages ServerMessages SdkError CallToolError);
    root!("vdraft", mcp_draft, RequestId Tool CallToolResult ClientCapabilities ServerCapabilities DiscoverRequest ElicitResult InputRequests ContentBlock;
        ClientMessage ServerMessage MessageFromClient MessageFromServer ClientMessages ServerMessages SdkError CallToolError);
    use rust_mcp_schema::ProtocolVersion as P;
    see("versions do not depend on what is on", P::latest().to_string() == "2026-07-28" && P::supported_versions(false).len() == 5, json!(P::supported_versions(true).iter().map(|v| v.to_string()).collect::<Vec<_>>()));
}
