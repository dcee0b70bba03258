//! The one protocol version this build observes.
macro_rules! version {
    ($feat:literal, $m:ident, $name:literal) => {
        #[cfg(feature = $feat)]
        pub use rust_mcp_schema::$m as s;
        #[cfg(feature = $feat)]
        pub use rust_mcp_schema::$m::schema_utils as u;
        #[cfg(feature = $feat)]
        pub const SPEC: &str = include_str!(concat!("../../spec/", $name, ".json"));
        #[cfg(feature = $feat)]
        pub const NAME: &str = $name;
    };
}
version!("v2024_11_05", mcp_2024_11_05, "2024_11_05");
version!("v2025_03_26", mcp_2025_03_26, "2025_03_26");
version!("v2025_06_18", mcp_2025_06_18, "2025_06_18");
version!("v2025_11_25", mcp_2025_11_25, "2025_11_25");
version!("v2026_07_28", mcp_2026_07_28, "2026_07_28");
version!("vdraft", mcp_draft, "draft");

pub fn group() -> char {
    match NAME {
        "2025_11_25" => 'B',
        "2026_07_28" | "draft" => 'C',
        _ => 'A',
    }
}
