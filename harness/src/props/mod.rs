use crate::cx::Cx;
use crate::spec::Spec;
mod apart;
mod conv;
mod batch;
#[cfg(not(feature = "ga"))]
mod caps;
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
mod elicit;
mod errors;
mod extra;
#[cfg(feature = "gc")]
mod input;
mod messages;
mod ops;
#[cfg(feature = "gc")]
mod older;
#[cfg(feature = "gb")]
mod tasks;
mod tools;
mod total;
mod types;
mod versions;

pub use apart::before;

pub fn run(prop: &str, cx: &mut Cx, sp: &Spec) {
    match prop {
        "C01" => types::round_trip(cx, sp),
        "C03" => types::rejects(cx, sp),
        "C04" => types::unions(cx, sp),
        "C10" => errors::errors(cx, sp),
        #[cfg(not(feature = "ga"))]
        "C09" => caps::gating(cx, sp),
        "C14" => tools::tools(cx, sp),
        #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
        "C15" => elicit::properties(cx, sp),
        "C08" => {
            conv::conversions(cx, sp);
            messages::taken(cx, sp);
            extra::plain(cx, sp)
        }
        "C19" => conv::names(cx, sp),
        "C22" => conv::members(cx, sp),
        "C11" => versions::versions(cx),
        #[cfg(feature = "gc")]
        "C17" => input::metadata(cx, sp),
        #[cfg(feature = "gc")]
        "C18" => input::flow(cx, sp),
        #[cfg(feature = "gc")]
        "C23" => older::unmarked(cx, sp),
        #[cfg(feature = "gb")]
        "C21" => tasks::tasks(cx, sp),
        "C16" => {
            total::deep(cx, sp);
            total::total(cx, sp)
        }
        "C24" => apart::apart(cx, sp),
        "C12" => batch::ids(cx, sp),
        "C13" => batch::batches(cx, sp),
        "C05" => {
            messages::classify(cx, sp);
            extra::handshake(cx, sp)
        }
        "C06" => messages::round_trip(cx, sp),
        "C07" => {
            messages::construct(cx, sp);
            #[cfg(not(feature = "ga"))]
            extra::custom_built(cx, sp)
        }
        _ => std::process::exit(3),
    }
}
