//! Version-independent parts of the monitors: they never see the code under test.
pub mod cx;
pub mod msgs;
pub mod spec;
pub mod util;
