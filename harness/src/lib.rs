#[macro_use]
pub mod runner;
pub mod builder;
pub mod interp;
pub mod model;
pub mod props;
pub mod refs;
