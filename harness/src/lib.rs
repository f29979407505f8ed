pub mod dict;
#[macro_use]
pub mod engine;
#[macro_use]
pub mod coef;
pub mod model;
