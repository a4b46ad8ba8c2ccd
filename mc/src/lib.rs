#![allow(dead_code)]
pub mod checks;
pub mod explore;
pub mod meter;
pub mod model;
pub mod real;
pub mod sealed;
pub mod spaces;
