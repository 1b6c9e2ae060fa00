//! Property checks for barcoders: reference models, generators, engine.
pub mod dict;
pub mod engine;
pub mod fuzz;
pub mod gen;
pub mod meter;
pub mod model;
pub mod props;
pub mod real;
