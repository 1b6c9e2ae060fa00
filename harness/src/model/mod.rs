//! Reference models, independent of the code under test.
pub mod render;
pub mod sym;
pub mod tables;
pub mod xml;
