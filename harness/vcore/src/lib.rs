pub mod field;
pub mod gen;
pub mod model;
pub mod run;
pub use field::F;
