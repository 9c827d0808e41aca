pub mod z3;
pub mod engine;
pub mod sym;
pub mod runner;
pub mod model;
pub mod traces;
pub mod chunks;
pub mod flow;
pub mod reduces;
pub use engine::{Sym, B, TRUE, FALSE};
pub use runner::{Case, Prop, note};
pub use sym::*;
pub mod nav;
pub mod spines;
pub mod merging;
pub mod colflow;
