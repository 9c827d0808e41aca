//! The interpreter of /repo with symbolic integers in its rows.
#![allow(warnings)]
pub mod bridge;
pub mod program;
include!(concat!(env!("OUT_DIR"), "/interactive/lib.rs"));
