//! Monitors and workloads for the unicode-intervals crate. See /verif/DESIGN.md.
pub mod bitmap;
pub mod cats;
pub mod data;
pub mod gen;
pub mod golden;
pub mod iters;
pub mod mon;
pub mod names;
pub mod qry;
pub mod rng;
pub mod sets;
pub mod simple;
pub mod spec;
