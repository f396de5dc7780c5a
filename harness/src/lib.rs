//! Harness library: generators, models and checks for varlen.
#![allow(clippy::all, dead_code)]

#[macro_use]
pub mod track;
pub mod alloc;
pub mod src;
pub mod value;
#[macro_use]
pub mod elem;
#[macro_use]
pub mod modeled;
#[macro_use]
pub mod types;
pub mod iters;
pub mod probe;
pub mod state;
pub mod refusal;
pub mod world;
pub mod cases;
pub mod run;
pub mod main_loop;

#[global_allocator]
static GLOBAL: alloc::Checking = alloc::Checking;
