//! The simulator: allocator, scheduler, random source, sinks, faults, plans. Contains no toppo code and is
//! compiled without edge callbacks.
pub mod rng;
pub mod plan;
pub mod alloc;
pub mod hooks;
pub mod ctx;
pub mod sched;
pub mod atomics;
pub mod fork;
pub mod driver;

pub use ctx::*;
pub use plan::{Plan, Op, Fault};
pub use rng::Rng;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;
