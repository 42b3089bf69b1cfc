//! Deterministic simulation runtime: a seeded scheduler over real threads, simulated blocking,
//! clock, entropy and CPU count, fork-per-run isolation, replay and minimisation.
#![feature(thread_local)]
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

pub mod arena;
pub mod interpose;
pub mod json;
pub mod raw;
pub mod rng;
pub mod runner;
pub mod sched;

pub use rng::Rng;

#[global_allocator]
static ALLOCATOR: arena::Arena = arena::Arena;
pub use sched::*;
