//! A controlled scheduler with a simulated weak memory, and the atomics and Arc
//! that run on it.
pub mod atomic;
pub mod engine;
pub mod sync;
