#![no_std]
pub use ::core::*;
pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic { pub use rt::atomic::*; }
}
pub mod hint {
    pub use ::core::hint::*;
    pub fn spin_loop() { rt::engine::yield_now() }
}
