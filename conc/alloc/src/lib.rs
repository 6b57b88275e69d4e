#![no_std]
extern crate alloc as real;
pub use real::*;
pub mod sync {
    pub use rt::sync::{Arc, Weak};
}
pub mod task { pub use ::core::task::*; }
