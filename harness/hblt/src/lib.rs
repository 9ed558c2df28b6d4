//! Contracts of the builtins (the run-time routines compiled code calls), on their real bodies.
//!
//! The postcondition of a builtin is relational: for every gas state, gas schedule, specification, static flag, word and
//! host answer it does what the instruction of the pinned revm-interpreter does - same host calls in the same order with the
//! same arguments, same result word, same gas, same requested action, same exit.  No hook: everything here is public API.
#![allow(clippy::all, static_mut_refs)]
#![cfg_attr(kani, feature(allocator_api))]

#[macro_use]
#[path = "../../support.rs"]
pub mod verif_support;

#[macro_use]
mod rel;
mod c14;
mod c08;
mod c19;
