//! Contracts of the public word and stack containers of `revmc-context` (C15).  No hook: everything here is public API.
#![allow(clippy::all)]

#[macro_use]
#[path = "../../support.rs"]
pub mod verif_support;

mod c15;
