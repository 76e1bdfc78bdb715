//! Analysis corpus: types whose compile-time metadata (the `SHAPE` constant that facet's
//! derive macro and built-in impls produce) is compared, inside the compiler, with what the
//! compiler itself knows about them.  Nothing in this crate is ever executed.
#![allow(dead_code, non_camel_case_types, unexpected_cfgs, clippy::all)]
pub mod builtin;
pub mod derived;
pub mod fmt_entry;
pub mod generated;
