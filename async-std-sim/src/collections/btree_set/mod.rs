//! The Rust B-Tree Set

mod extend;
mod from_stream;

#[doc(inline)]
pub use std::collections::BTreeSet;
