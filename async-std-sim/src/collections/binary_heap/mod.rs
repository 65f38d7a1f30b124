//! The Rust priority queue implemented with a binary heap

mod extend;
mod from_stream;

#[doc(inline)]
pub use std::collections::BinaryHeap;
