//! Types that pin data to its location in memory.
//!
//! For more documentation see [`std::pin`](https://doc.rust-lang.org/std/pin/index.html).

#[doc(inline)]
pub use std::pin::Pin;
