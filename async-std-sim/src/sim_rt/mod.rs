//! The deterministic runtime that replaces async-global-executor, async-io, async-process, blocking threads,
//! std::fs files and the standard streams.
#![allow(missing_docs, missing_debug_implementations)]

mod entry;
pub mod exec;
pub mod process;
pub mod stdfs;
pub mod stdstream;

use simcore::world::with;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

/// Same observable behaviour as `async_io::Timer`: ready on the first poll at or after its deadline.
#[derive(Debug)]
pub struct Timer {
    id: u64,
}
impl Timer {
    pub fn after(d: Duration) -> Timer {
        let ns = d.as_nanos().min(u64::MAX as u128 / 4) as u64;
        Timer { id: with(|w| w.timer_new(ns)) }
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        with(|w| w.timer_drop(self.id))
    }
}
impl Future for Timer {
    type Output = Instant;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Instant> {
        let id = self.id;
        if with(|w| w.timer_poll(id, cx.waker())) {
            Poll::Ready(Instant::now())
        } else {
            Poll::Pending
        }
    }
}

/// A simulated system call: costs time, during which the rest of the world moves on.
pub(crate) fn syscall(ent: u32) {
    let d = with(|w| w.op_cost(ent));
    with(|w| w.advance(d));
    exec::pump();
}
