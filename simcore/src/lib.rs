//! The simulated world: virtual clock, event queue, seeded decisions, simulated programs, pipes, files and
//! standard streams, fault plan and recorded history. Knows nothing about pipeawesome2 or async-std.
pub mod hist;
pub mod scenario;
pub mod shm;
pub mod world;
pub mod interpose;
