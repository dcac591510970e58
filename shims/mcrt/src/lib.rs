//! mcrt: a small stateless model checker for real Rust code.
//!
//! * `rt`     - coroutines, controlled scheduler, bounded DFS, happens-before fingerprints
//! * `alloc`  - per-execution arena allocator (deterministic addresses, use-after-free shadow)
//! * `atomic`, `stdsync`, `pl`, `chan`, `epoch`, `time`, `thread`, `alock`, `event`, `fut`
//!            - the synchronization vocabulary the code under test is bound to
//!
//! Everything here assumes ONE OS thread per process (workers are processes).
#![allow(clippy::all, static_mut_refs)]

pub mod alloc;
pub mod alock;
pub mod atomic;
pub mod chan;
pub mod epoch;
pub mod event;
pub mod fut;
pub mod pl;
pub mod rt;
pub mod stdsync;
pub mod thread;
pub mod time;
