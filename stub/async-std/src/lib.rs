//! A model of the parts of async-std that a pipeline program uses.
//!
//! Channels are the real `async-channel` crate and the buffered writer and
//! read/write extension traits are the real `futures` ones.  Files, standard
//! streams, child processes and timers live in a virtual world (`sx`) that
//! the harness sets up; when they are ready, how many bytes move at once and
//! where they fail are symbolic choices.

pub mod channel { pub use async_channel::*; }
pub mod sx;
pub mod fs;
pub mod io;
pub mod process;
pub mod task;
pub mod future;
pub mod prelude;
pub mod path { pub use std::path::*; }
pub mod stream { pub use futures::stream::*; pub use futures::stream::Stream; }
pub mod sync { pub use std::sync::*; pub use futures::lock::Mutex; }
