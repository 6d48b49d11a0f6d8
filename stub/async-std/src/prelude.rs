pub use std::future::Future;
pub use crate::future::FutureExt;
pub use futures::stream::Stream;
pub use futures::stream::StreamExt;
pub use crate::io::{BufRead as _, Read as _, Write as _};
pub use crate::io::{BufReadExt as _, ReadExt as _, WriteExt as _};
