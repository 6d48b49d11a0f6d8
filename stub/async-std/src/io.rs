use crate::sx;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use futures::io::{AsyncRead as Read, AsyncWrite as Write, AsyncBufRead as BufRead, AsyncSeek as Seek};
pub use futures::io::{AsyncReadExt as ReadExt, AsyncWriteExt as WriteExt, AsyncBufReadExt as BufReadExt, AsyncSeekExt as SeekExt};
pub use futures::io::{BufReader, BufWriter, Cursor, copy, empty, sink, repeat};
pub use std::io::{Error, ErrorKind, Result, SeekFrom, IoSlice, IoSliceMut};
pub mod prelude { pub use super::{Read, Write, BufRead, Seek, ReadExt, WriteExt, BufReadExt, SeekExt}; }

#[derive(Debug)]
pub struct Stdin { pos: usize }
static mut STDIN_POS: usize = 0;
#[derive(Debug)]
pub struct Stdout {}
#[derive(Debug)]
pub struct Stderr {}
pub fn stdin() -> Stdin { Stdin { pos: unsafe { STDIN_POS } } }
pub fn stdout() -> Stdout { sx::file(sx::STDOUT); Stdout {} }
pub fn stderr() -> Stderr { sx::file(sx::STDERR); Stderr {} }
impl Read for Stdin {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
        let i = sx::file(sx::STDIN);
        let mut pos = self.pos;
        let r = sx::read_from(i, &mut pos, buf);
        self.pos = pos;
        unsafe { STDIN_POS = pos; }
        Poll::Ready(r)
    }
}
macro_rules! out {
    ($t:ident, $n:expr) => {
        impl Write for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
                if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
                Poll::Ready(sx::write_to(sx::file($n), buf))
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
                if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
                Poll::Ready(sx::flush(sx::file($n)))
            }
            fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { self.poll_flush(cx) }
        }
    };
}
out!(Stdout, sx::STDOUT);
out!(Stderr, sx::STDERR);
