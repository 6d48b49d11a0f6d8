use crate::sx;
use futures::io::{AsyncRead, AsyncWrite, AsyncSeek};
use std::io;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct File { i: usize, pos: usize, read: bool, write: bool }

fn name<P: AsRef<Path>>(p: P) -> String { p.as_ref().to_str().unwrap_or("?").to_string() }

async fn wait() {
    std::future::poll_fn(|cx| if sx::delay() { cx.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(()) }).await
}

impl File {
    pub async fn open<P: AsRef<Path>>(path: P) -> io::Result<File> { OpenOptions::new().read(true).open(path).await }
    pub async fn create<P: AsRef<Path>>(path: P) -> io::Result<File> { OpenOptions::new().write(true).create(true).truncate(true).open(path).await }
    pub async fn sync_all(&self) -> io::Result<()> { sx::flush(self.i) }
    pub async fn sync_data(&self) -> io::Result<()> { sx::flush(self.i) }
    pub async fn set_len(&self, n: u64) -> io::Result<()> { sx::with(|w| w.files[self.i].content.resize(n as usize, 0)); Ok(()) }
}
#[derive(Clone, Debug, Default)]
pub struct OpenOptions { read: bool, write: bool, append: bool, truncate: bool, create: bool, create_new: bool }
impl OpenOptions {
    pub fn new() -> OpenOptions { OpenOptions::default() }
    pub fn read(&mut self, b: bool) -> &mut OpenOptions { self.read = b; self }
    pub fn write(&mut self, b: bool) -> &mut OpenOptions { self.write = b; self }
    pub fn append(&mut self, b: bool) -> &mut OpenOptions { self.append = b; self }
    pub fn truncate(&mut self, b: bool) -> &mut OpenOptions { self.truncate = b; self }
    pub fn create(&mut self, b: bool) -> &mut OpenOptions { self.create = b; self }
    pub fn create_new(&mut self, b: bool) -> &mut OpenOptions { self.create_new = b; self }
    pub fn open<P: AsRef<Path>>(&self, path: P) -> impl std::future::Future<Output = io::Result<File>> + Send {
        let o = self.clone();
        let n = name(path);
        async move {
            wait().await;
            if n.is_empty() { return Err(io::Error::from(io::ErrorKind::NotFound)); }
            let i = sx::file(&n);
            let writes = o.write || o.append;
            if sx::with(|w| (writes && w.files[i].create_error) || (o.read && w.files[i].open_error)) { return Err(sx::fault(io::ErrorKind::PermissionDenied)); }
            sx::with(|w| {
                let f = &mut w.files[i];
                if f.exists && o.create_new { return Err(io::Error::from(io::ErrorKind::AlreadyExists)); }
                if !f.exists {
                    if !writes || !(o.create || o.create_new) { return Err(io::Error::from(io::ErrorKind::NotFound)); }
                    f.exists = true;
                }
                if writes {
                    f.created += 1;
                    if o.truncate { f.content.clear(); f.unflushed.clear(); }
                } else { f.opened += 1; }
                Ok(File { i, pos: 0, read: o.read, write: writes })
            })
        }
    }
}
impl Drop for File { fn drop(&mut self) { if self.write { let _ = sx::flush(self.i); } } }
impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if !self.read { return Poll::Ready(Err(io::Error::from(io::ErrorKind::PermissionDenied))); }
        if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
        let mut pos = self.pos;
        let r = sx::read_from(self.i, &mut pos, buf);
        self.pos = pos;
        Poll::Ready(r)
    }
}
impl AsyncWrite for File {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if !self.write { return Poll::Ready(Err(io::Error::from(io::ErrorKind::PermissionDenied))); }
        if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
        Poll::Ready(sx::write_to(self.i, buf))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
        Poll::Ready(sx::flush(self.i))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.poll_flush(cx) }
}
impl AsyncSeek for File {
    fn poll_seek(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, pos: io::SeekFrom) -> Poll<io::Result<u64>> {
        let len = sx::with(|w| w.files[self.i].content.len());
        let p = match pos { io::SeekFrom::Start(n) => n as i64, io::SeekFrom::End(n) => len as i64 + n, io::SeekFrom::Current(n) => self.pos as i64 + n };
        if p < 0 { return Poll::Ready(Err(io::Error::from(io::ErrorKind::InvalidInput))); }
        self.pos = std::cmp::min(p as usize, len);
        Poll::Ready(Ok(self.pos as u64))
    }
}
pub async fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    use futures::io::AsyncReadExt;
    let mut f = File::open(p).await?;
    let mut v = vec![];
    f.read_to_end(&mut v).await?;
    Ok(v)
}
pub async fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    String::from_utf8(read(p).await?).map_err(|_| io::Error::from(io::ErrorKind::InvalidData))
}
