use crate::sx::{self, Proc, Spawned};
use futures::io::{AsyncRead, AsyncWrite};
use std::ffi::OsStr;
use std::future::Future;
use std::io;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::process::{ExitStatus, Output};
pub use sxstd::process::Stdio;

#[derive(Debug, Default)]
pub struct Command { s: Spawned, removed: Vec<String> }

fn st(o: &OsStr) -> String { o.to_str().unwrap_or("?").to_string() }
fn code(s: Stdio) -> u8 { match s { Stdio::Inherit => sx::INHERIT, Stdio::Null => sx::NULL, Stdio::Piped => sx::PIPED } }

impl Command {
    pub fn new<S: AsRef<OsStr>>(p: S) -> Command { Command { s: Spawned { program: st(p.as_ref()), ..Spawned::default() }, removed: vec![] } }
    pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command { self.s.args.push(st(a.as_ref())); self }
    pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Command { for x in a { self.arg(x); } self }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Command {
        let k = st(k.as_ref());
        self.s.envs.retain(|(x, _)| *x != k);
        self.s.envs.push((k, st(v.as_ref())));
        self
    }
    pub fn envs<I: IntoIterator<Item = (K, V)>, K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, v: I) -> &mut Command { for (k, v) in v { self.env(k, v); } self }
    pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Command { let k = st(k.as_ref()); self.s.envs.retain(|(x, _)| *x != k); self.removed.push(k); self }
    pub fn env_clear(&mut self) -> &mut Command { self.s.envs.clear(); self.s.env_clear = true; self }
    pub fn current_dir<P: AsRef<Path>>(&mut self, d: P) -> &mut Command { self.s.dir = d.as_ref().to_str().map(|x| x.to_string()); self }
    pub fn stdin<T: Into<Stdio>>(&mut self, c: T) -> &mut Command { self.s.stdin = code(c.into()); self }
    pub fn stdout<T: Into<Stdio>>(&mut self, c: T) -> &mut Command { self.s.stdout = code(c.into()); self }
    pub fn stderr<T: Into<Stdio>>(&mut self, c: T) -> &mut Command { self.s.stderr = code(c.into()); self }
    pub fn reap_on_drop(&mut self, _b: bool) -> &mut Command { self }
    pub fn kill_on_drop(&mut self, _b: bool) -> &mut Command { self }
    pub fn spawn(&mut self) -> io::Result<Child> {
        let info = self.s.clone();
        let steps = match sx::with(|w| w.programs.iter().find(|p| p.name == info.program && !p.spawn_error).map(|p| p.steps.clone())) { Some(s) => s, None => return Err(sx::fault(io::ErrorKind::NotFound)) };
        sx::with(|w| {
            let i = w.procs.len();
            let (a, b, c) = (info.stdin == sx::PIPED, info.stdout == sx::PIPED, info.stderr == sx::PIPED);
            w.procs.push(Proc {
                info, steps, pc: 0, stdin_pipe: vec![], stdin_open_w: a, stdin_open_r: true, out_pipe: vec![], out_open_w: true, out_open_r: b,
                err_pipe: vec![], err_open_w: true, err_open_r: c, received: vec![], saw_eof: false, lost_out: vec![], all_out: vec![], all_err: vec![], given_at: vec![], out_at: vec![], err_at: vec![], status: None, status_taken: 0, sub: 0, held: vec![],
            });
            Ok(Child {
                i,
                stdin: if a { Some(ChildStdin { i }) } else { None },
                stdout: if b { Some(ChildStdout { i }) } else { None },
                stderr: if c { Some(ChildStderr { i }) } else { None },
            })
        })
    }
    pub fn status(&mut self) -> impl Future<Output = io::Result<ExitStatus>> {
        let c = self.spawn();
        async move { let mut c = c?; c.status().await }
    }
}

#[derive(Debug)]
pub struct Child { i: usize, pub stdin: Option<ChildStdin>, pub stdout: Option<ChildStdout>, pub stderr: Option<ChildStderr> }
#[derive(Debug)]
pub struct ChildStdin { i: usize }
#[derive(Debug)]
pub struct ChildStdout { i: usize }
#[derive(Debug)]
pub struct ChildStderr { i: usize }

fn status_of(raw: i32) -> ExitStatus { std::os::unix::process::ExitStatusExt::from_raw(raw) }

impl Child {
    pub fn id(&self) -> u32 { self.i as u32 + 1000 }
    pub fn kill(&mut self) -> io::Result<()> { sx::with(|w| { let p = &mut w.procs[self.i]; if p.status.is_none() { p.status = Some(9); p.out_open_w = false; p.err_open_w = false; p.stdin_open_r = false; } }); Ok(()) }
    pub fn try_status(&mut self) -> io::Result<Option<ExitStatus>> {
        if !sx::delay() { sx::advance(self.i); }
        Ok(sx::with(|w| w.procs[self.i].status).map(status_of))
    }
    pub fn status(&mut self) -> impl Future<Output = io::Result<ExitStatus>> + Send {
        // like async-process: waiting for the program closes our end of its stdin
        drop(self.stdin.take());
        let i = self.i;
        std::future::poll_fn(move |cx| {
            if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
            sx::advance(i);
            if sx::with(|w| if w.wait_errors > 0 { w.wait_errors -= 1; true } else { false }) { return Poll::Ready(Err(sx::fault(io::ErrorKind::Interrupted))); }
            match sx::with(|w| { let s = w.procs[i].status; if s.is_some() { w.procs[i].status_taken += 1; } s }) {
                Some(s) => Poll::Ready(Ok(status_of(s))),
                None => { cx.waker().wake_by_ref(); Poll::Pending }
            }
        })
    }
    pub fn output(mut self) -> impl Future<Output = io::Result<Output>> {
        async move {
            use futures::io::AsyncReadExt;
            drop(self.stdin.take());
            let (mut o, mut e) = (vec![], vec![]);
            if let Some(mut x) = self.stdout.take() { x.read_to_end(&mut o).await?; }
            if let Some(mut x) = self.stderr.take() { x.read_to_end(&mut e).await?; }
            let status = self.status().await?;
            Ok(Output { status, stdout: o, stderr: e })
        }
    }
}
impl Drop for ChildStdin { fn drop(&mut self) { sx::with(|w| w.procs[self.i].stdin_open_w = false) } }
impl Drop for ChildStdout { fn drop(&mut self) { sx::with(|w| w.procs[self.i].out_open_r = false) } }
impl Drop for ChildStderr { fn drop(&mut self) { sx::with(|w| w.procs[self.i].err_open_r = false) } }

impl AsyncWrite for ChildStdin {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
        sx::advance(self.i);
        let (open, room) = sx::with(|w| (w.procs[self.i].stdin_open_r, w.pipe_capacity.saturating_sub(w.procs[self.i].stdin_pipe.len())));
        if !open { return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe))); }
        if buf.is_empty() { return Poll::Ready(Ok(0)); }
        if sx::pipe_fails(self.i, 0, sx::with(|w| w.procs[self.i].given_at.last().map_or(0, |x| x.1))) { return Poll::Ready(Err(sx::fault(io::ErrorKind::InvalidInput))); }
        if room == 0 { cx.waker().wake_by_ref(); return Poll::Pending; }
        let n = sx::amount(std::cmp::min(room, buf.len()));
        sx::with(|w| {
            let round = w.rounds;
            let p = &mut w.procs[self.i];
            p.stdin_pipe.extend_from_slice(&buf[..n]);
            let all = p.given_at.last().map_or(0, |x| x.1) + n;
            p.given_at.push((round, all));
        });
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { sx::with(|w| w.procs[self.i].stdin_open_w = false); Poll::Ready(Ok(())) }
}
macro_rules! child_out {
    ($t:ident, $n:expr, $pipe:ident, $open:ident, $all:ident) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                if sx::delay() { cx.waker().wake_by_ref(); return Poll::Pending; }
                sx::advance(self.i);
                let (have, open) = sx::with(|w| (w.procs[self.i].$pipe.len(), w.procs[self.i].$open));
                if sx::pipe_fails(self.i, $n, sx::with(|w| w.procs[self.i].$all.len()) - have) { return Poll::Ready(Err(sx::fault(io::ErrorKind::InvalidInput))); }
                if have == 0 {
                    if !open { return Poll::Ready(Ok(0)); }
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                let n = sx::amount(std::cmp::min(have, buf.len()));
                sx::with(|w| {
                    let p = &mut w.procs[self.i].$pipe;
                    buf[..n].copy_from_slice(&p[..n]);
                    p.drain(..n);
                });
                Poll::Ready(Ok(n))
            }
        }
    };
}
child_out!(ChildStdout, 1, out_pipe, out_open_w, all_out);
child_out!(ChildStderr, 2, err_pipe, err_open_w, all_err);
