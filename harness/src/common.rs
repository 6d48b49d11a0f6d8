//! Things the harnesses share.
#![allow(dead_code)]
pub use async_std::channel::{bounded, unbounded, Receiver, Sender, TryRecvError};
pub use async_std::sx;
pub use async_std::task::{block_on, block_on_quiet, yield_now};
pub use futures::future::{join, join3, join_all, BoxFuture};
pub use pipeawesome2::connectable::{Breakable, Connectable, ConnectableAddInputError, ConnectableAddOutputError, InputPort, OutputPort};
pub use pipeawesome2::motion::*;
pub use pipeawesome2::startable_control::StartableControl;
pub use sxrt::*;
pub use std::cell::{Cell, RefCell};
pub use std::rc::Rc;
pub use std::future::Future;
pub use std::pin::Pin;

pub type Local<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

/// Sets the budgets of environment nondeterminism.
pub fn budget(delays: usize, splits: usize) { sx::with(|w| { w.delays = delays; w.splits = splits; }) }

/// Gives way an arbitrary number of times (within the delay budget).
pub async fn dawdle() { while sx::delay() { yield_now().await } }

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= a[i] == b[i]; }
    ok
}
pub fn prefix(a: &[u8], b: &[u8]) -> bool { a.len() <= b.len() && same(a, &b[..a.len()]) }

/// `n` symbolic bytes
pub fn bytes(tag: &str, n: usize) -> Vec<u8> { (0..n).map(|_| any_u8(tag)).collect() }
/// up to `max` symbolic bytes
pub fn upto(tag: &str, max: usize) -> Vec<u8> { let n = choice("len", max + 1); bytes(tag, n) }
/// printable bytes that are not line ends
pub fn text_bytes(tag: &str, n: usize) -> Vec<u8> { (0..n).map(|_| range_u8(tag, 33, 126)).collect() }

/// One-byte messages with symbolic content.
pub fn messages(n: usize) -> Vec<Vec<u8>> { (0..n).map(|_| vec![any_u8("m")]).collect() }
pub fn upto_messages(max: usize) -> Vec<Vec<u8>> { let n = choice("messages", max + 1); messages(n) }

pub fn breakable() -> Breakable { match choice("breakable", 3) { 0 => Breakable::Terminate, 1 => Breakable::Finish, _ => Breakable::Consume } }
pub fn jn(src: usize, port: Option<OutputPort>, dst: usize, breakable: Breakable) -> Journey { Journey { src, src_port: port, dst, breakable } }
pub fn pj(src: usize, dst: usize) -> PullJourney { PullJourney { src, dst } }

/// Sends every message, with arbitrary pauses, then closes.  Returns how many were accepted.
pub async fn produce(tx: Sender<IOData>, data: &[Vec<u8>]) -> usize {
    let mut n = 0;
    for d in data {
        dawdle().await;
        if tx.send(IOData(d.clone())).await.is_err() { return n; }
        n += 1;
    }
    dawdle().await;
    tx.close();
    n
}
/// As `produce`, but the input stays open for ever afterwards.
pub async fn produce_open(tx: Sender<IOData>, data: &[Vec<u8>], keep: &RefCell<Vec<Sender<IOData>>>) -> usize {
    let mut n = 0;
    for d in data {
        dawdle().await;
        if tx.send(IOData(d.clone())).await.is_err() { return n; }
        n += 1;
    }
    keep.borrow_mut().push(tx);
    n
}
pub fn rx(p: Pull) -> Receiver<IOData> { match p { Pull::Receiver(_, r) => r, _ => { check(false, "a component's output is not a channel"); end() } } }

/// Receives until the channel is closed, with arbitrary pauses.
pub async fn collect(rx: Receiver<IOData>) -> Vec<Vec<u8>> {
    let mut v = vec![];
    loop {
        dawdle().await;
        match rx.recv().await { Ok(IOData(d)) => v.push(d), Err(_) => return v }
    }
}
/// Receives up to `k` messages, then closes the channel by dropping it.
pub async fn collect_some(rx: Receiver<IOData>, k: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while v.len() < k {
        dawdle().await;
        match rx.recv().await { Ok(IOData(d)) => v.push(d), Err(_) => return v }
    }
    dawdle().await;
    v
}
pub fn same_list(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= same(&a[i], &b[i]); }
    ok
}
pub fn prefix_list(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool { a.len() <= b.len() && same_list(a, &b[..a.len()]) }
pub fn flat(a: &[Vec<u8>]) -> Vec<u8> { a.iter().flat_map(|x| x.iter().copied()).collect() }
/// The lines a byte stream consists of.  Forks on the terminators.
pub fn cut(d: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut cur = vec![];
    for b in d { cur.push(*b); if *b == b'\n' { r.push(std::mem::take(&mut cur)); } }
    if !cur.is_empty() { r.push(cur); }
    r
}
pub fn many_messages(n: usize) -> Vec<Vec<u8>> { (0..n).map(|i| vec![(i >> 8) as u8, i as u8, (i % 7) as u8]).collect() }
/// as lines of varying length
pub fn many_lines(n: usize) -> Vec<Vec<u8>> { (0..n).map(|i| { let mut l = format!("{}", i).into_bytes(); for _ in 0..i % 5 { l.push(b'x') } l.push(b'\n'); l }).collect() }
pub fn rounds_limit(n: usize) { sx::with(|w| w.max_rounds = n) }

// Faults of more than one kind. An interrupted call may be tried again, and a broken pipe is no fault of its own: neither is among them.
pub use std::io::ErrorKind as EK;
pub fn fault_kinds(k: &[EK]) { sx::with(|w| w.kinds = k.to_vec()) }
pub const READ_KINDS: [EK; 6] = [EK::InvalidInput, EK::UnexpectedEof, EK::ConnectionReset, EK::TimedOut, EK::IsADirectory, EK::Other];
pub const WRITE_KINDS: [EK; 6] = [EK::InvalidInput, EK::WriteZero, EK::StorageFull, EK::FileTooLarge, EK::PermissionDenied, EK::Other];
pub const OPEN_KINDS: [EK; 6] = [EK::PermissionDenied, EK::NotFound, EK::IsADirectory, EK::NotADirectory, EK::AlreadyExists, EK::Other];
