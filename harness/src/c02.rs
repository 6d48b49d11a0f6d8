//! C02: a link moves every message once, in order, and closes after the last.
use crate::common::*;
use async_std::process::{Command, Stdio};
use std::collections::VecDeque;

fn link(n_max: usize, delays: usize) {
    for k in ["none", "read", "written"] { expect(k); }
    expect("blocked");
    let data = upto_messages(n_max);
    budget(delays, 0);
    let cin = 1 + choice("cap_in", 2);
    let mode = choice("monitor", 3);
    let (itx, irx) = bounded(cin);
    let (otx, orx) = bounded(1);
    let (mtx, mrx) = bounded::<MonitorMessage>(100);
    let mon = match mode { 0 => { drop(mtx); MotionNotifications::empty() } 1 => MotionNotifications::read(mtx), _ => MotionNotifications::written(mtx) };
    let br = breakable();
    let push = if choice("sender", 2) == 0 { Push::Sender(jn(3, Some(OutputPort::Out), 4, br), otx) } else { Push::IoSender(jn(3, Some(OutputPort::Out), 4, br), otx) };
    let l = motion(Pull::Receiver(pj(2, 3), irx), mon, None, push);
    let (sent, r, got) = block_on(join3(produce(itx, &data), l, collect(orx)));
    check(sent == data.len(), "the link stopped accepting input");
    check(same_list(&got, &data), "messages delivered differ from messages sent");
    match r { Ok(n) => check(n == data.len() + 1, "the count is not the number of reads"), Err(_) => check(false, "a link without faults failed") }
    let mut k = 0;
    while let Ok(m) = mrx.try_recv() { check(m == if mode == 1 { MonitorMessage::Read(0) } else { MonitorMessage::Wrote(0) }, "wrong kind of notification"); k += 1; }
    check(k == if mode == 0 { 0 } else { data.len() + 1 }, "notifications differ in number from reads");
    cover(["none", "read", "written"][mode]);
    if data.len() == 3 && sx::with(|w| w.delays) == 0 { cover("blocked") }
}
#[no_mangle]
pub extern "C" fn h_c02_link() { link(3, 2); }
#[no_mangle]
pub extern "C" fn t_c02_link() { link(5, 5); }

/// Messages of the same link read from a mock, including empty ones.
fn target(kind: usize) -> (Push, &'static str, Option<async_std::process::Child>) {
    let j = jn(5, None, 6, Breakable::Terminate);
    match kind {
        0 => (Push::File(j, async_std::io::BufWriter::new(block_on(async_std::fs::File::create("f")).unwrap())), "f", None),
        1 => (Push::Stdout(j, async_std::io::stdout()), sx::STDOUT, None),
        2 => (Push::Stderr(j, async_std::io::stderr()), sx::STDERR, None),
        _ => {
            sx::program("p", vec![sx::Step::ReadAll]);
            let mut c = Command::new("p").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            (Push::CmdStdin(j, c.stdin.take().unwrap()), "", Some(c))
        }
    }
}
fn written(name: &str) -> Vec<u8> {
    if name.is_empty() { sx::advance(0); sx::with(|w| w.procs[0].received.clone()) } else { sx::content(name) }
}

/// Partial writes to every kind of stream.
fn write(n: usize, len: usize, delays: usize, splits: usize) {
    for k in ["file", "stdout", "stderr", "program"] { expect(k); }
    let kind = choice("target", 4);
    let data: Vec<Vec<u8>> = (0..n).map(|_| upto("b", len)).collect();
    let (push, name, _c) = target(kind);
    if kind == 3 { sx::with(|w| w.pipe_capacity = 2); }
    budget(delays, splits);
    let q: VecDeque<IOData> = data.iter().map(|d| IOData(d.clone())).collect();
    let r = block_on(motion(Pull::Mock(pj(4, 5), q), MotionNotifications::empty(), None, push));
    check(matches!(r, Ok(c) if c == n + 1), "the link failed or miscounted");
    check(same(&written(name), &flat(&data)), "bytes written differ from the messages");
    if kind == 3 { check(sx::with(|w| w.procs[0].saw_eof), "the program's input was not closed"); }
    else { check(sx::unflushed(name).is_empty(), "bytes were left unflushed"); }
    cover(["file", "stdout", "stderr", "program"][kind]);
}
#[no_mangle]
pub extern "C" fn h_c02_write() { write(2, 2, 1, 2); }
#[no_mangle]
pub extern "C" fn t_c02_write() { write(3, 3, 2, 3); }

/// A write or flush fault at any byte.
fn write_fault(n: usize, len: usize) {
    for k in ["write", "flush", "pipe", "clean"] { expect(k); }
    let kind = choice("target", 3);
    let data: Vec<Vec<u8>> = (0..n).map(|_| bytes("b", len)).collect();
    let (push, name, _c) = target(kind);
    let i = sx::file(name);
    let all = flat(&data);
    fault_kinds(&WRITE_KINDS);
    let mode = choice("fault", 3);
    let at = choice("at", all.len() + 1);
    sx::with(|w| match mode { 0 => w.files[i].write_error_at = Some(at), 1 => { w.files[i].write_error_at = Some(at); w.files[i].broken_pipe = true } _ => w.files[i].flush_error = true });
    budget(0, 1);
    let q: VecDeque<IOData> = data.iter().map(|d| IOData(d.clone())).collect();
    let j = jn(5, None, 6, Breakable::Terminate);
    let r = block_on(motion(Pull::Mock(pj(4, 5), q), MotionNotifications::empty(), None, push));
    let mut w = sx::content(name);
    w.extend(sx::unflushed(name));
    check(prefix(&w, &all), "bytes written are not a prefix of the messages");
    match r {
        Ok(c) => {
            check(mode != 2 && at >= all.len(), "a fault was swallowed");
            check(same(&sx::content(name), &all), "success reported but bytes are missing");
            check(c == n + 1, "wrong count");
            cover("clean");
        }
        Err(MotionError::WriteIOError(x, _, _, _)) => { check(mode == 0 && x == j, "wrong error or wrong link named"); cover("write"); }
        Err(MotionError::CloseIOError(x, _, _)) => { check(x == j, "wrong link named"); check(mode == 2 || (kind == 0 && at < all.len()), "close failed without a fault"); if mode == 2 { cover("flush") } }
        Err(MotionError::OutputClosed(x, _, OutputClosedReason::BrokenPipe, _)) => { check(mode == 1 && x == j, "wrong error or wrong link named"); cover("pipe"); }
        Err(_) => check(false, "wrong kind of error"),
    }
}
#[no_mangle]
pub extern "C" fn h_c02_write_fault() { write_fault(2, 2); }

/// A read fault at any byte.
#[no_mangle]
pub extern "C" fn h_c02_read_fault() {
    expect("fault"); expect("clean");
    let d = bytes("b", 4);
    let i = sx::add_file("f", d.clone());
    let at = choice("at", 6);
    fault_kinds(&READ_KINDS);
    if at < 5 { sx::with(|w| w.files[i].read_error_at = Some(at)); }
    budget(1, 2);
    let f = block_on(async_std::fs::File::open("f")).unwrap();
    let (otx, orx) = bounded(1);
    let br = breakable();
    let l = motion(Pull::File(pj(2, 3), f, ReadSplitControl::new()), MotionNotifications::empty(), None, Push::Sender(jn(3, None, 4, br), otx));
    let (r, got) = block_on(join(l, collect(orx)));
    let g = flat(&got);
    check(prefix(&g, &d), "delivered bytes are not a prefix of the input");
    match r {
        Ok(c) => { check(at >= 5, "a read fault was swallowed"); check(g.len() == 4 && c == got.len() + 1, "bytes lost"); cover("clean"); }
        Err(MotionError::ReadIOError(j, _, _)) => {
            check(at < 5 && j == pj(2, 3), "wrong link named");
            let whole = cut(&d[..at.min(4)]).into_iter().filter(|l| *l.last().unwrap() == b'\n').map(|l| l.len()).sum::<usize>();
            check(g.len() >= whole, "complete lines read before the fault were lost");
            cover("fault");
        }
        Err(_) => check(false, "wrong kind of error"),
    }
}

/// More messages than fit into anything on the way.
fn many(n: usize) {
    expect("channel"); expect("file");
    rounds_limit(20 * n);
    let mut data = many_messages(n);
    let at = [0, 1, n / 2, n - 1][choice("at", 4)];
    data[at] = vec![any_u8("m")];
    let to_file = choice("to", 2) == 1;
    let (itx, irx) = bounded(1 + choice("cap_in", 2) * 40);
    let (otx, orx) = bounded(1);
    let push = if to_file { target(0).0 } else { Push::Sender(jn(3, Some(OutputPort::Out), 4, breakable()), otx.clone()) };
    if to_file { otx.close(); } else { drop(otx) }
    let l = motion(Pull::Receiver(pj(2, 3), irx), MotionNotifications::empty(), None, push);
    let (sent, r, got) = block_on(join3(produce(itx, &data), l, collect(orx)));
    check(sent == n, "the link stopped accepting input");
    match r { Ok(c) => check(c == n + 1, "the count is not the number of reads"), Err(_) => check(false, "a link without faults failed") }
    if to_file { check(same(&written("f"), &flat(&data)), "messages delivered differ from messages sent"); cover("file"); }
    else { check(same_list(&got, &data), "messages delivered differ from messages sent"); cover("channel"); }
}
#[no_mangle]
pub extern "C" fn h_c02_many() { many(70000) }
#[no_mangle]
pub extern "C" fn t_c02_many() { many(200000) }
