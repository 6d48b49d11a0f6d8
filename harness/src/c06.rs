//! C06: a buffer never blocks its source and passes everything on in order.
use crate::common::*;
use pipeawesome2::buffer::{Buffer, BufferSizeMessage};

fn setup(out_size: usize) -> (Buffer, Sender<IOData>, Receiver<IOData>, Receiver<BufferSizeMessage>) {
    let mut b = Buffer::new();
    b.set_stdout_size(out_size);
    let (itx, irx) = bounded(1);
    check(b.add_input(Pull::Receiver(pj(2, 3), irx), 0).is_ok(), "input refused");
    let out = match b.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } };
    let m = b.add_buffer_size_monitor();
    (b, itx, out, m)
}

/// Order, completion and size reports for every interleaving.
fn order(n: usize, delays: usize) {
    expect("done"); expect("waited");
    let data = upto_messages(n);
    let (mut b, itx, out, mon) = setup(1);
    budget(delays, 0);
    let sent = Cell::new(0usize);
    let taken = Cell::new(0usize);
    let prod = async {
        for d in &data { dawdle().await; check(itx.send(IOData(d.clone())).await.is_ok(), "the buffer stopped reading"); sent.set(sent.get() + 1); }
        dawdle().await;
        itx.close();
    };
    let cons = async {
        let mut v = vec![];
        loop { dawdle().await; match out.recv().await { Ok(IOData(d)) => { v.push(d); taken.set(v.len()); } Err(_) => return v } }
    };
    let sizes = async {
        let mut last = 0;
        let mut n_rep = 0;
        while let Ok(BufferSizeMessage(s)) = mon.recv().await {
            // the end-of-input marker travels through the buffer as well
            check(s <= sent.get() + 1, "a reported size exceeds what was accepted");
            check(s != last, "consecutive size reports are equal");
            last = s;
            n_rep += 1;
            dawdle().await;
        }
        if n_rep > 0 { check(last == 0, "the size did not return to zero"); }
        n_rep
    };
    let run = async move { let r = b.start(None).await; r };
    let (_, r, got, reports) = { let ((a, b), (c, d)) = block_on(join(join(prod, run), join(cons, sizes))); (a, b, c, d) };
    check(r.is_ok(), "a buffer without faults failed");
    check(same_list(&got, &data), "messages delivered differ from messages accepted");
    if reports > 1 { cover("waited") }
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c06_order() { order(3, 3); }
#[no_mangle]
pub extern "C" fn t_c06_order() { order(5, 4); }

/// The receiver is stalled: the source is never blocked for good, and the size follows.
fn stalled(n: usize, accepted: usize, delays: usize) {
    rounds_limit(400 + 20 * n);
    expect("done");
    let data = messages(n);
    let k = choice("accepted", accepted + 1);
    let watch = choice("watched", 2);
    let (mut b, itx, out, mon) = setup(1);
    let mon = if watch == 1 { Some(mon) } else { drop(mon); None };
    if mon.is_none() { b = { let mut nb = Buffer::new(); nb.set_stdout_size(1); let (a, c) = bounded(1); let _ = nb.add_input(Pull::Receiver(pj(2, 3), c), 0); drop(itx); return stalled2(nb, a, &data, k, delays) } }
    budget(delays, 0);
    let last = Cell::new(0usize);
    let finished = Cell::new(false);
    let prod = async {
        let s = produce(itx, &data).await;
        check(s == data.len(), "the buffer refused messages");
        // let the reports catch up, then look at the last size
        for _ in 0..40 { yield_now().await; }
        let held = last.get();
        // accepted: n messages and the end marker; passed on: k received, one in the channel, one being written
        check(held >= n - k - 2 && held <= n + 1 - k, "the reported size is not the number of messages held");
        finished.set(true);
    };
    let cons = async {
        let mut v = vec![];
        while v.len() < k { match out.recv().await { Ok(IOData(d)) => v.push(d), Err(_) => break } }
        while !finished.get() { yield_now().await; }
        while let Ok(IOData(d)) = out.recv().await { v.push(d) }
        v
    };
    let sizes = async { while let Ok(BufferSizeMessage(s)) = mon.as_ref().unwrap().recv().await { last.set(s); } };
    let run = async move { b.start(None).await };
    let ((_, r), (got, _)) = block_on(join(join(prod, run), join(cons, sizes)));
    check(r.is_ok(), "a buffer without faults failed");
    check(same_list(&got, &data), "messages delivered differ from messages accepted");
    check(last.get() == 0, "the size did not return to zero");
    cover("done");
}
fn stalled2(mut b: Buffer, itx: Sender<IOData>, data: &[Vec<u8>], k: usize, delays: usize) {
    expect("unwatched");
    let out = match b.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } };
    budget(delays, 0);
    let finished = Cell::new(false);
    let prod = async { let s = produce(itx, data).await; check(s == data.len(), "the buffer refused messages"); finished.set(true); };
    let cons = async {
        let mut v = vec![];
        while v.len() < k { match out.recv().await { Ok(IOData(d)) => v.push(d), Err(_) => break } }
        while !finished.get() { yield_now().await; }
        while let Ok(IOData(d)) = out.recv().await { v.push(d) }
        v
    };
    let run = async move { b.start(None).await };
    let ((_, r), got) = block_on(join(join(prod, run), cons));
    check(r.is_ok(), "a buffer without faults failed");
    check(same_list(&got, data), "messages delivered differ from messages accepted");
    cover("unwatched");
}
#[no_mangle]
pub extern "C" fn h_c06_stalled() { stalled(20, 2, 1); }
/// More messages than any channel of the program could hold.
#[no_mangle]
pub extern "C" fn h_c06_many() { stalled(70000, 1, 0); }
#[no_mangle]
pub extern "C" fn t_c06_many() { stalled(200000, 1, 0); }
#[no_mangle]
pub extern "C" fn t_c06_stalled() { stalled(40, 5, 2); }
