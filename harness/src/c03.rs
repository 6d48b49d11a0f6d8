//! C03: pipe variations decide what happens when a receiver closes early.
use crate::common::*;
use crate::world::*;

/// One link between two channels; the receiver closes after `k` messages.
fn link(n: usize, delays: usize) {
    for k in ["terminate", "finish", "consume", "late"] { expect(k); }
    let br = breakable();
    let data = messages(n);
    let k = choice("accepted", n);
    budget(delays, 0);
    let (itx, irx) = bounded(1);
    let (otx, orx) = bounded(1);
    let j = jn(3, Some(OutputPort::Out), 4, br);
    let l = motion(Pull::Receiver(pj(2, 3), irx), MotionNotifications::empty(), None, Push::Sender(j, otx));
    let (sent, r, got) = block_on(join3(produce(itx, &data), l, collect_some(orx, k)));
    check(same_list(&got, &data[..k]), "messages accepted before the receiver closed were not delivered");
    // a channel of one may have taken one more message than was received
    let must = n > k + 1;
    match (br, r) {
        (Breakable::Terminate, Err(MotionError::OutputClosed(x, _, OutputClosedReason::ChannelClosed, IOData(d)))) => {
            check(x == j, "wrong link named");
            check(same(&d, &data[k]) | (k + 1 < n && same(&d, &data[(k + 1).min(n - 1)])), "the error does not carry the message that could not be delivered");
            cover("terminate");
        }
        (Breakable::Terminate, Ok(c)) => { check(!must && c == n + 1, "a Terminate link ended without an error"); cover("late"); }
        (Breakable::Finish, Ok(c)) => { check(c <= n + 1 && (!must || c <= k + 2), "a Finish link went on after its receiver closed"); if must { cover("finish"); } }
        (Breakable::Consume, Ok(c)) => { check(c == n + 1 && sent == n, "a Consume link stopped reading before its input ended"); cover("consume"); }
        _ => check(false, "wrong result for this pipe variation"),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_link() { link(3, 3); }
#[no_mangle]
pub extern "C" fn t_c03_link() { link(5, 5); }

/// A program that stops reading: OS pipe receiver, every variation.
fn pipe(n: usize, delays: usize) {
    for k in ["terminate", "finish", "consume"] { expect(k); }
    let br = breakable();
    let data = messages(n);
    let k = choice("reads", n + 1);
    let mut steps: Vec<sx::Step> = (0..k).map(|_| sx::Step::Read).collect();
    if choice("how", 2) == 0 { steps.push(sx::Step::CloseIn); steps.push(sx::Step::Exit(0)); } else { steps.push(sx::Step::Exit(0)); }
    sx::program("p", steps);
    let mut ch = async_std::process::Command::new("p").stdin(async_std::process::Stdio::piped()).spawn().unwrap();
    budget(delays, 0);
    let (itx, irx) = bounded(1);
    let j = jn(3, None, 4, br);
    let l = motion(Pull::Receiver(pj(2, 3), irx), MotionNotifications::empty(), None, Push::CmdStdin(j, ch.stdin.take().unwrap()));
    let (sent, r) = block_on(join(produce(itx, &data), l));
    sx::advance(0);
    let got = sx::with(|w| w.procs[0].received.clone());
    check(prefix(&got, &flat(&data)), "the program received something else");
    check(got.len() >= k.min(n), "messages accepted before the program closed its input were not delivered");
    match (br, r) {
        (Breakable::Terminate, Err(MotionError::OutputClosed(x, _, OutputClosedReason::BrokenPipe, IOData(d)))) => {
            check(x == j, "wrong link named");
            check(got.len() < n && same(&d, &data[got.len()]), "the error does not carry the undelivered message");
            cover("terminate");
        }
        (Breakable::Terminate, Ok(c)) => check(c == n + 1 && k + 1 >= n, "a Terminate link ended without an error"),
        (Breakable::Finish, Ok(c)) => { check(c <= n + 1, "count"); if c < n + 1 { cover("finish"); } }
        (Breakable::Consume, Ok(c)) => { check(c == n + 1 && sent == n, "a Consume link stopped reading before its input ended"); cover("consume"); }
        _ => check(false, "wrong result for this pipe variation"),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_pipe() { pipe(3, 2); }

/// Whole components whose receiver closes early.
fn component(n: usize, delays: usize) {
    for c in ["faucet", "regulator", "buffer", "junction"] { for b in ["terminate", "finish", "consume"] { expect(&format!("{} {}", c, b)); } }
    let br = breakable();
    let kind = choice("component", 4);
    let data: Vec<Vec<u8>> = (0..n).map(|_| vec![text_bytes("m", 1)[0], b'\n']).collect();
    let k = choice("accepted", n - 1);
    let mut c = Comp::new(kind, &data, 1);
    let out = rx(c.output(br, 3, 4));
    budget(delays, 0);
    let (itx, irx) = bounded(1);
    if kind != 0 { c.input(Pull::Receiver(pj(2, 3), irx)); } else { drop(irx) }
    let p = async { if kind == 0 { drop(itx); n } else { produce(itx, &data).await } };
    let (sent, r, got) = block_on(join3(p, c.run(), collect_some(out, k)));
    check(same_list(&got, &data[..k]), "messages accepted before the receiver closed were not delivered");
    let must = n > k + 1;
    let name = ["faucet", "regulator", "buffer", "junction"][kind];
    match (br, r) {
        (Breakable::Terminate, Err(MotionError::OutputClosed(x, _, _, IOData(d)))) => {
            check((x.src, x.dst) == (3, 4), "wrong link named");
            let mut one = false;
            for m in &data[k..] { one |= same(&d, m); }
            check(one, "the error does not carry an undelivered message");
            cover(&format!("{} terminate", name));
        }
        (Breakable::Terminate, Ok(_)) => check(!must, "ended without an error although its receiver closed"),
        (Breakable::Finish, Ok(_)) => { if must { cover(&format!("{} finish", name)); } }
        (Breakable::Consume, Ok(_)) => { check(sent == n, "stopped reading before its input ended"); cover(&format!("{} consume", name)); }
        _ => check(false, "wrong result for this pipe variation"),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_component() { component(4, 2); }
#[no_mangle]
pub extern "C" fn t_c03_component() { component(5, 4); }

/// A Finish component ends although its input never ends.
#[no_mangle]
pub extern "C" fn h_c03_finish_open() {
    for c in ["regulator", "buffer", "junction"] { expect(c); }
    let kind = 1 + choice("component", 3);
    let data = messages(6);
    let k = choice("accepted", 2);
    let mut c = Comp::new(kind, &data, 1);
    let out = rx(c.output(Breakable::Finish, 3, 4));
    budget(2, 0);
    let (itx, irx) = bounded(1);
    c.input(Pull::Receiver(pj(2, 3), irx));
    let keep = RefCell::new(vec![]);
    let (_s, r, got) = block_on(join3(produce_open(itx, &data, &keep), c.run(), collect_some(out, k)));
    check(same_list(&got, &data[..k]), "messages accepted before the receiver closed were not delivered");
    check(r.is_ok(), "a Finish component failed");
    cover(["", "regulator", "buffer", "junction"][kind]);
}

/// A launch, one of whose ports is read by a receiver that closes.
fn launched(n: usize, delays: usize) {
    for p in ["out", "err", "exit"] { for b in ["terminate", "finish", "consume", "delivered"] { expect(&format!("{} {}", p, b)); } }
    let br = breakable();
    let which = choice("port", 3);
    let name = ["out", "err", "exit"][which];
    let mut steps = vec![];
    let mut data = vec![];
    for i in 0..n { let m = vec![b'a' + i as u8, b'\n']; if which == 0 { steps.push(sx::Step::Out(m.clone())); data.push(m); } else if which == 1 { steps.push(sx::Step::Err(m.clone())); data.push(m); } }
    steps.push(sx::Step::Exit(7));
    if which == 2 { data = vec![b"7".to_vec()]; }
    sx::program("p", steps);
    let k = choice("accepted", data.len() + 1);
    let mut l = launch(3, "p");
    let out = rx(match l.add_output([OutputPort::Out, OutputPort::Err, OutputPort::Exit][which], br, 3, 4) { Ok(p) => p, Err(_) => { check(false, "refused"); end() } });
    budget(delays, 0);
    let (r, got) = block_on(join(async { let r = l.start(None).await; drop(l); r }, collect_some(out, k)));
    check(same_list(&got, &data[..k]), "messages accepted before the receiver closed were not delivered");
    let all = k == data.len();
    // one more message may already be in the channel when the receiver closes
    let must = data.len() > k + 1;
    match (br, r) {
        (Breakable::Terminate, Err(MotionError::OutputClosed(x, _, _, IOData(d)))) => {
            check(!all && (x.src, x.dst) == (3, 4), "wrong link named");
            check(data[k..].iter().any(|m| same(m, &d)), "the error does not carry an undelivered message");
            cover(&format!("{} terminate", name));
        }
        (Breakable::Terminate, Ok(_)) => { check(!must, "ended without an error although its receiver closed"); if all { cover(&format!("{} delivered", name)); } }
        (Breakable::Finish, Ok(_)) => cover(&format!("{} finish", name)),
        (Breakable::Consume, Ok(_)) => { check(sx::with(|w| w.procs[0].status == Some(7 << 8)), "a program whose output is consumed was disturbed"); cover(&format!("{} consume", name)); }
        _ => check(false, "wrong result for this pipe variation"),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_launch() { launched(4, 1); }
#[no_mangle]
pub extern "C" fn t_c03_launch() { launched(4, 2); }

/// The receiver closes somewhere in a long stream.
fn many(n: usize) {
    for k in ["terminate", "finish", "consume"] { expect(k); }
    rounds_limit(20 * n);
    let br = breakable();
    let kind = choice("component", 4);
    let data = many_lines(n);
    let k = [0, 1, 8, 9, n / 3, n - 10][choice("accepted", 6)];
    let mut c = Comp::new(kind, &data, 8);
    let out = rx(c.output(br, 3, 4));
    let (itx, irx) = bounded(8);
    if kind != 0 { c.input(Pull::Receiver(pj(2, 3), irx)); } else { drop(irx) }
    let p = async { if kind == 0 { drop(itx); n } else { produce(itx, &data).await } };
    let (sent, r, got) = block_on(join3(p, c.run(), collect_some(out, k)));
    check(same_list(&got, &data[..k]), "messages accepted before the receiver closed were not delivered");
    match (br, r) {
        (Breakable::Terminate, Err(MotionError::OutputClosed(x, _, _, IOData(d)))) => {
            check((x.src, x.dst) == (3, 4), "wrong link named");
            check((k..n).any(|i| same(&d, &data[i]) && i <= k + 9), "the error does not carry the message that could not be delivered");
            cover("terminate");
        }
        (Breakable::Finish, Ok(_)) => cover("finish"),
        (Breakable::Consume, Ok(_)) => { check(sent == n, "stopped reading before its input ended"); cover("consume"); }
        _ => check(false, "wrong result for this pipe variation"),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_many() { many(700) }

/// Several receivers of one junction, each with its own variation, each closing when it likes or not at all.
fn mixed(outs: usize, n: usize, ks: &[usize]) {
    for c in ["error", "ended early", "read to the end"] { expect(c) }
    let data = messages(3);
    let data: Vec<Vec<u8>> = (0..n).map(|i| if i < 3 { data[i].clone() } else { vec![i as u8] }).collect();
    let mut j = pipeawesome2::junction::Junction::new();
    j.set_stdout_size(1);
    let (itx, irx) = bounded(1);
    check(j.add_input(Pull::Receiver(pj(2, 3), irx), 0).is_ok(), "input refused");
    let (mut brs, mut k, mut rxs) = (vec![], vec![], vec![]);
    for i in 0..outs {
        let b = breakable();
        brs.push(b);
        k.push(match ks.get(choice("accepted", ks.len() + 1)) { Some(k) => *k, None => n });
        match j.add_output(OutputPort::Out, b, 3, 20 + i) { Ok(p) => rxs.push(rx(p)), Err(_) => { check(false, "output refused"); end() } }
    }
    let kk = k.clone();
    let cols = join_all(rxs.into_iter().enumerate().map(|(i, r)| { let k = kk[i]; async move { if k == n { collect(r).await } else { collect_some(r, k).await } } }));
    let run = async move { j.start(None).await };
    let (sent, r, got) = block_on(join3(produce(itx, &data), run, cols));
    let broken = (0..outs).any(|i| brs[i] == Breakable::Terminate && k[i] < n);
    let unwanted = (0..outs).all(|i| brs[i] == Breakable::Finish && k[i] < n);
    for i in 0..outs {
        check(prefix_list(&got[i], &data), "a receiver got something else than the messages in order");
        check(broken || got[i].len() == k[i], "a receiver did not get what it was ready to accept");
    }
    match r {
        Err(MotionError::OutputClosed(x, ..)) => { check(broken && x.dst >= 20 && brs[x.dst - 20] == Breakable::Terminate && k[x.dst - 20] < n, "an error although every Terminate receiver stayed, or the wrong link named"); cover("error"); }
        Ok(c) => {
            check(!broken, "no error although a Terminate receiver closed");
            if unwanted { check(c <= k.iter().max().unwrap() + 4 && sent < n, "a junction went on although nobody was left to receive"); cover("ended early"); }
            else { check(c == n + 1 && sent == n, "a junction stopped reading although somebody still received, or wants it to consume"); cover("read to the end"); }
        }
        _ => check(false, "wrong result"),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_mixed() { mixed(3, 14, &[0, 1, 4]); }
#[no_mangle]
pub extern "C" fn t_c03_mixed() { mixed(4, 14, &[0, 4]); }
