//! C07: regulators stop at the high watermark and restart at the low one.
use crate::common::*;
use pipeawesome2::buffer::Buffer;
use pipeawesome2::regulator::Regulator;
use pipeawesome2::waiter::{get_waiter, Waiter};

async fn settle() { for _ in 0..60 { yield_now().await; } }

/// A regulator and its control: any script of pause / resume requests.
fn script(n_ops: usize, n: usize, delays: usize) {
    expect("held"); expect("running"); expect("noop");
    let data = messages(n);
    let ops: Vec<usize> = (0..n_ops).map(|_| choice("op", 2)).collect();
    let mut r = Regulator::new();
    r.set_stdout_size(n + 1);
    let mut c = r.get_control();
    let (itx, irx) = bounded(1);
    check(r.add_input(Pull::Receiver(pj(2, 3), irx), 0).is_ok(), "input refused");
    let out = match r.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } };
    budget(delays, 0);
    let oper = async {
        let mut paused = false;
        for op in &ops {
            dawdle().await;
            if *op == 0 {
                let res = c.pause().await;
                if paused { check(matches!(res, Ok(false)), "a pause while paused did something"); cover("noop"); }
                paused = true;
                let base = out.len();
                for _ in 0..6 { yield_now().await; check(out.len() <= base + 1, "more than one message passed a paused regulator"); }
                if out.len() < n { cover("held") }
            } else {
                let res = c.resume().await;
                if !paused { check(matches!(res, Ok(false)), "a resume while running did something"); cover("noop"); }
                paused = false;
            }
        }
        if !paused { cover("running") }
        // a control that goes away does not hold anything back
        drop(c);
    };
    let run = async move { r.start(None).await };
    let ((sent, res), _) = block_on(join(join(produce(itx, &data), run), oper));
    check(sent == n, "the regulator stopped reading");
    check(matches!(res, Ok(_)), "a regulator without faults failed");
    let got = block_on(collect(out));
    check(same_list(&got, &data), "messages held back were lost, duplicated or reordered");
}
#[no_mangle]
pub extern "C" fn h_c07_script() { script(3, 4, 2); }
#[no_mangle]
pub extern "C" fn t_c07_script() { script(5, 5, 3); }

struct Watched { low: usize, high: usize, tx: Sender<IOData>, out: Receiver<IOData>, closed: bool, reopened: bool, passed_since: usize, probes: u8, got: u8 }

/// Watermarks: any history of sizes of the watched buffers.  All regulators watch all buffers.
fn watermark(nbuf: usize, steps: usize, marks: &[(usize, usize)]) {
    expect("closed"); expect("reopened"); expect("held"); expect("idle");
    let mut w = Waiter::new();
    let mut btx = vec![];
    let mut bout = vec![];
    let mut names = vec![];
    for i in 0..nbuf {
        let mut b = Buffer::new();
        b.set_stdout_size(1);
        let (t, r) = bounded(8);
        let _ = b.add_input(Pull::Receiver(pj(10 + i, 20 + i), r), 0);
        bout.push(match b.add_output(OutputPort::Out, Breakable::Terminate, 20 + i, 30 + i) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } });
        btx.push(t);
        let name = ["b0", "b1", "b2"][i].to_string();
        names.push(name.clone());
        w.add_buffer(name, b);
    }
    let mut regs = vec![];
    for (i, (low, high)) in marks.iter().enumerate() {
        let mut r = Regulator::new();
        r.set_stdout_size(20);
        let (tx, rrx) = bounded(20);
        let _ = r.add_input(Pull::Receiver(pj(2 + 2 * i, 3 + 2 * i), rrx), 0);
        let out = match r.add_output(OutputPort::Out, Breakable::Terminate, 3 + 2 * i, 40 + i) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
        let name = ["r", "s", "t"][i].to_string();
        w.add_regulator(name.clone(), r);
        check(w.configure_regulator(name, names.clone(), *low, *high), "configuration of the regulator refused");
        regs.push(Watched { low: *low, high: *high, tx, out, closed: false, reopened: false, passed_since: 0, probes: 0, got: 0 });
    }
    let script = async {
        let mut held = vec![0usize; nbuf]; // pushed - popped
        settle().await;
        for _ in 0..steps {
            let op = choice("step", 2 * nbuf + 1);
            if op < nbuf { let _ = btx[op].send(IOData(vec![1])).await; held[op] += 1; }
            else if op < 2 * nbuf { let i = op - nbuf; if held[i] > 0 { let _ = bout[i].recv().await; held[i] -= 1; } else { end() } }
            else { for r in &mut regs { let _ = r.tx.send(IOData(vec![r.probes])).await; r.probes += 1; } }
            settle().await;
            // one message is in the output channel, one is being written to it
            let total: usize = held.iter().map(|h| h.saturating_sub(2)).sum();
            for r in &mut regs {
                if !r.closed && total >= r.high { r.closed = true; r.passed_since = 0; cover("closed"); }
                if r.closed && total <= r.low { r.closed = false; r.reopened = true; cover("reopened"); }
                while let Ok(IOData(d)) = r.out.try_recv() {
                    check(d[0] == r.got, "messages held back were lost, duplicated or reordered");
                    r.got += 1;
                    if r.closed { r.passed_since += 1; }
                }
                if r.closed {
                    check(r.passed_since <= 1, "more than one message passed although the high watermark was reached");
                    if r.got < r.probes { cover("held"); }
                } else {
                    check(r.got == r.probes, "a message is held back although the low watermark was reached");
                    if r.reopened { cover("idle"); }
                }
            }
        }
        for r in &regs { r.tx.close(); }
        for t in &btx { t.close(); }
        // drain everything: the pipeline must end
        loop {
            let mut open = false;
            for b in &bout { match b.try_recv() { Ok(_) => open = true, Err(TryRecvError::Empty) => open = true, Err(_) => {} } }
            for r in &mut regs {
                match r.out.try_recv() {
                    Ok(IOData(d)) => { check(d[0] == r.got, "messages held back were lost, duplicated or reordered"); r.got += 1; open = true }
                    Err(TryRecvError::Empty) => open = true,
                    Err(_) => {}
                }
            }
            if !open { break; }
            yield_now().await;
        }
        for r in &regs { check(r.got == r.probes, "messages held back were lost"); }
    };
    sx::with(|w| w.max_rounds = 5000);
    let (res, _) = block_on(join(w.start(None), script));
    check(res.is_ok(), "failed");
}
fn marks(max_high: usize) -> (usize, usize) { let high = 1 + choice("high", max_high); (choice("low", high), high) }
#[no_mangle]
pub extern "C" fn h_c07_watermark() { watermark(1, 7, &[marks(2)]); }
#[no_mangle]
pub extern "C" fn h_c07_two() { watermark(2, 6, &[marks(1)]); }
/// two regulators watch the same buffer, each with its own marks
#[no_mangle]
pub extern "C" fn h_c07_shared() { watermark(1, 6, &[marks(2), (1, 2)]); }
#[no_mangle]
pub extern "C" fn t_c07_watermark() { watermark(1, 10, &[marks(3)]); }
#[no_mangle]
pub extern "C" fn t_c07_two() { watermark(2, 8, &[marks(2)]); }
#[no_mangle]
pub extern "C" fn t_c07_shared() { watermark(1, 8, &[marks(3), marks(2)]); }

/// Regulators as a configuration describes them: buffers behind a program that does not read yet.
fn configured(delays: usize) {
    use crate::conf::*;
    expect("held"); expect("free"); expect("other buffer");
    let (low, high) = marks(4);
    let low = if choice("equal", 2) == 1 { high } else { low };
    let backlog = [0, high - 1, high + 20, 60][choice("backlog", 4)];
    let watched: &[&str] = [&["b"][..], &["q"][..], &["b", "q"][..], &["q", "b"][..]][choice("watched", 4)];
    let n = 5;
    let mut c = Config::new();
    lines(&mut c, &["f:f b:b l:late d:x", "l:src r:r d:y", "f:g b:q d:z", "l:free r:s d:v"], Breakable::Terminate);
    with_faucet(&mut c, "f", "f");
    with_faucet(&mut c, "g", "g");
    for d in ["x", "y", "z", "v"] { with_drain(&mut c, d, d); }
    for l in ["late", "src", "free"] { with_launch(&mut c, l, l); }
    with_regulator(&mut c, "r", Some((low, high)), watched);
    sx::add_file("f", vec![b'\n'; backlog]);
    sx::add_file("g", vec![b'\n'; 3]);
    const RESUME: usize = 500;
    let feed = |from: usize| { let mut v = vec![sx::Step::Until(from)]; for i in 0..n { v.push(sx::Step::Out(vec![b'0' + i as u8, b'\n'])); } v };
    sx::program("late", vec![sx::Step::Until(RESUME), sx::Step::Cat]);
    sx::program("src", feed(250));
    sx::program("free", feed(250));
    rounds_limit(5000);
    sx::with(|w| w.pipe_capacity = 1);
    budget(delays, 0);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    // the drains write what they have when they end; what was let through is seen at their inputs
    let (stx, srx) = unbounded();
    let id = |w: &Waiter, t: CT, n: &str| (0..40).find(|i| w.id_to_component_type_name(i).map_or(false, |x| x.0 == t && x.1 == n)).unwrap_or(99);
    let (r, s) = (id(&w, CT::Regulator, "r"), id(&w, CT::Regulator, "s"));
    let watch = async {
        while async_std::task::rounds() < RESUME - 2 { yield_now().await; }
        let (mut a, mut b) = (0, 0);
        while let Ok(m) = srx.try_recv() { let m: SpyMessage = m; if let IODataWrapper::IOData(_) = m.msg { if m.src == r { a += 1 } if m.src == s { b += 1 } } }
        check(b == n, "a regulator without watermarks held something back");
        // the backlog: what is neither in the pipe, in the program's link, in channels nor being written
        if !watched.contains(&"b") { check(a == n, "a regulator was stopped by a buffer it does not watch"); cover("other buffer"); }
        else if backlog > high + 15 { check(a <= 1, "more than one message passed although the high watermark was reached"); cover("held"); }
        else if backlog + 3 < high || backlog == 0 { check(a == n, "a message is held back although the high watermark was not reached"); cover("free"); }
        while let Ok(_) = srx.recv().await {}
    };
    let (res, _) = block_on(join(w.start(Some(stx)), watch));
    check(res.is_ok(), "failed");
    check(sx::content("y") == b"0\n1\n2\n3\n4\n" && sx::content("v") == b"0\n1\n2\n3\n4\n", "messages held back were lost, duplicated or reordered");
    check(sx::content("x").len() == backlog && sx::content("z").len() == 3, "messages lost");
}
#[no_mangle]
pub extern "C" fn h_c07_configured() { configured(0) }
#[no_mangle]
pub extern "C" fn t_c07_configured() { configured(1) }

/// Much is held back at once.
#[no_mangle]
pub extern "C" fn h_c07_many() {
    expect("done");
    rounds_limit(50000);
    let n = 1200;
    let data = many_messages(n);
    let mut r = Regulator::new();
    let mut c = r.get_control();
    let (itx, irx) = bounded(n + 1);
    for d in &data { let _ = itx.try_send(IOData(d.clone())); }
    itx.close();
    check(r.add_input(Pull::Receiver(pj(2, 3), irx), 0).is_ok(), "input refused");
    let out = match r.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } };
    let every = [1, 10, 300][choice("every", 3)];
    let oper = async {
        let mut got = vec![];
        let mut next = 0;
        loop {
            if got.len() >= next { let _ = c.pause().await; for _ in 0..3 { yield_now().await; } let _ = c.resume().await; next = got.len() + every; }
            match out.recv().await { Ok(IOData(d)) => got.push(d), Err(_) => return got }
        }
    };
    let run = async move { r.start(None).await };
    let (res, got) = block_on(join(run, oper));
    check(matches!(res, Ok(_)), "a regulator without faults failed");
    check(same_list(&got, &data), "messages held back were lost, duplicated or reordered");
    cover("done");
}

/// Several watched buffers grow at the same time, with no time to look at one of them on its own.
#[no_mangle]
pub extern "C" fn h_c07_lockstep() {
    use crate::conf::*;
    for s in ["one", "two", "three"] { expect(s) }
    let nbuf = 1 + choice("buffers", 3);
    let high = [400, 600][choice("high", 2)];
    let n = 900;
    let mut links = vec!["f:f r:r j:j"];
    links.extend(&["j:j b:b0 l:s0 d:x", "j:j b:b1 l:s1 d:y", "j:j b:b2 l:s2 d:z"][..nbuf]);
    let mut c = Config::new();
    lines(&mut c, &links, Breakable::Terminate);
    with_faucet(&mut c, "f", "f");
    for d in ["x", "y", "z"] { with_drain(&mut c, d, d); }
    for l in ["s0", "s1", "s2"] { with_launch(&mut c, l, l); }
    let watched = ["b0", "b1", "b2"];
    with_regulator(&mut c, "r", Some(([0, high / 2][choice("low", 2)], high)), &watched[..nbuf]);
    sx::add_file("f", vec![b'\n'; n]);
    const RESUME: usize = 6000;
    for s in ["s0", "s1", "s2"] { sx::program(s, vec![sx::Step::Until(RESUME), sx::Step::Cat]); }
    rounds_limit(60000);
    sx::with(|w| w.pipe_capacity = 1);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let (stx, srx) = unbounded();
    let r = (0..40).find(|i| w.id_to_component_type_name(i).map_or(false, |x| x.0 == CT::Regulator)).unwrap_or(99);
    let watch = async {
        while async_std::task::rounds() < RESUME - 2 { yield_now().await; }
        let mut passed = 0;
        while let Ok(m) = srx.try_recv() { let m: SpyMessage = m; if let IODataWrapper::IOData(_) = m.msg { if m.src == r { passed += 1 } } }
        note(&format!("{} buffers, high {}: {} passed", nbuf, high, passed));
        // on their way are those in the channels, the pipes and the unread reports
        check(passed >= high / nbuf, "held back before the high watermark was reached");
        check(passed <= high / nbuf + 80, "the regulator went on although the high watermark was reached");
        while let Ok(_) = srx.recv().await {}
    };
    let (res, _) = block_on(join(w.start(Some(stx)), watch));
    check(res.is_ok(), "failed");
    for d in &["x", "y", "z"][..nbuf] { check(sx::content(d).len() == n, "messages lost"); }
    cover(["one", "two", "three"][nbuf - 1]);
}

/// One buffer, filled to just the high watermark and emptied to just the low one, whatever their magnitude.
fn exact(highs: &[usize]) {
    expect("held"); expect("free again");
    let high = highs[choice("high", highs.len())];
    let lows = [0, 1, high / 2, high - 1];
    let low = lows[choice("low", 4)];
    if low >= high { end() }
    rounds_limit(100 * high + 20000);
    let mut w = Waiter::new();
    let mut b = Buffer::new();
    b.set_stdout_size(1);
    let (btx, r) = bounded(8);
    let _ = b.add_input(Pull::Receiver(pj(10, 20), r), 0);
    let bout = match b.add_output(OutputPort::Out, Breakable::Terminate, 20, 30) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
    w.add_buffer("b".to_string(), b);
    let mut r = Regulator::new();
    r.set_stdout_size(50);
    let (tx, rrx) = bounded(20);
    let _ = r.add_input(Pull::Receiver(pj(2, 3), rrx), 0);
    let out = match r.add_output(OutputPort::Out, Breakable::Terminate, 3, 40) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
    w.add_regulator("r".to_string(), r);
    check(w.configure_regulator("r".to_string(), vec!["b".to_string()], low, high), "configuration of the regulator refused");
    let script = async {
        let rest = |n: usize| async move { for _ in 0..20 * n + 200 { yield_now().await; } };
        let probes = |from: u8| { let tx = tx.clone(); async move { for i in from..from + 3 { let _ = tx.send(IOData(vec![i])).await; } settle().await; } };
        // one message is in the output channel, one is being written to it
        for _ in 0..high + 1 { let _ = btx.send(IOData(vec![1])).await; }
        rest(high).await;
        probes(0).await;
        check(out.len() == 3, "a message is held back although the high watermark was not reached");
        let _ = btx.send(IOData(vec![1])).await;
        rest(10).await;
        probes(3).await;
        check(out.len() <= 4, "more than one message passed although the high watermark was reached");
        cover("held");
        for _ in 0..high - low - 1 { let _ = bout.recv().await; }
        rest(high).await;
        check(out.len() <= 4, "a message passed before the low watermark was reached");
        let _ = bout.recv().await;
        rest(10).await;
        check(out.len() == 6, "a message is held back although the low watermark was reached");
        cover("free again");
        btx.close();
        tx.close();
        while let Ok(_) = bout.recv().await {}
        for i in 0..6 { match out.recv().await { Ok(IOData(d)) => check(d[0] == i, "messages held back were lost, duplicated or reordered"), Err(_) => check(false, "messages held back were lost") } }
    };
    let (res, _) = block_on(join(w.start(None), script));
    check(res.is_ok(), "failed");
}
#[no_mangle]
pub extern "C" fn h_c07_exact() { exact(&[1, 2, 9, 10, 105, 129, 255, 256, 300, 1025]) }
#[no_mangle]
pub extern "C" fn t_c07_exact() { exact(&[3, 8, 11, 16, 17, 33, 50, 64, 101, 127, 128, 200, 257, 512, 4097, 10001]) }

/// The buffer's level goes wherever it likes, again and again.
fn levels(steps: usize, idle: usize, nbuf: usize, from: usize) {
    expect("held"); expect("free again"); if steps > 1 { expect("held again"); }
    let (low, high) = [(2, 6), (0, 3), (4, 5)][choice("marks", 3)];
    rounds_limit(100000);
    let mut w = Waiter::new();
    let mut ins = vec![];
    let mut outs = vec![];
    let names: Vec<String> = (0..nbuf).map(|i| format!("b{}", i)).collect();
    for i in 0..nbuf {
        let mut b = Buffer::new();
        b.set_stdout_size(1);
        let (btx, r) = bounded(8);
        let _ = b.add_input(Pull::Receiver(pj(10, 20 + i), r), 0);
        outs.push(match b.add_output(OutputPort::Out, Breakable::Terminate, 20 + i, 30) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } });
        ins.push(btx);
        w.add_buffer(names[i].clone(), b);
    }
    let mut r = Regulator::new();
    r.set_stdout_size(500);
    let (tx, rrx) = bounded(500);
    let _ = r.add_input(Pull::Receiver(pj(2, 3), rrx), 0);
    let out = match r.add_output(OutputPort::Out, Breakable::Terminate, 3, 40) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
    w.add_regulator("r".to_string(), r);
    check(w.configure_regulator("r".to_string(), names, low, high), "configuration of the regulator refused");
    // a number of times full and empty before
    let mut to: Vec<usize> = vec![];
    for _ in 0..[0, 7][choice("before", 2)] { to.push(high); to.push(0) }
    to.extend((0..steps).map(|_| [0, low, low + 1, high - 1, high, high + 4][choice("level", 6)]));
    let script = async {
        let rest = |n: usize| async move { for _ in 0..n { yield_now().await; } };
        let mut sent = 0u8;
        // of each buffer, what it holds; two more are already in or on their way to its output channel
        let mut held: Vec<usize> = vec![0; nbuf];
        for b in 0..nbuf { for _ in 0..2 { let _ = ins[b].send(IOData(vec![1])).await; } }
        rest(60).await;
        let (mut free, mut once) = (true, false);
        for (k, x) in to.iter().enumerate() {
            let mut b = (k + from) % nbuf;
            // one after the other, so that each level in between is seen
            while held.iter().sum::<usize>() < *x { let _ = ins[b].send(IOData(vec![1])).await; held[b] += 1; b = (b + 1) % nbuf; rest(15).await; }
            while held.iter().sum::<usize>() > *x { if held[b] > 0 { let _ = outs[b].recv().await; held[b] -= 1; rest(15).await; } b = (b + 1) % nbuf; }
            rest(idle).await;
            if *x >= high { if free && once { cover("held again") } free = false; cover("held"); } else if *x <= low { if !free { cover("free again"); once = true } free = true; }
            let before = out.len();
            for _ in 0..3 { let _ = tx.send(IOData(vec![sent])).await; sent += 1; rest(15).await; }
            rest(60).await;
            if free { check(out.len() == sent as usize, "a message is held back although the low watermark was reached, or the high one was not"); }
            else { check(out.len() <= before + 1, "more than one message passed although the high watermark was reached, and the low one not yet"); }
        }
        for t in &ins { t.close(); }
        tx.close();
        for o in &outs { while let Ok(_) = o.recv().await {} }
        for i in 0..sent { match out.recv().await { Ok(IOData(d)) => check(d[0] == i, "messages held back were lost, duplicated or reordered"), Err(_) => check(false, "messages held back were lost") } }
    };
    let (res, _) = block_on(join(w.start(None), script));
    check(res.is_ok(), "failed");
}
#[no_mangle]
pub extern "C" fn h_c07_levels() { levels(2, 30, 1, 0) }
/// many buffers, any of them the one that fills first
#[no_mangle]
pub extern "C" fn h_c07_wide() { levels(1, 30, 12, choice("from", 12)) }
#[no_mangle]
pub extern "C" fn t_c07_levels() { levels(4, 30, 1 + choice("buffers", 2), 0) }
