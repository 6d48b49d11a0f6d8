//! C24: a spy sees exactly what was sent.
use crate::c23::{arriving, edges, furnish, leaving, shuffle, tokens, Edge, SHAPES};
use crate::common::*;
use crate::conf::*;
use crate::world::*;
use pipeawesome2::waiter::get_waiter;

const NAMES: [&str; 6] = ["faucet", "regulator", "buffer", "junction", "launch out", "launch err"];

/// What the spy recorded for one output port, checked against what its receiver got.
fn verify(log: &[SpyMessage], src: usize, dst: usize, port: OutputPort, got: &[Vec<u8>]) {
    let mine: Vec<&SpyMessage> = log.iter().filter(|m| m.dst == dst).collect();
    check(mine.len() == got.len() + 1, "not one record for each message and one for the end");
    for (k, m) in mine.iter().enumerate() {
        check(m.src == src && m.src_port == port, "a record with a wrong source or port");
        match &m.msg {
            IODataWrapper::IOData(IOData(d)) => check(k < got.len() && same(d, &got[k]), "a record differs from what was delivered"),
            IODataWrapper::Finished => check(k == got.len(), "the end was recorded before the last message"),
            IODataWrapper::Skipped => check(false, "a record of nothing"),
        }
    }
}
async fn watch(rx: Receiver<SpyMessage>, late: bool) -> Vec<SpyMessage> {
    let mut v = vec![];
    loop {
        if late { dawdle().await }
        match rx.recv().await { Ok(m) => v.push(m), Err(_) => return v }
    }
}

/// One component on its own: any messages, any schedule, any room for the records.
fn component(kinds: usize, max: usize, delays: usize) {
    for c in &NAMES[..kinds] { expect(c) }
    let kind = choice("kind", kinds);
    let data: Vec<Vec<u8>> = (0..choice("messages", max + 1)).map(|_| { let b = any_u8("m"); if kind == 0 || kind > 3 { assume(b != b'\n' && b != b'\r'); vec![b, b'\n'] } else { vec![b] } }).collect();
    let br = if kind == 3 { Breakable::Terminate } else { breakable() };
    if kind == 4 { sx::program("p", vec![sx::Step::Cat]); }
    if kind == 5 { sx::program("p", data.iter().map(|d| sx::Step::Err(d.clone())).collect()); }
    let mut c = Comp::new(std::cmp::min(kind, 4), &data, 1);
    let (itx, irx) = bounded(1);
    if kind != 0 && kind != 5 { c.input(Pull::Receiver(pj(2, 3), irx)); }
    let port = if kind == 5 { OutputPort::Err } else { OutputPort::Out };
    let out = rx(c.output_port(port, br, 3, 4));
    let second = if kind == 3 { Some(rx(c.output(br, 3, 5))) } else { None };
    let (stx, srx) = if choice("room", 2) == 0 { bounded(1) } else { unbounded() };
    budget(delays, 0);
    let feed = kind != 0 && kind != 5;
    let run = async move { c.start(Some(stx)).await };
    let other = async { match second { Some(r) => Some(collect(r).await), None => None } };
    let prod = async { if feed { produce(itx, &data).await; } };
    let ((_, r), (log, (got, got2))) = block_on(join(join(prod, run), join(watch(srx, true), join(collect(out), other))));
    check(r.is_ok(), "a component that is observed failed");
    check(same_list(&got, &data), "observing changed what was delivered");
    verify(&log, 3, 4, port, &got);
    let mut n = got.len() + 1;
    if let Some(g) = got2 { check(same_list(&g, &data), "observing changed what was delivered"); verify(&log, 3, 5, port, &g); n += g.len() + 1; }
    check(log.len() == n, "records of something else");
    cover(NAMES[kind]);
}
#[no_mangle]
pub extern "C" fn h_c24_component() { component(6, 2, 2) }
#[no_mangle]
pub extern "C" fn t_c24_component() { component(6, 3, 3) }

/// A receiver that closes early: what was delivered is recorded, in order, and nothing that was not read.
fn closing(max: usize, delays: usize) {
    for c in ["terminate", "finish", "consume"] { expect(c) }
    let kind = choice("kind", 4);
    let n = 1 + choice("messages", max);
    let data: Vec<Vec<u8>> = (0..n).map(|k| if kind == 0 { vec![b'a' + k as u8, b'\n'] } else { vec![any_u8("m")] }).collect();
    let k = choice("accepted", max);
    let br = breakable();
    let mut c = Comp::new(kind, &data, 1);
    let (itx, irx) = bounded(1);
    if kind != 0 { c.input(Pull::Receiver(pj(2, 3), irx)); }
    let out = rx(c.output(br, 3, 4));
    let (stx, srx) = unbounded();
    budget(delays, 0);
    let run = async move { c.start(Some(stx)).await };
    let prod = async { if kind != 0 { produce(itx, &data).await; } };
    let ((_, r), (log, got)) = block_on(join(join(prod, run), join(watch(srx, false), collect_some(out, k))));
    check(prefix_list(&got, &data), "observing changed what was delivered");
    let mut ends = 0;
    let mut at = 0;
    for m in &log {
        check(m.src == 3 && m.dst == 4 && m.src_port == OutputPort::Out, "a record with a wrong source, destination or port");
        check(ends == 0, "a record after the end");
        match &m.msg {
            IODataWrapper::IOData(IOData(d)) => { check(at < n && same(d, &data[at]), "the records are not the messages in order"); at += 1; }
            IODataWrapper::Finished => ends += 1,
            IODataWrapper::Skipped => check(false, "a record of nothing"),
        }
    }
    check(at >= got.len(), "a message was delivered but not recorded");
    // one more message may be in the channel when its receiver closes
    if br == Breakable::Terminate { check(at <= got.len() + 1, "a record of a message that was never delivered"); }
    match br {
        Breakable::Terminate => if r.is_err() { check(ends == 0, "an end was recorded although the source had not ended"); cover("terminate") } else { check(ends == 1 && at == n, "the end is missing") },
        Breakable::Finish => { check(r.is_ok(), "failed"); check(ends == 1 || at > got.len() || k < n, "the end is missing"); cover("finish") }
        Breakable::Consume => { check(r.is_ok(), "failed"); check(ends == 1, "the end of the source is not recorded"); cover("consume") }
    }
}
#[no_mangle]
pub extern "C" fn h_c24_closing() { closing(3, 1) }
#[no_mangle]
pub extern "C" fn t_c24_closing() { closing(4, 3) }

/// Whole pipelines: every observed link has its records, and no other link.
fn shapes(from: usize, to: usize, counts: &[usize], delays: usize, order: usize) {
    let (name, links, regs) = SHAPES[from + choice("shape", to - from)];
    for s in &SHAPES[from..to] { expect(s.0); }
    let n = counts[choice("lines", counts.len())];
    let mut c = Config::new();
    lines(&mut c, links, Breakable::Terminate);
    for (r, low, high, watched) in regs.iter() { with_regulator(&mut c, r, Some((*low, *high)), watched); }
    furnish(&mut c, n);
    sx::with(|w| { w.pipe_capacity = 30; w.max_rounds = 3000; });
    budget(delays, 0);
    let es: Vec<Edge> = edges(&c);
    sxstd::order::set_mode(order);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let (stx, srx) = if choice("room", 2) == 0 { bounded(1) } else { unbounded() };
    let ids: Vec<(usize, usize)> = es.iter().map(|e| {
        let id = |t: CT, n: &str| (0..40).find(|i| w.id_to_component_type_name(i).map_or(false, |x| x.0 == t && x.1 == n)).unwrap_or(99);
        (id(e.from.0, &e.from.1), id(e.to.0, &e.to.1))
    }).collect();
    let (r, log) = block_on(join(w.start(Some(stx)), watch(srx, false)));
    sxstd::order::set_mode(0);
    check(r.is_ok(), "a pipeline without faults failed");
    let mut total = 0;
    for (e, (src, dst)) in es.iter().zip(&ids) {
        let mine: Vec<&SpyMessage> = log.iter().filter(|m| m.src == *src && m.dst == *dst && m.src_port == e.from.2).collect();
        let mut sent = vec![];
        for (k, m) in mine.iter().enumerate() {
            match &m.msg {
                IODataWrapper::IOData(IOData(d)) => sent.push(d.clone()),
                IODataWrapper::Finished => check(k == mine.len() - 1, "the end was recorded before the last message"),
                IODataWrapper::Skipped => check(false, "a record of nothing"),
            }
        }
        check(sent.len() + 1 == mine.len(), "the end of a port is not recorded once");
        check(shuffle(&sent, &leaving(&es, e.from.0, &e.from.1, e.from.2, n)), "the records of a link are not the messages sent on it");
        if e.to.0 == CT::Drain { check(same(&sx::content(&e.to.1), &flat(&sent)), "the records of a link are not what its drain got"); }
        total += mine.len();
    }
    check(total == log.len(), "something was recorded that no observed link carries");
    // what the drains got does not depend on being observed
    for e in es.iter().filter(|e| e.to.0 == CT::Drain) { check(shuffle(&tokens(&sx::content(&e.to.1)), &arriving(&es, CT::Drain, &e.to.1, n)), "observing changed what was delivered"); }
    cover(name);
}
#[no_mangle]
pub extern "C" fn h_c24_pipeline() { shapes(0, SHAPES.len(), &[2, 12], 0, 2) }
#[no_mangle]
pub extern "C" fn t_c24_pipeline() { shapes(0, SHAPES.len(), &[1, 4], 1, 2) }

/// A junction's outputs end with its last input, in any schedule.
fn junction(max: usize, delays: usize) {
    expect("done");
    let mut c = Comp::new(3, &[], 1);
    let mut txs = vec![];
    for i in 0..2 {
        let (t, r) = bounded(1);
        check(c.connectable().add_input(Pull::Receiver(pj(10 + i, 3), r), choice("priority", 2) as isize).is_ok(), "an input was refused");
        txs.push(t);
    }
    let ins: Vec<Vec<Vec<u8>>> = (0..2).map(|_| upto_messages(max)).collect();
    let (a, b) = (rx(c.output(Breakable::Terminate, 3, 4)), rx(c.output(Breakable::Consume, 3, 5)));
    let (stx, srx) = unbounded();
    budget(delays, 0);
    let run = async move { c.start(Some(stx)).await };
    let prod = join_all(txs.into_iter().zip(ins.iter()).map(|(t, d)| produce(t, d)));
    let ((_, r), (log, (ga, gb))) = block_on(join(join(prod, run), join(watch(srx, false), join(collect(a), collect(b)))));
    check(r.is_ok(), "a component that is observed failed");
    check(ga.len() == ins[0].len() + ins[1].len(), "observing changed what was delivered");
    verify(&log, 3, 4, OutputPort::Out, &ga);
    verify(&log, 3, 5, OutputPort::Out, &gb);
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c24_junction() { junction(2, 2) }
#[no_mangle]
pub extern "C" fn t_c24_junction() { junction(2, 4) }

/// Long streams: every message has its record.
fn many(n: usize) {
    for c in &NAMES[..4] { expect(c) }
    rounds_limit(30 * n);
    let kind = choice("kind", 4);
    let data = many_lines(n);
    let mut c = Comp::new(kind, &data, 8);
    let (itx, irx) = bounded(8);
    if kind != 0 { c.input(Pull::Receiver(pj(2, 3), irx)); }
    let out = rx(c.output(Breakable::Terminate, 3, 4));
    let (stx, srx) = if choice("room", 2) == 0 { bounded(8) } else { unbounded() };
    let run = async move { c.start(Some(stx)).await };
    let prod = async { if kind != 0 { produce(itx, &data).await; } };
    let ((_, r), (log, got)) = block_on(join(join(prod, run), join(watch(srx, false), collect(out))));
    check(r.is_ok(), "a component that is observed failed");
    check(same_list(&got, &data), "observing changed what was delivered");
    verify(&log, 3, 4, OutputPort::Out, &got);
    check(log.len() == n + 1, "records of something else");
    cover(NAMES[kind]);
}
#[no_mangle]
pub extern "C" fn h_c24_many() { many(700) }

/// A junction of many inputs and outputs: every output has its own records.
fn wide(n_in: usize, n_out: usize) {
    expect("done");
    rounds_limit(5000);
    let mut c = Comp::new(3, &[], 8);
    let mut txs = vec![];
    let levels = choice("levels", 2);
    for i in 0..n_in {
        let (t, r) = bounded(1);
        check(c.connectable().add_input(Pull::Receiver(pj(10 + i, 3), r), (i * levels) as isize % 3).is_ok(), "an input was refused");
        txs.push(t);
    }
    let mut ins: Vec<Vec<Vec<u8>>> = (0..n_in).map(|i| (0..3).map(|k| vec![i as u8, k]).collect()).collect();
    ins[choice("which", n_in)][1].push(any_u8("m"));
    let brs: Vec<Breakable> = (0..n_out).map(|k| [Breakable::Terminate, Breakable::Finish, Breakable::Consume][(k + n_in) % 3]).collect();
    let outs: Vec<_> = (0..n_out).map(|k| rx(c.output(brs[k], 3, 30 + k))).collect();
    let (stx, srx) = if choice("room", 2) == 0 { bounded(1) } else { unbounded() };
    let run = async move { c.start(Some(stx)).await };
    let prod = join_all(txs.into_iter().zip(ins.iter()).map(|(t, d)| produce(t, d)));
    let ((_, r), (log, got)) = block_on(join(join(prod, run), join(watch(srx, false), join_all(outs.into_iter().map(collect)))));
    check(r.is_ok(), "a component that is observed failed");
    for k in 0..n_out { check(got[k].len() == 3 * n_in, "observing changed what was delivered"); verify(&log, 3, 30 + k, OutputPort::Out, &got[k]); }
    check(log.len() == n_out * (3 * n_in + 1), "records of something else");
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c24_wide() { wide(6, 9) }
#[no_mangle]
pub extern "C" fn t_c24_wide() { wide(20, 20) }
