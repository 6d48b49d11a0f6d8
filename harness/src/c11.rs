//! C11: a run reports every failure and nothing else.
use crate::common::*;
use crate::world::*;
use pipeawesome2::buffer::Buffer;
use pipeawesome2::config::ComponentType;
use pipeawesome2::drain::Drain;
use pipeawesome2::faucet::Faucet;
use pipeawesome2::junction::Junction;
use pipeawesome2::regulator::Regulator;
use pipeawesome2::waiter::{Waiter, WaiterError};
use std::collections::BTreeMap;

fn comp(kind: usize, id: usize, data: &[Vec<u8>], name: &str) -> Comp {
    match kind {
        0 => { sx::add_file(name, flat(data)); let mut f = Faucet::new(name.to_string()); f.set_stdout_size(1); Comp::F(f) }
        1 => { let mut c = Regulator::new(); c.set_stdout_size(1); Comp::R(c) }
        2 => { let mut c = Buffer::new(); c.set_stdout_size(1); Comp::B(c) }
        3 => { let mut c = Junction::new(); c.set_stdout_size(1); Comp::J(c) }
        4 => Comp::L(launch(id, name)),
        _ => Comp::D(Drain::new(name.to_string())),
    }
}
fn ty(kind: usize) -> ComponentType { [ComponentType::Faucet, ComponentType::Regulator, ComponentType::Buffer, ComponentType::Junction, ComponentType::Launch, ComponentType::Drain][kind] }

struct Part { kind: usize, name: String, fail: usize }

/// How a component of this kind can fail: 0 not at all, 1 its receiver closes, 2 its own file or program fails.
fn modes(kind: usize) -> usize { match kind { 0 | 4 => 3, 1 | 2 | 3 => 2, _ => 2 } }
fn fails(p: &Part) -> bool { p.fail != 0 }

/// What a successful component of this kind counts.
fn count_of(kind: usize, data: &[Vec<u8>]) -> usize {
    let mut c = comp(kind, 3, data, "solo");
    sx::program("solo", vec![sx::Step::Cat]);
    let out = if kind != 5 { Some(rx(c.output(Breakable::Terminate, 3, 4))) } else { None };
    let (tx, irx) = bounded(1);
    if kind != 0 { c.input(Pull::Receiver(pj(2, 3), irx)); } else { drop(irx) }
    let col = async { if let Some(o) = out { collect(o).await; } };
    match block_on(join(c.run(), join(produce(tx, data), col))).0 { Ok(n) => n, Err(_) => { check(false, "a component failed without a fault"); end() } }
}

/// Unconnected components in one pipeline, any of them failing, in any order.
fn run(kinds: &[usize], n: usize, delays: usize, forced: bool) { all(kinds, n, delays, forced, None) }
fn all(kinds: &[usize], n: usize, delays: usize, forced: bool, mode: Option<usize>) {
    let mut w = Waiter::new();
    let data: Vec<Vec<u8>> = (0..n).map(|i| vec![b'a' + (i % 26) as u8, b'\n']).collect();
    let want: usize = kinds.iter().map(|k| count_of(*k, &data)).sum();
    let mut parts: Vec<Part> = vec![];
    let mut futs: Vec<Local> = vec![];
    let got: Rc<RefCell<BTreeMap<usize, Vec<Vec<u8>>>>> = Rc::new(RefCell::new(BTreeMap::new()));
    for (i, &kind) in kinds.iter().enumerate() {
        let name = format!("{}{}", ["f", "r", "b", "j", "l", "d"][kind], i);
        let fail = match mode { Some(m) => std::cmp::min(m, modes(kind) - 1), None => choice("fail", modes(kind)) };
        let id = 10 + i;
        let mut c = comp(kind, id, &data, &name);
        if kind == 4 { if fail == 2 { sx::program_unlaunchable(&name) } else { sx::program(&name, vec![sx::Step::Cat]) } }
        if kind == 0 && fail == 2 { let f = sx::file(&name); sx::with(|w| w.files[f].exists = false); }
        if kind == 5 && fail == 1 { let f = sx::file(&name); sx::with(|w| w.files[f].create_error = true); }
        if kind != 0 {
            let (tx, irx) = bounded(1);
            c.input(Pull::Receiver(pj(90 + i, id), irx));
            let d = data.clone();
            futs.push(Box::pin(async move { produce(tx, &d).await; }));
        }
        if kind != 5 {
            let o = rx(c.output(Breakable::Terminate, id, 50 + i));
            let g = got.clone();
            let closes = fail == 1;
            futs.push(Box::pin(async move { let r = if closes { dawdle().await; drop(o); vec![] } else { collect(o).await }; g.borrow_mut().insert(i, r); }));
        }
        match c { Comp::F(x) => w.add_faucet(name.clone(), x), Comp::R(x) => w.add_regulator(name.clone(), x), Comp::B(x) => w.add_buffer(name.clone(), x), Comp::J(x) => w.add_junction(name.clone(), x), Comp::L(x) => w.add_launch(name.clone(), x), Comp::D(x) => w.add_drain(name.clone(), x) }
        parts.push(Part { kind, name, fail });
    }
    if forced { pipeawesome_order(); }
    budget(delays, 0);
    let (r, _) = block_on(join(w.start(None), join_all(futs)));
    for (i, p) in parts.iter().enumerate() {
        if !fails(p) {
            let o = if p.kind == 5 { sx::content(&p.name) } else { flat(&got.borrow()[&i]) };
            check(same(&o, &flat(&data)), "a component was not run to its end");
        }
    }
    let n_fail = parts.iter().filter(|p| fails(p)).count();
    match r {
        Ok(n) => { check(n_fail == 0, "a failure was not reported"); check(n == want, "the counts do not add up"); cover("ok"); }
        Err(es) => {
            check(es.len() == n_fail, "not one error per failed component");
            for p in &parts {
                let mine: Vec<&WaiterError> = es.iter().filter(|e| matches!(e.caused_by_error_source(), Some((t, n)) if *t == ty(p.kind) && n == &p.name)).collect();
                check(mine.len() == fails(p) as usize, "an error is labelled with the wrong component");
                if let Some(e) = mine.first().and_then(|e| e.caused_by_error()) {
                    let ok = match e {
                        MotionError::LaunchSpawnError(Some(c)) => p.kind == 4 && p.fail == 2 && c == &p.name,
                        MotionError::OpenIOError(..) => (p.kind == 0 && p.fail == 2) || (p.kind == 5 && p.fail == 1),
                        MotionError::OutputClosed(..) => p.fail == 1 && p.kind != 5,
                        _ => false,
                    };
                    check(ok, "the error is not the one that happened");
                }
            }
            let t: Vec<_> = es.iter().filter_map(|e| e.caused_by_error().and_then(|e| e.instant()).copied()).collect();
            for i in 1..t.len() { check(t[i - 1] <= t[i], "the errors are not in the order in which they happened"); }
            cover(if es.len() == 1 { "one" } else { "several" });
            let natural: Vec<&str> = { let mut v: Vec<&str> = parts.iter().filter(|p| fails(p)).map(|p| &p.name[..]).collect(); v.sort(); v };
            let names: Vec<&str> = es.iter().filter_map(|e| e.caused_by_error_name()).collect();
            if es.len() > 1 && names != natural { cover("another order") }
        }
    }
}
fn pipeawesome_order() { sxstd::order::set_mode(1) }

#[no_mangle]
pub extern "C" fn h_c11_kinds() { for c in ["ok", "one", "several", "another order"] { expect(c) } run(&[0, 1, 2, 3, 4, 5], 2, 1, false); }
#[no_mangle]
pub extern "C" fn h_c11_twins() { for c in ["ok", "one", "several", "another order"] { expect(c) } run(&[4, 4, 0, 5], 2, 2, true); }
#[no_mangle]
pub extern "C" fn h_c11_triples() { for c in ["ok", "one", "several", "another order"] { expect(c) } run(&[1, 1, 5, 3], 2, 2, true); }
#[no_mangle]
pub extern "C" fn h_c11_many() { for c in ["ok", "one", "several"] { expect(c) } run(&[4, 4, 4, 5, 5, 0, 0], 2, 0, false); }
/// Every component at once, or none.
#[no_mangle]
pub extern "C" fn h_c11_all() {
    for c in ["ok", "several"] { expect(c) }
    let (kinds, n) = [(&[4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4][..], 2), (&[0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5], 2), (&[0, 1, 2, 3, 4, 5], 300)][choice("components", 3)];
    rounds_limit(40000);
    all(kinds, n, 0, false, Some(choice("fail", 3)));
}
#[no_mangle]
pub extern "C" fn t_c11_kinds() { for c in ["ok", "one", "several", "another order"] { expect(c) } run(&[0, 1, 2, 3, 4, 5], 2, 2, false); }

use crate::conf::*;
use pipeawesome2::waiter::get_waiter;

/// Whole pipelines with one fault: they end, and the first error is the fault.
fn chain(delays: usize, kinds: usize) {
    for c in ["source", "program", "destination", "ok"] { expect(c) }
    let br = breakable();
    let shape = choice("shape", kinds);
    let mut c = Config::new();
    match shape {
        0 => lines(&mut c, &["f:f r:r b:b j:j l:l d:d"], br),
        1 => lines(&mut c, &["f:f j:j l:l d:d", "j:j d:e"], br),
        2 => lines(&mut c, &["f:f l:l j:j b:b d:d", "l:l/E j:j", "l:l/X j:j d:e"], br),
        3 => lines(&mut c, &["f:f b:b l:l d:d", "f:g j:j r:r d:e", "l:l/E j:j"], br),
        _ => lines(&mut c, &["f:f b:b r:r d:d"], br),
    }
    with_faucet(&mut c, "f", "in"); with_faucet(&mut c, "g", "in2"); with_drain(&mut c, "d", "out"); with_drain(&mut c, "e", "out2"); with_launch(&mut c, "l", "p");
    with_regulator(&mut c, "r", Some((0, 1)), &["b"]);
    sx::add_file("in", b"a\nb\nc\n".to_vec());
    sx::add_file("in2", b"x\n".to_vec());
    let fault = choice("fault", 5);
    match fault { 2 => sx::program_unlaunchable("p"), _ => sx::program("p", vec![sx::Step::Cat, sx::Step::Err(b"e\n".to_vec())]) }
    let (i, o) = (sx::file("in"), sx::file("out"));
    sx::with(|w| match fault { 1 => w.files[i].exists = false, 3 => w.files[o].create_error = true, 4 => { w.files[o].write_error_at = Some(1); } _ => {} });
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    budget(delays, 0);
    let r = block_on(w.start(None));
    match r {
        Ok(_) => {
            check(fault == 0 || (fault == 2 && shape == 4), "a failure was not reported");
            if fault == 0 && shape != 2 && shape != 3 { check(same(&sx::content("out"), b"a\nb\nc\n"), "a destination is incomplete"); }
            cover("ok");
        }
        Err(es) => {
            check(fault != 0, "an error without a fault");
            let want = match fault { 1 => (CT::Faucet, "f"), 2 => (CT::Launch, "l"), _ => (CT::Drain, "d") };
            check(es.iter().any(|e| matches!(e.caused_by_error_source(), Some((t, n)) if *t == want.0 && n == want.1)), "the fault is not among the errors");
            let root = match es[0].caused_by_error_source() { Some((t, n)) => *t == want.0 && n == want.1, None => false };
            check(root, "the first error is not the fault");
            if br == Breakable::Finish { check(es.len() == 1, "an error beyond the fault on Finish links") }
            cover(match fault { 1 => "source", 2 => "program", _ => "destination" });
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c11_chain() { chain(0, 5); }
#[no_mangle]
pub extern "C" fn t_c11_chain() { chain(1, 5); }

/// A junction, one of whose receivers closes: the others see their end.
#[no_mangle]
pub extern "C" fn h_c11_branches() {
    expect("failed");
    let n = 3;
    let mut j = Junction::new();
    j.set_stdout_size(1);
    let (tx, irx) = bounded(1);
    let _ = j.add_input(Pull::Receiver(pj(2, 3), irx), 0);
    let outs: Vec<Receiver<IOData>> = (0..3).map(|i| rx(match j.add_output(OutputPort::Out, Breakable::Terminate, 3, 4 + i) { Ok(p) => p, Err(_) => { check(false, "refused"); end() } })).collect();
    let closing = choice("closing", 3);
    let k = choice("after", 3);
    budget(2, 0);
    let data = messages(n);
    let futs: Vec<Local> = outs.into_iter().enumerate().map(|(i, o)| -> Local { if i == closing { Box::pin(async move { collect_some(o, k).await; }) } else { Box::pin(async move { collect(o).await; }) } }).collect();
    // the junction stays alive, as it does in a running pipeline
    let ((_, r), _) = block_on(join(join(produce(tx, &data), j.start(None)), join_all(futs)));
    match r { Ok(_) => check(k == 2, "a closed receiver was not reported"), Err(MotionError::OutputClosed(jn, ..)) => { check(jn.dst == 4 + closing, "wrong link"); cover("failed") } Err(_) => check(false, "wrong error") }
}

/// Pipelines that begin with a component that has no input, or end with one that has no output.
#[no_mangle]
pub extern "C" fn h_c11_unfed() {
    expect("ended"); expect("failed");
    let first = ["b:x", "r:x", "j:x", "l:x"][choice("first", 4)];
    let mut c = Config::new();
    let watch = choice("watch", 2) == 1;
    let spec = match choice("place", 2) { 0 => format!("{} d:d", first), _ => format!("{} j:y d:d", first) };
    lines(&mut c, &[&spec, "f:f b:z d:e"], Breakable::Terminate);
    if choice("end", 2) == 1 { lines(&mut c, &["f:f b:z d:e", "f:g j:y d:d", &format!("j:y {}", first)], Breakable::Terminate); }
    if watch && first == "b:x" { c.connection.insert("more".to_string(), DeserializedConnection::Connections(line("f:h r:q d:h", Breakable::Terminate))); with_regulator(&mut c, "q", Some((0, 1)), &["x"]); }
    for (n, s) in [("f", "in"), ("g", "in"), ("h", "in")] { with_faucet(&mut c, n, s); }
    for (n, s) in [("d", "out"), ("e", "out2"), ("h", "out3")] { with_drain(&mut c, n, s); }
    with_launch(&mut c, "x", "p");
    sx::add_file("in", b"a\nb\n".to_vec());
    sx::program("p", vec![sx::Step::Cat]);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let r = block_on(w.start(None));
    check(same(&sx::content("out2"), b"a\nb\n"), "an unaffected branch was not run to its end");
    cover(if r.is_ok() { "ended" } else { "failed" });
}

/// A program with all three outputs in use, any of whose destinations cannot be opened or fails later.
fn sides(delays: usize) {
    for c in ["failed", "ok"] { expect(c) }
    let br = breakable();
    let mut c = Config::new();
    lines(&mut c, &["f:f l:l d:o", "l:l/E d:e", "l:l/X d:x", "f:g d:g"], br);
    with_faucet(&mut c, "f", "in"); with_faucet(&mut c, "g", "in"); with_launch(&mut c, "l", "p");
    for d in ["o", "e", "x", "g"] { with_drain(&mut c, d, d); }
    sx::add_file("in", b"a\nb\nc\n".to_vec());
    let steps = vec![sx::Step::Err(b"e\n".to_vec()), sx::Step::Cat, sx::Step::Err(b"f\n".to_vec()), sx::Step::Exit(3)];
    sx::program("p", steps);
    let bad = [["o", ""], ["e", ""], ["x", ""], ["o", "e"], ["", ""]][choice("bad", 5)];
    let how = choice("how", 2);
    for n in bad { if !n.is_empty() { let i = sx::file(n); sx::with(|w| if how == 0 { w.files[i].create_error = true } else { w.files[i].write_error_at = Some(0) }); } }
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    budget(delays, 0);
    let r = block_on(w.start(None));
    check(same(&sx::content("g"), b"a\nb\nc\n"), "an unaffected branch was not run to its end");
    match r {
        Ok(_) => {
            check(bad[0].is_empty(), "a failure was not reported");
            for (n, d) in [("o", &b"a\nb\nc\n"[..]), ("e", &b"e\nf\n"[..])] { check(same(&sx::content(n), d), "a destination is incomplete"); }
            cover("ok");
        }
        Err(es) => {
            check(!bad[0].is_empty(), "an error without a fault");
            for n in bad { if !n.is_empty() { check(es.iter().any(|e| matches!(e.caused_by_error_source(), Some((CT::Drain, m)) if m == n)), "a fault is not among the errors"); } }
            check(matches!(es[0].caused_by_error_source(), Some((CT::Drain, m)) if bad.contains(&&m[..])), "the first error is not a fault");
            for e in &es { if let Some((t, m)) = e.caused_by_error_source() { if *t == CT::Drain { check(bad.contains(&&m[..]), "a drain that works is blamed"); } } }
            if br != Breakable::Terminate { check(es.len() == bad.iter().filter(|n| !n.is_empty()).count(), "an error beyond the faults"); }
            cover("failed");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c11_sides() { sides(0); }
#[no_mangle]
pub extern "C" fn t_c11_sides() { sides(1); }

/// A program one of whose outputs cannot be read or has its receiver closed.
fn output_fails(delays: usize) {
    expect("named"); expect("fine");
    let br = [breakable(), breakable()];
    let mut l = launch(3, "p");
    sx::program("p", vec![sx::Step::Out(b"1\n".to_vec()), sx::Step::Err(b"2\n".to_vec()), sx::Step::Out(b"3\n".to_vec()), sx::Step::Err(b"4\n".to_vec())]);
    let outs: Vec<Receiver<IOData>> = [OutputPort::Out, OutputPort::Err].into_iter().enumerate().map(|(i, p)| rx(match l.add_output(p, br[i], 3, 4 + i) { Ok(p) => p, Err(_) => { check(false, "refused"); end() } })).collect();
    let closing = choice("closing", 3);
    budget(delays, 0);
    let futs: Vec<Local> = outs.into_iter().enumerate().map(|(i, o)| -> Local { if i == closing { Box::pin(async move { collect_some(o, 0).await; }) } else { Box::pin(async move { collect(o).await; }) } }).collect();
    let (r, _) = block_on(join(l.start(None), join_all(futs)));
    match r {
        Ok(_) => { check(closing == 2 || br[closing] != Breakable::Terminate, "a closed receiver was not reported"); cover("fine") }
        Err(MotionError::OutputClosed(jn, ..)) => { check(closing < 2 && br[closing] == Breakable::Terminate && jn.dst == 4 + closing, "wrong link"); cover("named") }
        Err(_) => check(false, "wrong error"),
    }
}
#[no_mangle]
pub extern "C" fn h_c11_outputs() { output_fails(1); }
