//! C22: pauses of idle components.
use crate::common::*;
use crate::conf::*;
use crate::world::*;
use pipeawesome2::back_off::BackOff;
use pipeawesome2::buffer::Buffer;
use pipeawesome2::junction::Junction;
use pipeawesome2::waiter::get_waiter;

const BOUND: u64 = 5000;
fn sleeps() -> Vec<u64> { sx::with(|w| w.sleeps.clone()) }
fn slept() -> usize { sx::with(|w| w.sleeps.len()) }
fn rounds(n: usize) { sx::with(|w| w.max_rounds = n) }

/// `active`: how many pauses had been made whenever there was activity; `slack`: how many pauses may
/// already be under way when the component learns of it.
fn verify(active: &[usize], slack: usize) { verify2(active, &[], slack) }
/// `also`: activity that may concern the component.
fn verify2(active: &[usize], also: &[usize], slack: usize) {
    let s = sleeps();
    if s.is_empty() { return; }
    check(s[0] == 0, "the first pause is not nothing");
    for i in 0..s.len() {
        check(s[i] <= BOUND, "a pause of more than a few seconds");
        if i > 0 && s[i] < s[i - 1] { check(s[i] == 0 && active.iter().chain(also).any(|a| *a <= i && i <= a + slack), "the pause shrinks while idle"); }
    }
    for &a in active { if a + slack < s.len() { check(s[a..=a + slack].iter().any(|x| *x == 0), "the pause does not start again from nothing after activity"); } }
}

/// The pauses themselves.
#[no_mangle]
pub extern "C" fn h_c22_pause() {
    expect("short"); expect("longest");
    rounds(100000);
    let mut b = BackOff::new();
    let (n, m) = (choice("idle", 71), choice("idle again", 4));
    let resets = choice("resets", 3);
    let mut active = vec![];
    block_on(async {
        for _ in 0..n { b.wait().await; }
        for _ in 0..resets { b.reset(); active.push(slept()); }
        for _ in 0..m { b.wait().await; }
        if resets > 0 { b.reset(); active.push(slept()); b.wait().await; }
    });
    verify(&active, 0);
    cover(if n > 60 { "longest" } else { "short" });
}
#[no_mangle]
pub extern "C" fn h_c22_forever() {
    expect("bounded");
    rounds(100000);
    let mut b = BackOff::new();
    let before = choice("before", 2);
    let mut active = vec![];
    block_on(async {
        for _ in 0..before { b.wait().await; b.reset(); active.push(slept()); }
        for _ in 0..3000 { b.wait().await; }
    });
    verify(&active, 0);
    let s = sleeps();
    check(s[s.len() - 1] > 0, "a component that is idle for long polls without a pause");
    cover("bounded");
}

/// A junction between messages on any of its levels.
fn junction(idles: &[usize], n: usize) {
    expect("idle"); expect("busy");
    rounds(1000);
    let mut j = Junction::new();
    j.set_stdout_size(n + 1);
    let mut ins = vec![];
    for (i, p) in [0, 0, 3].iter().enumerate() { let (tx, irx) = bounded(n); let _ = j.add_input(Pull::Receiver(pj(10 + i, 3), irx), *p); ins.push(Some(tx)); }
    let out = rx(match j.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => p, Err(_) => { check(false, "refused"); end() } });
    let active = RefCell::new(vec![]);
    let prod = async {
        for k in 0..n {
            let idle = idles[choice("idle", idles.len())];
            for _ in 0..idle { yield_now().await; }
            if idle > 3 { cover("idle") } else { cover("busy") }
            let i = choice("input", 3);
            let ends = k > 0 && choice("end", 2) == 1;
            if ends { if let Some(t) = ins[i].take() { active.borrow_mut().push(slept()); t.close(); } }
            else if let Some(t) = &ins[i] { active.borrow_mut().push(slept()); check(t.send(IOData(vec![1])).await.is_ok(), "the junction closed its input"); }
        }
        for _ in 0..3 { yield_now().await; }
        ins.clear();
    };
    let ((_, r), _) = block_on(join(join(prod, j.start(None)), collect(out)));
    check(r.is_ok(), "failed");
    let a = active.borrow();
    verify(&a, 1);
}
#[no_mangle]
pub extern "C" fn h_c22_junction() { junction(&[1, 2, 7, 150], 2) }
#[no_mangle]
pub extern "C" fn t_c22_junction() { junction(&[0, 1, 2, 3, 7, 60, 150], 3) }

/// A buffer between messages.
fn buffer(idles: &[usize], n: usize) {
    expect("idle"); expect("busy");
    rounds(1000);
    let mut b = Buffer::new();
    b.set_stdout_size(1);
    let (tx, irx) = bounded(n);
    let _ = b.add_input(Pull::Receiver(pj(2, 3), irx), 0);
    let out = rx(match b.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => p, Err(_) => { check(false, "refused"); end() } });
    let active = RefCell::new(vec![]);
    let also = RefCell::new(vec![]);
    let prod = async {
        for _ in 0..n {
            let idle = idles[choice("idle", idles.len())];
            for _ in 0..idle { yield_now().await; }
            if idle > 3 { cover("idle") } else { cover("busy") }
            active.borrow_mut().push(slept());
            check(tx.send(IOData(vec![1])).await.is_ok(), "the buffer closed its input");
        }
        for _ in 0..3 { yield_now().await; }
        also.borrow_mut().push(slept());
        tx.close();
    };
    let cons = async { let mut k = 0; loop { let late = choice("late", 2) == 1; if late { for _ in 0..9 { yield_now().await; } } match out.recv().await { Ok(_) => { also.borrow_mut().push(slept()); k += 1 } Err(_) => return k } } };
    let ((_, r), k) = block_on(join(join(prod, b.start(None)), cons));
    check(r.is_ok() && k == n, "failed");
    let a = active.borrow();
    verify2(&a, &also.borrow(), 3);
}
#[no_mangle]
pub extern "C" fn h_c22_buffer() { buffer(&[1, 7, 150], 2) }
#[no_mangle]
pub extern "C" fn t_c22_buffer() { buffer(&[0, 1, 2, 3, 7, 60, 150], 3) }

/// A whole pipeline with a regulator, waiting for its source: the buffer's and the regulator's pauses.
#[no_mangle]
pub extern "C" fn h_c22_pipeline() {
    expect("ran");
    rounds(3000);
    let mut c = Config::new();
    lines(&mut c, &["l:l r:r b:b l:m d:d"], Breakable::Terminate);
    with_launch(&mut c, "l", "p"); with_launch(&mut c, "m", "q"); with_drain(&mut c, "d", "out"); with_regulator(&mut c, "r", Some((100, 200)), &["b"]);
    let (a, b) = ([5, 40, 200][choice("first", 3)], [30, 60, 200][choice("second", 3)]);
    let burst = b"a\n".repeat(12);
    // the second program does not read until long after the first has written
    sx::program("p", vec![sx::Step::Until(a), sx::Step::Out(burst.clone()), sx::Step::Until(a + 2 * b + 20)]);
    sx::program("q", vec![sx::Step::Until(a + b), sx::Step::Cat]);
    sx::with(|w| w.pipe_capacity = 2);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    check(block_on(w.start(None)).is_ok(), "failed");
    check(same(&sx::content("out"), &burst), "incomplete");
    let s = sleeps();
    note(&format!("{:?}", s));
    // two components pause: from the start, and again after the burst arrived and after it was passed on
    check(s[0] == 0 && s[1] == 0, "the first pause is not nothing");
    // some rounds after activity, nobody pauses longer than who started again from nothing then
    let at = sx::with(|w| w.slept_at.clone());
    let mut fresh = BackOff::new();
    block_on(async { for _ in 0..40 { fresh.wait().await; } });
    let fresh = sleeps()[s.len()..].to_vec();
    for r in [a, a + b] { for i in 0..s.len() { if at[i] >= r + 16 && at[i] < r + 30 { check(s[i] <= fresh[at[i] - r + 2], "the pause does not start again from nothing after activity"); } } }
    for x in &s { check(*x <= BOUND, "a pause of more than a few seconds"); }
    check(s.iter().any(|x| *x > 0), "idle components never pause");
    cover("ran");
}
