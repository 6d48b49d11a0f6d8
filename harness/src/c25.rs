//! C25: loops.
use crate::common::*;
use crate::conf::*;
use async_std::sx::Step;
use pipeawesome2::config_manip::connection_manipulation;
use pipeawesome2::waiter::get_waiter;
use std::sync::atomic::{AtomicUsize, Ordering};

/// how many messages the referee finishes before it ends
static GOAL: AtomicUsize = AtomicUsize::new(0);
/// One turn: "3a" becomes "2a", "1a" becomes "Da".
fn referee(done: &mut usize, line: &[u8]) -> (Vec<u8>, bool) {
    let mut l = line.to_vec();
    if l[0] == b'1' { l[0] = b'D'; *done += 1; } else { l[0] -= 1; }
    (l, *done == GOAL.load(Ordering::SeqCst))
}
fn finished(_: &mut usize, line: &[u8]) -> (Vec<u8>, bool) { (if line[0] == b'D' { line.to_vec() } else { vec![] }, false) }
fn ongoing(_: &mut usize, line: &[u8]) -> (Vec<u8>, bool) { (if line[0] == b'D' { vec![] } else { line.to_vec() }, false) }

struct Shape { name: &'static str, links: &'static [&'static str], regulated: bool, prepare: bool, buffered: bool }
const SHAPES: [Shape; 6] = [
    Shape { name: "buffered", links: &["l:src j:turn", "j:turn l:ref j:loop", "j:loop l:fin d:out", "j:loop l:on b:back j:turn"], regulated: false, prepare: false, buffered: true },
    Shape { name: "regulated", links: &["l:src r:reg j:turn", "j:turn l:ref j:loop", "j:loop l:fin d:out", "j:loop l:on b:back j:turn"], regulated: true, prepare: false, buffered: true },
    Shape { name: "automatic junctions", links: &["l:src l:ref", "l:ref l:fin d:out", "l:ref l:on b:back l:ref"], regulated: false, prepare: true, buffered: true },
    Shape { name: "regulated, automatic junctions", links: &["f:src r:reg l:ref", "l:ref l:fin d:out", "l:ref l:on b:back l:ref"], regulated: true, prepare: true, buffered: true },
    Shape { name: "watched by two", links: &["f:src r:reg j:turn l:ref j:loop b:back l:on j:turn", "j:loop l:fin b:q d:out"], regulated: true, prepare: false, buffered: true },
    Shape { name: "without a buffer", links: &["l:src j:turn", "j:turn l:ref j:loop", "j:loop l:fin d:out", "j:loop l:on j:turn"], regulated: false, prepare: false, buffered: false },
];

fn looping(counts: &[usize], ways: &[u8], delays: usize, order: usize, caps: &[usize], marks: &[(usize, usize)]) {
    let used: Vec<&Shape> = SHAPES.iter().filter(|s| s.buffered || counts.iter().any(|n| *n < 6)).collect();
    for s in &used { expect(s.name) }
    let s = used[choice("shape", used.len())];
    let n = counts[choice("messages", counts.len())];
    if !s.buffered { assume(n < 6) }
    let pattern = choice("rounds", 3);
    let digit = |k: usize| match pattern { 0 => ways[0], 1 => ways[ways.len() - 1], _ => ways[k % ways.len()] };
    let source: Vec<Vec<u8>> = (0..n).map(|k| vec![b'0' + digit(k), b'a' + k as u8, b'\n']).collect();
    GOAL.store(n, Ordering::SeqCst);
    let mut c = Config::new();
    lines(&mut c, s.links, Breakable::Terminate);
    for (name, p) in [("src", "src"), ("ref", "ref"), ("fin", "fin"), ("on", "on")] { with_launch(&mut c, name, p); }
    with_drain(&mut c, "out", "out");
    with_faucet(&mut c, "src", "in");
    if s.regulated {
        let (low, high) = marks[choice("marks", marks.len())];
        with_regulator(&mut c, "reg", Some((low, high)), if s.name == "watched by two" { &["back", "q"] } else { &["back"] });
    }
    sx::add_file("in", flat(&source));
    sx::program("src", source.iter().map(|l| Step::Out(l.clone())).collect());
    sx::program("ref", vec![Step::Answer(referee)]);
    sx::program("fin", vec![Step::Answer(finished)]);
    sx::program("on", vec![Step::Answer(ongoing)]);
    let cap = caps[choice("pipe capacity", caps.len())];
    sx::with(|w| { w.pipe_capacity = cap; w.max_rounds = 6000 + 60 * n; });
    budget(delays, 0);
    if s.prepare { c = connection_manipulation(c); }
    sxstd::order::set_mode(order);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let r = block_on(w.start(None));
    sxstd::order::set_mode(0);
    check(r.is_ok(), "a loop whose program has ended failed");
    let of = |name: &str| sx::with(|w| w.procs.iter().find(|p| p.info.program == name).map(|p| (p.received.clone(), p.all_out.clone()))).unwrap_or_default();
    let (got, back) = (cut(&of("ref").0), cut(&of("on").1));
    let out = cut(&sx::content("out"));
    note(&format!("{} {:?} ref {:?} back {:?} out {:?}", s.name, source.len(), String::from_utf8_lossy(&flat(&got)), String::from_utf8_lossy(&flat(&back)), String::from_utf8_lossy(&flat(&out))));
    check(out.len() == n, "what the program had sent before it ended was not delivered");
    for k in 0..n { check(out.iter().filter(|l| l[0] == b'D' && l[1] == b'a' + k as u8).count() == 1, "a result was lost or doubled"); }
    // what came round again is what was sent back, and what came first is what the source sent
    let again: Vec<Vec<u8>> = got.iter().filter(|l| !source.contains(l)).cloned().collect();
    let first: Vec<Vec<u8>> = got.iter().filter(|l| source.contains(l)).cloned().collect();
    check(same_list(&again, &back), "what was sent back did not come round again once and in order");
    check(same_list(&first, &source), "what the source sent did not arrive once and in order");
    for k in 0..n { check(got.iter().filter(|l| l[1] == b'a' + k as u8).count() == digit(k) as usize, "a message went round a wrong number of times"); }
    cover(s.name);
}
/// The program ends after some turns, whatever is on its way back then.
fn ending(n: usize, goals: &[usize], caps: &[usize], delays: usize, order: usize) {
    let used: Vec<&Shape> = SHAPES.iter().filter(|s| s.buffered || n < 6).collect();
    for s in &used { expect(s.name) }
    let s = used[choice("shape", used.len())];
    let br = if choice("consume", 2) == 1 { Breakable::Consume } else { Breakable::Finish };
    let goal = goals[choice("goal", goals.len())];
    // every third message is done at once, the others go round
    let source: Vec<Vec<u8>> = (0..n).map(|k| vec![if k % 3 == 0 { b'1' } else { b'9' }, b'a' + (k % 26) as u8, b'\n']).collect();
    GOAL.store(goal, Ordering::SeqCst);
    let mut c = Config::new();
    lines(&mut c, s.links, br);
    for name in ["src", "ref", "fin", "on"] { with_launch(&mut c, name, name); }
    with_drain(&mut c, "out", "out");
    with_faucet(&mut c, "src", "in");
    if s.regulated { with_regulator(&mut c, "reg", Some((0, 1)), if s.name == "watched by two" { &["back", "q"] } else { &["back"] }); }
    sx::add_file("in", flat(&source));
    sx::program("src", source.iter().map(|l| Step::Out(l.clone())).collect());
    sx::program("ref", vec![Step::Answer(turns)]);
    sx::program("fin", vec![Step::Answer(finished)]);
    sx::program("on", vec![Step::Answer(ongoing)]);
    let cap = caps[choice("pipe capacity", caps.len())];
    sx::with(|w| { w.pipe_capacity = cap; w.max_rounds = 6000 + 60 * n; });
    budget(delays, 0);
    if s.prepare { c = connection_manipulation(c); }
    sxstd::order::set_mode(order);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let r = block_on(w.start(None));
    sxstd::order::set_mode(0);
    check(r.is_ok(), "a loop whose program ended early failed");
    let sent = sx::with(|w| w.procs.iter().find(|p| p.info.program == "ref").map(|p| p.all_out.clone())).unwrap_or_default();
    let want: Vec<Vec<u8>> = cut(&sent).into_iter().filter(|l| l[0] == b'D').collect();
    let out = cut(&sx::content("out"));
    note(&format!("{} {:?} sent {:?} out {:?}", s.name, n, String::from_utf8_lossy(&sent), String::from_utf8_lossy(&flat(&out))));
    check(same_list(&out, &want), "what the program had sent before it ended was not delivered");
    cover(s.name);
}
/// as `referee`, but ends after so many turns
fn turns(done: &mut usize, line: &[u8]) -> (Vec<u8>, bool) {
    let mut l = line.to_vec();
    if l[0] == b'1' { l[0] = b'D' } else { l[0] -= 1; }
    *done += 1;
    (l, *done == GOAL.load(Ordering::SeqCst))
}
#[no_mangle]
pub extern "C" fn h_c25_ends() { ending(5, &[1, 4, 7, 10], &[6, 4096], 0, 2) }
#[no_mangle]
pub extern "C" fn h_c25_ends_many() { ending(40, &[60, 100, 160], &[6, 4096], 0, 0) }
#[no_mangle]
pub extern "C" fn h_c25_ends_late() { ending(5, &[3, 8], &[6], 1, 0) }
#[no_mangle]
pub extern "C" fn h_c25_loop() { looping(&[1, 4, 12], &[1, 2, 4], 0, 2, &[6, 4096], &[(0, 1), (1, 4)]) }
#[no_mangle]
pub extern "C" fn h_c25_late() { looping(&[1, 3], &[1, 3], 1, 0, &[6], &[(0, 1)]) }
#[no_mangle]
pub extern "C" fn h_c25_many() { looping(&[150], &[1, 9], 0, 0, &[6, 4096], &[(1, 4)]) }
#[no_mangle]
pub extern "C" fn t_c25_loop() { looping(&[2, 7, 26], &[1, 3, 5, 2, 9], 0, 2, &[1, 6, 30, 4096], &[(0, 1), (0, 3), (2, 9)]) }
#[no_mangle]
pub extern "C" fn t_c25_late() { looping(&[5, 13], &[1, 2, 3], 1, 2, &[6], &[(0, 1), (1, 3)]) }
#[no_mangle]
pub extern "C" fn t_c25_twice() { looping(&[2], &[2], 2, 0, &[4096], &[(0, 1)]) }
