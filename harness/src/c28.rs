//! C28: what nobody wants any more is stopped at its source.
use crate::common::*;
use crate::conf::*;
use async_std::sx::Step;
use std::sync::atomic::{AtomicUsize, Ordering};

static WANTED: AtomicUsize = AtomicUsize::new(0);
/// Repeats its first lines, then ends.
fn head(done: &mut usize, line: &[u8]) -> (Vec<u8>, bool) { *done += 1; (line.to_vec(), *done == WANTED.load(Ordering::SeqCst)) }

struct Shape { name: &'static str, links: &'static [&'static str], sources: usize, also: bool }
const SHAPES: [Shape; 11] = [
    Shape { name: "direct", links: &["S:in l:head d:out"], sources: 1, also: false },
    Shape { name: "junction", links: &["S:in j:j l:head d:out"], sources: 1, also: false },
    Shape { name: "regulator", links: &["S:in r:r l:head d:out"], sources: 1, also: false },
    Shape { name: "program", links: &["S:in l:cat l:head d:out"], sources: 1, also: false },
    Shape { name: "three programs", links: &["S:in l:cat l:cat2 l:cat3 l:head d:out"], sources: 1, also: false },
    Shape { name: "long", links: &["S:in j:j r:r l:cat j:k l:head d:out"], sources: 1, also: false },
    Shape { name: "after it too", links: &["S:in j:j l:head j:k r:r d:out"], sources: 1, also: false },
    Shape { name: "two sources", links: &["S:in j:j l:head d:out", "S:in2 j:j"], sources: 2, also: false },
    Shape { name: "regulated buffer", links: &["S:in r:r b:b l:head d:out"], sources: 1, also: false },
    Shape { name: "one branch", links: &["S:in j:j l:head d:out", "j:j d:all"], sources: 1, also: true },
    Shape { name: "other branch", links: &["S:in j:j l:cat d:all", "j:j l:head d:out"], sources: 1, also: true },
];
fn cascade(n: usize, wanted: &[usize], caps: &[usize], delays: usize, order: usize) {
    for s in &SHAPES[..if delays > 0 { 9 } else { SHAPES.len() }] { expect(s.name) }
    let late = delays > 0;
    if !late { expect("consumed") }
    let s = &SHAPES[choice("shape", if late { 9 } else { SHAPES.len() })];
    let source = choice("source", 3);
    let program = source > 0;
    let br = if !late && choice("consume", 2) == 1 { Breakable::Consume } else { Breakable::Finish };
    let k = wanted[choice("wanted", wanted.len())];
    let cap = caps[choice("pipe capacity", caps.len())];
    let links: Vec<String> = s.links.iter().map(|l| from(l, source)).collect();
    let links: Vec<&str> = links.iter().map(|x| &x[..]).collect();
    let data = many_lines(n);
    WANTED.store(k, Ordering::SeqCst);
    for name in ["in", "in2"] {
        sx::add_file(name, flat(&data));
        let mut v: Vec<Step> = data.iter().map(|l| if source == 2 { Step::Err(l.clone()) } else { Step::Out(l.clone()) }).collect();
        v.push(Step::Exit(7));
        sx::program(name, v);
    }
    for c in ["cat", "cat2", "cat3"] { sx::program(c, vec![Step::Cat]); }
    sx::program("head", vec![Step::Answer(head)]);
    sx::with(|w| { w.pipe_capacity = cap; w.max_rounds = 2000 + 40 * n; });
    budget(delays, 0);
    let c = auto(&links, br, if s.name == "regulated buffer" { Some((1, 20)) } else { None }, &["b"]);
    sxstd::order::set_mode(order);
    let mut w = waiter(c);
    let r = block_on(w.start(None));
    sxstd::order::set_mode(0);
    check(r.is_ok(), "an early end through links that allow it failed");
    // nobody reads from the programs any more: what they do by themselves
    for i in 0..sx::with(|w| w.procs.len()) { sx::advance(i) }
    let out = cut(&sx::content("out"));
    check(out.len() == k, "what the program had sent before it ended was not delivered");
    if s.sources == 1 { check(same_list(&out, &data[..k]), "what was delivered is not what was sent first"); }
    if s.also { check(same_list(&cut(&sx::content("all")), &data), "another branch was cut short"); }
    for name in &["in", "in2"][..s.sources] {
        let (taken, status) = if program { proc(name, |p| (if source == 2 { p.all_err.len() } else { p.all_out.len() }, p.status)) } else { (the_file(name, |f| sx::before(&f.read_at, usize::MAX)), None) };
        note(&format!("{} {} took {} of {} status {:?}", s.name, name, taken, flat(&data).len(), status));
        if s.also || br == Breakable::Consume {
            check(taken == flat(&data).len() && (!program || status == Some(7 << 8)), "a source was not read to its end although its messages are consumed");
            if br == Breakable::Consume { cover("consumed") }
        } else {
            check(taken < flat(&data).len() / 2, "a source was read on although nobody wanted more");
            check(!program || status == Some(13), "the source was not stopped");
        }
    }
    cover(s.name);
}
#[no_mangle]
pub extern "C" fn h_c28_cascade() { cascade(1200, &[0 + 1, 5, 30], &[10, 300], 0, 2) }
#[no_mangle]
pub extern "C" fn h_c28_late() { cascade(400, &[2], &[10], 1, 0) }
#[no_mangle]
pub extern "C" fn t_c28_cascade() { cascade(5000, &[1, 2, 100], &[1, 60, 600], 0, 2) }
