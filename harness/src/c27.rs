//! C27: back pressure.
use crate::common::*;
use crate::conf::*;
use crate::world::Comp;
use async_std::sx::Step;

/// From this round on the stalled program reads.
const RELEASE: usize = 2600;
/// More than anything between two components may reasonably hold (a few read buffers and channels), in bytes.
const HELD: usize = 16000;
const LINE: usize = 40;
fn input(n: usize, mark: u8) -> Vec<Vec<u8>> { (0..n).map(|i| { let mut l = format!("{:04}", i).into_bytes(); l.push(mark); while l.len() < LINE - 1 { l.push(b'.') } l.push(b'\n'); l }).collect() }

struct Shape { name: &'static str, links: &'static [&'static str], sources: usize, outs: usize, marks: Option<(usize, usize)>, bounded: bool }
/// "S" stands for the kind of the source.
const SHAPES: [Shape; 10] = [
    Shape { name: "direct", links: &["S:in l:slow d:out"], sources: 1, outs: 1, marks: None, bounded: true },
    Shape { name: "junction", links: &["S:in j:j l:slow d:out"], sources: 1, outs: 1, marks: None, bounded: true },
    Shape { name: "regulator", links: &["S:in r:r l:slow d:out"], sources: 1, outs: 1, marks: None, bounded: true },
    Shape { name: "program", links: &["S:in l:cat l:slow d:out"], sources: 1, outs: 1, marks: None, bounded: true },
    Shape { name: "long", links: &["S:in j:j r:r l:cat j:k l:slow d:out"], sources: 1, outs: 1, marks: None, bounded: true },
    Shape { name: "one branch", links: &["S:in j:j l:slow d:out", "j:j d:out2"], sources: 1, outs: 2, marks: None, bounded: true },
    Shape { name: "other branch", links: &["S:in j:j d:out2", "j:j l:slow d:out"], sources: 1, outs: 2, marks: None, bounded: true },
    Shape { name: "two sources", links: &["S:in j:j l:slow d:out", "S:in2 j:j"], sources: 2, outs: 1, marks: None, bounded: true },
    Shape { name: "regulated buffer", links: &["S:in r:r b:b l:slow d:out"], sources: 1, outs: 1, marks: Some((10, 60)), bounded: true },
    Shape { name: "buffer", links: &["S:in b:b l:slow d:out"], sources: 1, outs: 1, marks: None, bounded: false },
];

fn stalled(n: usize, caps: &[usize], vary: bool, delays: usize) {
    for s in &SHAPES { expect(s.name) }
    let s = &SHAPES[choice("shape", SHAPES.len())];
    // a file, the output of a program, or what it writes to standard error
    let source = choice("source", 3);
    let br = if vary { breakable() } else { Breakable::Terminate };
    let cap = caps[choice("pipe capacity", caps.len())];
    let links: Vec<String> = s.links.iter().map(|l| from(l, source)).collect();
    let links: Vec<&str> = links.iter().map(|x| &x[..]).collect();
    let data = [input(n, b'a'), input(if s.sources == 2 { n } else { 0 }, b'b')];
    for (k, name) in ["in", "in2"].iter().enumerate() {
        sx::add_file(name, flat(&data[k]));
        sx::program(name, data[k].iter().map(|l| if source == 2 { Step::Err(l.clone()) } else { Step::Out(l.clone()) }).collect());
    }
    sx::program("cat", vec![Step::Cat]);
    sx::program("slow", vec![Step::Until(RELEASE), Step::Cat]);
    sx::with(|w| { w.pipe_capacity = cap; w.max_rounds = RELEASE + 40 * n; });
    budget(delays, 0);
    let mut w = waiter(auto(&links, br, s.marks, &["b"]));
    check(block_on(w.start(None)).is_ok(), "failed without a fault");
    for name in &["in", "in2"][..s.sources] {
        let taken = if source > 0 { proc(name, |p| sx::before(&if source == 2 { &p.err_at } else { &p.out_at }, RELEASE)) } else { the_file(name, |f| sx::before(&f.read_at, RELEASE)) };
        note(&format!("{} {} took {} of {}", s.name, name, taken, n * LINE));
        if s.bounded { check(taken < HELD, "a source is read without bound although its receiver takes nothing"); check(taken > 0, "nothing was read"); }
        else { check(taken == n * LINE, "a buffer does not take everything"); }
    }
    let all: Vec<Vec<u8>> = data.concat();
    for out in &["out", "out2"][..s.outs] {
        let got = cut(&sx::content(out));
        check(got.len() == all.len(), "something was lost or doubled after having been held back");
        for (k, m) in [b'a', b'b'].iter().enumerate() { check(same_list(&got.iter().filter(|l| l[4] == *m).cloned().collect::<Vec<_>>(), &data[k]), "what was held back did not arrive as it was sent"); }
    }
    cover(s.name);
}
#[no_mangle]
pub extern "C" fn h_c27_stalled() { stalled(800, &[100, 1000], false, 0) }
#[no_mangle]
pub extern "C" fn t_c27_stalled() { stalled(900, &[10, 40, 2000], true, 0) }

/// One component, a receiver that takes a few messages and then none for a long time.
fn component(n: usize, most: usize, delays: usize, caps: &[usize]) {
    for k in ["faucet", "regulator", "junction", "launch"] { expect(k) }
    let kind = [0, 1, 3, 4][choice("component", 4)];
    let br = breakable();
    let k = choice("taken", 4);
    let size = [1, 8][choice("channel", 2)];
    let data = input(n, b'a');
    sx::with(|w| { w.pipe_capacity = caps[choice("pipe capacity", caps.len())]; w.max_rounds = 20000; });
    sx::program("p", vec![Step::Cat]);
    budget(delays, 0);
    let mut c = Comp::new(kind, &data, size);
    let out = rx(c.output(br, 3, 4));
    let (itx, irx) = bounded(1);
    if kind != 0 { c.input(Pull::Receiver(pj(2, 3), irx)); } else { drop(irx) }
    let sent = Cell::new(0);
    let feed = async { if kind != 0 { for d in &data { dawdle().await; if itx.send(IOData(d.clone())).await.is_err() { break } sent.set(sent.get() + 1) } } drop(itx) };
    let stop = Cell::new(false);
    let receive = async {
        let mut got = vec![];
        while got.len() < k { dawdle().await; match out.recv().await { Ok(IOData(d)) => got.push(d), Err(_) => break } }
        for _ in 0..450 { yield_now().await }
        let took = if kind == 0 { the_file("in", |f| sx::before(&f.read_at, usize::MAX)) } else { sent.get() * LINE };
        note(&format!("took {} of {}", took, n * LINE));
        check(took < (k + most) * LINE + HELD / 4, "a component goes on reading although its receiver takes nothing");
        stop.set(true);
        while let Ok(IOData(d)) = out.recv().await { got.push(d) }
        got
    };
    let (r, _, got) = block_on(join3(c.run(), feed, receive));
    check(r.is_ok() && stop.get(), "failed without a fault");
    check(same_list(&got, &data), "what was held back did not arrive as it was sent");
    cover(["faucet", "regulator", "", "junction", "launch"][kind]);
}
#[no_mangle]
pub extern "C" fn h_c27_component() { component(400, 100, 0, &[100]) }
#[no_mangle]
pub extern "C" fn t_c27_component() { component(900, 100, 0, &[10, 900, 2000]) }
