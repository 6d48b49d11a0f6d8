//! C23: acyclic pipelines run to their end and deliver everything.
use crate::common::*;
use crate::conf::*;
use pipeawesome2::config_manip::connection_manipulation;
use pipeawesome2::waiter::get_waiter;

pub type Stream = Vec<Vec<u8>>;
/// One link, and where in its list it is.
pub struct Edge { pub from: (CT, String, OutputPort), pub to: (CT, String) }
pub fn edges(c: &Config) -> Vec<Edge> {
    let mut v = vec![];
    for d in c.connection.values() {
        if let DeserializedConnection::Connections(l) = d {
            for w in l.windows(2) {
                let (a, b) = (part(&w[0]), part(&w[1]));
                v.push(Edge { from: (*a.t, a.name.to_string(), *a.out.unwrap()), to: (*b.t, b.name.to_string()) });
            }
        }
    }
    v
}
/// `n` lines of this component's own
pub fn own(name: &str, n: usize) -> Stream { (0..n).map(|i| format!("{}{}\n", name, i).into_bytes()).collect() }
pub fn errs(name: &str, n: usize) -> Stream { (0..n).map(|i| format!("{}e{}\n", name, i).into_bytes()).collect() }

/// What a program named like this does.  c*: cat, w*: cat that starts late, g*: its own lines on both outputs, h*: half of that and both at once a failure
fn steps(name: &str, n: usize) -> Vec<sx::Step> {
    let lines = || { let mut v = vec![]; for (o, e) in own(name, n).into_iter().zip(errs(name, n)) { v.push(sx::Step::Out(o)); v.push(sx::Step::Err(e)); } v };
    match name.as_bytes()[0] {
        b'c' => vec![sx::Step::Cat],
        b'w' => vec![sx::Step::Until(60), sx::Step::Cat],
        b'g' => lines(),
        // writes while nobody has been read, then reads everything, then fails
        b'h' => { let mut v = lines(); v.push(sx::Step::ReadAll); v.push(sx::Step::Exit(3)); v }
        _ => { check(false, "no such program"); end() }
    }
}
/// The sequences of lines which leave this port, each in order, in any interleaving.
pub fn leaving(es: &[Edge], t: CT, name: &str, port: OutputPort, n: usize) -> Vec<Stream> {
    match t {
        CT::Faucet => vec![own(name, n)],
        CT::Launch => {
            let k = name.as_bytes()[0];
            match port {
                OutputPort::Out if k == b'c' || k == b'w' => arriving(es, t, name, n),
                OutputPort::Out => vec![own(name, n)],
                OutputPort::Err if k == b'c' || k == b'w' => vec![],
                OutputPort::Err => vec![errs(name, n)],
                OutputPort::Exit => vec![vec![if k == b'h' { b"3".to_vec() } else { b"0".to_vec() }]],
            }
        }
        _ => arriving(es, t, name, n),
    }
}
pub fn arriving(es: &[Edge], t: CT, name: &str, n: usize) -> Vec<Stream> {
    es.iter().filter(|e| e.to.0 == t && e.to.1 == name).flat_map(|e| leaving(es, e.from.0, &e.from.1, e.from.2, n)).collect()
}
/// Cuts what a drain got: an exit status has no line end, everything else starts with a letter.
pub fn tokens(d: &[u8]) -> Stream {
    let mut v = vec![];
    let mut i = 0;
    while i < d.len() {
        if d[i].is_ascii_digit() { v.push(vec![d[i]]); i += 1; continue; }
        let from = i;
        while i < d.len() && d[i] != b'\n' { i += 1; }
        i = std::cmp::min(i + 1, d.len());
        v.push(d[from..i].to_vec());
    }
    v
}
/// Is `got` an interleaving of exactly these sequences?
pub fn shuffle(got: &[Vec<u8>], streams: &[Stream]) -> bool {
    let mut at = vec![vec![0; streams.len()]];
    for m in got {
        let mut next: Vec<Vec<usize>> = vec![];
        for a in &at {
            for s in 0..streams.len() {
                if a[s] < streams[s].len() && streams[s][a[s]] == *m { let mut b = a.clone(); b[s] += 1; if !next.contains(&b) { next.push(b); } }
            }
        }
        at = next;
    }
    at.iter().any(|a| (0..streams.len()).all(|s| a[s] == streams[s].len()))
}

/// Every component the links mention, each with what it needs.
pub fn furnish(c: &mut Config, n: usize) {
    let mut names: Vec<(CT, String)> = vec![];
    for e in edges(c) { for x in [(e.from.0, e.from.1), e.to] { if !names.contains(&x) { names.push(x) } } }
    for (t, name) in names {
        match t {
            CT::Faucet => { with_faucet(c, &name, &name); sx::add_file(&name, flat(&own(&name, n))); }
            CT::Drain => with_drain(c, &name, &name),
            CT::Launch => { with_launch(c, &name, &name); sx::program(&name, steps(&name, n)); }
            _ => {}
        }
    }
}
/// Runs it and checks what every drain got.
fn run(c: Config, n: usize, prepare: bool, order: usize) {
    let es = edges(&c);
    let c = if prepare { connection_manipulation(c) } else { c };
    sx::with(|w| w.max_rounds = 3000);
    sxstd::order::set_mode(order);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let r = block_on(w.start(None));
    sxstd::order::set_mode(0);
    check(r.is_ok(), "a pipeline without faults failed");
    let mut seen: Vec<&str> = vec![];
    for e in &es {
        if e.to.0 != CT::Drain || seen.contains(&&e.to.1[..]) { continue; }
        seen.push(&e.to.1);
        let got = sx::content(&e.to.1);
        let want = arriving(&es, CT::Drain, &e.to.1, n);
        note(&format!("{} got {:?}, wanted a shuffle of {:?}", e.to.1, String::from_utf8_lossy(&got), want.iter().map(|s| String::from_utf8_lossy(&flat(s)).into_owned()).collect::<Vec<_>>()));
        check(sx::unflushed(&e.to.1).is_empty(), "what a drain got was not written out");
        check(shuffle(&tokens(&got), &want), "a drain did not get exactly the data that the paths from the sources dictate");
    }
}

pub const SHAPES: &[(&str, &[&str], &[(&str, usize, usize, &[&str])])] = &[
    ("straight", &["f:f l:c d:x"], &[]),
    ("three ports", &["f:f l:h d:x", "l:h/E d:y", "l:h/X d:z"], &[]),
    ("split", &["f:f j:j d:x", "j:j l:w d:y"], &[]),
    ("join", &["f:f j:j d:x", "f:g j:j"], &[]),
    ("both outputs joined", &["l:g j:j d:x", "l:g/E j:j", "l:g/X j:j"], &[]),
    ("diamond", &["f:f j:j l:c j:k d:x", "j:j l:w j:k"], &[]),
    ("buffered diamond", &["f:f j:j b:b l:w j:k d:x", "j:j j:k"], &[]),
    ("buffer", &["f:f b:b l:w d:x"], &[]),
    ("regulated", &["f:f r:r b:b l:w d:x"], &[("r", 1, 3, &["b"])]),
    ("regulated branches", &["f:f r:r j:j b:b l:w d:x", "j:j b:p l:c d:y"], &[("r", 0, 2, &["b", "p"])]),
    ("two regulators", &["f:f r:r j:j b:b l:w d:x", "f:g r:s j:j"], &[("r", 0, 2, &["b"]), ("s", 1, 4, &["b"])]),
    ("regulators in a row", &["f:f r:r b:b r:s b:p l:w d:x"], &[("r", 0, 2, &["b"]), ("s", 0, 1, &["p"])]),
    ("regulator beside", &["f:f j:j r:r l:c j:k d:x", "j:j b:b l:w j:k"], &[("r", 0, 2, &["b"])]),
    ("no output at all", &["f:f j:j l:c", "j:j b:b j:k"], &[]),
    ("junctions in a row", &["f:f j:j j:k d:x", "j:j d:y", "j:k l:w d:z", "f:g j:k"], &[]),
];

fn shapes(from: usize, to: usize, counts: &[usize], delays: usize, order: usize, caps: &[usize], pipes: bool) {
    let (name, links, regs) = SHAPES[from + choice("shape", to - from)];
    for s in &SHAPES[from..to] { expect(s.0); }
    let n = counts[choice("lines", counts.len())];
    let br = if pipes { breakable() } else { Breakable::Terminate };
    let cap = caps[choice("pipe capacity", caps.len())];
    let mut c = Config::new();
    lines(&mut c, links, br);
    for (r, low, high, watched) in regs.iter() { with_regulator(&mut c, r, Some((*low, *high)), watched); }
    furnish(&mut c, n);
    sx::with(|w| w.pipe_capacity = cap);
    budget(delays, 0);
    run(c, n, false, order);
    cover(name);
}
/// some schedules: one external operation is late, at any point
#[no_mangle]
pub extern "C" fn h_c23_shapes() { shapes(0, 8, &[0, 1, 12], 1, 0, &[4], false); }
#[no_mangle]
pub extern "C" fn h_c23_regulated() { shapes(8, 13, &[1, 14], 1, 0, &[4], false); }
#[no_mangle]
pub extern "C" fn h_c23_more() { shapes(13, SHAPES.len(), &[1, 12], 1, 0, &[4], false); }
/// some schedules: components take their turns in any order
#[no_mangle]
pub extern "C" fn h_c23_order() { shapes(0, SHAPES.len(), &[2, 13], 0, 2, &[1, 4096], true); }
#[no_mangle]
pub extern "C" fn t_c23_shapes() { shapes(0, 8, &[1, 4], 2, 0, &[30], false); }
#[no_mangle]
pub extern "C" fn t_c23_regulated() { shapes(8, 13, &[4], 2, 0, &[30], false); }
#[no_mangle]
pub extern "C" fn t_c23_more() { shapes(13, SHAPES.len(), &[4], 2, 0, &[30], false); }
#[no_mangle]
pub extern "C" fn t_c23_long() { shapes(0, SHAPES.len(), &[9, 30], 1, 0, &[1, 30], true); }
#[no_mangle]
pub extern "C" fn t_c23_order() { shapes(0, SHAPES.len(), &[2, 13], 1, 2, &[1, 4096], true); }

/// Any links between these components, prepared as the program does.
fn any(n: usize, counts: &[usize], delays: usize) {
    expect("ran");
    const LINKS: [&str; 14] = ["f:f d:x", "f:f l:c", "f:f l:w", "f:g d:x", "f:g l:c", "l:c d:x", "l:c d:y", "l:c l:w", "l:c b:b", "b:b d:y", "l:w d:y", "l:g l:w", "l:g/E d:y", "l:g/X l:c"];
    let mut at = 0;
    let mut c = Config::new();
    let br = if n < 4 { breakable() } else { Breakable::Terminate };
    let mut picked = vec![];
    for k in 0..n {
        let i = at + choice("link", LINKS.len() - (n - 1 - k) - at);
        at = i + 1;
        picked.push(LINKS[i]);
        c.connection.insert(format!("c{}", k), DeserializedConnection::Connections(line(LINKS[i], br)));
    }
    // a buffer with nothing before or after it cannot run
    let b = |p: &str| picked.iter().any(|l| *l == p);
    if b("l:c b:b") != b("b:b d:y") { end() }
    let n = counts[choice("lines", counts.len())];
    furnish(&mut c, n);
    sx::with(|w| w.pipe_capacity = 4);
    budget(delays, 0);
    run(c, n, true, 0);
    cover("ran");
}
#[no_mangle]
pub extern "C" fn h_c23_any() { any(3, &[2, 10], 0); }
#[no_mangle]
pub extern "C" fn t_c23_any() { any(4, &[2, 10], 0); }
#[no_mangle]
pub extern "C" fn t_c23_six() { any(6, &[10], 0); }
#[no_mangle]
pub extern "C" fn t_c23_late() { any(3, &[2, 10], 1); }

/// Long streams.  A join of two sources is the one place where lines may mix.
#[no_mangle]
pub extern "C" fn h_c23_many() {
    rounds_limit(100000);
    let (name, links, regs) = SHAPES[choice("shape", SHAPES.len())];
    let n = 260;
    for s in SHAPES { expect(s.0); }
    let mut c = Config::new();
    lines(&mut c, links, Breakable::Terminate);
    for (r, low, high, watched) in regs.iter() { with_regulator(&mut c, r, Some((*low, *high)), watched); }
    furnish(&mut c, n);
    let cap = [64, 65536][choice("pipe capacity", 2)];
    sx::with(|w| w.pipe_capacity = cap);
    let es = edges(&c);
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    check(block_on(w.start(None)).is_ok(), "a pipeline without faults failed");
    for e in &es {
        if e.to.0 != CT::Drain { continue; }
        let got = tokens(&sx::content(&e.to.1));
        let want = arriving(&es, CT::Drain, &e.to.1, n);
        check(got.len() == want.iter().map(|s| s.len()).sum::<usize>(), "a drain did not get exactly the data that the paths from the sources dictate");
        // each source's lines, once for each path
        let mut kinds: Vec<&Stream> = vec![];
        for s in &want { if !kinds.iter().any(|k| k == &s) { kinds.push(s) } }
        for s in kinds {
            let paths = want.iter().filter(|x| *x == s).count();
            let mine: Vec<&Vec<u8>> = got.iter().filter(|m| s.contains(m)).collect();
            check(mine.len() == paths * s.len(), "a drain did not get exactly the data that the paths from the sources dictate");
            if paths == 1 { for (a, b) in mine.iter().zip(s.iter()) { check(*a == b, "lines were reordered"); } }
            else { for l in s { check(mine.iter().filter(|m| **m == l).count() == paths, "a drain did not get exactly the data that the paths from the sources dictate"); } }
        }
    }
    cover(name);
}

/// Many branches, side by side, joining again.
fn wide(n: usize, count: usize) {
    expect("wide");
    let mut c = Config::new();
    let prepare = choice("prepare", 2) == 1;
    // through junctions of the configuration's own, or through those that are added
    let (a, b) = if prepare { ("f:f", "b:k d:x") } else { ("f:f j:j", "j:k d:x") };
    let (from, to) = if prepare { ("f:f", "b:k") } else { ("j:j", "j:k") };
    let mut v: Vec<String> = vec![b.to_string()];
    if !prepare { v.push(a.to_string()) }
    let late = choice("late", n);
    for i in 0..n { v.push(format!("{} l:{}{} {}", from, if i == late { "w" } else { "c" }, i, to)); }
    lines(&mut c, &v.iter().map(|s| &s[..]).collect::<Vec<_>>(), breakable());
    furnish(&mut c, count);
    let es = edges(&c);
    let c = if prepare { connection_manipulation(c) } else { c };
    sx::with(|w| { w.max_rounds = 20000; w.pipe_capacity = 40; });
    let mut w = waiter(c);
    check(block_on(w.start(None)).is_ok(), "a pipeline without faults failed");
    let got = tokens(&sx::content("x"));
    check(arriving(&es, CT::Drain, "x", count).len() == n && got.len() == n * count, "a drain did not get exactly the data that the paths from the sources dictate");
    for l in own("f", count) { check(got.iter().filter(|m| **m == l).count() == n, "a drain did not get exactly the data that the paths from the sources dictate"); }
    check(sx::with(|w| w.procs.len()) == n, "a program was not started once");
    cover("wide");
}
#[no_mangle]
pub extern "C" fn h_c23_wide() { wide(10, 12) }
#[no_mangle]
pub extern "C" fn t_c23_wide() { wide(40, 30) }
