//! C08: faucets deliver their source, drains fill their destination.
use crate::common::*;
use pipeawesome2::drain::Drain;
use pipeawesome2::faucet::Faucet;

fn name(tag: &str, max: usize) -> String {
    let n = 1 + choice("name_len", max);
    String::from_utf8((0..n).map(|_| range_u8(tag, 33, 126)).collect()).unwrap()
}

fn faucet(name_max: usize, len: usize, delays: usize, splits: usize) {
    expect("stdin"); expect("file"); expect("empty"); expect("open error"); expect("read error");
    let src = name("source", name_max);
    let (a, b) = (bytes("stdin", len), upto("file", len));
    sx::add_file(sx::STDIN, a.clone());
    let fi = sx::add_file(&src, b.clone());
    let is_stdin = src == "-";
    let fault = choice("fault", 4);
    let data = if is_stdin { a } else { b };
    let fault = if is_stdin && fault != 3 { 0 } else { fault };
    fault_kinds(if fault == 3 { &READ_KINDS } else { &OPEN_KINDS });
    let i = if is_stdin { sx::file(sx::STDIN) } else { fi };
    let at = choice("at", len);
    sx::with(|w| match fault { 1 => w.files[i].open_error = true, 2 => w.files[i].exists = false, 3 => w.files[i].read_error_at = Some(at), _ => {} });
    let mut f = Faucet::new(src.clone());
    f.set_stdout_size(1);
    let out = match f.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } };
    budget(delays, splits);
    let run = async move { f.start(None).await };
    let (r, got) = block_on(join(run, collect(out)));
    let g = flat(&got);
    check(prefix(&g, &data), "delivered bytes are not those of the source");
    for (k, m) in got.iter().enumerate() {
        check(!m.is_empty(), "empty message");
        for x in &m[..m.len() - 1] { check(*x != b'\n', "more than one line in a message"); }
        check((k == got.len() - 1) | (m[m.len() - 1] == b'\n'), "a line was split");
    }
    match (fault, r) {
        (0, Ok(_)) => { check(g.len() == data.len(), "the end of the source was not delivered"); cover(if is_stdin { "stdin" } else { "file" }); if data.is_empty() { cover("empty") } }
        (1, Err(MotionError::OpenIOError(j, ..))) | (2, Err(MotionError::OpenIOError(j, ..))) => { check(j.src == 3, "wrong component named"); check(g.is_empty(), "data from nowhere"); cover("open error"); }
        (3, Err(MotionError::ReadIOError(j, ..))) => { check(at <= data.len(), "error without a fault"); check(j.src == 3, "wrong component named"); cover("read error"); }
        (3, Ok(_)) => check(at > data.len() && g.len() == data.len(), "a read fault was swallowed"),
        (0, Err(_)) => check(false, "failed without a fault"),
        _ => check(false, "a fault was not reported as what it is"),
    }
    let others = sx::with(|w| w.files.iter().enumerate().filter(|(k, f)| *k != i && (f.opened + f.created > 0)).count());
    check(others == 0, "another file was opened");
}
#[no_mangle]
pub extern "C" fn h_c08_faucet() { faucet(2, 3, 1, 2); }
#[no_mangle]
pub extern "C" fn t_c08_faucet() { faucet(3, 4, 2, 3); }

fn drain(name_max: usize, n: usize, len: usize, delays: usize, splits: usize) {
    for c in ["stdout", "stderr", "null", "file", "open error", "write error", "flush error"] { expect(c); }
    let dst = if choice("kind", 2) == 0 { name("destination", name_max) } else { "/dev/null".to_string() };
    let old = bytes("old", 2);
    let (is_out, is_err, is_null) = (dst == "-", dst == "_", dst == "/dev/null");
    let fi = if choice("exists", 2) == 0 { sx::add_file(&dst, old) } else { sx::file(&dst) };
    let other = sx::add_file("\u{2}other", vec![1, 2]);
    let (oi, ei) = (sx::file(sx::STDOUT), sx::file(sx::STDERR));
    let target = if is_out { oi } else if is_err { ei } else { fi };
    let data: Vec<Vec<u8>> = (0..n).map(|_| upto("b", len)).collect();
    let all = flat(&data);
    let mut fault = choice("fault", 4);
    if is_null || (fault == 1 && (is_out || is_err)) { fault = 0; }
    fault_kinds(if fault == 1 { &OPEN_KINDS } else { &WRITE_KINDS });
    let at = choice("at", n * len);
    sx::with(|w| match fault { 1 => w.files[target].create_error = true, 2 => w.files[target].write_error_at = Some(at), 3 => w.files[target].flush_error = true, _ => {} });
    let mut d = Drain::new(dst.clone());
    let (itx, irx) = bounded(1);
    check(d.add_input(Pull::Receiver(pj(2, 3), irx), 0).is_ok(), "input refused");
    budget(delays, splits);
    let run = async move { d.start(None).await };
    let (sent, r) = block_on(join(produce(itx, &data), run));
    let of = |i: usize| sx::with(|w| { let mut v = w.files[i].content.clone(); v.extend(w.files[i].unflushed.iter()); v });
    for (k, what) in [(oi, "standard output was written"), (ei, "standard error was written")] { if k != target { check(of(k).is_empty(), what); } }
    check(same(&of(other), &[1, 2]), "another file was written");
    check(sx::with(|w| w.files.iter().enumerate().filter(|(k, f)| *k != target && f.created > 0).count()) == 0, "another file was opened");
    if is_null || is_out || is_err { check(sx::with(|w| w.files[fi].created) == 0, "a file was opened for a special destination"); }
    match (fault, r) {
        (0, Ok(c)) => {
            check(sent == n && c == n + 1, "the drain did not read all its input");
            if !is_null {
                check(same(&sx::with(|w| w.files[target].content.clone()), &all), "the destination does not hold exactly the bytes received");
                check(sx::with(|w| w.files[target].unflushed.is_empty()), "bytes left unflushed");
            }
            cover(if is_null { "null" } else if is_out { "stdout" } else if is_err { "stderr" } else { "file" });
        }
        (1, Err(MotionError::OpenIOError(j, ..))) => { check(j == pj(2, 3), "wrong link named"); cover("open error"); }
        (2, Err(MotionError::WriteIOError(j, ..))) => { check((j.src, j.dst) == (2, 3), "wrong link named"); cover("write error"); }
        (2, Err(MotionError::CloseIOError(j, ..))) => { check((j.src, j.dst) == (2, 3) && target == fi, "wrong link named"); cover("write error"); }
        (2, Ok(_)) => check(at >= all.len(), "a write fault was swallowed"),
        (3, Err(MotionError::CloseIOError(j, ..))) => { check((j.src, j.dst) == (2, 3), "wrong link named"); cover("flush error"); }
        (0, Err(_)) => check(false, "failed without a fault"),
        _ => check(false, "a fault was not reported as what it is"),
    }
}
#[no_mangle]
pub extern "C" fn h_c08_drain() { drain(2, 2, 2, 1, 1); }
#[no_mangle]
pub extern "C" fn t_c08_drain() { drain(3, 3, 2, 2, 2); }

/// A destination much longer than any buffer on the way.
#[no_mangle]
pub extern "C" fn h_c08_long() {
    expect("done");
    let n = 3000;
    let mut d = vec![b'x'; n];
    for i in [0, 254, 255, 256, 1023, n - 1] { d[i] = any_u8("b"); }
    sx::add_file("in", d.clone());
    let mut f = Faucet::new("in".to_string());
    let out = match f.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => p, Err(_) => { check(false, "output refused"); end() } };
    let mut dr = Drain::new("out".to_string());
    let _ = dr.add_input(out, 0);
    let a = async move { f.start(None).await };
    let b = async move { dr.start(None).await };
    let (r, s) = block_on(join(a, b));
    check(r.is_ok() && s.is_ok(), "failed without a fault");
    check(same(&sx::content("out"), &d), "the destination does not hold exactly the bytes of the source");
    cover("done");
}

/// From the configuration on: several sources and destinations, each its own.
fn configured(name_max: usize, len: usize) {
    for c in ["special", "named"] { expect(c); }
    use crate::conf::*;
    let names: Vec<String> = (0..4).map(|i| if i % 2 == 0 { name("name", name_max) } else { ["/tmp/a b", "x.csv"][i / 2].to_string() }).collect();
    for i in 0..4 { for k in 0..i { assume(!same(names[i].as_bytes(), names[k].as_bytes())); } }
    let (src, dst) = ([&names[0], &names[1]], [&names[2], &names[3]]);
    assume(!same(dst[0].as_bytes(), b"/dev/null"));
    let data: Vec<Vec<u8>> = (0..2).map(|_| upto("b", len)).collect();
    let mut want = data.clone();
    for k in 0..2 { sx::add_file(src[k], data[k].clone()); }
    let typed = vec![b'q', b'\n'];
    sx::add_file(sx::STDIN, typed.clone());
    if src[0] == "-" { want[0] = typed; cover("special") }
    let swap = choice("crossed", 2);
    let mut c = Config::new();
    lines(&mut c, if swap == 0 { &["f:x d:x", "f:y d:y"] } else { &["f:x d:y", "f:y d:x"] }, Breakable::Terminate);
    with_faucet(&mut c, "x", src[0]);
    with_faucet(&mut c, "y", src[1]);
    with_drain(&mut c, "x", dst[0]);
    with_drain(&mut c, "y", dst[1]);
    let mut w = match pipeawesome2::waiter::get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    check(block_on(w.start(None)).is_ok(), "failed without a fault");
    for k in 0..2 {
        let d = if dst[k] == "-" { cover("special"); sx::STDOUT } else if dst[k] == "_" { cover("special"); sx::STDERR } else { cover("named"); &dst[k][..] };
        check(same(&sx::content(d), &want[k ^ swap]), "the destination does not hold exactly the bytes of its source");
    }
    for (k, s) in [sx::STDOUT, sx::STDERR].iter().enumerate() { if dst[0] != ["-", "_"][k] { check(sx::content(s).is_empty(), "a stream was written that is no destination"); } }
    check(sx::with(|w| w.files.iter().filter(|f| f.created > 0 && !dst.iter().any(|d| **d == f.name)).count()) == 0, "another file was written");
}
#[no_mangle]
pub extern "C" fn h_c08_configured() { configured(3, 3); }
#[no_mangle]
pub extern "C" fn t_c08_configured() { configured(4, 4); }

/// Many lines of different lengths.
#[no_mangle]
pub extern "C" fn h_c08_many() {
    expect("done");
    rounds_limit(20000);
    let mut d = flat(&many_lines(900));
    let at = [0, d.len() / 2, d.len() - 1][choice("at", 3)];
    d[at] = any_u8("b");
    sx::add_file("in", d.clone());
    let mut f = Faucet::new("in".to_string());
    let out = match f.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => p, Err(_) => { check(false, "output refused"); end() } };
    let mut dr = Drain::new(["out", "-"][choice("to", 2)].to_string());
    let _ = dr.add_input(out, 0);
    let a = async move { f.start(None).await };
    let b = async move { dr.start(None).await };
    let (r, s) = block_on(join(a, b));
    match (r, s) { (Ok(_), Ok(m)) => check(m == cut(&d).len() + 1, "the drain did not read all its input"), _ => check(false, "failed without a fault") }
    let got = if sx::find_file("out").is_some() { sx::content("out") } else { sx::content(sx::STDOUT) };
    check(same(&got, &d), "the destination does not hold exactly the bytes of the source");
    cover("done");
}

/// Names that look like a special one, or like each other, are ordinary files.
const PLAIN: [&str; 24] = ["stdin", "stdout", "--", "__", "-.txt", "./-", "./_", "- ", " -", "_ ", " _", "-_", "null", "dev/null", "/tmp/dev/null", "/dev/null2", "/dev/null ", "/dev/nullable", "/dev//x",
    "a file with spaces ", "a\nb", "it's \"quoted\"", "\u{e9}t\u{e9}.csv", "/a/very/long/name/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"];
#[no_mangle]
pub extern "C" fn h_c08_names() {
    for c in ["read", "written"] { expect(c); }
    let name = PLAIN[choice("name", PLAIN.len())];
    let d = bytes("b", 2);
    let typed = vec![b'q', b'\n'];
    sx::add_file(sx::STDIN, typed);
    let (src, dst) = if choice("source", 2) == 0 { (name, "other") } else { ("other", name) };
    sx::add_file(src, d.clone());
    if choice("exists", 2) == 1 { sx::add_file(dst, bytes("old", 3)); }
    let mut f = Faucet::new(src.to_string());
    let out = match f.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => p, Err(_) => { check(false, "output refused"); end() } };
    let mut dr = Drain::new(dst.to_string());
    let _ = dr.add_input(out, 0);
    let a = async move { f.start(None).await };
    let b = async move { dr.start(None).await };
    let (r, s) = block_on(join(a, b));
    check(r.is_ok() && s.is_ok(), "failed without a fault");
    check(sx::find_file(dst).is_some() && same(&sx::content(dst), &d), "the destination does not hold exactly the bytes of the source");
    check(same(&sx::content(src), &d), "the source was changed");
    for s in [sx::STDOUT, sx::STDERR] { check(sx::content(s).is_empty(), "a stream was written that is no destination"); }
    check(sx::with(|w| w.files.iter().filter(|f| f.created > 0 && f.name != dst).count()) == 0, "another file was written");
    cover(if src == name { "read" } else { "written" });
}

/// An empty name is no source and no destination: nothing is read, everything is taken, no file is touched.
#[no_mangle]
pub extern "C" fn h_c08_nothing() {
    for c in ["no source", "no destination"] { expect(c); }
    let d = bytes("b", 3);
    sx::add_file(sx::STDIN, vec![b'q', b'\n']);
    let none = sx::add_file("", vec![b'z', b'\n']);
    sx::add_file("in", d.clone());
    let exists = choice("exists", 2);
    if exists == 1 { sx::add_file("out", bytes("old", 3)); }
    let (src, dst) = [("", "out"), ("in", ""), ("", "")][choice("which", 3)];
    let mut c = crate::conf::Config::new();
    crate::conf::lines(&mut c, &["f:x d:x"], Breakable::Terminate);
    // whoever builds a pipeline without a lint may also leave them out
    let configured = choice("configured", 2) == 1;
    if configured || !src.is_empty() { crate::conf::with_faucet(&mut c, "x", src); }
    if configured || !dst.is_empty() { crate::conf::with_drain(&mut c, "x", dst); }
    let mut w = match pipeawesome2::waiter::get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let (stx, srx) = async_std::channel::unbounded();
    let run = async { let r = w.start(Some(stx.clone())).await; stx.close(); r };
    let (r, seen) = block_on(join(run, async { let mut v = vec![]; while let Ok(m) = srx.recv().await { v.push(m); } v }));
    check(r.is_ok(), "an empty name was refused");
    let want = if src.is_empty() { vec![] } else { d.clone() };
    let got: Vec<u8> = flat(&seen.iter().filter_map(|m| match &m.msg { IODataWrapper::IOData(IOData(d)) => Some(d.clone()), _ => None }).collect::<Vec<_>>());
    check(same(&got, &want), "what was sent is not the content of the source");
    check(seen.iter().filter(|m| m.msg == IODataWrapper::Finished).count() == 1, "the end was not seen once");
    if !dst.is_empty() { check(same(&sx::content("out"), &want), "the destination does not hold exactly the bytes of the source"); }
    for s in [sx::STDOUT, sx::STDERR] { check(sx::content(s).is_empty(), "a stream was written that is no destination"); }
    check(sx::with(|w| w.files[none].opened + w.files[none].created) == 0, "a file without a name was opened");
    check(sx::with(|w| w.files.iter().filter(|f| f.created > 0 && f.name != dst).count()) == 0, "another file was written");
    if src.is_empty() { cover("no source"); }
    if dst.is_empty() { cover("no destination"); }
}
