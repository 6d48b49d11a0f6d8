//! C10: exit status is reported once, after the output; programs that do not start are errors.
use crate::common::*;
use crate::world::*;

fn text(m: &[u8]) -> String { String::from_utf8(m.to_vec()).unwrap_or_default() }

fn exit(codes: usize, delays: usize, out_lines: usize) {
    expect("exit"); expect("signal"); expect("zero");
    let code = choice("code", codes + 32);
    let last = if code < codes { sx::Step::Exit(code as i32) } else { sx::Step::Signal((code - codes + 1) as i32) };
    let want = if code < codes { code.to_string() } else { "_".to_string() };
    let mut steps: Vec<sx::Step> = vec![];
    for _ in 0..out_lines { steps.push(sx::Step::Out(vec![b'o', b'\n'])); steps.push(sx::Step::Err(vec![b'e', b'\n'])); }
    steps.push(last);
    sx::program("p", steps);
    // asking for the status may fail now and then
    if out_lines == 0 { let n = if code < 3 { choice("waits that fail", 3) } else { 0 }; sx::with(|w| w.wait_errors = n); }
    let mut l = launch(3, "p");
    let ports = if delays > 0 { choice("ports", 4) } else { 3 };
    let mut port = |p: OutputPort, on: bool, dst: usize| if on { match l.add_output(p, Breakable::Terminate, 3, dst) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } } } else { let (t, r) = bounded(1); drop(t); r };
    let orx = port(OutputPort::Out, ports & 1 != 0, 4);
    let erx = port(OutputPort::Err, ports & 2 != 0, 5);
    let xrx = port(OutputPort::Exit, true, 6);
    budget(delays, 0);
    let n = Cell::new(0usize);
    let want_n = (ports & 1) * out_lines + (ports >> 1) * out_lines;
    let count = |r: Receiver<IOData>| { let n = &n; async move { let mut k = 0; loop { dawdle().await; match r.recv().await { Ok(_) => { k += 1; n.set(n.get() + 1); } Err(_) => return k } } } };
    let status = async {
        let mut v = vec![];
        while let Ok(IOData(d)) = xrx.recv().await {
            // each output may still hold one forwarded message in its channel
            check(n.get() + 2 >= want_n, "exit status sent before the output was forwarded");
            check(sx::with(|w| w.procs[0].status.is_some()), "exit status sent before the program ended");
            v.push(d);
        }
        v
    };
    let run = async { l.start(None).await };
    let (r, (a, b, v)) = block_on(join(run, join3(count(orx), count(erx), status)));
    check(r.is_ok(), "failed");
    check(a + b == want_n, "output lost");
    check(v.len() == 1, "not exactly one exit status message");
    check(text(&v[0]) == want, "wrong exit status");
    cover(if code == 0 { "zero" } else if code < codes { "exit" } else { "signal" });
}
#[no_mangle]
pub extern "C" fn h_c10_codes() { exit(256, 0, 0); }
#[no_mangle]
pub extern "C" fn h_c10_order() { exit(2, 3, 2); }
#[no_mangle]
pub extern "C" fn t_c10_order() { exit(3, 6, 3); }

/// A program that cannot be started.
#[no_mangle]
pub extern "C" fn h_c10_unlaunchable() {
    expect("done");
    let n = 1 + choice("len", 3);
    let name = String::from_utf8(text_bytes("name", n)).unwrap();
    let ports = choice("ports", 16);
    fault_kinds(&OPEN_KINDS);
    let mut l = launch(3, &name);
    let mut outs = vec![];
    for (k, p) in [OutputPort::Out, OutputPort::Err, OutputPort::Exit].iter().enumerate() {
        if ports & (1 << k) != 0 { match l.add_output(*p, Breakable::Terminate, 3, 4) { Ok(p) => outs.push(rx(p)), Err(_) => check(false, "output refused") } }
    }
    let (itx, irx) = bounded(1);
    if ports & 8 != 0 { let _ = l.add_input(Pull::Receiver(pj(2, 3), irx), 0); }
    let data = messages(3);
    let prod = async { if ports & 8 != 0 { produce(itx, &data).await } else { 0 } };
    // the launch object stays alive, as it does in a running pipeline
    let ((_, r), got) = block_on(join(join(prod, l.start(None)), join_all(outs.into_iter().map(collect))));
    for g in got { check(g.is_empty(), "output of a program that never ran"); }
    // what is shown to the user
    if let Err(e) = &r {
        let (shown, n) = (format!("{}", e), name.as_bytes());
        let mut found = false;
        for p in shown.as_bytes().windows(n.len()) { found |= same(p, n); }
        check(found, "the error shown does not name the program");
    }
    match r {
        Err(MotionError::LaunchSpawnError(Some(c))) => check(same(c.as_bytes(), name.as_bytes()), "wrong program named"),
        _ => check(false, "not reported as a program that could not be started"),
    }
    cover("done");
}
