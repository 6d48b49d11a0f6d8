//! C21: errors name the components the failure happened between.
use crate::common::*;
use crate::conf::*;
use pipeawesome2::bin_support::waiter_error_to_string;
use pipeawesome2::buffer::Buffer;
use pipeawesome2::waiter::{get_waiter, Waiter, WaiterError};
use std::io::{Error, ErrorKind};
use std::time::Instant;

fn label(t: CT, n: &str) -> String { format!("{:?}:{}", t, n) }
/// Whether `text` names this component, and not one whose name merely starts the same.
fn at(text: &str, l: &str) -> Option<usize> {
    let mut from = 0;
    while let Some(i) = text[from..].find(l) {
        let i = from + i;
        let (a, b) = (text[..i].chars().last(), text[i + l.len()..].chars().next());
        if a.map_or(true, |c| !c.is_alphanumeric()) && b.map_or(true, |c| !c.is_alphanumeric()) { return Some(i); }
        from = i + 1;
    }
    None
}
const KNOWN: [(CT, &str); 5] = [(CT::Faucet, "a"), (CT::Launch, "b"), (CT::Buffer, "b"), (CT::Drain, "bb"), (CT::Junction, "a")];
const FAILING: (CT, &str) = (CT::Regulator, "w");

/// Every kind of failure, on every link.
#[no_mangle]
pub extern "C" fn h_c21_text() {
    for c in ["both", "source", "only the failing one", "regulator"] { expect(c) }
    let mut map: HashMap<usize, (CT, String)> = HashMap::new();
    for (i, (t, n)) in KNOWN.iter().enumerate() { map.insert(i, (*t, n.to_string())); }
    let (src, dst) = (choice("src", KNOWN.len() + 1), choice("dst", KNOWN.len() + 1));
    let (j, p, i) = (jn(src, Some(OutputPort::Out), dst, breakable()), pj(src, dst), Instant::now());
    let io = || Error::from(ErrorKind::NotFound);
    let data = || IOData(vec![b'x']);
    let kind = choice("kind", 16);
    let (e, has_src, has_dst) = match kind {
        0 => (MotionError::ReadIOError(p, i, io()), true, true),
        1 => (MotionError::CloseIOError(j, i, io()), true, true),
        2 => (MotionError::OpenIOError(p, i, io()), true, true),
        3 => (MotionError::WriteIOError(j, i, io(), data()), true, true),
        4 => (MotionError::RecvError(j, i, async_std::channel::RecvError), true, true),
        5 => (MotionError::SendError(j, i, async_std::channel::SendError(data())), true, true),
        6 => (MotionError::OutputClosed(j, i, OutputClosedReason::BrokenPipe, data()), true, true),
        7 => (MotionError::OutputClosed(j, i, OutputClosedReason::ChannelClosed, data()), true, true),
        8 => (MotionError::MonitorReadError(JourneySource { src }, i, async_std::channel::SendError(MonitorMessage::Read(0))), true, false),
        9 => (MotionError::MonitorWriteError(p, i, async_std::channel::SendError(MonitorMessage::Wrote(0))), true, true),
        10 => (MotionError::SpyWriteError(i, async_std::channel::SendError(SpyMessage { src, dst, src_port: OutputPort::Err, msg: IODataWrapper::Finished })), true, true),
        11 => (MotionError::LaunchSpawnError(if choice("utf8", 2) == 1 { Some("p".to_string()) } else { None }), false, false),
        12 => (MotionError::NoneError, false, false),
        k => {
            let e = match k { 13 => WaiterError::SettingsForMissingRegulator("w".to_string()), 14 => WaiterError::SettingsRefersMissingBuffer("w".to_string(), "v".to_string()), _ => [WaiterError::CouldNotPause, WaiterError::CouldNotResume].into_iter().nth(choice("which", 2)).unwrap() };
            let t = waiter_error_to_string(e, &map);
            for (ct, n) in KNOWN { check(at(&t, &label(ct, n)).is_none(), "an unrelated component is named"); }
            if k < 15 { check(t.contains("Regulator") && at(&t, "w").is_some() && !t.contains("Faucet"), "the regulator is not named"); }
            if k == 14 { check(t.contains("uffer") && at(&t, "v").is_some(), "the buffer is not named"); }
            cover("regulator");
            return;
        }
    };
    let t = waiter_error_to_string(WaiterError::CausedByError(FAILING.0, FAILING.1.to_string(), e), &map);
    let named = |k: usize| if k < KNOWN.len() { Some(label(KNOWN[k].0, KNOWN[k].1)) } else { None };
    let s = if has_src { named(src) } else { None };
    let d = if has_dst { named(dst) } else { None };
    let find = |l: &str| at(&t, l);
    note(&t);
    let failing = label(FAILING.0, FAILING.1);
    match (&s, &d) {
        (Some(s), Some(d)) => { match (find(s), t.rfind(d.as_str())) { (Some(x), Some(y)) => check(if s == d { x < y } else { x < y }, "source and destination are exchanged"), _ => check(false, "the source or the destination is not named") } cover("both"); }
        (Some(s), None) => { check(find(s).is_some(), "the source is not named"); cover("source"); }
        (None, None) => { check(find(&failing).is_some(), "the failing component is not named"); cover("only the failing one"); }
        (None, Some(_)) => { check(find(&failing).is_some() || find(d.as_ref().unwrap()).is_some(), "no component is named"); }
    }
    for k in 0..KNOWN.len() { let l = named(k).unwrap(); if s.as_ref() != Some(&l) && d.as_ref() != Some(&l) { check(find(&l).is_none(), "an unrelated component is named"); } }
}

const SHAPES: [&[&str]; 6] = [
    &["f:x r:x b:x j:x l:x d:x"],
    &["f:x j:x l:x d:x", "j:x d:y"],
    &["f:x l:x d:x", "l:x/E d:y", "l:x/X b:x d:z"],
    &["f:x b:x r:x j:x d:y", "f:y r:y j:x d:x"],
    &["l:x j:x d:x", "f:x j:x d:y", "l:x/E r:x d:z"],
    &["f:x d:x", "f:y j:x d:y", "f:z l:x j:x b:x d:z"],
];
/// The fault: what fails, and in which component.
#[derive(Clone, Copy, PartialEq)]
enum Fault { Open, Read, Program, In, Out, Err, Create, Write, Flush, Spy }
const FAULTS: [Fault; 10] = [Fault::Open, Fault::Read, Fault::Program, Fault::In, Fault::Out, Fault::Err, Fault::Create, Fault::Write, Fault::Flush, Fault::Spy];
fn pipeline(shape: usize, br: Breakable) -> Config {
    let mut c = Config::new();
    lines(&mut c, SHAPES[shape], br);
    let mut used = vec![];
    for (_, v) in c.connection.iter() { if let DeserializedConnection::Connections(v) = v { for x in v { let p = part(x); used.push((*p.t, p.name.to_string())); } } }
    for (t, n) in used {
        match t { CT::Faucet => with_faucet(&mut c, &n, &format!("in{}", n)), CT::Drain => with_drain(&mut c, &n, &format!("out{}", n)), CT::Launch => with_launch(&mut c, &n, "p"), CT::Regulator => with_regulator(&mut c, &n, None, &[]), _ => {} }
    }
    for n in ["inx", "iny", "inz"] { sx::add_file(n, b"a\nb\n".to_vec()); }
    sx::program("p", vec![sx::Step::Cat, sx::Step::Out(b"o\n".to_vec()), sx::Step::Err(b"e\n".to_vec())]);
    c
}
fn links_of(c: &Config) -> Vec<((CT, String, OutputPort), (CT, String))> {
    let mut r = vec![];
    for (_, v) in c.connection.iter() { if let DeserializedConnection::Connections(v) = v { for w in v.windows(2) {
        let (a, b) = (part(&w[0]), part(&w[1]));
        r.push(((*a.t, a.name.to_string(), *a.out.unwrap()), (*b.t, b.name.to_string())));
    } } }
    r
}
/// Sets up the fault; the component that fails.
fn inject(f: Fault, c: &Config) -> Option<(CT, String)> {
    let pick = |t: CT| -> Option<String> { let mut v: Vec<String> = links_of(c).iter().flat_map(|l| vec![(l.0 .0, l.0 .1.clone()), (l.1 .0, l.1 .1.clone())]).filter(|x| x.0 == t).map(|x| x.1).collect(); v.sort(); v.dedup(); if v.is_empty() { None } else { let n = choice("which", v.len()); Some(v[n].clone()) } };
    match f {
        Fault::Open | Fault::Read => { let n = pick(CT::Faucet)?; let i = sx::file(&format!("in{}", n)); sx::with(|w| if f == Fault::Open { w.files[i].exists = false } else { w.files[i].read_error_at = Some(2) }); Some((CT::Faucet, n)) }
        Fault::Program => { let n = pick(CT::Launch)?; sx::program_unlaunchable("p"); Some((CT::Launch, n)) }
        Fault::In | Fault::Out | Fault::Err => {
            let n = pick(CT::Launch)?;
            let me = (CT::Launch, n);
            let (stream, port) = match f { Fault::In => (0, None), Fault::Out => (1, Some(OutputPort::Out)), _ => (2, Some(OutputPort::Err)) };
            if !links_of(c).iter().any(|l| match port { None => l.1 == me, Some(p) => l.0 .0 == me.0 && l.0 .1 == me.1 && l.0 .2 == p }) { return None; }
            sx::with(|w| w.pipe_faults.push(("p".to_string(), stream, [0, 2][choice("after", 2)])));
            Some(me)
        }
        Fault::Create | Fault::Write | Fault::Flush => { let n = pick(CT::Drain)?; let i = sx::file(&format!("out{}", n)); sx::with(|w| match f { Fault::Create => w.files[i].create_error = true, Fault::Write => w.files[i].write_error_at = Some(0), _ => w.files[i].flush_error = true }); Some((CT::Drain, n)) }
        Fault::Spy => None,
    }
}
fn run(br: Breakable, delays: usize) {
    for c in ["open", "read", "program", "in", "out", "err", "create", "write", "spy"] { expect(c) }
    if br == Breakable::Terminate { expect("closed") }
    let shape = choice("shape", SHAPES.len());
    let c = pipeline(shape, br);
    let fault = FAULTS[choice("fault", FAULTS.len())];
    fault_kinds(&[EK::InvalidInput, EK::StorageFull, EK::ConnectionReset]);
    let failing = inject(fault, &c);
    if failing.is_none() && fault != Fault::Spy { return; }
    let links = links_of(&c);
    let mut w: Waiter = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let names = match w.get_id_to_component_type_name() { Some(n) => n, None => { check(false, "the components have no names"); end() } };
    budget(delays, 0);
    let spy = if fault == Fault::Spy { let (tx, rx) = bounded(1); drop(rx); Some(tx) } else { None };
    let es = match block_on(w.start(spy)) { Ok(_) => { check(shape == 4 && fault == Fault::Flush, "a failure was not reported"); return } Err(es) => es };
    let failed: Vec<(CT, String)> = es.iter().filter_map(|e| e.caused_by_error_source()).map(|(t, n)| (*t, n.clone())).collect();
    let mut root = false;
    for e in es {
        let of = match e.caused_by_error_source() { Some((t, n)) => (*t, n.clone()), None => { check(false, "an error belongs to no component"); end() } };
        let m = match e.caused_by_error() { Some(m) => m, None => { check(false, "an error without a cause"); end() } };
        let is_root = failing.as_ref() == Some(&of);
        let closed = matches!(m, MotionError::OutputClosed(..) | MotionError::SendError(..));
        let ids = match (m.journey().map(|j| (j.src, j.dst, j.src_port)), m.pull_journey().map(|j| (j.src, j.dst, None))) { (Some(x), _) | (_, Some(x)) => Some(x), _ => None };
        let program = matches!(m, MotionError::LaunchSpawnError(_));
        let mut link = None;
        match ids {
            None => check(program, "an error knows no link"),
            Some((s, d, port)) => {
                let (s, d) = match (names.get(&s), names.get(&d)) { (Some(s), Some(d)) => (s.clone(), d.clone()), _ => { check(false, "an error's link is between unknown components"); end() } };
                let l = links.iter().find(|l| l.0 .0 == s.0 && l.0 .1 == s.1 && l.1 == d && port.map_or(true, |p| p == l.0 .2));
                check(l.is_some(), "an error's link is not in the configuration");
                check(m.journey_source().and_then(|s| names.get(s)) == Some(&s), "the source of an error is ambiguous");
                match of.0 { CT::Drain => check(d == of, "a drain's error is not about its input"), CT::Launch if fault == Fault::In && !closed => check(d == of, "a program's error is not about its input"), _ => check(s == of, "an error's link does not start at the component that failed") }
                if closed && br == Breakable::Terminate { check(failed.contains(&d), "a receiver is reported closed that was not"); }
                check(!closed || br == Breakable::Terminate, "a closed receiver is an error on a link that tolerates it");
                link = Some((s, d));
            }
        }
        if is_root || fault == Fault::Spy {
            root = true;
            match (fault, m) {
                (Fault::Open, MotionError::OpenIOError(..)) => cover("open"),
                (Fault::Read, MotionError::ReadIOError(..)) => cover("read"),
                (Fault::Program, MotionError::LaunchSpawnError(Some(p))) => { check(p == "p", "another program is named"); cover("program") }
                (Fault::In, MotionError::WriteIOError(..)) => cover("in"),
                (Fault::Out, MotionError::ReadIOError(..)) => { check(link.as_ref().map_or(false, |l| links.iter().any(|x| x.0 .2 == OutputPort::Out && (&x.0 .1, &x.1) == (&l.0 .1, &l.1))), "another output is named"); cover("out") }
                (Fault::Err, MotionError::ReadIOError(..)) => { check(link.as_ref().map_or(false, |l| links.iter().any(|x| x.0 .2 == OutputPort::Err && (&x.0 .1, &x.1) == (&l.0 .1, &l.1))), "another output is named"); cover("err") }
                (Fault::Create, MotionError::OpenIOError(..)) => cover("create"),
                (Fault::Write, MotionError::WriteIOError(..) | MotionError::CloseIOError(..)) => cover("write"),
                (Fault::Flush, MotionError::CloseIOError(..)) => (),
                (Fault::Spy, MotionError::SpyWriteError(..)) => cover("spy"),
                (Fault::Spy, MotionError::OutputClosed(..)) if br == Breakable::Terminate => (),
                _ => { check(fault == Fault::Program && failing.as_ref() == Some(&of), "another failure is reported"); }
            }
        } else { check(closed, "a failure is reported that did not happen"); cover("closed"); }
        let t = waiter_error_to_string(e, &names);
        note(&t);
        match link {
            Some((s, d)) => match (at(&t, &label(s.0, &s.1)), t.rfind(&label(d.0, &d.1))) { (Some(x), Some(y)) => check(x < y, "source and destination are exchanged"), _ => check(false, "the message does not name the link") },
            None => check(at(&t, &label(of.0, &of.1)).is_some(), "the failing component is not named"),
        }
        check(!t.contains("Unknown Source"), "a known source is called unknown");
    }
    check(root, "the failure is not among the errors");
}
#[no_mangle]
pub extern "C" fn h_c21_run() { run(Breakable::Terminate, 0) }
#[no_mangle]
pub extern "C" fn h_c21_run_finish() { let b = if choice("consume", 2) == 1 { Breakable::Consume } else { Breakable::Finish }; run(b, 0) }
#[no_mangle]
pub extern "C" fn t_c21_run() { let b = breakable(); run(b, 1) }

/// A buffer whose observer leaves.
#[no_mangle]
pub extern "C" fn h_c21_buffer() {
    expect("failed"); expect("ended");
    let mut b = Buffer::new();
    b.set_stdout_size(1);
    let m = b.add_buffer_size_monitor();
    let id = 3;
    let (tx, irx) = bounded(1);
    let _ = b.add_input(Pull::Receiver(pj(2, id), irx), 0);
    let br = breakable();
    let out = rx(match b.add_output(OutputPort::Out, br, id, 4) { Ok(p) => p, Err(_) => { check(false, "refused"); end() } });
    let data = messages(3);
    let (k, o) = (choice("observed", 4), choice("received", 4));
    budget(1, 0);
    let watch = async { for _ in 0..k { if m.recv().await.is_err() { break } } drop(m) };
    let ((_, r), _) = block_on(join(join(produce(tx, &data), async { let r = b.start(None).await; drop(b); r }), join(watch, collect_some(out, o))));
    match r {
        Ok(_) => cover("ended"),
        Err(e) => {
            let d = e.journey().map(|j| (j.src, j.dst)).or_else(|| e.pull_journey().map(|j| (j.src, j.dst)));
            let s = e.journey_source().copied();
            check(s == Some(id) || (s == Some(2) && d == Some((2, id))), "another component is named as the source");
            if let Some(d) = d { check(d == (2, id) || d == (id, 4) || d == (id, id), "the link is not one of the buffer's"); }
            cover("failed");
        }
    }
}

/// What the user sees.
#[no_mangle]
pub extern "C" fn h_c21_shown() {
    expect("shown");
    let shape = choice("shape", SHAPES.len());
    let c = pipeline(shape, Breakable::Terminate);
    let fault = FAULTS[choice("fault", FAULTS.len() - 1)];
    let failing = match inject(fault, &c) { Some(f) => f, None => return };
    let text = match serde_json::to_string(&c) { Ok(t) => t, Err(_) => { check(false, "a configuration could not be written"); end() } };
    // the links that run, with the junctions and drains that were added
    let links = links_of(&pipeawesome2::config_manip::connection_manipulation(c));
    crate::pa2::pa2(&["process", "--config", "-"], &[], &text, move |o| {
        note(&o.err);
        if shape == 4 && fault == Fault::Flush && o.code == 0 { return; }
        check(o.code == 1, "a failure is not visible in the exit code");
        let me = label(failing.0, &failing.1);
        let mut ok = false;
        for l in links.iter().filter(|l| if failing.0 == CT::Drain || fault == Fault::In { l.1 == failing } else { l.0 .0 == failing.0 && l.0 .1 == failing.1 }) {
            let (a, b) = (label(l.0 .0, &l.0 .1), label(l.1 .0, &l.1 .1));
            ok |= o.err.lines().any(|t| match (at(t, &a), t.rfind(&b)) { (Some(x), Some(y)) => x < y, _ => false });
        }
        if fault == Fault::Program { ok = o.err.lines().any(|t| at(t, &me).is_some() && at(t, "p").is_some()); }
        check(ok, "the failure is not shown with the components it happened between");
        cover("shown");
    })
}

/// Many components; any one of them fails.
fn wide(n: usize) {
    for c in ["open", "program", "create"] { expect(c) }
    let (kind, at) = (choice("kind", 3), choice("at", n));
    let mut c = Config::new();
    for i in 0..n {
        let x = format!("n{}", i);
        c.connection.insert(x.clone(), DeserializedConnection::Connections(line(&format!("f:{} j:{} l:{} d:{}", x, x, x, x), Breakable::Terminate)));
        with_faucet(&mut c, &x, &format!("in-{}", x)); with_launch(&mut c, &x, &format!("p-{}", x)); with_drain(&mut c, &x, &format!("out-{}", x));
        sx::add_file(&format!("in-{}", x), b"a\nb\n".to_vec());
        if kind == 1 && i == at { sx::program_unlaunchable(&format!("p-{}", x)) } else { sx::program(&format!("p-{}", x), vec![sx::Step::Cat]) }
    }
    let x = format!("n{}", at);
    if kind == 0 { let i = sx::file(&format!("in-{}", x)); sx::with(|w| w.files[i].exists = false) }
    if kind == 2 { let i = sx::file(&format!("out-{}", x)); sx::with(|w| w.files[i].create_error = true) }
    rounds_limit(3000);
    let mut w: Waiter = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    let names = match w.get_id_to_component_type_name() { Some(n) => n, None => { check(false, "the components have no names"); end() } };
    let es = match block_on(w.start(None)) { Ok(_) => { check(false, "a failure was not reported"); end() } Err(es) => es };
    let failing = ([CT::Faucet, CT::Launch, CT::Drain][kind], x.clone());
    let mut root = false;
    for e in es {
        let of = match e.caused_by_error_source() { Some((t, n)) => (*t, n.clone()), None => { check(false, "an error belongs to no component"); end() } };
        check(of.1 == x, "a failure is reported that did not happen");
        root |= of == failing;
        let t = waiter_error_to_string(e, &names);
        check(at_any(&t, &x), "the failing component is not named");
        for i in 0..n { if i != at { check(!at_any(&t, &format!("n{}", i)), "an unrelated component is named") } }
    }
    check(root, "the failure is not among the errors");
    for i in 0..n { if i != at { check(same(&sx::content(&format!("out-n{}", i)), b"a\nb\n"), "an unaffected branch was not run to its end") } }
    cover(["open", "program", "create"][kind]);
}
fn at_any(t: &str, n: &str) -> bool { [CT::Faucet, CT::Launch, CT::Drain, CT::Junction].iter().any(|c| at(t, &label(*c, n)).is_some()) }
#[no_mangle]
pub extern "C" fn h_c21_wide() { wide(11) }
#[no_mangle]
pub extern "C" fn t_c21_wide() { wide(30) }
