//! C09: programs are started and fed as configured.
use crate::common::*;
use crate::world::*;
use pipeawesome2::launch::Launch;
use std::collections::HashMap;

fn word(tag: &str, max: usize) -> String { let n = choice("word_len", max + 1); String::from_utf8((0..n).map(|_| range_u8(tag, 32, 126)).collect()).unwrap() }

/// What the program is started with.
fn spawn(max: usize) {
    for c in ["env", "no env", "path", "no path", "args", "no args"] { expect(c); }
    let (e, p, a) = (choice("env", 3), choice("path", 2), choice("args", 3));
    let env: Vec<(String, String)> = (0..e).map(|i| (format!("{}{}", ["A", "B"][i], word("key", 1)), word("value", max))).collect();
    let path = if p == 1 { Some(word("path", max)) } else { None };
    let args: Vec<String> = (0..a).map(|_| word("arg", max)).collect();
    sx::program("p q", vec![]);
    let mut m = HashMap::new();
    for (k, v) in &env { m.insert(k.clone(), v.clone()); }
    let l: LaunchS = Launch::new(3, if e > 0 { Some(m) } else { None }, path.clone(), "p q".to_string(), if a > 0 { Some(args.clone()) } else { None });
    let r = block_on(async move { let mut l = l; l.start(None).await });
    check(r.is_ok(), "failed");
    check(sx::with(|w| w.procs.len()) == 1, "not started exactly once");
    let s = sx::with(|w| w.procs[0].info.clone());
    check(s.program == "p q", "wrong program");
    check(s.args.len() == args.len(), "wrong number of arguments");
    for i in 0..args.len() { check(same(s.args[i].as_bytes(), args[i].as_bytes()), "wrong argument"); }
    check(!s.env_clear, "the inherited environment was dropped");
    let mut seen = 0;
    for (k, v) in &s.envs {
        if k == "PATH" { check(v == "/bin", "inherited variable changed"); continue; }
        let mut found = false;
        for (k2, v2) in &env { if same(k.as_bytes(), k2.as_bytes()) { found = true; check(same(v.as_bytes(), v2.as_bytes()), "wrong value of a variable"); } }
        check(found, "a variable that was not configured");
        seen += 1;
    }
    check(seen == env.len(), "a configured variable is missing");
    match (&path, &s.dir) { (Some(p), Some(d)) => check(same(p.as_bytes(), d.as_bytes()), "wrong working directory"), (None, None) => {} (None, Some(d)) => check(d == "/cwd", "wrong working directory"), _ => check(false, "wrong working directory") }
    check((s.stdin, s.stdout, s.stderr) == (sx::NULL, sx::NULL, sx::NULL), "an unconnected port is not discarded");
    cover(if e > 0 { "env" } else { "no env" });
    cover(if p > 0 { "path" } else { "no path" });
    cover(if a > 0 { "args" } else { "no args" });
}
#[no_mangle]
pub extern "C" fn h_c09_spawn() { spawn(1); }
#[no_mangle]
pub extern "C" fn t_c09_spawn() { spawn(2); }

fn step(k: usize) -> sx::Step {
    match k {
        0 => sx::Step::Read,
        1 => sx::Step::Out(vec![any_u8("o"), b'\n']),
        2 => sx::Step::Err(vec![any_u8("e")]),
        3 => sx::Step::Cat,
        4 => sx::Step::CloseIn,
        5 => sx::Step::CloseOut,
        6 => sx::Step::CloseErr,
        _ => sx::Step::ReadAll,
    }
}

/// Every behaviour of the program, every combination of connected ports.
fn streams(n_steps: usize, n: usize, delays: usize, splits: usize) {
    for c in ["in", "out", "err", "early", "all read"] { expect(c); }
    let ports = choice("ports", 8);
    let (cin, cout, cerr) = (ports & 1 != 0, ports & 2 != 0, ports & 4 != 0);
    let steps: Vec<sx::Step> = (0..n_steps).map(|_| step(choice("step", 8))).collect();
    sx::program("p", steps.clone());
    let data = messages(n);
    let mut l = launch(3, "p");
    let (itx, irx) = bounded(1);
    if cin { check(l.add_input(Pull::Receiver(pj(2, 3), irx), 0).is_ok(), "input refused"); }
    let mut port = |p: OutputPort, on: bool, dst: usize| if on { match l.add_output(p, Breakable::Terminate, 3, dst) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } } } else { let (t, r) = bounded(1); drop(t); r };
    let orx = port(OutputPort::Out, cout, 4);
    let erx = port(OutputPort::Err, cerr, 5);
    budget(delays, splits);
    let run = async move { l.start(None).await };
    let prod = async { if cin { produce(itx, &data).await } else { 0 } };
    let ((_, r), (o, e)) = block_on(join(join(prod, run), join(collect(orx), collect(erx))));
    sx::advance(0);
    check(r.is_ok(), "a launch whose receivers stay failed");
    check(sx::with(|w| w.procs.len()) == 1, "not started exactly once");
    let s = sx::with(|w| w.procs[0].info.clone());
    let m = |b: bool| if b { sx::PIPED } else { sx::NULL };
    check((s.stdin, s.stdout, s.stderr) == (m(cin), m(cout), m(cerr)), "a port is connected wrongly");
    let rec = sx::with(|w| w.procs[0].received.clone());
    let all = flat(&data);
    check(prefix(&rec, if cin { &all } else { &[] }), "the program received something else than the messages");
    let stops = steps.iter().any(|s| matches!(s, sx::Step::CloseIn));
    let reads_all = steps.iter().any(|s| matches!(s, sx::Step::Cat | sx::Step::ReadAll));
    if cin && reads_all && !stops { check(rec.len() == all.len(), "the program did not receive every message"); check(sx::with(|w| w.procs[0].saw_eof), "the program's input was not closed"); cover("all read"); }
    if cin && rec.len() < all.len() { cover("early") }
    check(sx::with(|w| !w.procs[0].stdin_open_w || w.procs[0].info.stdin != sx::PIPED), "the program's input was left open");
    let (wo, we) = sx::with(|w| (w.procs[0].all_out.clone(), w.procs[0].all_err.clone()));
    check(sx::with(|w| w.procs[0].status) == Some(0), "the program was ended");
    check(same(&flat(&o), &wo), "standard output of the program was lost, changed or reordered");
    check(same(&flat(&e), &we), "standard error of the program was lost, changed or reordered");
    if !wo.is_empty() { cover("out") }
    if !we.is_empty() { cover("err") }
    for (msgs, _) in [(&o, 0), (&e, 1)] {
        for (k, m) in msgs.iter().enumerate() {
            check(!m.is_empty(), "empty message");
            for x in &m[..m.len() - 1] { check(*x != b'\n', "more than one line in a message"); }
            check((k == msgs.len() - 1) | (m[m.len() - 1] == b'\n'), "a line was split");
        }
    }
    if cin { cover("in") }
}
#[no_mangle]
pub extern "C" fn h_c09_streams() { streams(2, 2, 1, 0); }
#[no_mangle]
pub extern "C" fn t_c09_streams() { streams(3, 2, 2, 1); }

/// An echoing program: every message in comes out, as lines, whatever the timing.
fn echo(n: usize, delays: usize, splits: usize) {
    expect("done");
    sx::program("p", vec![sx::Step::Cat]);
    let data = messages(n);
    let mut l = launch(3, "p");
    let (itx, irx) = bounded(1);
    let _ = l.add_input(Pull::Receiver(pj(2, 3), irx), 0);
    let orx = match l.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } };
    sx::with(|w| w.pipe_capacity = 2);
    budget(delays, splits);
    let run = async move { l.start(None).await };
    let ((s, r), o) = block_on(join(join(produce(itx, &data), run), collect(orx)));
    check(r.is_ok() && s == n, "failed");
    check(same(&flat(&o), &flat(&data)), "echoed output was lost, changed or reordered");
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c09_echo() { echo(3, 2, 1); }
#[no_mangle]
pub extern "C" fn t_c09_echo() { echo(4, 4, 2); }

/// Long streams in both directions.
fn many(n: usize) {
    expect("done");
    rounds_limit(40 * n);
    sx::program("p", vec![sx::Step::Cat]);
    let data = many_lines(n);
    let mut l = launch(3, "p");
    let (itx, irx) = bounded(8);
    let _ = l.add_input(Pull::Receiver(pj(2, 3), irx), 0);
    let orx = match l.add_output(OutputPort::Out, Breakable::Terminate, 3, 4) { Ok(p) => rx(p), Err(_) => { check(false, "output refused"); end() } };
    let cap = [1, 64, 65536][choice("pipe capacity", 3)];
    sx::with(|w| w.pipe_capacity = cap);
    let run = async move { l.start(None).await };
    let ((s, r), o) = block_on(join(join(produce(itx, &data), run), collect(orx)));
    check(r.is_ok() && s == n, "failed");
    check(same_list(&o, &data), "echoed output was lost, changed, reordered or cut differently");
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c09_many() { many(1200); }

/// What the program is started with, from the configuration on.
fn configured(max: usize, n_args: usize) {
    for c in ["env", "no env", "path", "no path", "args", "no args", "empty"] { expect(c); }
    use crate::conf::*;
    let (e, p, a) = (choice("env", 3), choice("path", 2), choice("args", n_args + 1));
    let env: Vec<(String, String)> = (0..e).map(|i| (format!("{}{}", ["A", "B"][i], word("key", 1)), word("value", max))).collect();
    let path = if p == 1 { Some(word("path", max)) } else { None };
    let args: Vec<String> = (0..a).map(|_| word("arg", max)).collect();
    let cmd = ["p q", "p", "./p", "a/b"][choice("command", 4)];
    sx::program(cmd, vec![sx::Step::Out(vec![b'x'])]);
    sx::program("other", vec![]);
    let mut c = Config::new();
    lines(&mut c, &["l:z d:x", "l:y d:w"], Breakable::Terminate);
    with_drain(&mut c, "x", "x");
    with_drain(&mut c, "w", "w");
    with_launch(&mut c, "y", "other");
    c.launch.insert("z".to_string(), LaunchConfig { command: Some(cmd.to_string()), path: path.clone(), env: env.iter().cloned().collect(), arg: args.clone() });
    let mut w = match pipeawesome2::waiter::get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } };
    check(block_on(w.start(None)).is_ok(), "failed");
    check(same(&sx::content("x"), b"x"), "the output of the program was lost");
    check(sx::with(|w| w.procs.len()) == 2, "not started exactly once");
    let s = match sx::with(|w| w.procs.iter().find(|p| p.info.program == cmd).map(|p| p.info.clone())) { Some(s) => s, None => { check(false, "wrong program"); end() } };
    check(s.args.len() == args.len(), "wrong number of arguments");
    for i in 0..args.len() { check(same(s.args[i].as_bytes(), args[i].as_bytes()), "wrong argument"); }
    check(!s.env_clear, "the inherited environment was dropped");
    let mut seen = 0;
    for (k, v) in &s.envs {
        if k == "PATH" { check(v == "/bin", "inherited variable changed"); continue; }
        let mut found = false;
        for (k2, v2) in &env { if same(k.as_bytes(), k2.as_bytes()) { found = true; check(same(v.as_bytes(), v2.as_bytes()), "wrong value of a variable"); } }
        check(found, "a variable that was not configured");
        seen += 1;
    }
    check(seen == env.len(), "a configured variable is missing");
    match (&path, &s.dir) { (Some(p), Some(d)) => check(same(p.as_bytes(), d.as_bytes()), "wrong working directory"), (None, None) => {} (None, Some(d)) => check(d == "/cwd", "wrong working directory"), _ => check(false, "wrong working directory") }
    cover(if e > 0 { "env" } else { "no env" });
    cover(if p > 0 { "path" } else { "no path" });
    cover(if a > 0 { "args" } else { "no args" });
    if args.iter().any(|x| x.is_empty()) { cover("empty") }
}
#[no_mangle]
pub extern "C" fn h_c09_configured() { configured(1, 3); }
#[no_mangle]
pub extern "C" fn t_c09_configured() { configured(2, 3); }

/// Words that mean something to shells, option parsers and operating systems.
const WORDS: [&str; 26] = ["--", "-", "", " ", "a b", " a", "a ", "$HOME", "~", "~/x", "*", "'q'", "\"q\"", "a=b", "=", "\u{e9}\u{4e16}", "a\nb", "\t", "\\", "a\\ b", "#", "${X}", "`x`", ";", "--help", "%s {} {0}"];
const DIRS: [&str; 8] = ["./x", "..", "/", "x/", "/a/../b", "~", ".", "/dev"];
const VARS: [&str; 8] = ["PATH", "HOME", "PWD", "A", "a", "LD_PRELOAD", "_", "A.B"];
const COMMANDS: [&str; 7] = ["./p", "/bin/p", "p q", "~/p", "$p", "p;q", "\u{e9}"];
#[no_mangle]
pub extern "C" fn h_c09_words() {
    use crate::conf::*;
    for c in ["arg", "value", "variable", "dir", "command"] { expect(c); }
    let kind = choice("kind", 5);
    let w = WORDS[if kind < 2 { choice("word", WORDS.len()) } else { 4 }];
    let (mut cmd, mut path, mut args, mut env) = ("p".to_string(), None, vec!["x".to_string(), "y".to_string()], vec![("Z".to_string(), "z".to_string())]);
    match kind {
        0 => { let at = choice("at", 4); if at == 3 { args = vec![w.to_string(); 3] } else { args.insert(at, w.to_string()) } cover("arg") }
        1 => { env.push(("K".to_string(), w.to_string())); cover("value") }
        2 => { env.push((VARS[choice("variable", VARS.len())].to_string(), ["v", ""][choice("empty", 2)].to_string())); cover("variable") }
        3 => { path = Some(DIRS[choice("dir", DIRS.len())].to_string()); cover("dir") }
        _ => { cmd = COMMANDS[choice("command", COMMANDS.len())].to_string(); cover("command") }
    }
    if choice("long", 2) == 1 { args.push("l".repeat(70000)); env.push(("LONG".to_string(), "v".repeat(5000))); for i in 0..40 { args.push(format!("{}", i)); env.push((format!("E{}", i), format!("{}", i))); } }
    sx::program(&cmd, vec![sx::Step::Out(vec![b'x'])]);
    let mut c = Config::new();
    lines(&mut c, &["l:z d:x"], Breakable::Terminate);
    with_drain(&mut c, "x", "x");
    c.launch.insert("z".to_string(), LaunchConfig { command: Some(cmd.clone()), path: path.clone(), env: env.iter().cloned().collect(), arg: args.clone() });
    let mut wt = waiter(c);
    check(block_on(wt.start(None)).is_ok(), "failed");
    check(sx::with(|w| w.procs.len()) == 1, "not started exactly once");
    let s = sx::with(|w| w.procs[0].info.clone());
    check(s.program == cmd, "wrong program");
    check(s.args == args, "wrong arguments");
    check(!s.env_clear, "the inherited environment was dropped");
    for (k, v) in &env { check(s.envs.iter().any(|(a, b)| a == k && b == v), "a configured variable is missing, or has another value"); }
    for (k, v) in &s.envs { check(env.iter().any(|(a, b)| a == k && b == v) || (k == "PATH" && v == "/bin" && !env.iter().any(|x| x.0 == "PATH")), "a variable that was not configured"); }
    match (&path, &s.dir) { (Some(p), d) => check(d.as_ref() == Some(p), "wrong working directory"), (None, d) => check(d.as_ref().map_or(true, |d| d == "/cwd"), "wrong working directory") }
    check(same(&sx::content("x"), b"x"), "the output of the program was lost");
}
