//! C26: the command line.
use crate::common::*;
use crate::conf::*;
use crate::pa2::{pa2, Outcome};
use pipeawesome2::config_io::{parse_config_str, ConfigFormat};

fn text(n: usize) -> String { let v: Vec<u8> = (0..n).map(|k| { let b = any_u8("text"); assume((b < 128) & ((k > 0) | (b != b'-'))); b }).collect(); unsafe { String::from_utf8_unchecked(v) } }
fn some_text(max: usize) -> String { let n = choice("len", max + 1); text(n) }

/// What holds for every invocation.
fn contract(o: &Outcome, quiet: bool) {
    note(&format!("{} {:?} {:?}", o.code, o.out, o.err));
    if o.code == 2 { end() } // refused by clap, which is not part of the program
    check(o.code == 0 || o.code == 1, "the exit status is neither 0 nor 1");
    if o.code == 0 { check(o.err.is_empty(), "there is a message on standard error but the exit status says success"); if quiet { check(o.out.is_empty(), "something is printed that is no part of the result"); } }
    else { check(o.out.is_empty(), "the exit status says failure but there is a result on standard output"); check(o.err.trim().len() > 0, "failure without a message"); }
}
fn read_back(o: &Outcome) -> Config {
    check(o.out.ends_with('\n'), "the result does not end with a line end");
    match parse_config_str(&ConfigFormat::Json, &o.out) { Ok(c) => c, Err(_) => { check(false, "the result is no configuration in JSON"); end() } }
}
fn drawing(s: &str) { check(s.trim_start().starts_with("digraph") && s.trim_end().ends_with('}'), "the result is no drawing"); }

const GOOD: &str = r#"{"faucet":{"a":{"source":"in"}},"drain":{"b":{"destination":"out"}},"launch":{"p":{"cmd":"cat","env":{"K":"v"},"arg":["x","y"]}},"regulator":{"r":{"buffered":[1,2],"monitored_buffers":["q"]}},"connection":{"m":"f:a | r:r | b:q | l:p | d:b"}}"#;
const GOOD_YAML: &str = "faucet:\n  a:\n    source: in\ndrain:\n  b:\n    destination: out\nlaunch:\n  p:\n    cmd: cat\n    env:\n      K: v\n    arg: [x, y]\nregulator:\n  r:\n    buffered: [1, 2]\n    monitored_buffers: [q]\nconnection:\n  m: f:a | r:r | b:q | l:p | d:b\n";

/// Words in every order the syntax has, complete or not; where the configuration comes from.
#[no_mangle]
pub extern "C" fn h_c26_words() {
    for c in ["done", "reported", "no words"] { expect(c) }
    let words: &[&[&str]] = &[
        &[], &["process"], &["graph"], &["graph", "-d"], &["graph", "-l"], &["graph", "--legend-border"], &["config"], &["config", "lint"], &["config", "manipulate"], &["config", "empty"],
        &["config", "faucet"], &["config", "regulator"], &["config", "drain"], &["config", "connection"], &["config", "launch"],
        &["config", "faucet", "source", "v"], &["config", "regulator", "watermark", "1", "2"], &["config", "drain", "destination", "v"], &["config", "connection", "join", "f:a|d:b"], &["config", "connection", "del"],
        &["config", "launch", "command", "v"], &["config", "launch", "args", "v", "w"], &["config", "launch", "env", "A=v"], &["config", "launch", "path", "v"],
        &["config", "faucet", "source"], &["config", "regulator", "watermark", "1"], &["config", "launch", "args"], &["config", "launch", "env"], &["graph", "process"], &["nonsense"],
    ];
    let k = choice("words", words.len());
    let w = words[k];
    let with_id = w.len() > 1 && w[0] == "config" && choice("id", 2) == 1;
    let src = choice("config", 5);
    let format = choice("format", 3);
    let mut args: Vec<&str> = vec![];
    for (i, x) in w.iter().enumerate() {
        args.push(x);
        if i == 0 {
            match src { 1 => args.extend(["--config", "c.json"]), 2 => args.extend(["--config", "-"]), 3 => args.extend(["--config", "nowhere"]), 4 => args.extend(["--config", "torn"]), _ => {} }
            match format { 1 => args.extend(["--format", "json"]), 2 => args.extend(["--format", "yaml"]), _ => {} }
        }
        if i == 1 && with_id { args.extend(["--id", "n"]) }
    }
    let w: Vec<&'static str> = w.to_vec();
    sx::add_file("in", b"x\n".to_vec());
    sx::program("cat", vec![sx::Step::Cat]);
    // JSON is YAML as well
    pa2(&args, &[("c.json", GOOD), ("torn", &GOOD[..60])], GOOD, move |o: Outcome| {
        contract(&o, w.first() == Some(&"process"));
        if w.is_empty() { check(o.code == 1, "no words, but success"); cover("no words"); end() }
        let edit = w.len() > 3;
        let whole = matches!(w[..], ["process"] | ["graph", ..] | ["config", "lint"] | ["config", "manipulate"]) || (edit && with_id);
        if !whole || src > 2 { check(o.code == 1, "something impossible was asked for, but the exit status says success"); cover("reported"); end() }
        check(o.code == 0, "a complete command on a good configuration fails");
        if w[0] == "graph" { drawing(&o.out); }
        if w[0] == "config" { let c = read_back(&o); check(c.faucet.get("a").map_or(false, |f| f.source == "in") && c.launch.get("p").is_some() && c.regulator.get("r").is_some(), "the resulting configuration lost something"); }
        cover("done");
    })
}

/// Standard output takes only part of the result: nothing, some of it, a line or two, all of it.
const ROOMS: [usize; 16] = [0, 1, 2, 8, 9, 50, 100, 200, 300, 400, 500, 600, 800, 1000, 2000, 20000];
#[no_mangle]
pub extern "C" fn h_c26_full() {
    for c in ["taken", "refused"] { expect(c) }
    let words: &[&[&str]] = &[&["process", "--config", "c.json"], &["graph", "--config", "c.json"], &["graph", "--config", "c.json", "-l"], &["config", "--config", "c.json", "lint"], &["config", "--config", "c.json", "manipulate"],
        &["config", "--config", "c.json", "faucet", "--id", "a", "source", "v"], &["config", "--config", "c.json", "empty"]];
    let w = words[choice("words", words.len())];
    let quiet = w[0] == "process";
    sx::add_file("in", b"x\n".to_vec());
    sx::program("cat", vec![sx::Step::Cat]);
    let room = ROOMS[choice("room", ROOMS.len())];
    let world = sxstd::world::get();
    world.stdout_room = Some(room);
    world.broken_pipe = choice("broken pipe", 2) == 1;
    pa2(w, &[("c.json", GOOD)], "", move |o: Outcome| {
        if o.code == 0 {
            contract(&o, quiet);
            if !quiet { check(o.out.ends_with('\n'), "success although the result was not written in full"); }
            cover("taken");
        } else {
            check(o.code == 1, "the exit status is neither 0 nor 1");
            check(o.err.trim().len() > 0, "failure without a message");
            check(!o.out.ends_with('\n') || o.out.trim_end().lines().count() > 1, "failure although the result was written");
            cover("refused");
        }
    })
}

/// Each edit, with any text.
fn edit(yaml: bool, max: usize) {
    for c in EDITS { expect(c) }
    let e = choice("edit", EDITS.len());
    let id = ["p", "a", "n"][choice("id", 3)];
    let s = if e == 3 { ["f:a|d:b", "j:x | l:p[E] | [3]j:x"][choice("join", 2)].to_string() } else { some_text(max) };
    let s2 = if e == 5 && choice("second", 2) == 1 { Some(text(1)) } else { None };
    let mut args: Vec<&str> = vec!["config", "--config", "c", "--format", if yaml { "yaml" } else { "json" }];
    let (what, how) = [("faucet", "source"), ("drain", "destination"), ("launch", "command"), ("connection", "join"), ("launch", "path"), ("launch", "args")][e];
    args.extend([what, "--id", id, how, &s]);
    if let Some(t) = &s2 { args.push(t) }
    let before = match parse_config_str(&ConfigFormat::Json, GOOD) { Ok(c) => c, Err(_) => { check(false, "a configuration cannot be read"); end() } };
    let mut want = before;
    let (n, v) = (id.to_string(), s.clone());
    let mut l = want.launch.get(id).cloned().unwrap_or(LaunchConfig { command: None, path: None, env: HashMap::new(), arg: vec![] });
    match e {
        0 => { want.faucet.insert(n, FaucetConfig { source: v }); }
        1 => { want.drain.insert(n, DrainConfig { destination: v }); }
        2 => { l.command = Some(v); want.launch.insert(n, l); }
        3 => { want.connection.insert(n, DeserializedConnection::JoinString(v)); }
        4 => { l.path = Some(v); want.launch.insert(n, l); }
        _ => { l.arg = vec![v]; l.arg.extend(s2.clone()); want.launch.insert(n, l); }
    }
    let given = if yaml { GOOD_YAML } else { GOOD };
    pa2(&args, &[("c", given)], "", move |o: Outcome| {
        contract(&o, false);
        check(o.code == 0, "an edit fails");
        check(read_back(&o) == want, "the resulting configuration is not the given one with the edit made");
        cover(EDITS[e]);
    })
}
const EDITS: [&str; 6] = ["source", "destination", "command", "join", "path", "args"];
#[no_mangle]
pub extern "C" fn h_c26_edit() { edit(false, 1); }
#[no_mangle]
pub extern "C" fn t_c26_edit() { edit(false, 3); }
#[no_mangle]
pub extern "C" fn t_c26_edit_yaml() { edit(true, 2); }

/// Watermarks: numbers in either order; anything else is refused.
fn watermark(max: usize) {
    for c in ["ordered", "swapped", "no number"] { expect(c) }
    let (a, b) = (some_text(max), some_text(max));
    let num = |s: &str| -> Option<u64> { let mut v = 0; for x in s.bytes() { if !x.is_ascii_digit() { return None; } v = v * 10 + (x - b'0') as u64; } if s.is_empty() { None } else { Some(v) } };
    for s in [&a, &b] { if let Some(f) = s.bytes().next() { assume(f != b'+'); } }
    let (x, y) = (num(&a), num(&b));
    let id = ["r", "n"][choice("id", 2)];
    pa2(&["config", "--config", "c", "--format", "json", "regulator", "--id", id, "watermark", &a, &b], &[("c", GOOD)], "", move |o: Outcome| {
        contract(&o, false);
        match (x, y) {
            (Some(x), Some(y)) => {
                check(o.code == 0, "a watermark is not accepted");
                let c = read_back(&o);
                let (low, high) = if x <= y { cover("ordered"); (x, y) } else { cover("swapped"); (y, x) };
                check(c.regulator.get(id).and_then(|r| r.buffered) == Some((low as usize, high as usize)), "the watermark set is not the one given");
                check(c.regulator.get(id).map(|r| r.monitored_buffers.clone()) == Some(if id == "r" { vec!["q".to_string()] } else { vec![] }), "what the regulator watches has changed");
            }
            _ => { check(o.code == 1, "a watermark that is no number was accepted"); cover("no number"); }
        }
    })
}
#[no_mangle]
pub extern "C" fn h_c26_watermark() { watermark(2); }
#[no_mangle]
pub extern "C" fn t_c26_watermark() { watermark(4); }

/// Environment: NAME=VALUE, the first "=" divides; anything else is refused.
fn env(n: usize, max: usize) {
    for c in ["set", "no name", "no ="] { expect(c) }
    let v: Vec<String> = (0..n).map(|_| some_text(max)).collect();
    let mut want: Vec<(String, String)> = vec![];
    let mut bad = false;
    for s in &v {
        match s.bytes().position(|b| b == b'=') {
            None => { bad = true; cover("no =") }
            Some(0) => { bad = true; cover("no name") }
            Some(i) => { want.retain(|(k, _)| !same(k.as_bytes(), &s.as_bytes()[..i])); want.push((s[..i].to_string(), s[i + 1..].to_string())); }
        }
    }
    let id = ["p", "n"][choice("id", 2)];
    let mut args = vec!["config", "--config", "c", "--format", "json", "launch", "--id", id, "env"];
    for s in &v { args.push(s) }
    pa2(&args, &[("c", GOOD)], "", move |o: Outcome| {
        contract(&o, false);
        if bad { check(o.code == 1, "an environment setting that is not NAME=VALUE was accepted"); end() }
        check(o.code == 0, "an environment setting is not accepted");
        let c = read_back(&o);
        let got = match c.launch.get(id) { Some(l) => l, None => { check(false, "the launch is not there"); end() } };
        check(got.env.iter().count() == want.len(), "the environment has more or fewer settings than were given");
        for (k, v) in &want { check(got.env.get(k) == Some(v), "a setting has another value"); }
        check(got.command == if id == "p" { Some("cat".to_string()) } else { None }, "the command has changed");
        check(got.arg.len() == if id == "p" { 2 } else { 0 }, "the arguments have changed");
        cover("set");
    })
}
#[no_mangle]
pub extern "C" fn h_c26_env() { env(1, 3); }
#[no_mangle]
pub extern "C" fn t_c26_env() { env(2, 2); }

/// Connections written out in full, in any order of starts, middles and ends.
fn written(max: usize) {
    for c in ["process", "manipulate", "lint", "graph", "refused"] { expect(c) }
    let n = choice("components", max + 1);
    let mut kinds = vec![];
    let parts: Vec<String> = (0..n).map(|i| {
        let k = choice("kind", 3);
        kinds.push(k);
        let (t, name) = if i == 0 { ("faucet", "a") } else if i == n - 1 { ("drain", "b") } else { ("junction", ["u", "v", "w", "x", "y", "z"][i]) };
        format!("{{\"component_type\":\"{}\",\"component_name\":\"{}\"{}}}", t, name, [",\"output_port\":\"out\"", ",\"output_port\":\"out\",\"priority\":0", ",\"priority\":0"][k])
    }).collect();
    // everything but the first is led to, everything but the last leads on
    let good = n != 1 && (0..n).all(|i| match kinds[i] { 0 => i == 0, 1 => true, _ => i == n - 1 });
    let text = format!("{{\"faucet\":{{\"a\":{{\"source\":\"in\"}}}},\"drain\":{{\"b\":{{\"destination\":\"out\"}}}},\"connection\":{{\"m\":[{}]}}}}", parts.join(","));
    sx::add_file("in", b"x\n".to_vec());
    let cmd = choice("command", 4);
    let args: &[&str] = match cmd {
        0 => &["process", "--config", "c", "--format", "json"],
        1 => &["config", "--config", "c", "--format", "json", "manipulate"],
        2 => &["config", "--config", "c", "--format", "json", "lint"],
        _ => &["graph", "--config", "c", "--format", "json"],
    };
    pa2(args, &[("c", &text)], "", move |o: Outcome| {
        contract(&o, cmd == 0);
        // lint also reports components that are in no connection
        if n == 0 { if cmd != 2 { check(o.code == 0, "no connections are refused"); } end() }
        check(o.code == !good as i32, "connections written out are refused that lead on, or accepted though they do not");
        if !good { check(o.err.contains("m:"), "the connection at fault is not named"); cover("refused"); }
        else {
            if cmd == 0 { check(same(&sx::content("out"), b"x\n"), "what was processed did not reach the drain"); }
            cover(["process", "manipulate", "lint", "graph"][cmd]);
        }
    })
}
#[no_mangle]
pub extern "C" fn h_c26_written() { written(4); }
#[no_mangle]
pub extern "C" fn t_c26_written() { written(6); }

/// One character of a configuration is something else, or the text ends there.
fn damaged(yaml: bool, lo: usize, hi: usize) {
    for c in ["accepted", "refused"] { expect(c) }
    const SMALL: &str = r#"{"faucet":{"a":{"source":"s"}},"drain":{"b":{"destination":"-"}},"regulator":{"r":{"buffered":[1,2]}},"connection":{"m":"f:a|d:b","n":[{"component_type":"junction","component_name":"x","output_port":"out"}]}}"#;
    const SMALL_YAML: &str = "faucet:\n  a: {source: s}\ndrain:\n  b:\n    destination: \"-\"\nconnection:\n  m: f:a|d:b\n  n:\n  - component_type: junction\n    output_port: out\n";
    let s = if yaml { SMALL_YAML } else { SMALL };
    let at = choice("at", s.len() + 1);
    assume(at >= lo && at < hi);
    let mut v = s.as_bytes().to_vec();
    if at < v.len() && choice("cut", 2) == 0 { let b = any_u8("byte"); assume(b < 128); v[at] = b } else { v.truncate(at) }
    let text = unsafe { String::from_utf8_unchecked(v) };
    let f = if yaml { "yaml" } else { "json" };
    sx::add_file("s", b"x\n".to_vec());
    let cmd = choice("command", 4);
    let args: Vec<&str> = match cmd {
        3 => vec!["process", "--config", "c", "--format", f],
        0 => vec!["config", "--config", "c", "--format", f, "manipulate"],
        1 => vec!["config", "--config", "c", "--format", f, "lint"],
        _ => vec!["graph", "--config", "c", "--format", f],
    };
    pa2(&args, &[("c", &text)], "", move |o: Outcome| {
        contract(&o, cmd == 3);
        if o.code == 0 { if cmd == 3 {} else if cmd < 2 { read_back(&o); } else { drawing(&o.out) } cover("accepted"); } else { cover("refused"); }
    })
}
#[no_mangle]
pub extern "C" fn h_c26_damaged() { damaged(false, 0, 1000); }
#[no_mangle]
pub extern "C" fn h_c26_damaged_yaml() { damaged(true, 0, 1000); }

/// What connection join is given: a connection string, or components written out as JSON or YAML.
fn join_text(damage: bool, max: usize) {
    for c in ["string", "list", "one", "refused"] { expect(c) }
    let texts = ["f:a|[3]d:b", r#"[{"component_type":"faucet","component_name":"a","output_port":"out"},{"component_type":"drain","component_name":"b","priority":3,"breakable":"consume"}]"#, r#"{"component_type":"faucet","component_name":"a","output_port":"err"}"#,
        "- component_type: faucet\n  component_name: a\n  output_port: out\n- component_type: drain\n  component_name: b\n  priority: 3\n  breakable: consume\n", "component_type: faucet\ncomponent_name: a\noutput_port: err\n"];
    let k = choice("text", texts.len() + 1);
    let mut whole = true;
    let s = if k == texts.len() { whole = false; some_text(max) } else {
        let mut v = texts[k].as_bytes().to_vec();
        if damage { whole = false; let at = choice("at", v.len()); if choice("cut", 2) == 0 { let b = any_u8("byte"); assume((b < 128) & ((at > 0) | (b != b'-'))); v[at] = b; } else { v.truncate(at); } }
        unsafe { String::from_utf8_unchecked(v) }
    };
    let want = match k {
        0 => DeserializedConnection::JoinString(s.clone()),
        1 | 3 => DeserializedConnection::Connections(vec![st(CT::Faucet, "a", OutputPort::Out), en(CT::Drain, "b", 3, Breakable::Consume)]),
        _ => DeserializedConnection::Connections(vec![st(CT::Faucet, "a", OutputPort::Err)]),
    };
    let dash = s.starts_with('-');
    let given = s.clone();
    let mut args = vec!["config", "--config", "c", "--format", "json", "connection", "--id", "n", "join"];
    if dash { args.push("--") }
    args.push(&s);
    pa2(&args, &[("c", GOOD)], "", move |o: Outcome| {
        contract(&o, false);
        if o.code == 1 { check(!whole, "a good connection is refused"); cover("refused"); end() }
        let c = read_back(&o);
        match c.connection.get("n") {
            Some(got) => {
                if whole { check(*got == want, "the connection set is not the one given"); }
                match got { DeserializedConnection::JoinString(t) => { check(same(t.as_bytes(), given.as_bytes()), "the connection string set is not the one given"); cover("string") } DeserializedConnection::Connections(v) => cover(if v.len() == 1 { "one" } else { "list" }) }
            }
            None => check(false, "the connection is not there"),
        }
        check(c.connection.get("m") == Some(&DeserializedConnection::JoinString("f:a | r:r | b:q | l:p | d:b".to_string())), "another connection has changed");
    })
}
#[no_mangle]
pub extern "C" fn h_c26_join() { join_text(false, 2); }
#[no_mangle]
pub extern "C" fn t_c26_join() { join_text(true, 3); }

/// Several environment settings at once, some of the same name.
#[no_mangle]
pub extern "C" fn h_c26_envs() {
    for c in ["set", "refused"] { expect(c) }
    const S: [&str; 7] = ["A=1", "A=2", "A=", "B=a=b", "C==", "=x", "D"];
    let n = 2 + choice("settings", 2);
    let v: Vec<&str> = (0..n).map(|_| S[choice("setting", S.len())]).collect();
    let bad = v.iter().any(|s| s.find('=').unwrap_or(0) == 0);
    let mut want: HashMap<String, String> = HashMap::new();
    for s in &v { if let Some(i) = s.find('=') { want.insert(s[..i].to_string(), s[i + 1..].to_string()); } }
    let mut args = vec!["config", "--config", "c", "--format", "json", "launch", "--id", "p", "env"];
    args.extend(v.iter());
    pa2(&args, &[("c", GOOD)], "", move |o: Outcome| {
        contract(&o, false);
        check(o.code == bad as i32, "an environment setting that is not NAME=VALUE was accepted, or one that is was not");
        if bad { cover("refused"); end() }
        let c = read_back(&o);
        check(c.launch.get("p").map_or(false, |l| l.env == want), "the environment is not the one given");
        cover("set");
    })
}

/// Components written out, of any number, some of them twice in a row.
#[no_mangle]
pub extern "C" fn h_c26_join_list() {
    for c in ["JSON", "YAML"] { expect(c) }
    let n = choice("between", 4);
    let mut v = vec![st(CT::Faucet, "a", OutputPort::Out)];
    for _ in 0..n { v.push(mid(CT::Junction, ["x", "y"][choice("name", 2)], choice("priority", 2) as isize, Breakable::Finish, OutputPort::Out)); }
    v.push(en(CT::Drain, "b", 0, Breakable::Consume));
    if choice("end twice", 2) == 1 { let e = v[v.len() - 1].clone(); v.push(e); }
    let yaml = choice("yaml", 2) == 1;
    let s = if yaml { serde_yaml::to_string(&v).unwrap_or_default() } else { serde_json::to_string(&v).unwrap_or_default() };
    pa2(&["config", "--config", "c", "--format", "json", "connection", "--id", "n", "join", "--", &s], &[("c", GOOD)], "", move |o: Outcome| {
        contract(&o, false);
        check(o.code == 0, "a good connection is refused");
        let c = read_back(&o);
        check(c.connection.get("n") == Some(&DeserializedConnection::Connections(v.clone())), "the connection set is not the one given");
        cover(if yaml { "YAML" } else { "JSON" });
    })
}
