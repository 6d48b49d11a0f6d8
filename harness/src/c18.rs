//! C18: edits of a configuration.
use crate::common::*;
use crate::conf::*;

fn text(n: usize) -> String { let v: Vec<u8> = (0..n).map(|_| { let b = any_u8("text"); assume(b < 128); b }).collect(); unsafe { String::from_utf8_unchecked(v) } }
fn some_text() -> String { let n = choice("len", 3); text(n) }
fn list(tag: &str, max: usize) -> Vec<String> { (0..choice(tag, max + 1)).map(|_| text(1)).collect() }
fn env_of(l: &[(String, String)]) -> HashMap<String, String> { let mut m = HashMap::new(); for (k, v) in l { m.insert(k.clone(), v.clone()); } m }
fn env() -> Vec<(String, String)> { let n = choice("env", 3); (0..n).map(|i| (["K", "L"][i].to_string(), text(1))).collect() }

/// A configuration in which `a` is configured, as every type or not at all, and `b` always.
fn start() -> (Config, bool) {
    let mut c = Config::new();
    let have = choice("configured", 2) == 1;
    let names: &[&str] = if have { &["b", "a"] } else { &["b"] };
    for n in names {
        c.faucet.insert(n.to_string(), FaucetConfig { source: text(1) });
        c.drain.insert(n.to_string(), DrainConfig { destination: text(1) });
        let b = if choice("buffered", 2) == 1 { Some((any_usize("low"), any_usize("high"))) } else { None };
        c.regulator.insert(n.to_string(), RegulatorConfig { buffered: b, monitored_buffers: vec![text(1)] });
        c.launch.insert(n.to_string(), LaunchConfig { command: if choice("command", 2) == 1 { Some(text(1)) } else { None }, path: match choice("path", 2) { 0 => Some(String::new()), _ => Some(text(1)) }, env: env_of(&[("E".to_string(), text(1))]), arg: vec![text(1)] });
        c.connection.insert(n.to_string(), DeserializedConnection::JoinString(text(1)));
    }
    (c, have)
}
fn launch(c: &mut Config, id: &str, f: &dyn Fn(&mut LaunchConfig)) {
    let mut l = match c.launch.get(id) { Some(l) => l.clone(), None => LaunchConfig { command: None, path: None, env: HashMap::new(), arg: vec![] } };
    f(&mut l);
    c.launch.insert(id.to_string(), l);
}
const EDITS: [&str; 8] = ["watermark", "source", "destination", "join", "command", "path", "args", "env"];
struct Given { id: String, s: String, list: Vec<String>, env: Vec<(String, String)>, min: usize, max: usize }
fn given(edit: usize, id: String) -> Given {
    Given { id, s: if matches!(edit, 1 | 2 | 3 | 4 | 5) { some_text() } else { String::new() }, list: if edit == 6 { list("args", 2) } else { vec![] }, env: if edit == 7 { env() } else { vec![] },
        min: if edit == 0 { any_usize("min") } else { 0 }, max: if edit == 0 { any_usize("max") } else { 0 } }
}
fn apply(c: Config, edit: usize, g: &Given) -> Config {
    let (id, s) = (g.id.clone(), g.s.clone());
    match edit {
        0 => Config::regulator_set_watermark(c, id, g.min, g.max),
        1 => Config::faucet_set_source(c, id, s),
        2 => Config::drain_set_destination(c, id, s),
        3 => Config::connection_join(c, id, DeserializedConnection::JoinString(s)),
        4 => Config::launch_set_command(c, id, s),
        5 => Config::launch_set_path(c, id, s),
        6 => Config::launch_set_args(c, id, g.list.clone()),
        _ => Config::launch_set_env(c, id, env_of(&g.env)),
    }
}
/// What the edit is to do.
fn model(mut c: Config, edit: usize, g: &Given) -> Config {
    let (id, s) = (g.id.clone(), g.s.clone());
    match edit {
        0 => {
            let w = c.regulator.get(&id).map_or(vec![], |r| r.monitored_buffers.clone());
            let (low, high) = if g.min <= g.max { (g.min, g.max) } else { (g.max, g.min) };
            c.regulator.insert(id, RegulatorConfig { buffered: Some((low, high)), monitored_buffers: w });
        }
        1 => { c.faucet.insert(id, FaucetConfig { source: s }); }
        2 => { c.drain.insert(id, DrainConfig { destination: s }); }
        3 => { c.connection.insert(id, DeserializedConnection::JoinString(s)); }
        4 => launch(&mut c, &id, &|l| l.command = Some(s.clone())),
        5 => launch(&mut c, &id, &|l| l.path = Some(s.clone())),
        6 => launch(&mut c, &id, &|l| l.arg = g.list.clone()),
        _ => launch(&mut c, &id, &|l| l.env = env_of(&g.env)),
    }
    c
}
fn equal(a: &Config, b: &Config) -> bool { a == b }

#[no_mangle]
pub extern "C" fn h_c18_edit() {
    for e in EDITS { expect(e) }
    let (c, _) = start();
    let edit = choice("edit", 8);
    let g = given(edit, ["a", "b", "c"][choice("id", 3)].to_string());
    let want = model(c.clone(), edit, &g);
    let once = apply(c, edit, &g);
    check(equal(&once, &want), "an edit did something else than to set its own setting");
    let twice = apply(once, edit, &g);
    check(equal(&twice, &want), "making an edit again changes something");
    cover(EDITS[edit]);
}
/// Two different edits, one after the other.
#[no_mangle]
pub extern "C" fn h_c18_two() {
    for e in EDITS { expect(e) }
    let mut c = Config::new();
    for n in ["a", "b"] { with_launch(&mut c, n, "p"); with_faucet(&mut c, n, "in"); with_drain(&mut c, n, "out"); with_regulator(&mut c, n, None, &["x"]); }
    let (e, f) = (choice("edit", 8), choice("edit", 8));
    let fixed = |id: &str, k: usize| Given { id: id.to_string(), s: text(1), list: vec![text(1); k], env: vec![("K".to_string(), text(1))], min: any_usize("min"), max: any_usize("max") };
    let (g, h) = (fixed(["a", "c"][choice("id", 2)], 1), fixed(["a", "c"][choice("id", 2)], 2));
    let want = model(model(c.clone(), e, &g), f, &h);
    check(equal(&apply(apply(c, e, &g), f, &h), &want), "two edits do something else than to set their own settings");
    cover(EDITS[e]);
}

/// The name of what is edited is easily taken for that of something else.
#[no_mangle]
pub extern "C" fn h_c18_alike() {
    for e in EDITS { expect(e) }
    let (n, m) = alike();
    let mut c = Config::new();
    with_launch(&mut c, m, "p"); with_faucet(&mut c, m, "in"); with_drain(&mut c, m, "out"); with_regulator(&mut c, m, Some((3, 4)), &["x"]);
    c.connection.insert(m.to_string(), DeserializedConnection::JoinString("f:a|d:a".to_string()));
    let l = c.launch.get_mut(m).unwrap();
    l.path = Some("/".to_string()); l.arg = vec!["y".to_string()]; l.env.insert("E".to_string(), "z".to_string());
    let edit = choice("edit", 8);
    let g = Given { id: n.to_string(), s: text(1), list: vec![text(1)], env: vec![("K".to_string(), text(1))], min: any_usize("min"), max: any_usize("max") };
    let want = model(c.clone(), edit, &g);
    check(equal(&apply(c, edit, &g), &want), "an edit did something else than to set its own setting");
    cover(EDITS[edit]);
}

/// Launches, regulators and connections that hold a lot; the edit may also set what is already there.
#[no_mangle]
pub extern "C" fn h_c18_wide() {
    for e in EDITS { expect(e) }
    let mut c = Config::new();
    let n = 20;
    for i in 0..n {
        let k = format!("n{}", i);
        with_launch(&mut c, &k, "p"); with_faucet(&mut c, &k, "in"); with_drain(&mut c, &k, "out");
        with_regulator(&mut c, &k, Some((i, 10 + i)), &["q", "b", "zz", "a", "b", "c"]);
        c.connection.insert(k.clone(), DeserializedConnection::Connections(vec![st(CT::Faucet, &k, OutputPort::Out), mid(CT::Launch, &k, 0, Breakable::Finish, OutputPort::Err), en(CT::Drain, &k, 0, Breakable::Consume)]));
        let l = c.launch.get_mut(&k).unwrap();
        l.path = Some("/x".to_string());
        l.arg = (0..i).map(|a| ["-z", "", "a", "-z", "b c"][a % 5].to_string()).collect();
        for a in 0..i { l.env.insert(format!("E{}", a), format!("{}", a % 3)); }
    }
    let edit = choice("edit", 8);
    let at = [0, 7, n - 1, n][choice("which", 4)];
    let k = format!("n{}", at);
    let keep = choice("as it was", 2) == 1;
    let mut g = Given { id: k.clone(), s: text(1), list: (0..9).map(|i| if i == 4 { text(1) } else { ["y", "x", "y"][i % 3].to_string() }).collect(), env: (0..9).map(|i| (format!("E{}", 8 - i), if i == 4 { text(1) } else { "v".to_string() })).collect(), min: 40, max: [40, 39, 50][choice("max", 3)] };
    if keep && at < n {
        let l = &c.launch[&k];
        g.s = ["", "in", "out", "", "p", "/x", "", ""][edit].to_string();
        g.list = l.arg.clone();
        g.env = l.env.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        g.min = at; g.max = 10 + at;
    }
    let want = model(c.clone(), edit, &g);
    if keep && at < n && edit != 3 { check(equal(&want, &c), "the model of an edit is wrong"); }
    check(equal(&apply(c, edit, &g), &want), "an edit did something else than to set its own setting");
    cover(EDITS[edit]);
}
