//! Configurations.
#![allow(dead_code)]
use crate::common::*;
pub use pipeawesome2::config::{ComponentType, Config, ConfigLintWarning, Connection, DeserializedConnection, DrainConfig, FaucetConfig, LaunchConfig, RegulatorConfig};
pub use std::collections::{BTreeMap, HashMap, HashSet};
pub type CT = ComponentType;

pub const TYPES: [CT; 6] = [CT::Faucet, CT::Launch, CT::Junction, CT::Buffer, CT::Drain, CT::Regulator];
pub const PORTS: [OutputPort; 3] = [OutputPort::Out, OutputPort::Err, OutputPort::Exit];
pub fn any_type() -> CT { TYPES[choice("type", 6)] }
pub fn any_port() -> OutputPort { PORTS[choice("port", 3)] }
pub fn letter(c: &CT) -> &'static str { match c { CT::Faucet => "f", CT::Launch => "l", CT::Junction => "j", CT::Buffer => "b", CT::Drain => "d", CT::Regulator => "r" } }

pub fn st(t: CT, n: &str, port: OutputPort) -> Connection { Connection::StartConnection { component_type: t, component_name: n.to_string(), output_port: port, connection_set: None } }
pub fn mid(t: CT, n: &str, priority: isize, breakable: Breakable, port: OutputPort) -> Connection { Connection::MiddleConnection { component_type: t, component_name: n.to_string(), input_port: InputPort { breakable, priority }, output_port: port, connection_set: None } }
pub fn en(t: CT, n: &str, priority: isize, breakable: Breakable) -> Connection { Connection::EndConnection { component_type: t, component_name: n.to_string(), input_port: InputPort { breakable, priority }, connection_set: None } }

/// "f:in j:x d:out" with every pipe of this kind, default ports.
pub fn line(spec: &str, br: Breakable) -> Vec<Connection> {
    let v: Vec<&str> = spec.split(' ').collect();
    let n = v.len();
    v.iter().enumerate().map(|(i, s)| {
        let (t, name) = s.split_once(':').unwrap();
        let (name, port) = match name.split_once('/') { Some((n, "E")) => (n, OutputPort::Err), Some((n, "X")) => (n, OutputPort::Exit), _ => (name, OutputPort::Out) };
        let t = TYPES.iter().copied().find(|x| letter(x) == t).unwrap();
        if i == 0 { st(t, name, port) } else if i == n - 1 { en(t, name, 0, br) } else { mid(t, name, 0, br, port) }
    }).collect()
}
pub fn lines(c: &mut Config, specs: &[&str], br: Breakable) {
    for (i, s) in specs.iter().enumerate() { c.connection.insert(format!("c{}", i), DeserializedConnection::Connections(line(s, br))); }
}
pub fn with_faucet(c: &mut Config, name: &str, source: &str) { c.faucet.insert(name.to_string(), FaucetConfig { source: source.to_string() }); }
pub fn with_drain(c: &mut Config, name: &str, dst: &str) { c.drain.insert(name.to_string(), DrainConfig { destination: dst.to_string() }); }
pub fn with_launch(c: &mut Config, name: &str, cmd: &str) { c.launch.insert(name.to_string(), LaunchConfig { command: Some(cmd.to_string()), path: None, env: HashMap::new(), arg: vec![] }); }
pub fn with_regulator(c: &mut Config, name: &str, b: Option<(usize, usize)>, m: &[&str]) { c.regulator.insert(name.to_string(), RegulatorConfig { buffered: b, monitored_buffers: m.iter().map(|s| s.to_string()).collect() }); }

pub struct Part<'a> { pub t: &'a CT, pub name: &'a str, pub input: Option<&'a InputPort>, pub out: Option<&'a OutputPort>, pub set: &'a Option<String> }
pub fn part(c: &Connection) -> Part<'_> {
    match c {
        Connection::MiddleConnection { component_type, component_name, input_port, output_port, connection_set } => Part { t: component_type, name: component_name, input: Some(input_port), out: Some(output_port), set: connection_set },
        Connection::StartConnection { component_type, component_name, output_port, connection_set } => Part { t: component_type, name: component_name, input: None, out: Some(output_port), set: connection_set },
        Connection::EndConnection { component_type, component_name, input_port, connection_set } => Part { t: component_type, name: component_name, input: Some(input_port), out: None, set: connection_set },
    }
}

// Values that stay symbolic until the code under test looks at them.
pub fn lazy_port() -> OutputPort { let v = any_u8("port"); assume(v < 3); unsafe { std::mem::transmute::<u8, OutputPort>(v) } }
pub fn lazy_breakable() -> Breakable { let v = any_u8("breakable"); assume(v < 3); unsafe { std::mem::transmute::<u8, Breakable>(v) } }
pub fn lazy_type() -> CT { let v = any_u8("type"); assume(v < 6); unsafe { std::mem::transmute::<u8, CT>(v) } }
/// a one letter name, 'a' .. 'a' + n
pub fn lazy_name(n: u8) -> String { String::from_utf8(vec![range_u8("name", b'a', b'a' + n - 1)]).unwrap() }

fn same_set(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()), _ => false } }
fn same_in(a: &InputPort, b: &InputPort) -> bool { (a.priority == b.priority) & (a.breakable as u8 == b.breakable as u8) }
/// Whether two links are the same: what leaves `a.0`, what enters `a.1`.
pub fn same_link(a: (&Connection, &Connection), b: (&Connection, &Connection)) -> bool {
    let (s, t, x, y) = (part(a.0), part(b.0), part(a.1), part(b.1));
    let mut ok = (*s.t as u8 == *t.t as u8) & same(s.name.as_bytes(), t.name.as_bytes()) & same_set(s.set, t.set);
    ok &= (*x.t as u8 == *y.t as u8) & same(x.name.as_bytes(), y.name.as_bytes()) & same_set(x.set, y.set);
    match (s.out, t.out) { (Some(p), Some(q)) => ok &= *p as u8 == *q as u8, _ => ok = false }
    match (x.input, y.input) { (Some(p), Some(q)) => ok &= same_in(p, q), _ => ok = false }
    ok
}

/// "S" in a link is a source: a file, the output of a program, or what it writes to standard error.
pub fn from(link: &str, source: usize) -> String {
    let mut v = vec![];
    for w in link.split(' ') { if w.starts_with("S:") { v.push(format!("{}:{}{}", ["f", "l", "l"][source], &w[2..], ["", "", "/E"][source])) } else { v.push(w.to_string()) } }
    v.join(" ")
}

/// These links, each component configured under its own name; regulators only hold back when `marks` are given.
pub fn auto(specs: &[&str], br: Breakable, marks: Option<(usize, usize)>, watched: &[&str]) -> Config {
    let mut c = Config::new();
    lines(&mut c, specs, br);
    for s in specs.iter().flat_map(|s| s.split(' ')) {
        let (t, n) = s.split_once(':').unwrap();
        let n = n.split('/').next().unwrap();
        match t { "f" => with_faucet(&mut c, n, n), "l" => with_launch(&mut c, n, n), "d" => with_drain(&mut c, n, n), "r" => with_regulator(&mut c, n, marks, watched), _ => () }
    }
    c
}
pub fn waiter(c: Config) -> pipeawesome2::waiter::Waiter { match pipeawesome2::waiter::get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a valid configuration was refused"); end() } } }
/// The started program of this name.
pub fn proc<T: Default>(name: &str, f: impl FnOnce(&sx::Proc) -> T) -> T { sx::with(|w| w.procs.iter().find(|p| p.info.program == name).map(f)).unwrap_or_default() }
pub fn the_file<T>(name: &str, f: impl FnOnce(&sx::VFile) -> T) -> T { let i = sx::file(name); sx::with(|w| f(&w.files[i])) }

/// Names that are not the same, but easily taken for one another.
const ALIKE: [(&str, &str); 16] = [("a", "A"), ("a", "aa"), ("a", "a_"), ("a", "_a"), ("_a", "a_"), ("a1", "a01"), ("1", "01"), ("a1", "a2"), ("ab", "ba"), ("ab", "ac"), ("bb", "cb"), ("a1", "a_1"), ("f_a", "a"), ("o", "0"),
    ("a_name_that_is_rather_long_and_goes_on_for_more_than_thirty_two_or_sixty_four_characters_1", "a_name_that_is_rather_long_and_goes_on_for_more_than_thirty_two_or_sixty_four_characters_2"),
    ("x_name_that_is_rather_long_and_goes_on_for_more_than_thirty_two_or_sixty_four_characters", "y_name_that_is_rather_long_and_goes_on_for_more_than_thirty_two_or_sixty_four_characters")];
pub fn alike() -> (&'static str, &'static str) { let (a, b) = ALIKE[choice("names", ALIKE.len())]; if choice("swapped", 2) == 1 { (b, a) } else { (a, b) } }
