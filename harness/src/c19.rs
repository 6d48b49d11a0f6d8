//! C19: configurations as text.
use crate::common::*;
use crate::conf::*;
use pipeawesome2::config_io::{parse_config_str, ConfigFormat};

fn write(c: &Config) -> String { match serde_json::to_string(c) { Ok(s) => s, Err(_) => { check(false, "a configuration could not be written"); end() } } }
fn read(f: ConfigFormat, s: &str) -> Config { match parse_config_str(&f, s) { Ok(c) => c, Err(_) => { check(false, "a written configuration could not be read back"); end() } } }
fn round(c: Config, yaml: bool) {
    let s = write(&c);
    let d = read(if yaml { ConfigFormat::Yaml } else { ConfigFormat::Json }, &s);
    check(d == c, "the configuration read back differs from the one written");
}
fn join(s: &str) -> DeserializedConnection { DeserializedConnection::JoinString(s.to_string()) }
const PLACES: [&str; 14] = ["faucet name", "source", "drain name", "destination", "regulator name", "watched", "launch name", "command", "path", "variable", "value", "argument", "connection name", "join text"];
/// `s` at any one place a configuration has for text.
fn place(k: usize, s: &str) -> Config {
    let mut c = Config::new();
    let o = s.to_string();
    match k {
        0 => with_faucet(&mut c, s, "x"),
        1 => with_faucet(&mut c, "x", s),
        2 => with_drain(&mut c, s, "x"),
        3 => with_drain(&mut c, "x", s),
        4 => with_regulator(&mut c, s, None, &[]),
        5 => with_regulator(&mut c, "x", Some((1, 2)), &["x", s]),
        6 => with_launch(&mut c, s, "x"),
        7 => with_launch(&mut c, "x", s),
        12 => { c.connection.insert(o, join("x")); }
        13 => { c.connection.insert("x".to_string(), join(s)); }
        _ => {
            let mut l = LaunchConfig { command: None, path: None, env: HashMap::new(), arg: vec![] };
            match k { 8 => l.path = Some(o), 9 => { l.env.insert(o, "x".to_string()); } 10 => { l.env.insert("x".to_string(), o); } _ => l.arg = vec!["x".to_string(), o] }
            c.launch.insert("x".to_string(), l);
        }
    }
    c
}
fn ascii(n: usize) -> String { let v: Vec<u8> = (0..n).map(|_| { let b = any_u8("text"); assume(b < 128); b }).collect(); unsafe { String::from_utf8_unchecked(v) } }
fn wide() -> String {
    let v = match choice("width", 3) {
        0 => vec![range_u8("w0", 0xc2, 0xdf), range_u8("w1", 0x80, 0xbf)],
        1 => vec![range_u8("w0", 0xe1, 0xec), range_u8("w1", 0x80, 0xbf), range_u8("w2", 0x80, 0xbf)],
        _ => vec![range_u8("w0", 0xf1, 0xf3), range_u8("w1", 0x80, 0xbf), range_u8("w2", 0x80, 0xbf), range_u8("w3", 0x80, 0xbf)],
    };
    unsafe { String::from_utf8_unchecked(v) }
}
#[no_mangle]
pub extern "C" fn h_c19_text() {
    for p in PLACES { expect(p) }
    let k = choice("place", PLACES.len());
    let n = choice("len", 3);
    round(place(k, &ascii(n)), false);
    cover(PLACES[k]);
}
#[no_mangle]
pub extern "C" fn h_c19_wide() { expect("wide"); let k = [1, 6, 13][choice("place", 3)]; round(place(k, &wide()), false); cover("wide"); }
#[no_mangle]
pub extern "C" fn h_c19_yaml_text() {
    for p in PLACES { expect(p) }
    let k = choice("place", PLACES.len());
    let n = choice("len", 2);
    round(place(k, &ascii(n)), true);
    cover(PLACES[k]);
}
#[no_mangle]
pub extern "C" fn h_c19_yaml_wide() { expect("wide"); let k = [1, 6, 13][choice("place", 3)]; round(place(k, &wide()), true); cover("wide"); }

fn number() -> isize {
    match choice("number", 6) { 0 => any_u8("small") as i8 as isize, 1 => isize::MAX, 2 => isize::MIN, 3 => 1000, 4 => -1, _ => 1 << 32 }
}
fn set() -> Option<String> { match choice("set", 3) { 0 => None, 1 => Some(String::new()), _ => Some(lazy_name(26)) } }
fn conn(k: usize) -> Connection {
    match k {
        0 => Connection::StartConnection { component_type: any_type(), component_name: lazy_name(26), output_port: any_port(), connection_set: set() },
        1 => Connection::MiddleConnection { component_type: lazy_type(), component_name: lazy_name(26), input_port: InputPort { breakable: lazy_breakable(), priority: number() }, output_port: lazy_port(), connection_set: set() },
        _ => Connection::EndConnection { component_type: lazy_type(), component_name: lazy_name(26), input_port: InputPort { breakable: breakable(), priority: number() }, connection_set: set() },
    }
}
fn connections(yaml: bool) {
    for c in ["start", "middle", "end"] { expect(c) }
    let k = choice("kind", 3);
    let mut v = vec![conn(k)];
    if choice("two", 2) == 1 { v.insert(choice("at", 2), en(CT::Drain, "x", 7, Breakable::Finish)) }
    let mut c = Config::new();
    c.connection.insert("c".to_string(), DeserializedConnection::Connections(v));
    round(c, yaml);
    cover(["start", "middle", "end"][k]);
}
#[no_mangle]
pub extern "C" fn h_c19_connections() { connections(false); }
#[no_mangle]
pub extern "C" fn h_c19_yaml_connections() { connections(true); }
fn mark() -> usize { match choice("mark", 5) { 0 => any_u8("small") as usize, 1 => usize::MAX, 2 => usize::MAX / 2 + 1, 3 => 10000, _ => 0 } }
/// Everything at once, several of each.
fn whole(yaml: bool) {
    expect("whole");
    let mut c = Config::new();
    with_faucet(&mut c, "a", &ascii(1)); with_faucet(&mut c, "b", "-");
    with_drain(&mut c, "a", "_"); with_drain(&mut c, "b", "out");
    c.regulator.insert("a".to_string(), RegulatorConfig { buffered: if choice("buffered", 2) == 1 { Some((mark(), mark())) } else { None }, monitored_buffers: vec!["x".to_string(); choice("watched", 3)] });
    let mut l = LaunchConfig { command: if choice("command", 2) == 1 { Some("p".to_string()) } else { None }, path: if choice("path", 2) == 1 { Some("q".to_string()) } else { None }, env: HashMap::new(), arg: vec!["-".to_string(); choice("args", 3)] };
    for k in 0..choice("variables", 3) { l.env.insert(["K", "L"][k].to_string(), "v".to_string()); }
    c.launch.insert("a".to_string(), l);
    c.connection.insert("j".to_string(), join("f:a|d:a"));
    c.connection.insert("l".to_string(), DeserializedConnection::Connections(line("f:b d:b", Breakable::Consume)));
    round(c, yaml);
    cover("whole");
}
#[no_mangle]
pub extern "C" fn h_c19_whole() { whole(false); }
#[no_mangle]
pub extern "C" fn h_c19_yaml_whole() { whole(true); }

/// Optional parts that are left out.
#[no_mangle]
pub extern "C" fn h_c19_defaults() {
    for c in ["without", "with"] { expect(c) }
    let yaml = choice("yaml", 2) == 1;
    let q = |k: bool, s: &str| if k { s.to_string() } else { String::new() };
    let which = choice("part", 8);
    let has = |k: usize| which == k;
    let all = choice("all", 2) == 1;
    let on = |k: usize| if all { !has(k) } else { has(k) };
    let text = format!("{{\"faucet\":{{\"f\":{{\"source\":\"s\"}}}},\"drain\":{{\"d\":{{{}}}}},\"regulator\":{{\"r\":{{\"buffered\":[3,4]{}}}}},\"launch\":{{\"l\":{{\"cmd\":\"c\"{}{}{}}}}},\"connection\":{{\"a\":[{{\"component_type\":\"launch\",\"component_name\":\"n\",\"priority\":5{}{}{}}}]}}}}",
        q(on(0), "\"destination\":\"x\""), q(on(1), ",\"monitored_buffers\":[\"m\"]"), q(on(2), ",\"path\":\"p\""), q(on(3), ",\"env\":{\"k\":\"v\"}"), q(on(4), ",\"arg\":[\"g\"]"),
        q(on(5), ",\"breakable\":\"consume\""), q(on(6), ",\"output_port\":\"err\""), q(on(7), ",\"connection_set\":\"z\""));
    let c = read(if yaml { ConfigFormat::Yaml } else { ConfigFormat::Json }, &text);
    let mut w = Config::new();
    with_faucet(&mut w, "f", "s");
    with_drain(&mut w, "d", if on(0) { "x" } else { "-" });
    with_regulator(&mut w, "r", Some((3, 4)), if on(1) { &["m"] } else { &[] });
    let mut l = LaunchConfig { command: Some("c".to_string()), path: if on(2) { Some("p".to_string()) } else { None }, env: HashMap::new(), arg: if on(4) { vec!["g".to_string()] } else { vec![] } };
    if on(3) { l.env.insert("k".to_string(), "v".to_string()); }
    w.launch.insert("l".to_string(), l);
    let input_port = InputPort { breakable: if on(5) { Breakable::Consume } else { Breakable::Terminate }, priority: 5 };
    let connection_set = if on(7) { Some("z".to_string()) } else { None };
    let x = if on(6) { Connection::MiddleConnection { component_type: CT::Launch, component_name: "n".to_string(), input_port, output_port: OutputPort::Err, connection_set } } else { Connection::EndConnection { component_type: CT::Launch, component_name: "n".to_string(), input_port, connection_set } };
    w.connection.insert("a".to_string(), DeserializedConnection::Connections(vec![x]));
    check(c == w, "a part that was left out did not take its default, or another part changed");
    cover(if all { "with" } else { "without" });
}
/// Text that may be no configuration: an error, never a panic.
fn any_text(max: usize, yaml: bool) {
    expect("refused"); expect("read");
    let n = choice("len", max + 1);
    // fractions and exponents only within three characters
    let ascii = |n: usize| { let t = ascii(n); if n > 3 && !yaml { let b = t.as_bytes(); for i in 1..n { assume(!(b[i - 1].is_ascii_digit() & ((b[i] == b'.') | (b[i] | 32 == b'e')))) } } t };
    let t = match choice("where", 4) {
        0 => ascii(n),
        1 => format!("{{\"drain\":{{{}}}}}", ascii(n)),
        2 => format!("{{\"connection\":{{\"a\":{}}}}}", ascii(n)),
        _ => format!("{{{}}}", ascii(n)),
    };
    let f = if yaml { ConfigFormat::Yaml } else { ConfigFormat::Json };
    match parse_config_str(&f, &t) { Ok(_) => cover("read"), Err(m) => { check(!m.is_empty(), "refused without a message"); cover("refused") } }
}
#[no_mangle]
pub extern "C" fn h_c19_any() { any_text(4, false); }
#[no_mangle]
pub extern "C" fn h_c19_yaml_any() { any_text(1, true); }
#[no_mangle]
pub extern "C" fn t_c19_any() { any_text(6, false); }
#[no_mangle]
pub extern "C" fn t_c19_yaml_any() { any_text(2, true); }
