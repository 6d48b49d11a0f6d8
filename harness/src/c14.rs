//! C14: splitting connection lists keeps every link.
use crate::common::*;
use crate::conf::*;
use pipeawesome2::config_manip::{connection_manipulation_light, rebuild_pair_up_connections_folder};

const KEYS: [&str; 5] = ["a", "a_1", "a_2", "a_1_1", "b"];
fn any_list(len: usize, set: bool) -> Vec<Connection> {
    (0..len).map(|k| {
        let (t, n) = (lazy_type(), lazy_name(26));
        let mut c = if k == 0 { st(t, &n, lazy_port()) } else if k == len - 1 { en(t, &n, any_isize("priority"), lazy_breakable()) } else { mid(t, &n, any_isize("priority"), lazy_breakable(), lazy_port()) };
        if set { match &mut c { Connection::StartConnection { connection_set, .. } | Connection::MiddleConnection { connection_set, .. } | Connection::EndConnection { connection_set, .. } => *connection_set = Some(lazy_name(26)) } }
        c
    }).collect()
}
fn links(v: &[Connection]) -> Vec<(&Connection, &Connection)> { v.windows(2).map(|w| (&w[0], &w[1])).collect() }
fn compare(before: &BTreeMap<String, DeserializedConnection>, after: &BTreeMap<String, DeserializedConnection>) {
    let old: Vec<_> = before.values().flat_map(|d| links_of(d)).collect();
    let new: Vec<_> = after.values().flat_map(|d| { let l = links_of(d); check(l.len() == 1, "not a pair"); l }).collect();
    check(old.len() == new.len(), "the number of links changed");
    for (_, l) in after.iter() {
        if let DeserializedConnection::Connections(v) = l { check(matches!(v[0], Connection::StartConnection { .. }) && matches!(v[1], Connection::EndConnection { .. }), "a pair is not a start and an end"); }
    }
    for l in &old {
        let (mut n, mut m) = (0usize, 0usize);
        for o in &old { n += same_link(*l, *o) as usize }
        for o in &new { m += same_link(*l, *o) as usize }
        check(n == m, "a link was lost, changed or made twice");
    }
}
fn links_of(d: &DeserializedConnection) -> Vec<(&Connection, &Connection)> { match d { DeserializedConnection::Connections(v) => links(v), _ => { check(false, "connections became a text"); end() } } }

fn pairs(lists: usize, len: usize, light: bool) {
    for c in ["one list", "lists"] { expect(c) }
    let n = 1 + choice("lists", lists);
    let mut m = BTreeMap::new();
    let mut at = 0;
    for i in 0..n {
        // any selection of the names
        let k = at + choice("name", KEYS.len() - at - (n - i - 1));
        at = k + 1;
        let l = 2 + choice("len", len - 1);
        m.insert(KEYS[k].to_string(), DeserializedConnection::Connections(any_list(l, choice("set", 2) == 1)));
    }
    let before = m.clone();
    let after = if light {
        let mut c = Config::new();
        c.connection = m;
        connection_manipulation_light(c).connection
    } else { m.into_iter().fold(BTreeMap::new(), rebuild_pair_up_connections_folder) };
    compare(&before, &after);
    cover(if n == 1 { "one list" } else { "lists" });
}
#[no_mangle]
pub extern "C" fn h_c14_pairs() { pairs(2, 4, false); }
#[no_mangle]
pub extern "C" fn h_c14_light() { pairs(3, 2, true); }
/// Twelve links: generated numbers of more than one digit.
#[no_mangle]
pub extern "C" fn h_c14_long() {
    expect("long");
    let mut m = BTreeMap::new();
    m.insert("a".to_string(), DeserializedConnection::Connections(any_list(13, false)));
    m.insert(["a_1", "a_10", "a_12"][choice("name", 3)].to_string(), DeserializedConnection::Connections(any_list(3, false)));
    let before = m.clone();
    compare(&before, &m.into_iter().fold(BTreeMap::new(), rebuild_pair_up_connections_folder));
    cover("long");
}
/// The same list as a text.
#[no_mangle]
pub extern "C" fn h_c14_text() {
    expect("text");
    let p = [b'0', range_u8("digit", b'0', b'9')];
    let name = lazy_name(26);
    let text = format!("f:{}|l:x[E] |{}| [{}]j:y | d:z", name, ["T", "C", "F"][choice("pipe", 3)], unsafe { std::str::from_utf8_unchecked(&p) });
    let mut c = Config::new();
    c.connection.insert("a".to_string(), DeserializedConnection::JoinString(text));
    let mut before = c.connection.clone();
    check(Config::convert_connections(&mut before).is_empty(), "not read");
    check(links_of(&before["a"]).len() == 3, "links");
    compare(&before, &connection_manipulation_light(c).connection);
    cover("text");
}
#[no_mangle]
pub extern "C" fn t_c14_pairs() { pairs(3, 5, false); }
/// Long lists, and many of them; one component, at any place, is arbitrary.
fn wide(n: usize, len: usize, all: bool) {
    expect("done");
    let mut m = BTreeMap::new();
    let (which, at) = (choice("which", n), if all { 0 } else { choice("at", len) });
    for i in 0..n {
        if i == which && all { m.insert(format!("a_{}", i), DeserializedConnection::Connections(any_list(len, true))); continue; }
        let odd = any_list(3, false);
        let v = (0..len).map(|k| {
            let t = [CT::Junction, CT::Launch, CT::Buffer][(i + k) % 3];
            let x = format!("{}", (b'a' + (k % 26) as u8) as char);
            if i == which && !all && k == at { odd[if k == 0 { 0 } else if k == len - 1 { 2 } else { 1 }].clone() }
            else if k == 0 { st(t, &x, OutputPort::Out) } else if k == len - 1 { en(t, &x, -1, Breakable::Finish) } else { mid(t, &x, (k % 3) as isize, Breakable::Consume, OutputPort::Err) }
        }).collect();
        m.insert(format!("a_{}", i), DeserializedConnection::Connections(v));
    }
    let before = m.clone();
    let after = if choice("light", 2) == 1 { let mut c = Config::new(); c.connection = m; connection_manipulation_light(c).connection } else { m.into_iter().fold(BTreeMap::new(), rebuild_pair_up_connections_folder) };
    compare(&before, &after);
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c14_wide() { wide(2, 40, false); }
#[no_mangle]
pub extern "C" fn h_c14_many() { wide(16, 3, true); }
#[no_mangle]
pub extern "C" fn t_c14_wide() { wide(3, 120, false); }
