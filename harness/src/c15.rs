//! C15: automatic junctions.
use crate::common::*;
use crate::conf::*;
use pipeawesome2::config_manip::{add_junctions, connection_manipulation};

type Link = (Connection, Connection);
pub fn list(l: &Link) -> DeserializedConnection { DeserializedConnection::Connections(vec![l.0.clone(), l.1.clone()]) }
pub fn links(m: &BTreeMap<String, DeserializedConnection>) -> Vec<Link> {
    m.values().map(|d| match d { DeserializedConnection::Connections(v) if v.len() == 2 => (v[0].clone(), v[1].clone()), _ => { check(false, "not a pair"); end() } }).collect()
}
fn named(c: &Connection, t: CT, n: &str) -> bool { let p = part(c); *p.t == t && p.name == n }
pub fn same_start(a: &Connection, b: &Connection) -> bool { let (p, q) = (part(a), part(b)); p.t == q.t && p.name == q.name && p.out == q.out }
fn same_end(a: &Connection, b: &Connection) -> bool { let (p, q) = (part(a), part(b)); p.t == q.t && p.name == q.name }

struct Trace<'a> { old: &'a [Link], new: &'a [Link], fresh_start: Vec<bool>, fresh_end: Vec<bool>, uses: Vec<usize>, paths: Vec<Vec<usize>> }
impl<'a> Trace<'a> {
    fn walk(&mut self, path: &mut Vec<usize>, at: usize) {
        check(path.len() < 8, "generated junctions form a loop");
        path.push(at);
        if self.fresh_end[at] {
            let mut any = false;
            for k in 0..self.new.len() {
                if self.fresh_start[k] && part(&self.new[k].0).name == part(&self.new[at].1).name {
                    check(*part(&self.new[k].0).out.unwrap() == OutputPort::Out, "a generated junction passes data on from a port it does not have");
                    any = true;
                    self.walk(path, k);
                }
            }
            check(any, "a generated junction leads nowhere");
        } else {
            for k in path.iter() { self.uses[*k] += 1 }
            self.paths.push(path.clone());
        }
        path.pop();
    }
}

/// The whole property, for a set of links before and after.
pub fn verify(old_map: &BTreeMap<String, DeserializedConnection>, new_map: &BTreeMap<String, DeserializedConnection>) {
    let (old, new) = (links(old_map), links(new_map));
    for k in old_map.keys() { check(new_map.contains_key(k), "a connection lost its name"); }
    let fresh = |c: &Connection| { let p = part(c); *p.t == CT::Junction && !old.iter().any(|(a, b)| named(a, CT::Junction, p.name) || named(b, CT::Junction, p.name)) };
    let fs: Vec<bool> = new.iter().map(|l| fresh(&l.0)).collect();
    let fe: Vec<bool> = new.iter().map(|l| fresh(&l.1)).collect();
    for i in 0..new.len() {
        check(matches!(new[i].0, Connection::StartConnection { .. }) && matches!(new[i].1, Connection::EndConnection { .. }), "not a start and an end");
        for j in 0..i {
            check(*part(&new[i].0).t == CT::Junction || !same_start(&new[i].0, &new[j].0), "an output port still has two links");
            check(*part(&new[i].1).t == CT::Junction || !same_end(&new[i].1, &new[j].1), "an input still has two links");
        }
    }
    let mut t = Trace { old: &old, new: &new, uses: vec![0; new.len()], fresh_start: fs.clone(), fresh_end: fe, paths: vec![] };
    for k in 0..new.len() { if !fs[k] { t.walk(&mut vec![], k); } }
    check(t.paths.len() == t.old.len(), "the number of connections between components changed");
    check(t.uses.iter().all(|n| *n > 0), "a generated junction is fed by nothing");
    let mut taken = vec![false; t.paths.len()];
    for o in &old {
        let mut found = None;
        let alone = old.iter().filter(|x| same_start(&x.0, &o.0)).count() == 1 && old.iter().filter(|x| same_end(&x.1, &o.1)).count() == 1;
        for (k, p) in t.paths.iter().enumerate() {
            if taken[k] || found.is_some() { continue; }
            let (a, z) = (&new[p[0]].0, &new[*p.last().unwrap()].1);
            if !same_start(a, &o.0) || !same_end(z, &o.1) { continue; }
            if alone { check(p.len() == 1 && same_link((&o.0, &o.1), (a, z)), "a link that needed no junction was changed"); }
            let want = part(&o.1).input.unwrap();
            if p.iter().any(|l| t.uses[*l] == 1 && { let i = part(&new[*l].1).input.unwrap(); i.priority == want.priority && i.breakable as u8 == want.breakable as u8 }) { found = Some(k) }
        }
        match found { None => check(false, "a connection is gone, or its priority or pipe variation is not on its own link"), Some(k) => taken[k] = true }
        cover(if alone { "untouched" } else { "split" });
    }
    if new.len() > old.len() { cover("junctions added") }
}

fn name(p: &str, n: u8) -> String { let mut v = p.as_bytes().to_vec(); v.push(range_u8("name", b'1', b'0' + n)); String::from_utf8(v).unwrap() }
/// Links whose components have names that may be those of generated junctions.
fn graph(n: usize, names: u8, order: usize) {
    for c in ["untouched", "split", "junctions added"] { expect(c) }
    sxstd::order::set_mode(order);
    let mut m = BTreeMap::new();
    let first = choice("keys", 3);
    for i in 0..n {
        let key = format!("dyn_connection_{}", first + i);
        m.insert(key, list(&(st(lazy_type(), &name("junction_", names), lazy_port()), en(lazy_type(), &name("junction_", names), any_isize("priority"), lazy_breakable()))));
    }
    let before = m.clone();
    let after = add_junctions(m);
    sxstd::order::set_mode(0);
    verify(&before, &after);
}
#[no_mangle]
pub extern "C" fn h_c15_two() { graph(2, 2, 1); }
#[no_mangle]
pub extern "C" fn h_c15_three() { graph(3, 2, 2); }
#[no_mangle]
pub extern "C" fn t_c15_order() { graph(3, 3, 1); }
#[no_mangle]
pub extern "C" fn t_c15_four() { graph(4, 2, 1); }

/// Configurations that need junctions can be run once they are prepared.
fn runnable(n: usize) {
    for c in ["untouched", "split", "junctions added"] { expect(c) }
    sxstd::order::set_mode(choice("order", 2));
    let mut c = Config::new();
    for i in 0..n {
        let src = [CT::Faucet, CT::Launch, CT::Junction][choice("source", 3)];
        let dst = [CT::Drain, CT::Launch, CT::Junction][choice("destination", 3)];
        let priority = if dst == CT::Junction { any_isize("priority") } else { 0 };
        let port = if src == CT::Launch { lazy_port() } else { OutputPort::Out };
        c.connection.insert(format!("c{}", i), list(&(st(src, &lazy_name(2), port), en(dst, &lazy_name(2), priority, lazy_breakable()))));
    }
    for l in ["a", "b"] { with_launch(&mut c, l, "p"); with_faucet(&mut c, l, "in"); with_drain(&mut c, l, "out"); }
    let before = c.connection.clone();
    let c = connection_manipulation(c);
    sxstd::order::set_mode(0);
    // what was added to give launch outputs a place to go is another property's matter
    let mut after = c.connection.clone();
    after.retain(|_, v| match v { DeserializedConnection::Connections(v) => !(v.len() == 2 && *part(&v[1]).t == CT::Drain && part(&v[1]).name.len() > 1), _ => true });
    let mut old = BTreeMap::new();
    for (k, v) in before { old.insert(format!("{}_1", k), v); }
    verify(&old, &after);
    check(pipeawesome2::waiter::get_waiter(c).is_ok(), "the prepared configuration cannot be run");
}
#[no_mangle]
pub extern "C" fn h_c15_runnable() { runnable(2); }
#[no_mangle]
pub extern "C" fn t_c15_runnable() { runnable(3); }

/// Components and lists whose names are easily taken for one another.
#[no_mangle]
pub extern "C" fn h_c15_alike() {
    for c in ["untouched", "split", "junctions added"] { expect(c) }
    let (n, m) = alike();
    let (t, u) = (lazy_type(), lazy_type());
    let p = lazy_port();
    let mut c = BTreeMap::new();
    c.insert(n.to_string(), list(&(st(t, n, p), en(u, n, any_isize("priority"), lazy_breakable()))));
    c.insert(m.to_string(), list(&(st(t, m, p), en(u, m, any_isize("priority"), lazy_breakable()))));
    if choice("third", 2) == 1 { c.insert("third".to_string(), list(&(st(t, n, p), en(u, m, any_isize("priority"), lazy_breakable())))); }
    let before = c.clone();
    let after = add_junctions(c);
    verify(&before, &after);
}

/// One output to many, many to one input, beside junctions that have the names that would be generated.
fn wide(n: usize) {
    for c in ["untouched", "split", "junctions added"] { expect(c) }
    let mut m = BTreeMap::new();
    let key = ["dyn_connection_", "c"][choice("keys", 2)];
    let mut k = 0;
    let mut add = |m: &mut BTreeMap<String, DeserializedConnection>, a, b| { k += 1; m.insert(format!("{}{}", key, k), list(&(a, b))); };
    // a fan out, a fan in, or both
    let shape = choice("shape", 3);
    let port = lazy_port();
    let odd = choice("odd", n);
    for i in 0..n {
        let (p, b) = if i == odd { (any_isize("priority"), lazy_breakable()) } else { (0, Breakable::Terminate) };
        if shape != 1 { add(&mut m, st(CT::Launch, "s", port), en(CT::Drain, &format!("d{}", i), p, b)); }
        if shape != 0 { add(&mut m, st(CT::Faucet, &format!("f{}", i), OutputPort::Out), en(CT::Launch, "t", p, b)); }
    }
    // junctions of the configuration's own
    for i in 0..choice("existing", 2) * (n + 3) { add(&mut m, st(CT::Junction, &format!("junction_{}", i), OutputPort::Out), en(CT::Buffer, &format!("b{}", i), 0, Breakable::Finish)); }
    add(&mut m, st(CT::Regulator, "alone", OutputPort::Out), en(CT::Buffer, "alone", any_isize("priority"), lazy_breakable()));
    let before = m.clone();
    let after = add_junctions(m);
    verify(&before, &after);
    check(links(&after).len() <= links(&before).len() + 2, "more links than needed");
}
#[no_mangle]
pub extern "C" fn h_c15_wide() { wide(12); }
#[no_mangle]
pub extern "C" fn t_c15_wide() { wide(40); }
