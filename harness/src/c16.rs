//! C16: preparing a configuration.
use crate::c15::{links, list, verify};
use crate::common::*;
use crate::conf::*;
use pipeawesome2::config_manip::connection_manipulation;

const DRAINS: [&str; 3] = ["dyn_drain_1", "dyn_drain_2", "out"];
fn exits(m: &BTreeMap<String, DeserializedConnection>, launch: &str) -> Vec<Connection> {
    links(m).into_iter().filter(|l| { let p = part(&l.0); *p.t == CT::Launch && p.name == launch && *p.out.unwrap() == OutputPort::Exit }).map(|l| l.1).collect()
}
fn prepare(n: usize, order: usize) {
    for c in ["spied", "exit in use", "not a source"] { expect(c) }
    let mut c = Config::new();
    let have = choice("drains", 4);
    let dest = if have == 0 { "file" } else { ["file", "/dev/null"][choice("destination of the drains", 2)] };
    for d in &DRAINS[..have] { with_drain(&mut c, d, dest); }
    for l in ["a", "b"] { with_launch(&mut c, l, "p"); with_faucet(&mut c, l, "in"); }
    c.launch.get_mut("b").unwrap().env.insert("k".to_string(), "v".to_string());
    with_regulator(&mut c, "a", Some((1, 2)), &["x"]);
    let first = choice("keys", 2);
    for i in 0..n {
        let src = [CT::Faucet, CT::Launch, CT::Junction][choice("source", 3)];
        let k = choice("destination", 2 + have);
        let end = match k {
            0 => en(CT::Launch, &lazy_name(2), 0, lazy_breakable()),
            1 => en(CT::Junction, &lazy_name(2), any_isize("priority"), lazy_breakable()),
            k => en(CT::Drain, DRAINS[k - 2], 0, lazy_breakable()),
        };
        let port = if src == CT::Launch { lazy_port() } else { OutputPort::Out };
        c.connection.insert(format!("dyn_connection_{}", first + i), list(&(st(src, &lazy_name(2), port), end)));
    }
    let before = c.clone();
    sxstd::order::set_mode(order);
    let c = connection_manipulation(c);
    sxstd::order::set_mode(0);
    check(sxstd::world::get().stdout.is_empty(), "something was printed on standard output");
    check(c.launch == before.launch && c.faucet == before.faucet && c.regulator == before.regulator, "a setting was changed");
    for (k, v) in before.drain.iter() { check(c.drain.get(k) == Some(v), "a configured drain was changed"); }
    let mut added = vec![];
    for l in ["a", "b"] {
        let source = links(&before.connection).iter().any(|x| { let p = part(&x.0); *p.t == CT::Launch && p.name == l });
        let (old, new) = (exits(&before.connection, l), exits(&c.connection, l));
        if !source { check(new.is_empty(), "an exit port of a launch that is no source was connected"); cover("not a source"); continue; }
        if !old.is_empty() { check(new.len() == 1, "an exit port in use was connected again"); cover("exit in use"); continue; }
        check(new.len() == 1, "the exit port of a launch leads nowhere, or to more than one place");
        let p = part(&new[0]);
        check(*p.t == CT::Drain && before.drain.get(p.name).is_none(), "the exit status goes somewhere configured for something else");
        check(c.drain.get(p.name) == Some(&DrainConfig { destination: "/dev/null".to_string() }), "the exit status is not discarded");
        check(links(&c.connection).iter().filter(|x| { let q = part(&x.1); q.t == p.t && q.name == p.name }).count() == 1, "the added drain is not the launch's own");
        added.push(p.name.to_string());
        cover("spied");
    }
    check(c.drain.iter().count() == before.drain.iter().count() + added.len(), "a drain appeared that nothing needs");
    // the rest is what was configured
    let mut rest = c.connection.clone();
    rest.retain(|_, v| match v { DeserializedConnection::Connections(v) => !(v.len() == 2 && *part(&v[1]).t == CT::Drain && added.iter().any(|d| d == part(&v[1]).name)), _ => true });
    let mut old = BTreeMap::new();
    for (k, v) in before.connection { old.insert(format!("{}_1", k), v); }
    verify(&old, &rest);
    let twice = connection_manipulation(c.clone());
    check(twice.drain == c.drain && twice.launch == c.launch && twice.faucet == c.faucet, "preparing again adds something");
}
#[no_mangle]
pub extern "C" fn h_c16_one() { prepare(1, 1); }
#[no_mangle]
pub extern "C" fn h_c16_prepare() { prepare(2, 0); }
#[no_mangle]
pub extern "C" fn t_c16_order() { prepare(2, 1); }
#[no_mangle]
pub extern "C" fn t_c16_three() { prepare(3, 2); }

/// Launches whose names are easily taken for one another, or for an added drain's.
#[no_mangle]
pub extern "C" fn h_c16_alike() {
    for c in ["spied", "exit in use"] { expect(c) }
    let (n, m) = alike();
    let mut c = Config::new();
    for x in [n, m] { with_launch(&mut c, x, "p"); with_drain(&mut c, x, "/dev/null"); }
    for x in [n, m] { c.connection.insert(x.to_string(), list(&(st(CT::Launch, x, lazy_port()), en(CT::Drain, x, 0, lazy_breakable())))); }
    let before = c.clone();
    let c = connection_manipulation(c);
    check(c.launch == before.launch, "a setting was changed");
    let mut added = vec![];
    for x in [n, m] {
        let (old, new) = (exits(&before.connection, x), exits(&c.connection, x));
        check(new.len() == 1, "the exit port of a launch leads nowhere, or to more than one place");
        check(c.drain.get(x) == before.drain.get(x), "a configured drain was changed");
        let p = part(&new[0]);
        if !old.is_empty() { check(*p.t == CT::Drain && p.name == x, "an exit port in use was connected to something else"); cover("exit in use"); continue; }
        check(*p.t == CT::Drain && before.drain.get(p.name).is_none() && !added.iter().any(|a| a == p.name), "the exit status goes somewhere configured for something else");
        check(c.drain.get(p.name) == Some(&DrainConfig { destination: "/dev/null".to_string() }), "the exit status is not discarded");
        added.push(p.name.to_string());
        cover("spied");
    }
    check(c.drain.iter().count() == before.drain.iter().count() + added.len(), "a drain appeared that nothing needs");
    check(links(&c.connection).len() == 2 + added.len(), "links appeared that nothing needs, or are gone");
}

/// Many launches, beside drains that have the names that would be generated.
fn wide(n: usize) {
    for c in ["spied", "exit in use"] { expect(c) }
    let mut c = Config::new();
    let have = choice("drains", 3) * (n - 2);
    for i in 0..have { with_drain(&mut c, &format!("dyn_drain_{}", i), "file"); }
    let (odd, port) = (choice("odd", n), lazy_port());
    for i in 0..n {
        let x = format!("l{}", i);
        with_launch(&mut c, &x, "p");
        with_drain(&mut c, &x, "file");
        c.connection.insert(format!("dyn_connection_{}", i), list(&(st(CT::Launch, &x, if i == odd { port } else { OutputPort::Out }), en(CT::Drain, &x, 0, Breakable::Terminate))));
    }
    let before = c.clone();
    let c = connection_manipulation(c);
    check(c.launch == before.launch, "a setting was changed");
    for (k, v) in before.drain.iter() { check(c.drain.get(k) == Some(v), "a configured drain was changed"); }
    let mut added = vec![];
    for i in 0..n {
        let x = format!("l{}", i);
        let (old, new) = (exits(&before.connection, &x), exits(&c.connection, &x));
        check(new.len() == 1, "the exit port of a launch leads nowhere, or to more than one place");
        let p = part(&new[0]);
        if !old.is_empty() { check(*p.t == CT::Drain && p.name == x, "an exit port in use was connected to something else"); cover("exit in use"); continue; }
        check(*p.t == CT::Drain && before.drain.get(p.name).is_none() && !added.iter().any(|a| a == p.name), "the exit status goes somewhere configured for something else");
        check(c.drain.get(p.name) == Some(&DrainConfig { destination: "/dev/null".to_string() }), "the exit status is not discarded");
        added.push(p.name.to_string());
        cover("spied");
    }
    check(c.drain.iter().count() == before.drain.iter().count() + added.len(), "a drain appeared that nothing needs");
    check(links(&c.connection).len() == n + added.len(), "links appeared that nothing needs, or are gone");
    check(pipeawesome2::waiter::get_waiter(c).is_ok(), "the prepared configuration cannot be run");
}
#[no_mangle]
pub extern "C" fn h_c16_wide() { wide(14); }
#[no_mangle]
pub extern "C" fn t_c16_wide() { wide(60); }
