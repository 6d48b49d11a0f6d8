//! C17: lint.
use crate::common::*;
use crate::conf::*;
use ConfigLintWarning as W;

fn add(v: &mut Vec<W>, w: W) { if !v.contains(&w) { v.push(w) } }
fn expected(c: &Config, lists: &[Vec<Connection>]) -> Vec<W> {
    let mut v = vec![];
    let used: Vec<(CT, String)> = lists.iter().flatten().map(|x| { let p = part(x); (*p.t, p.name.to_string()) }).collect();
    let is_used = |t: CT, n: &str| used.iter().any(|(u, m)| *u == t && m == n);
    let mut configured: Vec<(CT, String)> = vec![];
    for k in c.regulator.keys() { configured.push((CT::Regulator, k.clone())) }
    for k in c.drain.keys() { configured.push((CT::Drain, k.clone())) }
    for k in c.faucet.keys() { configured.push((CT::Faucet, k.clone())) }
    for k in c.launch.keys() { configured.push((CT::Launch, k.clone())) }
    for (t, n) in &configured {
        if !is_used(*t, n) {
            let section = match t { CT::Regulator => "regulator", CT::Drain => "drain", CT::Faucet => "faucet", _ => "launch" };
            add(&mut v, W::InConfigButMissingFlowConnection { config_section: section.to_string(), component_type: *t, component_name: n.clone() });
            cover("configured but not connected");
        }
    }
    for (t, n) in &used {
        let needs = match t { CT::Junction | CT::Buffer => false, _ => true };
        if needs && !configured.iter().any(|(u, m)| u == t && m == n) {
            add(&mut v, W::InFlowConnectionButMissingConfig { component_type: *t, component_name: n.clone() });
            cover("connected but not configured");
        }
    }
    for (k, r) in c.regulator.iter() {
        for b in &r.monitored_buffers {
            if !is_used(CT::Buffer, b) {
                add(&mut v, W::RegulatorWatchingMissingBuffer { config_section: format!("regulator[\"{}\"].monitored_buffers", k), component_type: CT::Buffer, component_name: b.clone() });
                cover("watches a missing buffer");
            }
        }
    }
    v
}
fn compare(got: HashSet<W>, want: Vec<W>) {
    sxstd::order::set_mode(0);
    for w in &want { check(got.contains(w), "a problem is not reported"); }
    check(got.iter().count() == want.len(), "something is reported that is no problem");
    if want.is_empty() { cover("clean") }
}
/// One list of components, and up to one configured component of each type.
fn lint(len: usize, names: u8, more: usize, order: usize) {
    for c in ["configured but not connected", "connected but not configured", "clean"] { expect(c) }
    let mut c = Config::new();
    let v: Vec<Connection> = (0..len).map(|k| {
        let (t, n) = (lazy_type(), lazy_name(names));
        // ports, priorities and pipe variations are none of lint's business
        if k == 0 { st(t, &n, lazy_port()) } else if k == len - 1 { en(t, &n, any_isize("priority"), lazy_breakable()) } else { mid(t, &n, any_isize("priority"), lazy_breakable(), lazy_port()) }
    }).collect();
    c.connection.insert("main".to_string(), DeserializedConnection::Connections(v.clone()));
    for _ in 0..choice("faucets", more + 1) { let n = lazy_name(names); with_faucet(&mut c, &n, "in"); }
    for _ in 0..choice("drains", more + 1) { let n = lazy_name(names); with_drain(&mut c, &n, "out"); }
    for _ in 0..choice("launches", more + 1) { let n = lazy_name(names); with_launch(&mut c, &n, "p"); }
    if choice("regulators", 2) == 1 { let n = lazy_name(names); with_regulator(&mut c, &n, None, &[]); }
    let want = expected(&c, &[v]);
    let before = c.clone();
    sxstd::order::set_mode(order);
    let got = Config::lint(&mut c);
    compare(got, want);
    check(c == before, "lint changed the configuration");
}
#[no_mangle]
pub extern "C" fn h_c17_one() { lint(2, 3, 1, 2); }
#[no_mangle]
pub extern "C" fn h_c17_three() { lint(3, 2, 1, 0); }
#[no_mangle]
pub extern "C" fn t_c17_more() { lint(3, 2, 2, 2); }

/// Regulators and what they watch, over two lists.
#[no_mangle]
pub extern "C" fn h_c17_regulators() {
    for c in ["watches a missing buffer", "clean"] { expect(c) }
    let mut c = Config::new();
    let lists: Vec<Vec<Connection>> = (0..2).map(|_| vec![st([CT::Buffer, CT::Regulator, CT::Junction][choice("type", 3)], &lazy_name(2), OutputPort::Out), en(CT::Junction, "z", 0, Breakable::Terminate)]).collect();
    for (i, l) in lists.iter().enumerate() { c.connection.insert(format!("c{}", i), DeserializedConnection::Connections(l.clone())); }
    for _ in 0..choice("regulators", 3) {
        let watch: Vec<String> = (0..choice("watched", 3)).map(|_| lazy_name(2)).collect();
        c.regulator.insert(lazy_name(2), RegulatorConfig { buffered: Some((1, 2)), monitored_buffers: watch });
    }
    let want = expected(&c, &lists);
    compare(Config::lint(&mut c), want);
}

/// Connections given as texts, readable or not.
#[no_mangle]
pub extern "C" fn h_c17_texts() {
    for c in ["unreadable", "readable", "clean"] { expect(c) }
    let mut c = Config::new();
    let b = range_u8("character", 32, 126);
    let text = |n: u8, s: u8| String::from_utf8(vec![b'f', b':', b'a', n, s, b'd', b':', b'b']).unwrap();
    let texts = [text(b, b'|'), text(b'1', range_u8("separator", 32, 126))];
    let n = 1 + choice("lists", 2);
    for k in 0..n { c.connection.insert(format!("c{}", k), DeserializedConnection::JoinString(texts[k].clone())); }
    with_faucet(&mut c, "a", "in"); with_drain(&mut c, "b", "out");
    let mut bad = vec![];
    let mut lists = vec![];
    for k in 0..n {
        let (x, y) = (texts[k].as_bytes()[3], texts[k].as_bytes()[4]);
        if (x.is_ascii_alphanumeric() || x == b'_') && y == b'|' { lists.push(vec![st(CT::Faucet, &texts[k][2..4], OutputPort::Out), en(CT::Drain, "b", 0, Breakable::Terminate)]) }
        else if x == b' ' && y == b'|' { lists.push(vec![st(CT::Faucet, "a", OutputPort::Out), en(CT::Drain, "b", 0, Breakable::Terminate)]) }
        else if x == b'|' && y == b' ' { lists.push(vec![st(CT::Faucet, "a", OutputPort::Out), en(CT::Drain, "b", 0, Breakable::Terminate)]) }
        else { bad.push(W::InvalidConnection { id: format!("c{}", k), join: texts[k].clone() }) }
    }
    let want = if bad.is_empty() { cover("readable"); expected(&c, &lists) } else { cover("unreadable"); bad };
    let got = Config::lint(&mut c);
    compare(got, want);
}

/// What the user is shown names the component.
#[no_mangle]
pub extern "C" fn h_c17_shown() {
    for c in ["kind 0", "kind 1", "kind 2", "kind 3"] { expect(c) }
    let (t, n, s) = (lazy_type(), String::from_utf8(vec![b'q', range_u8("name", b'A', b'Z')]).unwrap(), "reg_ion".to_string());
    let k = choice("kind", 4);
    let text = match k {
        0 => W::RegulatorWatchingMissingBuffer { config_section: s, component_type: t, component_name: n.clone() },
        1 => W::InConfigButMissingFlowConnection { config_section: s, component_type: t, component_name: n.clone() },
        2 => W::InFlowConnectionButMissingConfig { component_type: t, component_name: n.clone() },
        _ => W::InvalidConnection { id: s, join: n.clone() },
    }.to_string();
    let has = |w: &str| text.as_bytes().windows(w.len()).any(|x| same(x, w.as_bytes()));
    check(has(&n), "the name is not shown");
    if k != 3 { check(has(&format!("{}:", ["Faucet", "Launch", "Junction", "Buffer", "Drain", "Regulator"][TYPES.iter().position(|x| *x == t).unwrap()])), "the type is not shown"); }
    if k != 2 { check(has("reg_ion"), "the place in the configuration is not shown"); }
    cover(["kind 0", "kind 1", "kind 2", "kind 3"][k]);
}

/// Connections written out that do not lead from each component to the next.
fn written(max: usize) {
    for c in ["unreadable", "clean"] { expect(c) }
    let mut c = Config::new();
    let mut bad: Vec<W> = vec![];
    for i in 0..2 {
        let n = choice("length", max + 1);
        let kinds: Vec<usize> = (0..n).map(|_| choice("kind", 3)).collect();
        let v: Vec<Connection> = kinds.iter().enumerate().map(|(k, kind)| { let n = format!("{}{}", i, k); match kind { 0 => st(CT::Junction, &n, OutputPort::Out), 1 => mid(CT::Junction, &n, 0, Breakable::Finish, OutputPort::Out), _ => en(CT::Junction, &n, 2, Breakable::Consume) } }).collect();
        // everything but the last leads somewhere, everything but the first is led to
        let ok = n == 0 || (n > 1 && (0..n).all(|k| (k == n - 1 || kinds[k] != 2) && (k == 0 || kinds[k] != 0)));
        if !ok { bad.push(W::InvalidConnection { id: format!("c{}", i), join: serde_json::to_string(&v).unwrap() }) }
        c.connection.insert(format!("c{}", i), DeserializedConnection::Connections(v));
    }
    if bad.is_empty() { cover("clean") } else { cover("unreadable") }
    let before = c.clone();
    let got = Config::lint(&mut c);
    sxstd::order::set_mode(0);
    check(got.len() == bad.len(), "a connection that cannot be made sense of is not reported, or another is");
    for b in &bad {
        if let W::InvalidConnection { id, .. } = b { check(got.iter().any(|g| matches!(g, W::InvalidConnection { id: i, .. } if i == id)), "a problem is reported for a wrong connection"); }
    }
    check(c == before, "lint changed the configuration");
}
#[no_mangle]
pub extern "C" fn h_c17_written() { written(4); }
#[no_mangle]
pub extern "C" fn t_c17_written() { written(5); }

/// Names that are easily taken for one another.
#[no_mangle]
pub extern "C" fn h_c17_alike() {
    for c in ["configured but not connected", "connected but not configured", "watches a missing buffer", "clean"] { expect(c) }
    let (n, m) = alike();
    let mut c = Config::new();
    let t = any_type();
    let v = vec![st(t, n, OutputPort::Out), en(CT::Junction, "z", any_isize("priority"), lazy_breakable())];
    c.connection.insert("main".to_string(), DeserializedConnection::Connections(v.clone()));
    for x in [n, m] {
        if choice("configured", 2) == 0 { continue; }
        match t { CT::Faucet => with_faucet(&mut c, x, "in"), CT::Launch => with_launch(&mut c, x, "p"), CT::Drain => with_drain(&mut c, x, "out"), CT::Regulator => with_regulator(&mut c, x, None, &[]), _ => with_regulator(&mut c, "r", None, &[x]) }
    }
    let want = expected(&c, &[v]);
    compare(Config::lint(&mut c), want);
}

/// Many components: none is forgotten.
fn wide(n: usize) {
    for c in ["configured but not connected", "connected but not configured", "watches a missing buffer", "clean"] { expect(c) }
    let mut c = Config::new();
    // one that is not connected, and one that is not configured, or none
    let (x, y, z) = (choice("not connected", n + 1), choice("not configured", n + 1), choice("not watched", 3));
    let t = [CT::Faucet, CT::Launch, CT::Drain, CT::Regulator][choice("type", 4)];
    let mut lists = vec![];
    for i in 0..n {
        let k = format!("n{}", i);
        let inner = |u: CT| mid(u, &k, 0, Breakable::Terminate, OutputPort::Out);
        let mut v = vec![st(CT::Faucet, &k, OutputPort::Out), inner(CT::Regulator), inner(CT::Launch), inner(CT::Buffer), en(CT::Drain, &k, 0, Breakable::Terminate)];
        if i == x { v.retain(|c| *part(c).t != t) }
        for u in [CT::Faucet, CT::Launch, CT::Drain, CT::Regulator] {
            if i == y && u == t { continue; }
            match u { CT::Faucet => with_faucet(&mut c, &k, "in"), CT::Launch => with_launch(&mut c, &k, "p"), CT::Drain => with_drain(&mut c, &k, "out"),
                _ => { let w: Vec<String> = (0..n).map(|j| if z > 0 && j == (n - 1) * (z - 1) && i == n / 2 { "missing".to_string() } else { format!("n{}", j) }).collect(); with_regulator(&mut c, &k, None, &w.iter().map(|s| &s[..]).collect::<Vec<_>>()) } }
        }
        // what is left of a list starts with a start and ends with an end
        let m = v.len();
        let v: Vec<Connection> = v.iter().enumerate().map(|(q, c)| { let p = part(c); if q == 0 { st(*p.t, p.name, OutputPort::Out) } else if q == m - 1 { en(*p.t, p.name, 0, Breakable::Terminate) } else { c.clone() } }).collect();
        c.connection.insert(k.clone(), DeserializedConnection::Connections(v.clone()));
        lists.push(v);
    }
    let want = expected(&c, &lists);
    let before = c.clone();
    compare(Config::lint(&mut c), want);
    check(c == before, "lint changed the configuration");
}
#[no_mangle]
pub extern "C" fn h_c17_wide() { wide(11); }
#[no_mangle]
pub extern "C" fn t_c17_wide() { wide(30); }

/// What is reported also keeps a configuration from being processed or drawn, a component that is not used does not.
#[no_mangle]
pub extern "C" fn h_c17_refused() {
    for c in ["processed", "drawn", "refused"] { expect(c) }
    let cmd = choice("command", 3);
    let args: &[&str] = [&["process", "--config", "c", "--format", "json"][..], &["graph", "--config", "c", "--format", "json"][..], &["config", "--config", "c", "--format", "json", "lint"][..]][cmd];
    let has = |n: &str| choice(n, 2) == 0;
    let mut c = Config::new();
    c.connection.insert("m".to_string(), DeserializedConnection::JoinString("f:a | r:a | b:a | l:a | d:a".to_string()));
    let mut missing: Vec<&str> = vec![];
    if has("faucet") { with_faucet(&mut c, "a", "in") } else { missing.push("Faucet:a") }
    if has("launch") { with_launch(&mut c, "a", "cat") } else { missing.push("Launch:a") }
    if has("drain") { with_drain(&mut c, "a", "out") } else { missing.push("Drain:a") }
    let watch = choice("watched", 4);
    if has("regulator") { with_regulator(&mut c, "a", Some((1, 2)), [&["a"][..], &["a", "nowhere"][..], &["nowhere"][..], &[][..]][watch]); if watch == 1 || watch == 2 { missing.push("Buffer:nowhere") } } else { missing.push("Regulator:a") }
    let unused = choice("unused", 2) == 1;
    if unused { with_faucet(&mut c, "z", "in") }
    let unreadable = choice("unreadable", 2) == 1;
    if unreadable { c.connection.insert("n".to_string(), DeserializedConnection::JoinString("f:a | f:".to_string())); missing = vec!["n:f:a | f:"]; }
    if cmd == 2 && unused && !unreadable { missing.push("Faucet:z") }
    sx::add_file("in", b"x\n".to_vec());
    sx::program("cat", vec![sx::Step::Cat]);
    let text = serde_json::to_string(&c).unwrap_or_default();
    crate::pa2::pa2(args, &[("c", &text)], "", move |o: crate::pa2::Outcome| {
        check(o.code == !missing.is_empty() as i32, "a configuration with a problem is processed or drawn, or one without is not");
        for m in &missing { check(o.err.contains(m), "a problem is not named"); }
        for t in ["Faucet", "Launch", "Drain", "Regulator"] { let n = format!("{}:a", t); if !missing.contains(&&n[..]) { check(!o.err.contains(&n), "something is named that is fine"); } }
        if o.code == 1 {
            check(sx::find_file("out").is_none(), "a configuration that is refused was run");
            cover("refused"); end()
        }
        if cmd == 0 { check(same(&sx::content("out"), b"x\n"), "what was processed did not reach the drain"); cover("processed"); }
        if cmd == 1 { cover("drawn"); }
    })
}
