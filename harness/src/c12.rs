//! C12: the runtime graph is the configured one.
use crate::common::*;
use crate::conf::*;
use pipeawesome2::waiter::get_waiter;

fn drain_spy(r: &Receiver<SpyMessage>) -> Vec<SpyMessage> { let mut v = vec![]; while let Ok(m) = r.try_recv() { v.push(m) } v }
/// Every id of the pipeline with what it stands for.
fn ids(w: &mut pipeawesome2::waiter::Waiter) -> Vec<(usize, CT, String)> {
    match w.get_id_to_component_type_name() { Some(m) => m.into_iter().map(|(k, (t, n))| (k, t, n)).collect(), None => { check(false, "no component table"); end() } }
}

/// Which configurations are refused, over every pair of links.
fn refuse(n_lists: usize, names: u8, len: usize) {
    for c in ["accepted", "port twice", "no such port", "priority", "input of a faucet", "second input", "no command"] { expect(c) }
    let mut c = Config::new();
    let mut lists: Vec<Vec<Connection>> = vec![];
    for i in 0..n_lists {
        let l = if i == 0 { len } else { 2 };
        let v: Vec<Connection> = (0..l).map(|k| {
            let (t, n) = (lazy_type(), lazy_name(names));
            if k == 0 { st(t, &n, lazy_port()) } else if k == l - 1 { en(t, &n, any_isize("priority"), lazy_breakable()) } else { mid(t, &n, any_isize("priority"), lazy_breakable(), lazy_port()) }
        }).collect();
        c.connection.insert(format!("c{}", i), DeserializedConnection::Connections(v.clone()));
        lists.push(v);
    }
    let commands = choice("commands", 3);
    if commands > 0 { for n in 0..names { c.launch.insert(((b'a' + n) as char).to_string(), LaunchConfig { command: if commands == 2 { Some("p".to_string()) } else { None }, path: None, env: HashMap::new(), arg: vec![] }); } }
    let r = get_waiter(c);
    // the first thing wrong, in configuration order
    let mut wrong = None;
    let mut seen: Vec<(CT, String)> = vec![];
    let mut used: Vec<(CT, String, Option<OutputPort>)> = vec![];
    'all: for l in &lists {
        let mut last: Option<Part> = None;
        for x in l {
            let p = part(x);
            if !seen.iter().any(|(t, n)| t == p.t && n == p.name) {
                seen.push((*p.t, p.name.to_string()));
                if *p.t == CT::Launch && commands != 2 { wrong = Some("no command"); break 'all; }
            }
            if let Some(s) = &last {
                let port = *s.out.unwrap();
                match s.t {
                    CT::Drain => { wrong = Some("no such port"); break 'all; }
                    CT::Faucet | CT::Regulator | CT::Buffer | CT::Junction if port != OutputPort::Out => { wrong = Some("no such port"); break 'all; }
                    CT::Junction => {}
                    _ => { let k = (*s.t, s.name.to_string(), Some(port)); if used.contains(&k) { wrong = Some("port twice"); break 'all; } used.push(k); }
                }
                match p.t {
                    CT::Faucet => { wrong = Some("input of a faucet"); break 'all; }
                    CT::Junction => {}
                    _ => {
                        if p.input.unwrap().priority != 0 { wrong = Some("priority"); break 'all; }
                        let k = (*p.t, p.name.to_string(), None); if used.contains(&k) { wrong = Some("second input"); break 'all; } used.push(k);
                    }
                }
            }
            last = if p.out.is_some() { Some(p) } else { None };
        }
    }
    match (r, wrong) {
        (Ok(mut w), None) => {
            let v = ids(&mut w);
            check(v.len() == seen.len(), "not one component for each one mentioned");
            for (t, n) in &seen { check(v.iter().filter(|x| x.1 == *t && x.2 == *n).count() == 1, "a component is missing or was made twice"); }
            cover("accepted");
        }
        (Err(m), Some(k)) => { check(!m.is_empty(), "refused without a message"); cover(k); }
        (Ok(_), Some(_)) => check(false, "an impossible configuration was accepted"),
        (Err(_), None) => check(false, "a possible configuration was refused"),
    }
}
#[no_mangle]
pub extern "C" fn h_c12_refuse() { refuse(2, 1, 2); }
#[no_mangle]
pub extern "C" fn h_c12_refuse_list() { refuse(1, 1, 3); }
#[no_mangle]
pub extern "C" fn t_c12_refuse_names() { refuse(2, 2, 2); }
#[no_mangle]
pub extern "C" fn t_c12_refuse_three() { refuse(2, 1, 3); }

/// What runs is what was configured: the links, seen by a spy, and the settings.
fn graph() {
    for c in ["done", "branch", "err", "exit", "same name"] { expect(c) }
    let inner = [CT::Launch, CT::Junction, CT::Buffer, CT::Regulator];
    let (tx, ty) = (inner[choice("type", 4)], inner[choice("type", 4)]);
    let nx = "m"; let ny = if choice("same_name", 2) == 1 && tx != ty { "m" } else { "n" };
    if ny == "m" { cover("same name") }
    let br: Vec<Breakable> = (0..4).map(|_| lazy_breakable()).collect();
    let mut c = Config::new();
    let (k1, k2) = if choice("order", 2) == 0 { ("a", "b") } else { ("b", "a") };
    c.connection.insert(k1.to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, "m", OutputPort::Out), mid(tx, nx, 0, br[0], OutputPort::Out), mid(ty, ny, 0, br[1], OutputPort::Out), en(CT::Drain, "m", 0, br[2])]));
    let mut want = vec![(CT::Faucet, "m", OutputPort::Out, tx, nx), (tx, nx, OutputPort::Out, ty, ny), (ty, ny, OutputPort::Out, CT::Drain, "m")];
    let (bt, bn) = [(tx, nx), (ty, ny)][choice("from", 2)];
    let port = match bt { CT::Launch => [None, Some(OutputPort::Err), Some(OutputPort::Exit)][choice("extra", 3)], CT::Junction => [None, Some(OutputPort::Out)][choice("extra", 2)], _ => None };
    if let Some(p) = port {
        c.connection.insert(k2.to_string(), DeserializedConnection::Connections(vec![st(bt, bn, p), en(CT::Drain, "n", 0, br[3])]));
        want.push((bt, bn, p, CT::Drain, "n"));
        cover(match p { OutputPort::Out => "branch", OutputPort::Err => "err", _ => "exit" });
    }
    with_faucet(&mut c, "m", "in"); with_drain(&mut c, "m", "out"); with_drain(&mut c, "n", "out2");
    with_faucet(&mut c, "n", "wrong"); with_drain(&mut c, "x", "wrong");
    for n in ["m", "n"] { c.launch.insert(n.to_string(), LaunchConfig { command: Some(format!("p{}", n)), path: Some(format!("/{}", n)), env: [(format!("K{}", n), format!("v{}", n))].into_iter().collect(), arg: vec![n.to_string(), "z".to_string()] }); sx::program(&format!("p{}", n), vec![sx::Step::Cat, sx::Step::Err(b"e".to_vec()), sx::Step::Exit(3)]); }
    sx::add_file("in", b"1\n2".to_vec());
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a possible configuration was refused"); end() } };
    let names = ids(&mut w);
    let what = |i: usize| -> (CT, &str) { match names.iter().find(|x| x.0 == i) { Some(x) => (x.1, &x.2[..]), None => { check(false, "an unknown component id"); end() } } };
    let (stx, srx) = unbounded();
    let r = block_on(w.start(Some(stx)));
    check(r.is_ok(), "failed");
    let mut seen: Vec<(CT, &str, OutputPort, CT, &str)> = vec![];
    for m in drain_spy(&srx) { let (s, d) = (what(m.src), what(m.dst)); let k = (s.0, s.1, m.src_port, d.0, d.1); if !seen.contains(&k) { seen.push(k) } }
    for k in &seen { check(want.contains(k), "a link that was not configured"); }
    for k in &want { check(seen.contains(k), "a configured link is missing"); }
    check(same(&sx::content("out"), b"1\n2"), "wrong source or destination");
    if let Some(p) = port { check(same(&sx::content("out2"), match p { OutputPort::Out => b"1\n2", OutputPort::Err => b"e", _ => b"3" }), "wrong content from a second port"); }
    check(sx::find_file("wrong").map_or(true, |i| sx::with(|w| w.files[i].opened + w.files[i].created == 0)), "a file of a component that is not used");
    sx::with(|w| {
        let expected = [(tx, nx), (ty, ny)].iter().filter(|x| x.0 == CT::Launch).map(|x| x.1).collect::<Vec<_>>();
        check(w.procs.len() == expected.len(), "a program was not started once");
        for n in expected {
            let p: Vec<_> = w.procs.iter().filter(|p| p.info.program == format!("p{}", n)).collect();
            check(p.len() == 1, "a program was not started once");
            let i = &p[0].info;
            check(i.args == vec![n.to_string(), "z".to_string()] && i.dir == Some(format!("/{}", n)) && i.envs.contains(&(format!("K{}", n), format!("v{}", n))), "a program got settings that are not its own");
        }
    });
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c12_graph() { graph(); }

/// The pipe variation of each link is the configured one.
#[no_mangle]
pub extern "C" fn h_c12_variation() {
    for c in ["terminate", "finish", "consume"] { expect(c) }
    let t = TYPES[[0, 1, 2, 3, 5][choice("type", 5)]];
    let b = lazy_breakable();
    let others = lazy_breakable();
    let mut c = Config::new();
    let l = if t == CT::Faucet { vec![st(t, "f", OutputPort::Out), en(CT::Drain, "d", 0, b)] } else { vec![st(CT::Faucet, "f", OutputPort::Out), mid(t, "x", 0, Breakable::Terminate, OutputPort::Out), en(CT::Drain, "d", 0, b)] };
    c.connection.insert("m".to_string(), DeserializedConnection::Connections(l));
    c.connection.insert(["a", "z"][choice("order", 2)].to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, "g", OutputPort::Out), mid(CT::Buffer, "y", 0, others, OutputPort::Out), en(CT::Drain, "e", 0, others)]));
    with_faucet(&mut c, "f", "in"); with_faucet(&mut c, "g", "in2"); with_drain(&mut c, "d", "out"); with_drain(&mut c, "e", "out2"); with_launch(&mut c, "x", "p");
    sx::program("p", vec![sx::Step::Cat]);
    let n = 40;
    sx::add_file("in", b"a\n".iter().copied().cycle().take(2 * n).collect());
    sx::add_file("in2", b"b\n".to_vec());
    let o = sx::file("out");
    sx::with(|w| { w.files[o].create_error = true; w.pipe_capacity = 4; });
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a possible configuration was refused"); end() } };
    let es = match block_on(w.start(None)) { Ok(_) => { check(false, "the fault is not reported"); end() } Err(e) => e };
    check(same(&sx::content("out2"), b"b\n"), "an unaffected branch was not run to its end");
    let (me, name) = if t == CT::Faucet { (CT::Faucet, "f") } else { (t, "x") };
    let closed = es.iter().filter(|e| matches!((e.caused_by_error_source(), e.caused_by_error()), (Some((t, n)), Some(MotionError::OutputClosed(..))) if *t == me && n == name)).count();
    let i = sx::file("in");
    let all = sx::with(|w| w.files[i].eofs > 0);
    match b {
        Breakable::Terminate => { check(closed == 1, "a Terminate link did not fail"); cover("terminate") }
        Breakable::Finish => { check(closed == 0, "a Finish link failed"); if t != CT::Buffer { check(!all, "a Finish link did not finish") } cover("finish") }
        Breakable::Consume => { check(closed == 0 && es.len() == 1, "a Consume link failed"); check(all, "a Consume link did not read on"); cover("consume") }
    }
}

/// The priority of each input is the configured one.
#[no_mangle]
pub extern "C" fn h_c12_priority() {
    for c in ["less", "equal", "more"] { expect(c) }
    let (pa, pb) = (any_isize("priority"), any_isize("priority"));
    let mut c = Config::new();
    let (k1, k2) = if choice("order", 2) == 0 { ("a", "b") } else { ("b", "a") };
    c.connection.insert(k1.to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, "x", OutputPort::Out), mid(CT::Junction, "j", pa, Breakable::Terminate, OutputPort::Out), en(CT::Drain, "d", 0, Breakable::Terminate)]));
    c.connection.insert(k2.to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, "y", OutputPort::Out), en(CT::Junction, "j", pb, Breakable::Terminate)]));
    with_faucet(&mut c, "x", "inx"); with_faucet(&mut c, "y", "iny"); with_drain(&mut c, "d", "out");
    sx::add_file("inx", b"x\nx\nx\nx\n".to_vec());
    sx::add_file("iny", b"y\ny\ny\ny\n".to_vec());
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a possible configuration was refused"); end() } };
    check(block_on(w.start(None)).is_ok(), "failed");
    let o: Vec<u8> = sx::content("out").into_iter().filter(|b| *b != b'\n').collect();
    check(o.len() == 8, "messages lost");
    if pa < pb { check(same(&o, b"xxxxyyyy"), "the configured priority is not used"); cover("less") }
    else if pa > pb { check(same(&o, b"yyyyxxxx"), "the configured priority is not used"); cover("more") }
    else { check(same(&o[..2], b"xy") || same(&o[..2], b"yx"), "the configured priority is not used"); cover("equal") }
}

/// Components whose names are easily taken for one another.
#[no_mangle]
pub extern "C" fn h_c12_alike() {
    expect("done");
    let (n, m) = alike();
    let t = TYPES[[1, 2, 3, 5][choice("type", 4)]];
    let mut c = Config::new();
    for (k, x) in [("k", n), ("l", m)] {
        c.connection.insert(k.to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, x, OutputPort::Out), mid(t, x, 0, Breakable::Terminate, OutputPort::Out), en(CT::Drain, x, 0, Breakable::Terminate)]));
        with_faucet(&mut c, x, &format!("in-{}", x)); with_drain(&mut c, x, &format!("out-{}", x)); with_launch(&mut c, x, &format!("p-{}", x));
        let l = c.launch.get_mut(x).unwrap();
        l.path = Some(format!("/{}", x)); l.arg = vec![x.to_string()]; l.env.insert("K".to_string(), x.to_string());
        sx::program(&format!("p-{}", x), vec![sx::Step::Cat]);
        sx::add_file(&format!("in-{}", x), format!("1{}\n2{}\n", k, k).into_bytes());
    }
    let mut w = match get_waiter(c) { Ok(w) => w, Err(_) => { check(false, "a possible configuration was refused"); end() } };
    let names = ids(&mut w);
    check(names.len() == 6, "not one component for each one mentioned");
    for (y, x) in [(CT::Faucet, n), (t, n), (CT::Drain, n), (CT::Faucet, m), (t, m), (CT::Drain, m)] { check(names.iter().filter(|i| i.1 == y && i.2 == x).count() == 1, "a component is missing or was made twice"); }
    check(block_on(w.start(None)).is_ok(), "failed");
    for (k, x) in [("k", n), ("l", m)] { check(same(&sx::content(&format!("out-{}", x)), format!("1{}\n2{}\n", k, k).as_bytes()), "wrong source or destination"); }
    if t == CT::Launch { sx::with(|w| {
        check(w.procs.len() == 2, "a program was not started once");
        for x in [n, m] {
            let p: Vec<_> = w.procs.iter().filter(|p| p.info.program == format!("p-{}", x)).collect();
            check(p.len() == 1 && p[0].info.args == vec![x.to_string()] && p[0].info.dir == Some(format!("/{}", x)) && p[0].info.envs.contains(&("K".to_string(), x.to_string())), "a program got settings that are not its own");
        }
    }) }
    cover("done");
}

/// Many components, each with its own settings.
fn wide(n: usize) {
    for c in ["runs", "no command", "second input", "port twice", "priority"] { expect(c) }
    rounds_limit(3000);
    let mut c = Config::new();
    // whether something is wrong with one of them
    let wrong = choice("wrong", 5);
    let at = if wrong == 0 { 0 } else { choice("at", n) };
    for i in 0..n {
        let x = format!("n{}", i);
        c.connection.insert(x.clone(), DeserializedConnection::Connections(vec![st(CT::Faucet, &x, OutputPort::Out), mid(CT::Launch, &x, if wrong == 4 && i == at { any_isize("priority") } else { 0 }, Breakable::Terminate, OutputPort::Out), en(CT::Drain, &x, 0, Breakable::Terminate)]));
        c.connection.insert(format!("e{}", i), DeserializedConnection::Connections(vec![st(CT::Launch, &x, OutputPort::Err), mid(CT::Buffer, &x, 0, Breakable::Terminate, OutputPort::Out), en(CT::Drain, &format!("e{}", i), 0, Breakable::Terminate)]));
        with_faucet(&mut c, &x, &format!("in-{}", x)); with_drain(&mut c, &x, &format!("out-{}", x)); with_drain(&mut c, &format!("e{}", i), &format!("err-{}", x));
        c.launch.insert(x.clone(), LaunchConfig { command: if wrong == 1 && i == at { None } else { Some(format!("p-{}", x)) }, path: Some(format!("/{}", x)), env: [("K".to_string(), x.clone())].into_iter().collect(), arg: vec![x.clone()] });
        sx::program(&format!("p-{}", x), vec![sx::Step::Err(x.as_bytes().to_vec()), sx::Step::Cat]);
        sx::add_file(&format!("in-{}", x), format!("1{}\n2{}\n", x, x).into_bytes());
    }
    let b = format!("n{}", at);
    match wrong {
        2 => { c.connection.insert("z".to_string(), DeserializedConnection::Connections(vec![st(CT::Junction, "j", OutputPort::Out), en(CT::Drain, &b, 0, Breakable::Terminate)])); }
        3 => { c.connection.insert("z".to_string(), DeserializedConnection::Connections(vec![st(CT::Launch, &b, OutputPort::Err), en(CT::Drain, "zz", 0, Breakable::Terminate)])); with_drain(&mut c, "zz", "zz"); }
        4 => if let DeserializedConnection::Connections(v) = &c.connection[&b] { assume(part(&v[1]).input.unwrap().priority != 0) },
        _ => {}
    }
    let r = get_waiter(c);
    if wrong > 0 { match r { Ok(_) => check(false, "an impossible configuration was accepted"), Err(m) => check(!m.is_empty(), "refused without a message") } cover(["", "no command", "second input", "port twice", "priority"][wrong]); return; }
    let mut w = match r { Ok(w) => w, Err(_) => { check(false, "a possible configuration was refused"); end() } };
    check(ids(&mut w).len() == 5 * n, "not one component for each one mentioned");
    check(block_on(w.start(None)).is_ok(), "failed");
    for i in 0..n {
        let x = format!("n{}", i);
        check(same(&sx::content(&format!("out-{}", x)), format!("1{}\n2{}\n", x, x).as_bytes()), "wrong source or destination");
        check(same(&sx::content(&format!("err-{}", x)), x.as_bytes()), "wrong content from a second port");
        let p = proc(&format!("p-{}", x), |p| (p.info.args.clone(), p.info.dir.clone(), p.info.envs.contains(&("K".to_string(), x.clone()))));
        check(p == (vec![x.clone()], Some(format!("/{}", x)), true), "a program got settings that are not its own");
    }
    check(sx::with(|w| w.procs.len()) == n, "a program was not started once");
    cover("runs");
}
#[no_mangle]
pub extern "C" fn h_c12_wide() { wide(14) }
#[no_mangle]
pub extern "C" fn t_c12_wide() { wide(40) }
