//! C20: drawings, through the command line program, read back with a small DOT reader.
use crate::common::*;
use crate::conf::*;
use crate::pa2::pa2;

pub struct Drawn { pub strict: bool, pub directed: bool, pub nodes: Vec<(String, Vec<(String, String)>, Vec<String>)>, pub edges: Vec<(String, String, Vec<(String, String)>)>, pub clusters: Vec<(String, Vec<(String, String)>)> }
#[derive(Clone, Debug, PartialEq)]
enum Tok { Id(String, bool), P(char), Edge(bool), End }
struct Rd { t: Vec<Tok>, i: usize, d: Drawn, ok: bool }
fn tokens(s: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut v) = (0, vec![]);
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() { i += 1; continue; }
        if x == '"' {
            let mut o = String::new();
            i += 1;
            loop {
                if i >= c.len() { return None; }
                if c[i] == '"' { i += 1; break; }
                if c[i] == '\\' && i + 1 < c.len() && (c[i + 1] == '"' || c[i + 1] == '\\') { o.push(c[i + 1]); i += 2; continue; }
                o.push(c[i]);
                i += 1;
            }
            v.push(Tok::Id(o, true));
            continue;
        }
        if x == '-' && i + 1 < c.len() && (c[i + 1] == '>' || c[i + 1] == '-') { v.push(Tok::Edge(c[i + 1] == '>')); i += 2; continue; }
        if "{}[]=;,:".contains(x) { v.push(Tok::P(x)); i += 1; continue; }
        let st = i;
        if x.is_alphabetic() || x == '_' || (x as u32) >= 128 { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] as u32 >= 128) { i += 1 } }
        else if x.is_ascii_digit() || x == '.' || x == '-' { i += 1; while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') { i += 1 } if i < c.len() && (c[i].is_alphabetic() || c[i] == '_') { return None; } }
        else { return None; }
        v.push(Tok::Id(c[st..i].iter().collect(), false));
    }
    v.push(Tok::End);
    Some(v)
}
impl Rd {
    fn at(&self) -> &Tok { &self.t[self.i] }
    fn p(&mut self, x: char) -> bool { if *self.at() == Tok::P(x) { self.i += 1; true } else { false } }
    fn need(&mut self, x: char) { if !self.p(x) { self.ok = false } }
    fn kw(&mut self, k: &str) -> bool { match self.at() { Tok::Id(s, false) if s.eq_ignore_ascii_case(k) => { self.i += 1; true } _ => false } }
    fn id(&mut self) -> String {
        match self.at().clone() {
            Tok::Id(s, q) => { if !q && ["node", "edge", "graph", "digraph", "subgraph", "strict"].iter().any(|k| s.eq_ignore_ascii_case(k)) { self.ok = false } self.i += 1; s }
            _ => { self.ok = false; String::new() }
        }
    }
    fn attrs(&mut self) -> Vec<(String, String)> {
        let mut v = vec![];
        while self.ok && self.p('[') {
            while self.ok && !self.p(']') { let k = self.id(); self.need('='); let x = self.id(); v.push((k, x)); let _ = self.p(',') || self.p(';'); }
        }
        v
    }
    fn body(&mut self, path: &mut Vec<String>) {
        self.need('{');
        let name = path.last().cloned().unwrap_or_default();
        let c = self.d.clusters.len();
        self.d.clusters.push((name, vec![]));
        while self.ok && !self.p('}') {
            if self.p(';') { continue; }
            if self.kw("subgraph") { let n = self.id(); path.push(n); self.body(path); path.pop(); continue; }
            if self.kw("node") || self.kw("edge") || self.kw("graph") { self.attrs(); continue; }
            let a = self.id();
            if self.p('=') { let v = self.id(); self.d.clusters[c].1.push((a, v)); continue; }
            let mut ends = vec![a];
            while let Tok::Edge(d) = *self.at() { if d != self.d.directed { self.ok = false } self.i += 1; let b = self.id(); ends.push(b); }
            let at = self.attrs();
            for e in &ends { if !self.d.nodes.iter().any(|n| n.0 == *e) { self.d.nodes.push((e.clone(), vec![], path.clone())); } }
            if ends.len() == 1 {
                let n = self.d.nodes.iter_mut().find(|n| n.0 == ends[0]).unwrap();
                for (k, v) in at { match n.1.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v, None => n.1.push((k, v)) } }
                if n.2.len() < path.len() { n.2 = path.clone(); }
            } else { for w in ends.windows(2) {
                match self.d.edges.iter_mut().find(|e| self.d.strict && e.0 == w[0] && e.1 == w[1]) { Some(e) => e.2 = at.clone(), None => self.d.edges.push((w[0].clone(), w[1].clone(), at.clone())) }
            } }
        }
    }
}
pub fn read_dot(s: &str) -> Option<Drawn> {
    let mut r = Rd { t: tokens(s)?, i: 0, d: Drawn { strict: false, directed: false, nodes: vec![], edges: vec![], clusters: vec![] }, ok: true };
    r.d.strict = r.kw("strict");
    r.d.directed = r.kw("digraph");
    if !r.d.directed && !r.kw("graph") { return None; }
    if *r.at() != Tok::P('{') { r.id(); }
    r.body(&mut vec![]);
    if r.ok && *r.at() == Tok::End { Some(r.d) } else { None }
}
fn attr<'a>(v: &'a [(String, String)], k: &str) -> Option<&'a str> { v.iter().find(|x| x.0 == k).map(|x| x.1.as_str()) }

fn configured(c: &mut Config, t: CT, name: &str) {
    match t { CT::Faucet => with_faucet(c, name, "-"), CT::Drain => with_drain(c, name, "-"), CT::Launch => with_launch(c, name, "p"), CT::Regulator => with_regulator(c, name, Some((1, 2)), &[]), _ => {} }
}
/// Draws `c` and compares the drawing with its connections.
fn draw(c: Config, mode: &'static [&'static str], order: usize, done: &'static str) -> ! { let w = c.clone(); draw_as(w, c, mode, order, done) }
/// As `draw`, with the lists of `c` written as in `w`.
fn draw_as(w: Config, c: Config, mode: &'static [&'static str], order: usize, done: &'static str) -> ! {
    let text = match serde_json::to_string(&w) { Ok(t) => t, Err(_) => { check(false, "a configuration could not be written"); end() } };
    let mut args = vec!["graph", "--config", "-"];
    args.extend_from_slice(mode);
    sxstd::order::set_mode(order);
    pa2(&args, &[], &text, move |o| {
        if o.code != 0 { note(&o.err) } check(o.code == 0 && o.err.is_empty(), "a configuration with nothing wrong could not be drawn");
        let d = match read_dot(&o.out) { Some(d) => d, None => { note(&o.out); check(false, "the drawing is not valid DOT"); return; } };
        check(d.directed, "the edges have no direction");
        let legend = !mode.contains(&"--diagram-only") && !mode.contains(&"-d");
        let diagram = !mode.contains(&"--legend-only") && !mode.contains(&"-l");
        // components: what is not in the legend
        let lg = |n: &(String, Vec<(String, String)>, Vec<String>)| n.2.iter().any(|p| p.contains("legend"));
        let drawn: Vec<_> = d.nodes.iter().filter(|n| !lg(n)).collect();
        let mut wanted: Vec<(CT, String)> = vec![];
        let mut links = vec![];
        if diagram { for v in c.connection.values() { if let DeserializedConnection::Connections(v) = v {
            for x in v { let p = part(x); if !wanted.iter().any(|w| w.0 == *p.t && w.1 == p.name) { wanted.push((*p.t, p.name.to_string())); } }
            for w in v.windows(2) { let (a, b) = (part(&w[0]), part(&w[1])); if let (Some(o), Some(_)) = (a.out, b.input) { links.push(((*a.t, a.name.to_string()), *o, (*b.t, b.name.to_string()))); } }
        } } }
        check(drawn.len() == wanted.len(), "a component is missing from the drawing, or drawn without being used");
        let style = |t: CT| match t { CT::Faucet => ("trapezium", "darkseagreen1"), CT::Drain => ("invtrapezium", "lightpink"), CT::Junction => ("oval", "papayawhip"), CT::Buffer => ("invhouse", "lightgray"), CT::Launch => ("box", "lightblue"), CT::Regulator => ("house", "lightgray") };
        let find = |w: &(CT, String)| drawn.iter().find(|n| attr(&n.1, "label") == Some(&w.1) && attr(&n.1, "shape") == Some(style(w.0).0)).map(|n| n.0.clone());
        for w in &wanted {
            let n = drawn.iter().find(|n| attr(&n.1, "label") == Some(&w.1) && attr(&n.1, "shape") == Some(style(w.0).0));
            match n {
                None => check(false, "a component is not drawn with its name and the shape of its type"),
                Some(n) => { check(attr(&n.1, "fillcolor") == Some(style(w.0).1) && attr(&n.1, "style").map_or(false, |s| s.contains("filled")), "a component is not coloured by its type"); }
            }
        }
        let mut left: Vec<(String, String, String)> = d.edges.iter().map(|e| (e.0.clone(), e.1.clone(), attr(&e.2, "label").unwrap_or("").to_string())).collect();
        for (a, o, b) in &links {
            let l = match o { OutputPort::Out => "", OutputPort::Err => "Err", OutputPort::Exit => "Exit" };
            let (x, y) = match (find(a), find(b)) { (Some(x), Some(y)) => (x, y), _ => { check(false, "a link's end is not drawn"); return; } };
            match left.iter().position(|e| e.0 == x && e.1 == y && e.2 == l) { Some(i) => { left.remove(i); } None => check(false, "a link is not drawn, or with another port") }
        }
        check(left.is_empty(), "something is drawn as a link that is none");
        let shown: Vec<_> = d.nodes.iter().filter(|n| lg(n)).collect();
        check(shown.len() == if legend { 6 } else { 0 }, "the legend is wrong");
        if legend {
            for (t, s) in [(CT::Faucet, "faucet"), (CT::Drain, "drain"), (CT::Junction, "junction"), (CT::Buffer, "buffer"), (CT::Launch, "launch"), (CT::Regulator, "regulator")] {
                let cl = d.clusters.iter().find(|c| attr(&c.1, "label") == Some(s)).map(|c| c.0.clone());
                check(shown.iter().any(|n| n.2.last() == cl.as_ref() && attr(&n.1, "shape") == Some(style(t).0) && attr(&n.1, "fillcolor") == Some(style(t).1)), "the legend shows another shape or colour than the drawing uses");
            }
        }
        cover(done);
    })
}
fn ends(t: &CT) -> (bool, bool) { (*t != CT::Faucet, *t != CT::Drain) }
/// Lists of up to `len` components over `k` names.
fn lists(n: usize, len: usize, names: &'static [&'static str], order: usize, sets: bool) {
    for c in ["drawn"] { expect(c) }
    let mut c = Config::new();
    for i in 0..n {
        let l = if len == 2 { 2 } else { 2 + choice("len", len - 1) };
        let mut v = vec![];
        for j in 0..l {
            let t = any_type();
            let (a, b) = ends(&t);
            assume((j == 0 || a) && (j == l - 1 || b));
            let name = names[choice("name", names.len())];
            configured(&mut c, t, name);
            let port = if j == l - 1 { OutputPort::Out } else if t == CT::Launch { any_port() } else { OutputPort::Out };
            let mut x = if j == 0 { st(t, name, port) } else if j == l - 1 { en(t, name, 0, Breakable::Finish) } else { mid(t, name, 0, Breakable::Finish, port) };
            if sets { if let Connection::StartConnection { connection_set, .. } | Connection::MiddleConnection { connection_set, .. } | Connection::EndConnection { connection_set, .. } = &mut x { *connection_set = match choice("set", 3) { 0 => None, 1 => Some("s".to_string()), _ => Some("t".to_string()) }; } }
            v.push(x);
        }
        c.connection.insert(["l", "m", "n"][i].to_string(), DeserializedConnection::Connections(v));
    }
    draw(c, &["--diagram-only"], order, "drawn")
}
#[no_mangle]
pub extern "C" fn h_c20_one() { lists(1, 3, &["a", "b"], 0, false) }
#[no_mangle]
pub extern "C" fn h_c20_two() { lists(2, 2, &["a"], 0, false) }
/// Several lists, ports and names; the same components again.
#[no_mangle]
pub extern "C" fn h_c20_ports() {
    expect("drawn");
    let mut c = Config::new();
    configured(&mut c, CT::Launch, "a"); configured(&mut c, CT::Launch, "b");
    let n = 1 + choice("lists", 3);
    for i in 0..n {
        let port = any_port();
        let to = [CT::Junction, CT::Launch][choice("to", 2)];
        let name = ["a", "b"][choice("name", 2)];
        c.connection.insert(["l", "m", "n"][i].to_string(), DeserializedConnection::Connections(vec![st(CT::Launch, "a", port), en(to, name, 0, Breakable::Terminate)]));
    }
    draw(c, &["--diagram-only"], 2, "drawn")
}
const NAMES: [&str; 14] = ["a", "node", "1", "1a", "x-y", "x y", "", "q\"", "b\\", "\u{e9}", "legen", "x;y", "a:b", "<b>"];
/// Names that need quoting, of components and of connection lists.
#[no_mangle]
pub extern "C" fn h_c20_names() {
    expect("component"); expect("list");
    let mut c = Config::new();
    let n = NAMES[choice("name", NAMES.len())];
    let list = choice("list", 2) == 1;
    let (x, y) = if list { ("a", n) } else { (n, "l") };
    configured(&mut c, CT::Faucet, x); configured(&mut c, CT::Drain, x);
    c.connection.insert(y.to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, x, OutputPort::Out), mid(CT::Junction, x, 0, Breakable::Finish, OutputPort::Out), en(CT::Drain, x, 0, Breakable::Finish)]));
    draw(c, &["--diagram-only"], 0, if list { "list" } else { "component" })
}
#[no_mangle]
pub extern "C" fn h_c20_modes() {
    expect("full"); expect("legend"); expect("diagram"); expect("border");
    let mut c = Config::new();
    for t in TYPES { configured(&mut c, t, "a"); }
    c.connection.insert("l".to_string(), DeserializedConnection::Connections(line("f:a l:a j:a b:a r:a d:a", Breakable::Terminate)));
    match choice("mode", 6) { 0 => draw(c, &[], 0, "full"), 1 => draw(c, &["--legend-only"], 0, "legend"), 2 => draw(c, &["--diagram-only"], 0, "diagram"), 3 => draw(c, &["--legend-border"], 0, "border"), 4 => draw(c, &["-d"], 0, "diagram"), _ => draw(c, &["-l"], 0, "legend") }
}
/// Lists written as text.
#[no_mangle]
pub extern "C" fn h_c20_text() {
    expect("text");
    let (mut c, mut w) = (Config::new(), Config::new());
    for c in [&mut c, &mut w] { for t in TYPES { for n in ["a", "b"] { configured(c, t, n); } } }
    let n = 1 + choice("lists", 2);
    for i in 0..n {
        let (text, list) = [
            ("f:a|l:a", line("f:a l:a", Breakable::Terminate)),
            ("faucet:a | launch:a[O] | drain:a", line("f:a l:a d:a", Breakable::Terminate)),
            ("launch:a[E] | launch:b |F| junction:a", line("l:a/E l:b j:a", Breakable::Terminate)),
            ("l:b[X]|[3]j:a", line("l:b/X j:a", Breakable::Terminate)),
            ("buffer:a|regulator:a", line("b:a r:a", Breakable::Terminate)),
        ][choice("text", 5)].clone();
        w.connection.insert(["l", "m"][i].to_string(), DeserializedConnection::JoinString(text.to_string()));
        c.connection.insert(["l", "m"][i].to_string(), DeserializedConnection::Connections(list));
    }
    draw_as(w, c, &["--diagram-only"], 0, "text")
}
#[no_mangle]
pub extern "C" fn h_c20_sets() { lists(1, 2, &["a"], 0, true) }
#[no_mangle]
pub extern "C" fn t_c20_order() { lists(2, 2, &["a", "b"], 2, false) }
#[no_mangle]
pub extern "C" fn t_c20_long() { lists(1, 4, &["a", "b"], 0, false) }
#[no_mangle]
pub extern "C" fn t_c20_sets() { lists(2, 2, &["a"], 0, true) }
/// Components whose names are easily taken for one another.
#[no_mangle]
pub extern "C" fn h_c20_alike() {
    expect("alike");
    let (n, m) = alike();
    let t = TYPES[[1, 2, 3, 5][choice("type", 4)]];
    let mut c = Config::new();
    for x in [n, m] { for t in [CT::Faucet, t, CT::Drain] { configured(&mut c, t, x) } }
    c.connection.insert(n.to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, n, OutputPort::Out), mid(t, n, 0, Breakable::Finish, OutputPort::Out), en(CT::Drain, n, 0, Breakable::Finish)]));
    c.connection.insert(m.to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, m, OutputPort::Out), mid(t, m, 0, Breakable::Finish, OutputPort::Out), en(CT::Drain, m, 0, Breakable::Finish)]));
    draw(c, &["--diagram-only"], 0, "alike")
}
/// Ports of components that are no launch.
#[no_mangle]
pub extern "C" fn h_c20_any_port() {
    expect("drawn");
    let mut c = Config::new();
    let inner = [CT::Launch, CT::Junction, CT::Buffer, CT::Regulator];
    let (t, u) = (inner[choice("type", 4)], inner[choice("type", 4)]);
    for (t, n) in [(CT::Faucet, "a"), (t, "b"), (u, "c"), (CT::Drain, "a")] { configured(&mut c, t, n); }
    let (p, q) = (any_port(), any_port());
    c.connection.insert("m".to_string(), DeserializedConnection::Connections(vec![st(CT::Faucet, "a", OutputPort::Out), mid(t, "b", 0, Breakable::Finish, p), mid(u, "c", 1, Breakable::Finish, q), en(CT::Drain, "a", 0, Breakable::Finish)]));
    draw(c, &["--diagram-only"], 0, "drawn")
}
/// Many lists and components, one of them odd.
fn wide(n: usize) {
    expect("wide");
    let mut c = Config::new();
    let (odd, port) = (choice("odd", n), any_port());
    for i in 0..n {
        let x = format!("n{}", i);
        for t in TYPES { configured(&mut c, t, &x); }
        let mut v = line(&format!("f:{} j:{} l:{} b:{} r:{} d:{}", x, x, x, x, x, x), Breakable::Terminate);
        if i == odd { v[2] = mid(CT::Launch, &x, 0, Breakable::Finish, port); }
        c.connection.insert(format!("m{}", i), DeserializedConnection::Connections(v));
        c.connection.insert(format!("x{}", i), DeserializedConnection::Connections(line(&format!("j:{} j:n{}", x, (i + 1) % n), Breakable::Terminate)));
    }
    draw(c, &["--diagram-only"], 0, "wide")
}
#[no_mangle]
pub extern "C" fn h_c20_wide() { wide(8) }
#[no_mangle]
pub extern "C" fn t_c20_wide() { wide(25) }
