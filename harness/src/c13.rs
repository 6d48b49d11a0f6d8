//! C13: connection strings mean what they say.
use crate::common::*;
use crate::conf::*;
use pipeawesome2::config::load_connection_from_string;

/// One component as the syntax describes it: type, name, input (priority, pipe), output port.
struct Item { t: CT, name: Vec<u8>, input: Option<(Option<i128>, Breakable)>, out: Option<OutputPort> }

fn is_name(b: u8) -> bool { b.is_ascii_lowercase() || b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_' }

/// The documented syntax, read from left to right.
struct Reader<'a> { s: &'a [u8], i: usize }
impl<'a> Reader<'a> {
    fn peek(&self, k: usize) -> Option<u8> { self.s.get(self.i + k).copied() }
    fn eat(&mut self, b: u8) -> bool { if self.peek(0) == Some(b) { self.i += 1; true } else { false } }
    fn word(&mut self, w: &[u8]) -> bool {
        for (k, b) in w.iter().enumerate() { if self.peek(k) != Some(*b) { return false; } }
        self.i += w.len();
        true
    }
    /// "[" number "]": Some(None) when the number is missing or does not fit
    fn in_port(&mut self) -> Option<Option<i128>> {
        if !self.eat(b'[') { return None; }
        let neg = self.eat(b'-');
        let (mut v, mut n) = (0i128, 0);
        while let Some(b) = self.peek(0) { if !b.is_ascii_digit() { break; } v = v.wrapping_mul(10).wrapping_add((b - b'0') as i128); n += 1; self.i += 1; if n > 25 { break; } }
        if !self.eat(b']') { return None; }
        if neg { v = v.wrapping_neg() }
        Some(if n == 0 { None } else { Some(v) })
    }
    fn identifier(&mut self) -> Option<(CT, Vec<u8>)> {
        let long: [&[u8]; 6] = [b"faucet:", b"launch:", b"junction:", b"buffer:", b"drain:", b"regulator:"];
        let short: [&[u8]; 6] = [b"f:", b"l:", b"j:", b"b:", b"d:", b"r:"];
        let mut t = None;
        for k in 0..6 { if t.is_none() && (self.word(short[k]) || self.word(long[k])) { t = Some(TYPES[k]) } }
        let t = t?;
        let mut n = vec![];
        while let Some(b) = self.peek(0) { if !is_name(b) { break; } n.push(b); self.i += 1; }
        if n.is_empty() { None } else { Some((t, n)) }
    }
    /// Some(None): no port
    fn out_port(&mut self) -> Option<Option<OutputPort>> {
        if !self.eat(b'[') { return Some(None); }
        let p = match self.peek(0)? { b'O' => OutputPort::Out, b'E' => OutputPort::Err, b'X' => OutputPort::Exit, _ => return None };
        self.i += 1;
        if self.eat(b']') { Some(Some(p)) } else { None }
    }
    fn pipe(&mut self) -> Option<Breakable> {
        while self.eat(b' ') {}
        if !self.eat(b'|') { return None; }
        let mut br = Breakable::Terminate;
        if self.peek(1) == Some(b'|') {
            match self.peek(0) { Some(b'T') => self.i += 2, Some(b'C') => { br = Breakable::Consume; self.i += 2 } Some(b'F') => { br = Breakable::Finish; self.i += 2 } _ => {} }
        }
        while self.eat(b' ') {}
        Some(br)
    }
    fn all(&mut self) -> Option<Vec<Item>> {
        let mut v: Vec<Item> = vec![];
        if self.s.is_empty() { return Some(v); }
        let mut pipe = None;
        loop {
            let mut input = None;
            if let Some(br) = pipe { input = Some(if self.peek(0) == Some(b'[') { (self.in_port()?, br) } else { (Some(0), br) }); }
            let (t, name) = self.identifier()?;
            let out = self.out_port()?;
            if self.i == self.s.len() {
                // a last component has an input and no output
                if v.is_empty() || out.is_some() { return None; }
                v.push(Item { t, name, input, out: None });
                return Some(v);
            }
            v.push(Item { t, name, input, out: Some(out.unwrap_or(OutputPort::Out)) });
            pipe = Some(self.pipe()?);
        }
    }
}

fn same_breakable(a: &Breakable, b: &Breakable) -> bool { std::mem::discriminant(a) == std::mem::discriminant(b) }
fn check_text(s: &[u8]) {
    let r = load_connection_from_string(unsafe { std::str::from_utf8_unchecked(s) });
    let want = Reader { s, i: 0 }.all();
    let missing = want.as_ref().map_or(false, |v| v.iter().any(|x| matches!(x.input, Some((None, _)))));
    let unfit = want.as_ref().map_or(false, |v| v.iter().any(|x| matches!(x.input, Some((Some(n), _)) if n < isize::MIN as i128 || n > isize::MAX as i128)));
    match (r, want) {
        (Err(_), None) => cover("refused"),
        (Err(_), Some(_)) if unfit => cover("number too large"),
        // "[]" is not documented: refusing it and reading it as 0 are both fine
        (Err(_), Some(_)) if missing => cover("number missing"),
        (Err(_), Some(_)) => check(false, "a text that follows the syntax was refused"),
        (Ok(_), None) => check(false, "a text that does not follow the syntax was accepted"),
        (Ok(v), Some(w)) => {
            check(!unfit, "a priority that cannot be represented was accepted");
            check(v.len() == w.len(), "the number of components differs from the text");
            for (k, (c, x)) in v.iter().zip(&w).enumerate() {
                let p = part(c);
                check(*p.t == x.t, "a component has another type than the text says");
                check(same(p.name.as_bytes(), &x.name), "a component has another name than the text says");
                check(p.set.is_none(), "a connection set out of nowhere");
                check((k == 0) == p.input.is_none() && (k == v.len() - 1) == p.out.is_none(), "a component is at the wrong place of its list");
                if let (Some(i), Some((n, br))) = (p.input, &x.input) {
                    check(i.priority as i128 == n.unwrap_or(0), "a priority differs from the text");
                    check(same_breakable(&i.breakable, br), "a pipe variation differs from the text");
                }
                if let (Some(o), Some(q)) = (p.out, &x.out) { check(o == q, "an output port differs from the text"); }
            }
            cover(match v.len() { 0 => "empty", 2 => "two", 3 => "three", _ => "more" });
        }
    }
}
fn ascii(n: usize) -> Vec<u8> { (0..n).map(|_| { let b = any_u8("c"); assume(b < 128); b }).collect() }
fn window(before: &str, n: usize, after: &str) { let mut v = before.as_bytes().to_vec(); v.extend(ascii(n)); v.extend(after.as_bytes()); check_text(&v); }

/// Every text of up to six (seven) ASCII characters.
fn any_text(max: usize) { expect("refused"); expect("empty"); let n = choice("len", max + 1); check_text(&ascii(n)); }
#[no_mangle]
pub extern "C" fn h_c13_any() { any_text(5); }
#[no_mangle]
pub extern "C" fn t_c13_any() { any_text(8); }

/// Arbitrary characters inside otherwise well-formed texts.
fn windows(n: usize) {
    expect("refused"); expect("two"); expect("three");
    let n = choice("len", n + 1);
    match choice("where", 8) {
        0 => window("", n, ":a | d:b"),
        1 => window("f:a", n, "d:b"),
        2 => window("f:a |", n, "d:b"),
        3 => window("f:a[E", n, "| d:b"),
        4 => window("f:a | [", n, "d:b"),
        5 => window("f:a | ", n, ":b"),
        6 => window("f:a | l:b", n, "d:c"),
        _ => window("f:a | d:b", n, ""),
    }
}
#[no_mangle]
pub extern "C" fn h_c13_windows() { windows(3); }
#[no_mangle]
pub extern "C" fn t_c13_windows() { windows(5); }

/// Numbers at the edge of what can be represented, and short ones.
#[no_mangle]
pub extern "C" fn h_c13_number() {
    for c in ["two", "number too large"] { expect(c) }
    let mut v = b"f:a | [".to_vec();
    if choice("sign", 2) == 1 { v.push(b'-') }
    if choice("large", 2) == 1 { v.extend(b"922337203685477580"); }
    for _ in 0..choice("digits", 3) { v.push(range_u8("digit", b'0', b'9')); }
    v.extend(b"]d:b");
    check_text(&v);
}

/// Every spelling of the components of a list, `all` of them at once or one at a time.
fn spelled(min: usize, max: usize, all: bool) {
    let n = min + choice("components", max - min + 1);
    let focus = if all { 0 } else { choice("focus", n) };
    let mut s = String::new();
    let words = ["faucet", "launch", "junction", "buffer", "drain", "regulator"];
    for k in 0..n {
        if k != focus && !all { s.push_str(if k == 0 { "l:x" } else { " | l:x" }); continue; }
        if k > 0 {
            if choice("space before", 2) == 1 { s.push(' ') }
            s.push_str(["|", "|T|", "|C|", "|F|"][choice("pipe", 4)]);
            if choice("space after", 2) == 1 { s.push(' ') }
            if choice("priority", 2) == 1 { s.push('['); s.push(range_u8("digit", b'0', b'9') as char); s.push(']') }
        }
        let w = words[choice("type", 6)];
        s.push_str(if choice("long", 2) == 1 { w } else { &w[..1] });
        s.push(':');
        for _ in 0..(if all { 1 } else { 2 }) { let b = any_u8("name"); assume(is_name(b)); s.push(b as char); }
        if k < n - 1 { s.push_str(["", "[O]", "[E]", "[X]"][choice("port", 4)]); }
    }
    check_text(s.as_bytes());
}
#[no_mangle]
pub extern "C" fn h_c13_spelled() { expect("two"); expect("three"); spelled(2, 3, false); }
#[no_mangle]
pub extern "C" fn t_c13_spelled() { expect("two"); spelled(2, 2, true); }

/// A character of more than one byte anywhere is refused like any other foreign one.
#[no_mangle]
pub extern "C" fn h_c13_wide() {
    expect("refused");
    let base = "f:ab[E] |T| [2]d:b";
    let at = choice("at", base.len() + 1);
    let mut v = base.as_bytes()[..at].to_vec();
    match choice("width", 3) {
        0 => v.extend([range_u8("w0", 0xc2, 0xdf), range_u8("w1", 0x80, 0xbf)]),
        1 => v.extend([range_u8("w0", 0xe1, 0xec), range_u8("w1", 0x80, 0xbf), range_u8("w2", 0x80, 0xbf)]),
        _ => v.extend([range_u8("w0", 0xf1, 0xf3), range_u8("w1", 0x80, 0xbf), range_u8("w2", 0x80, 0xbf), range_u8("w3", 0x80, 0xbf)]),
    }
    v.extend(&base.as_bytes()[at..]);
    check_text(&v);
}

/// On the command line: a connection that cannot be read is reported, by every command that needs it.
#[no_mangle]
pub extern "C" fn h_c13_cli() {
    for c in ["process", "manipulate", "lint", "graph", "join"] { expect(c) }
    let bad = ["f:a|", "|d:b", "f:a|x:b", "f:a|d:b|", "f:a[Z]|d:b", "f:a|Q|d:b", "f:a|[99999999999999999999]d:b", "f:a", "f:a d:b", "f:a|d:\\u00e9"][choice("text", 10)];
    let place = choice("place", 3);
    let others = ["", "\"a\":\"f:x|d:y\",", "\"a\":[{\"component_type\":\"faucet\",\"component_name\":\"x\",\"output_port\":\"out\"},{\"component_type\":\"drain\",\"component_name\":\"y\",\"priority\":0}],"];
    let cmd = choice("command", 5);
    let text = format!("{{\"faucet\":{{\"x\":{{\"source\":\"in\"}},\"a\":{{\"source\":\"in\"}}}},\"drain\":{{\"y\":{{}},\"b\":{{}}}},\"connection\":{{{}\"m\":\"{}\"}}}}", others[place], if cmd == 4 { "f:a|d:b" } else { bad });
    let args: &[&str] = match cmd {
        0 => &["process", "--config", "c", "--format", "json"],
        1 => &["config", "--config", "c", "--format", "json", "manipulate"],
        2 => &["config", "--config", "c", "--format", "json", "lint"],
        3 => &["graph", "--config", "c", "--format", "json"],
        _ => &["config", "--config", "c", "--format", "json", "connection", "--id", "n", "join", bad],
    };
    if cmd == 4 { assume(!bad.contains('\\')) }
    crate::pa2::pa2(args, &[("c", &text)], "", move |o: crate::pa2::Outcome| {
        note(&format!("{:?} {:?} {:?}", o.code, o.out, o.err));
        check(o.code == 1, "a connection that cannot be read does not make the command fail");
        check(o.out.is_empty(), "something was printed as if the connection had been read");
        check(o.err.contains(" * "), "nothing says that a connection cannot be read");
        cover(["process", "manipulate", "lint", "graph", "join"][cmd]);
    })
}

/// A long list, of long names, with one arbitrary character put in somewhere.
fn long(components: usize, name: usize, any: usize) {
    for c in ["more", "refused"] { expect(c) }
    let mut s: Vec<u8> = vec![];
    let mut marks = vec![];
    for k in 0..components {
        if k > 0 {
            s.extend([" | ", "|C|", "   |F|  ", " |T| "][k % 4].as_bytes());
            if k % 3 == 0 { s.extend(format!("[{}]", k as isize * 37 - 300).bytes()); }
        }
        s.extend([&b"launch:"[..], b"l:", b"junction:", b"b:", b"regulator:"][k % 5]);
        let l = if k == components / 2 { name } else { 1 + k % 40 };
        for i in 0..l { s.push(b"abcXYZ_0189"[(i + k) % 11]); }
        if k == components / 2 { marks = vec![s.len() - name, s.len() - name / 2, s.len() - 1, s.len()]; }
        if k < components - 1 && k % 2 == 0 { s.extend([&b"[O]"[..], b"[E]", b"[X]"][k % 3]); }
    }
    let at = match choice("at", 7) { 0 => 0, 1 => s.len(), 2 => s.len() - 1, m => marks[m - 3] };
    let n = choice("characters", any + 1);
    for b in ascii(n) { s.insert(at, b); }
    check_text(&s);
}
#[no_mangle]
pub extern "C" fn h_c13_long() { long([4, 40][choice("components", 2)], [30, 300][choice("name", 2)], 1); }
#[no_mangle]
pub extern "C" fn t_c13_long() { long([6, 90][choice("components", 2)], [70, 3000][choice("name", 2)], 3); }
